"""Matrix expressions as noncommutative polynomials over matrix letters with transposition, complex
conjugation and inversion, and commuting scalar monomials; sums over bound indices are formal.

Two expressions are equal in every model of the declared letter attributes if their normal forms agree.
Normal forms that differ are refuted by random matrices (numeric()), so a failed equality comes with a
counter-model."""
import itertools
from fractions import Fraction

import numpy as np

from .engine import Unsupported, ContractError, Symbolic

ATTR = {}       # letter name -> set of attributes
DIMS = {}       # letter name -> (row label, column label)


def declare(name, rows, cols, *attrs):
    ATTR[name] = frozenset(attrs)
    DIMS[name] = (rows, cols)
    return name


class G:
    """Gaussian rational."""
    __slots__ = ('re', 'im')

    def __init__(self, re=0, im=0):
        self.re, self.im = Fraction(re), Fraction(im)

    @staticmethod
    def of(x):
        if isinstance(x, G):
            return x
        if isinstance(x, (bool, int, float, Fraction, np.integer, np.floating)):
            return G(Fraction(x) if not isinstance(x, (np.integer, np.floating)) else Fraction(x.item()))
        if isinstance(x, (complex, np.complexfloating)):
            return G(Fraction(float(x.real)), Fraction(float(x.imag)))
        raise Unsupported('not a number: {!r}'.format(type(x)))

    def __add__(s, o):
        return G(s.re + o.re, s.im + o.im)

    def __mul__(s, o):
        return G(s.re * o.re - s.im * o.im, s.re * o.im + s.im * o.re)

    def conj(s):
        return G(s.re, -s.im)

    def zero(s):
        return s.re == 0 and s.im == 0

    def inv(s):
        d = s.re ** 2 + s.im ** 2
        return G(s.re / d, -s.im / d)

    def __eq__(s, o):
        return isinstance(o, G) and s.re == o.re and s.im == o.im

    def __hash__(s):
        return hash((s.re, s.im))

    def __repr__(s):
        if s.im == 0:
            return str(s.re)
        return '({}+{}j)'.format(s.re, s.im)

    def __complex__(s):
        return complex(float(s.re), float(s.im))


def is_number(x):
    return isinstance(x, (bool, int, float, complex, Fraction, np.number, G))


# A letter occurrence: (name, t, c, inv, arg).  arg is None, or (sign, word) for a matrix function of
# momenta evaluated at sign * word * k.

def _norm_letter(l):
    name, t, c, inv, arg = l
    a = ATTR[_base(name)]
    sign = 1
    if 'unitary' in a and inv:
        t, c, inv = t ^ 1, c ^ 1, 0
    if 'real' in a:
        c = 0
    if 'symmetric' in a:
        t = 0
    if 'antisymmetric' in a and t:
        t, sign = 0, -1
    if 'hermitian' in a and t:
        t, c = 0, c ^ 1
        if 'real' in a:
            c = 0
    return (name, t, c, inv, arg), sign


def _cancels(x, y):
    """x*y = 1?"""
    if x[0] != y[0] or x[4] != y[4]:
        return False
    a = ATTR[_base(x[0])]
    n = _norm_letter((x[0], x[1], x[2], x[3] ^ 1, x[4]))[0]
    if n == y:
        return 'invertible' in a or 'unitary' in a
    return False


def norm_word(word):
    out, sign = [], 1
    for l in word:
        l, s = _norm_letter(l)
        sign *= s
        if out and _cancels(out[-1], l):
            out.pop()
        else:
            out.append(l)
    return tuple(out), sign


class Expr:
    """Finite formal sum  { (binders, scalars, word): coefficient }."""
    __slots__ = ('t', 'rows', 'cols')

    def __init__(self, terms, rows, cols):
        self.rows, self.cols = rows, cols
        d = {}
        for key, c in (terms.items() if isinstance(terms, dict) else terms):
            (b, s, w) = key
            w, sg = norm_word(w)
            s, sc = norm_scalars(s)
            c = c * sc * G(sg)
            for k2, c2 in canon(b, s, w, c):
                v = d.get(k2)
                d[k2] = c2 if v is None else v + c2
        self.t = {k: v for k, v in d.items() if not v.zero()}

    @staticmethod
    def letter(name, arg=None):
        r, c = DIMS[name]
        return Expr([(((), (), ((name, 0, 0, 0, arg),)), G(1))], r, c)

    @staticmethod
    def one(dim):
        return Expr([(((), (), ()), G(1))], dim, dim)

    @staticmethod
    def zero(rows, cols):
        return Expr([], rows, cols)

    @staticmethod
    def scalar(x, dim=None):
        return Expr([(((), (), ()), G.of(x))], dim, dim)

    def _items(self):
        return list(self.t.items())

    def __add__(self, o):
        if not isinstance(o, Expr):
            return NotImplemented
        if (self.rows, self.cols) != (o.rows, o.cols):
            raise ContractError('sum of matrices of different shapes: {} and {}'.format(
                (self.rows, self.cols), (o.rows, o.cols)))
        return Expr(self._items() + o._items(), self.rows, self.cols)

    def scale(self, c):
        c = G.of(c)
        return Expr([(k, v * c) for k, v in self._items()], self.rows, self.cols)

    def __neg__(self):
        return self.scale(-1)

    def __sub__(self, o):
        return self + (-o)

    def __matmul__(self, o):
        if self.cols != o.rows:
            raise ContractError('product of matrices of shapes {} and {}'.format(
                (self.rows, self.cols), (o.rows, o.cols)))
        terms = []
        for (b1, s1, w1), c1 in self._items():
            for (b2, s2, w2), c2 in o._items():
                b2, s2, w2 = rename_apart(b2, s2, w2, b1)
                terms.append(((b1 + b2, s1 + s2, w1 + w2), c1 * c2))
        return Expr(terms, self.rows, o.cols)

    def smul(self, o):
        """Product with a scalar expression (words empty)."""
        terms = []
        for (b1, s1, w1), c1 in self._items():
            for (b2, s2, w2), c2 in o._items():
                if w2:
                    raise Unsupported('matrix used as a scalar')
                b2, s2, w2 = rename_apart(b2, s2, w2, b1)
                terms.append(((b1 + b2, s1 + s2, w1), c1 * c2))
        return Expr(terms, self.rows, self.cols)

    def T(self):
        return Expr([((b, s, tuple((n, t ^ 1, c, i, a) for n, t, c, i, a in reversed(w))), v)
                     for (b, s, w), v in self._items()], self.cols, self.rows)

    def conj(self):
        return Expr([((b, tuple(conj_scalar(x) for x in s), tuple((n, t, c ^ 1, i, a) for n, t, c, i, a in w)), v.conj())
                     for (b, s, w), v in self._items()], self.rows, self.cols)

    def inv(self):
        if len(self.t) != 1:
            raise Unsupported('inverse of a sum')
        (b, s, w), v = self._items()[0]
        if b or s:
            raise Unsupported('inverse of an indexed expression')
        for l in w:
            if not ({'invertible', 'unitary'} & ATTR[_base(l[0])]):
                raise ContractError('inverse of {} which need not be invertible'.format(l[0]))
        return Expr([((b, s, tuple((n, t, c, i ^ 1, a) for n, t, c, i, a in reversed(w))), v.inv())],
                    self.cols, self.rows)

    def compose(self, sign, word):
        """Momenta k -> sign * word * k in all functions of momenta."""
        def f(arg):
            if arg is None:
                return None
            s, w = arg
            w2, sg = norm_word(w + word)
            return (s * sign * sg, w2)
        return Expr([((b, tuple(x[:-1] + (f(x[-1]),) for x in s),
                       tuple((n, t, c, i, f(a)) for n, t, c, i, a in w)), v)
                     for (b, s, w), v in self._items()], self.rows, self.cols)

    def bind(self, binders):
        return Expr([((tuple(binders) + b, s, w), v) for (b, s, w), v in self._items()], self.rows, self.cols)

    def same(self, o):
        return (self.rows, self.cols) == (o.rows, o.cols) and (self - o).is_zero()

    def is_zero(self):
        """Coefficients vanish on every minterm of the index domains."""
        groups = {}
        for (b, s, w), c in self.t.items():
            groups.setdefault((len(b), s, w), []).append((b, c))
        for (n, s, w), lst in groups.items():
            atoms = [sorted({a for b, c in lst for a, v in b[i][1]}) for i in range(n)]
            tot = {}
            for b, c in lst:
                per = []
                for i in range(n):
                    d = dict(b[i][1])
                    per.append([t for t in itertools.product((False, True), repeat=len(atoms[i]))
                                if all(d.get(a, v) == v for a, v in zip(atoms[i], t))])
                for combo in itertools.product(*per):
                    tot[combo] = tot.get(combo, G(0)) + c
            if any(not v.zero() for v in tot.values()):
                return False
        return True

    def is_one(self):
        return self.t == {((), (), ()): G(1)}

    def __repr__(self):
        return show(self)


def show(e):
    def arg(a):
        if a is None:
            return ''
        return '[{}{}k]'.format('-' if a[0] < 0 else '', ''.join(letter(x) + '·' for x in a[1]))

    def letter(l):
        n, t, c, i, a = l
        n = n if isinstance(n, str) else '{}_{}'.format(*n)
        return n + ('^-1' if i else '') + ('^dag' if t and c else '^T' if t else '*' if c else '') + arg(a)

    def scal(x):
        n = x[0] if isinstance(x[0], str) else '{}_{}'.format(x[0][0], ','.join(map(str, x[0][1:])))
        return n + ('*' if x[1] else '') + arg(x[-1])
    parts = []
    for (b, s, w), c in sorted(e.t.items(), key=repr):
        parts.append('{}{} {} {}'.format('sum_{' + ','.join(map(str, b)) + '} ' if b else '', c,
                                        ' '.join(scal(x) for x in s), ' '.join(letter(l) for l in w) or '1'))
    return ' + '.join(parts) or '0'


# ---- scalars: (name, conj, arg)

SCAL_ATTR = {}


def declare_scalar(name, *attrs):
    SCAL_ATTR[name] = frozenset(attrs)
    return name


def conj_scalar(x):
    return (x[0], x[1] ^ 1, x[2])


def _base(name):
    return name if isinstance(name, str) else name[0]


def norm_scalars(s):
    out = []
    for (n, c, a) in s:
        at = SCAL_ATTR.get(_base(n), ())
        if 'real' in at:
            c = 0
        if 'phase' in at and c:        # conj exp(i h k) = exp(i h (-k))
            c, a = 0, (-a[0], a[1])
        out.append((n, c, a))
    return tuple(sorted(set_indicators(out), key=repr)), G(1)


# ---- bound indices.  Letters and scalars of an indexed family are named (family, index).

_fresh = itertools.count()


def fresh_index():
    return '#{}'.format(next(_fresh))


def _subst_index(x, m):
    n = x[0]
    if not isinstance(n, str):
        n = (n[0],) + tuple(m.get(i, i) for i in n[1:])
    arg = x[-1]
    return (n,) + tuple(x[1:-1]) + (arg,)


def rename_apart(b, s, w, avoid):
    if not b:
        return b, s, w
    m = {i: fresh_index() for i, d in b}
    return (tuple((m[i], d) for i, d in b), tuple(_subst_index(x, m) for x in s), tuple(_subst_index(x, m) for x in w))


def canon(b, s, w, c):
    """Expand index domains into minterms and rename bound indices canonically."""
    if not b:
        yield (b, s, w), c
        return
    # order indices by first appearance in word, then scalars
    order = []
    for x in list(w) + sorted(s, key=lambda x: (_base(x[0]).startswith('in<'), repr(_base(x[0])), x[1], repr(x[2]))):
        n = x[0]
        if not isinstance(n, str):
            for j in n[1:]:
                if j not in order and any(j == i for i, d in b):
                    order.append(j)
    for i, d in b:
        if i not in order:
            order.append(i)
    m = {i: '@{}'.format(k) for k, i in enumerate(order)}
    dom = {i: d if isinstance(d, Dom) else Dom(tuple(a for a, v in d), {tuple(v for a, v in d)}) for i, d in b}
    s2 = tuple(sorted(set_indicators(_subst_index(x, m) for x in s), key=repr))
    w2 = tuple(_subst_index(x, m) for x in w)
    # families an index uses: value letters vanish outside their own key set
    choices = []
    for i in order:
        d = dom[i]
        used = {MEMBER_OF[_base(x[0])] for x in list(s) + list(w)
                if not isinstance(x[0], str) and x[0][1] == i and _base(x[0]) in MEMBER_OF}
        mt = [t for t in d.minterms() if all(u not in d.atoms or t[d.atoms.index(u)] for u in used)]
        # drop atoms on which nothing depends
        choices.append(simplify_minterms(d.atoms, mt, used))
    if any(ch is None for ch in choices):
        return
    for combo in itertools.product(*choices):
        yield (tuple((m[i], dd) for i, dd in zip(order, combo)), s2, w2), c


IND_GROUPS = {}     # indicator scalar family 'in<K>[..]' -> sizes of groups of interchangeable indices


def set_indicators(s):
    """Indicators are idempotent and symmetric in interchangeable indices."""
    out, seen = [], set()
    for x in s:
        if _base(x[0]).startswith('in<'):
            if not isinstance(x[0], str):
                idx, pos = [], 1
                for g in IND_GROUPS[x[0][0]]:
                    idx += sorted(x[0][pos:pos + g])
                    pos += g
                x = ((x[0][0],) + tuple(idx),) + tuple(x[1:])
            if x in seen:
                continue
            seen.add(x)
        out.append(x)
    return out


MEMBER_OF = {}      # indexed matrix letter family -> key-set atom outside of which it vanishes


class Dom:
    """Set of keys given as a boolean combination of base key sets."""
    __slots__ = ('atoms', 'rows')

    def __init__(self, atoms, rows):
        self.atoms, self.rows = tuple(atoms), frozenset(rows)

    @staticmethod
    def atom(a):
        return Dom((a,), {(True,)})

    def minterms(self):
        return sorted(self.rows)

    def _lift(self, atoms):
        idx = [self.atoms.index(a) if a in self.atoms else None for a in atoms]
        rows = set()
        for t in itertools.product((False, True), repeat=len(atoms)):
            if tuple(t[atoms.index(a)] for a in self.atoms) in self.rows:
                rows.add(t)
        return rows

    def _bin(self, o, f):
        atoms = tuple(sorted(set(self.atoms) | set(o.atoms)))
        a, b = self._lift(atoms), o._lift(atoms)
        return Dom(atoms, f(a, b))

    def __and__(self, o):
        return self._bin(o, lambda a, b: a & b)

    def __or__(self, o):
        return self._bin(o, lambda a, b: a | b)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def empty(self):
        return not self.rows

    def __eq__(self, o):
        return isinstance(o, Dom) and self.__sub__(o).empty() and o.__sub__(self).empty()

    def __hash__(self):
        return hash('dom')

    def __lt__(self, o):
        return repr(self) < repr(o)

    def __repr__(self):
        return '|'.join(','.join(('' if v else '~') + a for a, v in zip(self.atoms, t)) for t in self.minterms())


def simplify_minterms(atoms, mts, used):
    """One canonical key per minterm over all atoms known for this index (atoms sorted)."""
    if not mts:
        return None
    # existentially irrelevant atoms are removed when both values are present throughout
    atoms = list(atoms)
    mts = set(mts)
    changed = True
    while changed:
        changed = False
        for p in range(len(atoms)):
            if all(t[:p] + (not t[p],) + t[p + 1:] in mts for t in mts):
                mts = {t[:p] + t[p + 1:] for t in mts}
                atoms.pop(p)
                changed = True
                break
    return [tuple((a, v) for a, v in zip(atoms, t)) for t in sorted(mts)]
