"""Tensor networks: formal sums of products of named tensors with labelled indices.

An index of a network is free (an axis of the array), a parameter (one arbitrary member of a collection that is
being iterated over) or summed.  Networks are compared by their normal forms: the declared facts about the named
tensors are applied as rewriting rules and summed indices are renamed canonically."""
import itertools

import numpy as np

from . import engine as E
from .engine import Symbolic, Unsupported, ContractError, SBool
from .algebra import G, is_number

_n = itertools.count(1)
FACTS = {}      # tensor name -> dict(dims=(labels), hermitian/real/antisymmetric/traceless=bool (last two axes), rules=[..])
DIM = {}        # index -> dimension label
PARAMS = set()  # indices that stand for an arbitrary member
RULES = []      # callables (factors, summed) -> None or list of (coefficient, scalars, factors, renaming)


def reset():
    FACTS.clear(), PARAMS.clear(), RULES.clear()


def tensor(name, *dims, **facts):
    FACTS[name] = dict(dims=dims, **facts)
    return name


def new(dim):
    i = next(_n)
    DIM[i] = dim.name if isinstance(dim, Dim) else dim
    return i


def param(dim):
    i = new(dim)
    PARAMS.add(i)
    return i


class Dim(int):
    """An unknown dimension; the integer value is a placeholder that is never meaningful."""
    def __new__(cls, name):
        o = int.__new__(cls, 10 ** 6 + sum(map(ord, str(name))))
        o.name = name
        return o

    def _no(self, o):
        if isinstance(o, Dim) and o.name == self.name:
            return True
        if isinstance(o, Dim):
            import z3
            a, b = sorted((str(self.name), str(o.name)))
            return SBool(z3.Int('dim ' + a) == z3.Int('dim ' + b))
        if isinstance(o, int):
            import z3
            return SBool(z3.Int('dim ' + str(self.name)) == o)
        return NotImplemented
    __eq__ = _no

    def __ne__(self, o):
        r = self._no(o)
        if r is NotImplemented:
            return r
        return False if r is True else SBool(__import__('z3').Not(r.f))
    __hash__ = int.__hash__

    def _cmp(op):
        def f(self, o):
            import z3
            if isinstance(o, Dim):
                t = z3.Int('dim ' + str(o.name))
            elif isinstance(o, int):
                t = z3.IntVal(o)
            else:
                return NotImplemented
            return SBool(getattr(z3.Int('dim ' + str(self.name)), op)(t))
        return f
    __lt__, __le__, __gt__, __ge__ = _cmp('__lt__'), _cmp('__le__'), _cmp('__gt__'), _cmp('__ge__')

    def __repr__(self):
        return str(self.name)


class TT(Symbolic):
    __array_ufunc__ = None

    def __init__(self, terms, free):
        self.free = tuple(free)
        self._n = None
        self.terms = [t for t in terms if not t[0].zero()]

    # construction
    @staticmethod
    def named(name, idx=None, free=None, conj=0):
        dims = FACTS[name]['dims']
        idx = tuple(idx) if idx is not None else tuple(new(d) for d in dims)
        return TT([(G(1), (), ((name, conj, idx),))], idx if free is None else free)

    @staticmethod
    def slice(name, conj=0):
        """Arbitrary member of a collection: the first axis becomes a parameter."""
        dims = FACTS[name]['dims']
        idx = (param(dims[0]),) + tuple(new(d) for d in dims[1:])
        return TT([(G(1), (), ((name, conj, idx),))], idx[1:])

    @staticmethod
    def number(c):
        return TT([(G.of(c), (), ())], ())

    @staticmethod
    def eye(dim):
        i, j = new(dim), new(dim)
        return TT([(G(1), (), (('1', 0, (i, j)),))], (i, j))

    @staticmethod
    def zero(*dims):
        return TT([], [new(d) for d in dims])

    # structure
    def fresh(self):
        """Copy with new indices, parameters kept."""
        m = {}

        def f(i):
            if i in PARAMS:
                return i
            if i not in m:
                m[i] = new(DIM[i])
            return m[i]
        return TT([(c, s, tuple((n, k, tuple(map(f, ix))) for n, k, ix in fs)) for c, s, fs in self._sep()],
                  [f(i) for i in self.free])

    def _sep(self):
        """Terms with pairwise different summed indices (not needed inside one network)."""
        return self.terms

    def rename(self, m):
        return TT([(c, s, tuple((n, k, tuple(m.get(i, i) for i in ix)) for n, k, ix in fs)) for c, s, fs in self.terms],
                  [m.get(i, i) for i in self.free])

    @property
    def ndim(self):
        return len(self.free)

    @property
    def shape(self):
        return tuple(Dim(DIM[i]) if isinstance(DIM[i], str) else DIM[i] for i in self.free)

    @property
    def T(self):
        return TT(self.terms, self.free[::-1])

    def transpose(self, *ax):
        ax = ax[0] if len(ax) == 1 and isinstance(ax[0], (tuple, list)) else ax
        return TT(self.terms, [self.free[a] for a in ax]) if ax else self.T

    def swapaxes(self, a, b):
        f = list(self.free)
        f[a], f[b] = f[b], f[a]
        return TT(self.terms, f)

    def conj(self):
        return TT([(c.conj(), s, tuple((n, k ^ 1, ix) for n, k, ix in fs)) for c, s, fs in self.terms], self.free)
    conjugate = conj

    def __neg__(self):
        return self * -1

    def _num(self, o):
        return is_number(o)

    def __mul__(self, o):
        if is_number(o):
            return TT([(c * G.of(o), s, fs) for c, s, fs in self.terms], self.free)
        if isinstance(o, TT) and (o.ndim == 0 or self.ndim == 0):
            a, b = (self, o) if o.ndim == 0 else (o, self)
            b = b.fresh_bound()
            return TT([(c * d, tuple(sorted(s + t)), fs + gs) for c, s, fs in a.terms for d, t, gs in b.terms], a.free)
        if isinstance(o, TT):
            raise ContractError('elementwise product of arrays')
        return NotImplemented
    __rmul__ = __mul__

    def fresh_bound(self):
        keep = set(self.free) | PARAMS
        out = []
        for c, s, fs in self.terms:
            m = {}
            for n, k, ix in fs:
                for i in ix:
                    if i not in keep and i not in m:
                        m[i] = new(DIM[i])
            out.append((c, s, tuple((n, k, tuple(m.get(i, i) for i in ix)) for n, k, ix in fs)))
        return TT(out, self.free)

    def __truediv__(self, o):
        if isinstance(o, Dim):
            return TT([(c, tuple(sorted(s + ('1/' + str(o.name),))), fs) for c, s, fs in self.terms], self.free)
        if is_number(o):
            return self * G.of(o).inv()
        return NotImplemented

    def __add__(self, o):
        if is_number(o) and o == 0:
            return self
        if not isinstance(o, TT):
            return NotImplemented
        if o.ndim != self.ndim or [DIM[i] for i in self.free] != [DIM[i] for i in o.free]:
            raise ContractError('sum of arrays of different shapes {} {}'.format(self.shape, o.shape))
        o = o.fresh()
        return TT(self.terms + o.rename(dict(zip(o.free, self.free))).terms, self.free)
    __radd__ = __add__

    def __sub__(self, o):
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __matmul__(self, o):
        if not isinstance(o, TT):
            return NotImplemented
        return _batch(self, o)

    def dot(self, o):
        if o.ndim == 0 or self.ndim == 0:
            return self * o
        return contract(self, o, [self.ndim - 1], [max(o.ndim - 2, 0)])

    def trace(self):
        if self.ndim != 2:
            raise Unsupported('trace')
        return close(self, 0, 1)

    def pv_len(self):
        return self.shape[0]

    def at(self, p):
        """Slice of the first axis for the parameter p."""
        f = self.fresh()
        r = f.rename({f.free[0]: p})
        return TT(r.terms, r.free[1:])

    def pv_for(self, body, get, set_):
        return generic_loop(DIM[self.free[0]], self.at, body, get, set_)

    def pv_comp(self, kind, fn):
        return GList(DIM[self.free[0]], self.at).pv_comp(kind, fn)

    def pv_enumerate(self, start=0):
        if start:
            raise Unsupported('enumerate from another start')
        return GList(DIM[self.free[0]], lambda p: (Idx(p), self.at(p)))

    def pv_zip(self, *a):
        return zip_lists(*a)

    def __getitem__(self, k):
        if isinstance(k, Idx):
            return self.at(k.p)
        raise Unsupported('indexing')

    # normal form
    def norm(self):
        if self._n is None:
            d = {}
            todo = [(c, s, list(fs), {}) for c, s, fs in self.terms]
            steps = 0
            free = self.free
            while todo:
                c, s, fs, ren = todo.pop()
                steps += 1
                if steps > 3000:
                    raise Unsupported('no normal form')
                r = _step(c, s, fs, set(free))
                if r is not None:
                    todo += [(a, b, list(f), None) for a, b, f in r]
                    continue
                k = _canon(s, fs, free)
                d[k] = d[k] + c if k in d else c
            self._n = {k: v for k, v in d.items() if not v.zero()}
        return self._n

    def same(self, o):
        if not isinstance(o, TT):
            return False
        if self.ndim != o.ndim or [DIM[i] for i in self.free] != [DIM[i] for i in o.free]:
            return False
        return self.norm() == o.norm()

    def is_zero(self):
        return not self.norm()

    def __repr__(self):
        return ' + '.join('{}*{}'.format(v, k) for k, v in sorted(self.norm().items(), key=str)) or '0'


def _subst(fs, a, b):
    return [(n, k, tuple(b if i == a else i for i in ix)) for n, k, ix in fs]


def _step(c, s, fs, free):
    """One rewriting step; None if in normal form."""
    occ = {}
    for q, (n, k, ix) in enumerate(fs):
        for p, i in enumerate(ix):
            occ.setdefault(i, []).append((q, p))
    # scalars
    for x in s:
        if not x.startswith('1/') and '1/' + x in s:
            l = list(s)
            l.remove(x), l.remove('1/' + x)
            return [(c, tuple(l), fs)]
    for q, (n, k, ix) in enumerate(fs):
        f = FACTS.get(n, {})
        if n == '1':
            a, b = ix
            rest = fs[:q] + fs[q + 1:]
            if a == b:
                if a in free or a in PARAMS:
                    return [(c, s, rest)]
                return [(c, tuple(sorted(s + (str(DIM[a]),))), rest)]
            for u, v in ((a, b), (b, a)):
                if u not in free and u not in PARAMS:
                    return [(c, s, _subst(rest, u, v))]
            if a > b:
                return [(c, s, fs[:q] + [('1', 0, (b, a))] + fs[q + 1:])]
            if k:
                return [(c, s, fs[:q] + [('1', 0, (a, b))] + fs[q + 1:])]
            continue
        if k and f.get('real'):
            return [(c, s, fs[:q] + [(n, 0, ix)] + fs[q + 1:])]
        if k and f.get('hermitian'):
            return [(c, s, fs[:q] + [(n, 0, ix[:-2] + (ix[-1], ix[-2]))] + fs[q + 1:])]
        if f.get('antisymmetric') and ix[-2] > ix[-1]:
            return [(c * G(-1), s, fs[:q] + [(n, k, ix[:-2] + (ix[-1], ix[-2]))] + fs[q + 1:])]
        if f.get('antisymmetric') and ix[-2] == ix[-1] and False:
            return []
        if f.get('traceless') and ix[-2] == ix[-1] and ix[-1] not in free and ix[-1] not in PARAMS and len(occ[ix[-1]]) == 2:
            return []
    for rule in RULES:
        r = rule(c, s, fs, free, occ)
        if r is not None:
            return r
    return None


def isometry(name, contracted, partner=None):
    """Rule: sum over the axis `contracted` of conj(T) T is a product of deltas of the other axes."""
    def rule(c, s, fs, free, occ):
        for q, (n, k, ix) in enumerate(fs):
            if n != name or not k:
                continue
            i = ix[contracted]
            if i in free or i in PARAMS or len(occ[i]) != 2:
                continue
            for r, (m, k2, jx) in enumerate(fs):
                if r != q and m == name and not k2 and jx[contracted] == i:
                    rest = [f for t, f in enumerate(fs) if t not in (q, r)]
                    rest += [('1', 0, (a, b)) for p, (a, b) in enumerate(zip(ix, jx)) if p != contracted]
                    return [(c, s, rest)]
        return None
    RULES.append(rule)


def intertwines(H, Pn, h, axis=1, last=2):
    """Rules: H P = P h and, H and h being Hermitian, P^+ H = h P^+ (H, h may carry leading parameter indices)."""
    def rule(c, s, fs, free, occ):
        for q, (n, k, ix) in enumerate(fs):
            if n != H or k:
                continue
            for side in (1, 0):
                i, o = (ix[-1], ix[-2]) if side else (ix[-2], ix[-1])
                if i in free or i in PARAMS or len(occ[i]) != 2:
                    continue
                for r, (m, k2, jx) in enumerate(fs):
                    if m == Pn and k2 == (0 if side else 1) and jx[axis] == i:
                        rest = [f for t, f in enumerate(fs) if t not in (q, r)]
                        u = new(DIM[jx[last]])
                        jn = list(jx)
                        jn[axis], jn[last] = o, u
                        hx = (u, jx[last]) if side else (jx[last], u)
                        return [(c, s, rest + [(m, k2, tuple(jn)), (h, 0, ix[:-2] + hx)])]
        return None
    RULES.append(rule)


def _canon(s, fs, free):
    pos = {i: 'f%d' % p for p, i in enumerate(free)}
    bound = {i for n, k, ix in fs for i in ix if i not in pos and i not in PARAMS}

    def key(f):
        n, k, ix = f
        return (n, k, tuple(pos.get(i, 'p%d' % i if i in PARAMS else '~') for i in ix))
    groups = {}
    for f in fs:
        groups.setdefault(key(f), []).append(f)
    keys = sorted(groups)
    best = None
    total = 1
    for k in keys:
        for j in range(2, len(groups[k]) + 1):
            total *= j
    if total > 5000:
        raise Unsupported('network with too many symmetries')
    for order in itertools.product(*[itertools.permutations(groups[k]) for k in keys]):
        seq = [f for grp in order for f in grp]
        m = {}
        out = []
        for n, k, ix in seq:
            lab = []
            for i in ix:
                if i in bound:
                    if i not in m:
                        m[i] = 'b%d' % len(m)
                    lab.append(m[i])
                else:
                    lab.append(pos.get(i, 'p%d' % i))
            if n == '1':
                lab, k = sorted(lab), 0
            out.append((n, k, tuple(lab)))
        out = tuple(out)
        if best is None or out < best:
            best = out
    return (s, best)


def contract(a, b, ia, ib):
    """Sum over pairs of axes."""
    a, b = a.fresh(), b.fresh()
    m = {}
    for p, q in zip(ia, ib):
        if DIM[a.free[p]] != DIM[b.free[q]]:
            raise ContractError('contraction of axes of different dimension {} {}'.format(DIM[a.free[p]], DIM[b.free[q]]))
        m[b.free[q]] = a.free[p]
    b = b.rename(m)
    fa = [i for p, i in enumerate(a.free) if p - a.ndim not in ia and p not in ia]
    fb = [i for q, i in enumerate(b.free) if q - b.ndim not in ib and q not in ib]
    return TT([(c * d, tuple(sorted(s + t)), fs + gs) for c, s, fs in a.terms for d, t, gs in b.terms], fa + fb)


def _batch(a, b):
    if a.ndim == 2 or b.ndim == 2 or a.ndim == 1 or b.ndim == 1:
        if a.ndim > 2:
            return contract(a, b, [a.ndim - 1], [max(b.ndim - 2, 0)])
        r = contract(a, b, [a.ndim - 1], [max(b.ndim - 2, 0)])
        if b.ndim > 2:       # leading axes of b come first
            f = list(r.free)
            return TT(r.terms, f[1:-1] + [f[0], f[-1]])
        return r
    raise Unsupported('product of stacks')


def close(t, p, q):
    """Sum over two axes of one array."""
    t = t.fresh()
    i, j = t.free[p], t.free[q]
    if DIM[i] != DIM[j]:
        raise ContractError('trace over different dimensions')
    r = t.rename({j: i})
    return TT(r.terms, [x for k, x in enumerate(t.free) if k not in (p, q)])


def tensordot(a, b, axes=2):
    if isinstance(axes, int):
        ia, ib = list(range(a.ndim - axes, a.ndim)), list(range(axes))
    else:
        ia, ib = axes
        ia, ib = ([ia] if isinstance(ia, int) else list(ia)), ([ib] if isinstance(ib, int) else list(ib))
        ia, ib = [p % a.ndim for p in ia], [q % b.ndim for q in ib]
    return contract(a, b, ia, ib)


def einsum(spec, *ops, **kw):
    spec = spec.replace(' ', '')
    lhs, rhs = spec.split('->') if '->' in spec else (spec, None)
    parts = lhs.split(',')
    if rhs is None:
        rhs = ''.join(sorted(l for l in set(lhs) - {','} if lhs.count(l) == 1))
    lab = {}
    terms = [(G(1), (), ())]
    for p, o in zip(parts, ops):
        o = o.fresh()
        if len(p) != o.ndim:
            raise ContractError('einsum: {} for an array with {} axes'.format(p, o.ndim))
        m = {}
        for l, i in zip(p, o.free):
            if l in lab:
                if DIM[lab[l]] != DIM[i]:
                    raise ContractError('einsum over different dimensions')
                m[i] = lab[l]
            else:
                lab[l] = i
        o = o.rename(m)
        terms = [(c * d, tuple(sorted(s + t)), fs + gs) for c, s, fs in terms for d, t, gs in o.terms]
    return TT(terms, [lab[l] for l in rhs])


def trace(a):
    return a.trace()


def total(t, i):
    """Sum over the parameter i (which must not be a parameter of anything else afterwards)."""
    j = new(DIM[i])
    return t.rename({i: j})


def stack(t, i):
    """The array whose slices for the parameter i are t."""
    j = new(DIM[i])
    r = t.rename({i: j})
    return TT(r.terms, (j,) + r.free)


NUMPY = dict(tensordot=tensordot, einsum=einsum, trace=trace, eye=TT.eye, identity=TT.eye, dot=lambda a, b: a.dot(b),
             matmul=lambda a, b: a @ b, conj=lambda a: a.conj(), conjugate=lambda a: a.conj(),
             transpose=lambda a, *k: a.transpose(*k), complex128=complex)


# ---------------------------------------------------------------- collections

class Each:
    """Members  item  for every value of the parameter p."""
    def __init__(self, p, items):
        self.p, self.items = p, list(items)

    def __repr__(self):
        return 'Each({}, {})'.format(self.p, self.items)


class Idx:
    """Position of the arbitrary member with parameter p."""
    def __init__(self, p):
        self.p = p

    def _no(self, *a):
        raise Unsupported('arithmetic with the position of an arbitrary member')
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __index__ = __lt__ = __gt__ = __le__ = __ge__ = _no
    __eq__ = __ne__ = _no
    __hash__ = None


def zip_lists(*a):
    """Lists of the same length, member by member."""
    parts = []
    dims = set()
    for x in a:
        if isinstance(x, TT):
            parts.append(x.at), dims.add(DIM[x.free[0]])
        elif isinstance(x, (GList, Comp)):
            parts.append(x.at), dims.add(x.dim)
        else:
            raise Unsupported('zip with {}'.format(type(x).__name__))
    if len(dims) != 1:
        raise ContractError('zip of lists of different lengths {}'.format(dims))
    return GList(dims.pop(), lambda p: tuple(f(p) for f in parts))


class GList(Symbolic):
    """A collection of unknown length: make(p) builds its arbitrary member for a parameter."""

    def __init__(self, dim, make, name='collection'):
        self.dim, self.at, self.name = dim, make, name

    @property
    def make(self):
        return self.at

    def pv_len(self):
        return Dim(self.dim)

    def __bool__(self):
        import z3
        return E.decide(z3.Bool('some ' + str(self.dim)))

    def __getitem__(self, k):
        if isinstance(k, Idx):
            if DIM[k.p] != self.dim:
                raise ContractError('member of {} at a position in {}'.format(self.dim, DIM[k.p]))
            return self.at(k.p)
        if isinstance(k, int):
            return self.at(param(self.dim))
        raise Unsupported('slice of a collection')

    def pv_comp(self, kind, fn):
        p = param(self.dim)
        r = fn(self.at(p))
        if len(r) != 1:
            raise Unsupported('filtered comprehension')
        if kind == 'set':
            raise Unsupported('set of a collection')
        return Comp(p, r[0], self, fn)

    def pv_for(self, body, get, set_):
        return generic_loop(self.dim, self.at, body, get, set_)

    def pv_zip(self, *a):
        return zip_lists(*a)

    def pv_enumerate(self, start=0):
        import z3
        from .c08 import IntE

        def mk(p):
            if not self.positions:
                if start:
                    raise Unsupported('enumerate from another start')
                return (Idx(p), self.at(p))
            i = z3.Int('position {} {}'.format(self.name, p))
            E.assume(i >= 0)
            return (IntE(i + start), self.at(p))
        return GList(self.dim, mk, self.name)

    positions = False


class Comp(Symbolic):
    """[item for every value of the parameter p]"""
    def __init__(self, p, item, src=None, fn=None):
        self.p, self.item, self.src, self.fn = p, item, src, fn

    @property
    def dim(self):
        return DIM[self.p]

    def at(self, p):
        if self.src is None:
            raise Unsupported('member of a comprehension')
        if p == self.p:
            return self.item
        return self.fn(self.src.at(p))[0]

    def pv_len(self):
        return Dim(DIM[self.p])

    def __bool__(self):
        import z3
        return E.decide(z3.Bool('some ' + str(self.dim)))

    def __getitem__(self, k):
        if isinstance(k, Idx):
            if DIM[k.p] != self.dim:
                raise ContractError('member of {} at a position in {}'.format(self.dim, DIM[k.p]))
            return self.at(k.p)
        if k == 0 or k == -1:
            return self.item
        raise Unsupported('element of a collection')

    def __iter__(self):
        """Only for argument lists."""
        yield Each(self.p, [self.item])

    def pv_comp(self, kind, fn):
        r = fn(self.item)
        if len(r) != 1:
            raise Unsupported('filtered comprehension')
        src = self
        return Comp(self.p, r[0], src, fn)

    def pv_for(self, body, get, set_):
        return generic_loop(None, None, body, get, set_, self)

    def pv_zip(self, *a):
        return zip_lists(*a)

    def pv_enumerate(self, start=0):
        if start:
            raise Unsupported('enumerate from another start')
        return GList(self.dim, lambda p: (Idx(p), self.at(p)))

    def pv_sum(self, start=0):
        x = self.item
        r = x.pv_total(self.p) if hasattr(x, 'pv_total') else total(x, self.p)
        return r if isinstance(start, int) and start == 0 else start + r

    def __add__(self, o):
        return [Each(self.p, [self.item])] + list(o)

    def __radd__(self, o):
        return list(o) + [Each(self.p, [self.item])]

    def array(self):
        t = self.item.array() if isinstance(self.item, Comp) else self.item
        if not isinstance(t, TT):
            raise Unsupported('array of {}'.format(type(t).__name__))
        return stack(t, self.p)


class Poison(Symbolic):
    """A loop variable after the loop."""
    def __getattr__(self, k):
        if k.startswith('__') or k.startswith('pv_'):
            raise AttributeError(k)
        raise Unsupported('loop variable used after the loop')


def cells_of(*fns):
    d = {}
    for fn in fns:
        for k, c in zip(fn.__code__.co_freevars, fn.__closure__ or ()):
            try:
                d[k] = c.cell_contents
            except ValueError:
                pass
    return d


def generic_loop(dim, make, body, get, set_, comp=None):
    """One arbitrary iteration; what it adds to lists, tuples and sums is added for every iteration."""
    p = param(dim) if comp is None else comp.p
    item = make(p) if comp is None else comp.item
    before = dict(get())
    mark = Poison()
    start = {}
    for k, o in before.items():
        if isinstance(o, tuple):
            start[k] = o + (mark,)
        elif isinstance(o, TT):
            q = 'prefix%d' % next(_n)
            tensor(q, *[DIM[i] for i in o.free])
            start[k] = o + TT.named(q)
        elif hasattr(o, 'pv_mark'):
            start[k] = o.pv_mark(mark)
    set_(start)
    before.update(start)
    lists = {id(v): v for v in list(cells_of(body).values()) + list(before.values()) if isinstance(v, list)}
    empty = [v for v in lists.values() if not v]
    for v in empty:
        v.append(mark)
    lens = {k: len(v) for k, v in lists.items()}
    snap = {k: list(v) for k, v in lists.items()}
    r = body(item)
    if r is not None:
        raise Unsupported('the loop is left early')
    after = dict(get())
    for k, v in lists.items():
        if len(v) < lens[k] or any(a is not b for a, b in zip(v[:lens[k]], snap[k])):
            raise Unsupported('list elements are replaced in a loop')
        at = lens[k] - any(v is e for e in empty)
        v[at:] = [Each(p, v[lens[k]:])] if len(v) > lens[k] else []
    new_ = {}
    for k, v in after.items():
        if isinstance(v, list) and id(v) in lists and before.get(k) is v:
            continue
        o = before.get(k)
        if k in start and hasattr(o, 'pv_mark'):
            if not hasattr(v, 'pv_unmark'):
                raise ContractError('accumulated value replaced in a loop')
            new_[k] = v.pv_unmark(mark, p)
        elif k in start and v is o:
            new_[k] = o[:-1] if isinstance(o, tuple) else o - TT.named(q_of(o))
        elif k in before and v is o:
            continue
        elif k in start and isinstance(v, tuple):
            if len(v) < len(o) or any(a is not b for a, b in zip(v, o)):
                raise ContractError('collection replaced in a loop')
            new_[k] = o[:-1] + (Each(p, v[len(o):]),)
        elif k in start and isinstance(v, TT):
            d = v - o
            if any(n.startswith('prefix') for kk in d.norm() for n, _, _ in kk[1]):
                raise ContractError('sum replaced in a loop')
            pre = q_of(o)
            new_[k] = TT([x for x in o.terms if not any(n == pre for n, _, _ in x[2])], o.free) + total(
                TT([(c, s, f) for c, s, f in _cancel(d)], d.free), p)
        else:
            new_[k] = Poison()
    set_(new_)
    return None


def q_of(o):
    return [n for c, s, f in o.terms for n, _, _ in f if n.startswith('prefix')][-1]


def _cancel(d):
    """Terms of d without those that cancel."""
    keep = d.norm()
    out, seen = [], {}
    for t in d.terms:
        one = TT([t], d.free).norm()
        if all(k not in keep for k in one):
            continue
        out.append(t)
    return out


def _takes_dict(f):
    return True


class Rng(Symbolic):
    """range(n) for an unknown dimension."""
