"""World C: Hamiltonian models as formal sums.

An arbitrary model A denotes  sum_{i in A} key_i * A_i  with key_i ranging over a common universe of keys (so
the same bound index in two models is the same key) and A_i an arbitrary value that vanishes outside A.
A loop or comprehension over the terms is executed once for a generic term and summarised as the sum of its
contributions; the number of terms is unbounded."""
import collections.abc as abc
import itertools
from numbers import Number

import z3

from . import engine as E, algebra
from .engine import Stub, Unsupported, ContractError, SBool, Symbolic, explore
from .algebra import (Expr, G, Dom, declare, declare_scalar, is_number, ATTR, DIMS, MEMBER_OF, SCAL_ATTR,
                      fresh_index, show)
from .matworld import Dim, NdArray, NdInt, NdFloat, MatrixBase, ImmutableMatrix, Mat
from . import matworld as W


class Basic:
    pass


class SExpr(Basic):
    pass


class SumExpr(SExpr):
    """sympy.Add"""


class SpMat:
    pass


class CsrMat(SpMat):
    def __new__(cls, arg, *a, **k):
        return csr(arg, *a, **k)


class LinOp:
    pass


class Complex128:
    """np.complex128"""
    def __new__(cls, x=0):
        return cast_scalar(x)


Number.register(Complex128)

declare_scalar('key')
SCAL_ATTR['phase'] = frozenset(['phase'])


# ---------------------------------------------------------------- keys

class Key(SExpr):
    """Symbolic coefficient.  e: its value as a scalar expression; ops: how it was obtained from a generic
    key by injective maps (None: not known to be injective); idx: that generic key's index."""

    def __init__(self, e, idx=None, ops=()):
        self.e, self.idx, self.ops = e, idx, ops if idx is not None else None

    def __mul__(self, o):
        if isinstance(o, Key):
            return Key(self.e.smul(o.e))
        if is_number(o):
            return self if o == 1 else Key(self.e.scale(o))
        if isinstance(o, V) and o.isscalar:
            return Key(self.e.smul(o.e))
        if hasattr(o, 'pv_key'):
            return Key(self.e.smul(o.pv_key()))
        return NotImplemented

    def __rmul__(self, o):
        if is_number(o) or (isinstance(o, V) and o.isscalar):
            return self * o
        return NotImplemented

    def __add__(self, o):
        if isinstance(o, Key):
            return Key(self.e + o.e)
        if is_number(o) and o == 0:
            return self
        return NotImplemented
    __radd__ = __add__

    def subs(self, *a, simultaneous=False, **kw):
        if len(a) == 2 and a[0] is IMAG and isinstance(a[1], _I) and a[1].sign == -1 and not kw:
            return Key(self.e.conj(), self.idx, self.ops + ('conj',) if self.ops is not None else None)
        if len(a) == 1 and isinstance(a[0], SubsMap):
            if not simultaneous:
                raise ContractError('sequential substitution of the momenta')
            s, w = a[0].lin
            return Key(self.e.compose(s, w))
        raise Unsupported('subs')
    xreplace = subs

    def diff(self, k, *a):
        return sy_diff(self, k, *a)

    def conjugate(self):
        return Key(self.e.conj(), self.idx, self.ops + ('conj',) if self.ops is not None else None)

    def __eq__(self, o):
        if isinstance(o, Key):
            if self.e.same(o.e):
                return True
            ks = sorted([repr(self.e), repr(o.e)])
            return SBool(z3.Bool('keyeq<{},{}>'.format(*ks)))
        if is_number(o) and o == 1:
            return True if self.e.is_one() else SBool(z3.Bool('keyone<{!r}>'.format(self.e)))
        return NotImplemented

    def __hash__(self):
        return hash('key')

    def __repr__(self):
        return 'Key({})'.format(self.e)


class _I(Basic):
    def __init__(self, sign):
        self.sign = sign

    def __neg__(self):
        return _I(-self.sign)


IMAG = _I(1)


def gen_key(i, fam='key'):
    return Key(Expr([(((), (((fam, i), 0, (1, ())),), ()), G(1))], None, None), i)


class Hop(NdArray):
    """Hopping vector of a generic Bloch term, or a linear image or sum of such."""
    def __init__(self, e, idx=None, ops=()):
        self.e, self.idx, self.ops = e, idx, ops if idx is not None else None   # e: value of exp(i hop k)

    @property
    def shape(self):
        return (Dim('d'),)

    def __neg__(self):
        return Hop(self.e.compose(-1, ()), self.idx, self.ops + ('neg',) if self.ops is not None else None)

    def __add__(self, o):
        if isinstance(o, Hop):
            return Hop(self.e.smul(o.e))
        return NotImplemented

    def __rmatmul__(self, M):
        """exp(i (M hop) k) = exp(i hop (M^T k))"""
        if not isinstance(M, Mat):
            return NotImplemented
        t = M.e.T()
        if (t.rows, t.cols) != ('d', 'd') or len(t.t) != 1:
            raise ContractError('hopping vector multiplied by {}'.format(M))
        ((b, s, w), c), = t.t.items()
        if s or b or c.im != 0 or abs(c.re) != 1:
            raise ContractError('hopping vector multiplied by {}'.format(M))
        inj = all('invertible' in ATTR[l[0]] or 'unitary' in ATTR[l[0]] for l in w)
        return Hop(self.e.compose(int(c.re), w), self.idx,
                   self.ops + ((int(c.re), w),) if self.ops is not None and inj else None)

    def copy(self):
        return Hop(self.e, self.idx, self.ops)


def bloch_key_expr(key):
    hop, coeff = tuple(key)
    if not isinstance(hop, Hop) or not isinstance(coeff, Key):
        raise Unsupported('BlochCoeff of {} and {}'.format(type(hop).__name__, type(coeff).__name__))
    return coeff.e.smul(hop.e)


def key_expr(key):
    if isinstance(key, Key):
        return key.e
    if is_number(key):
        return Expr([(((), (), ()), G.of(key))], None, None)
    if isinstance(key, tuple) and len(key) == 2:
        return bloch_key_expr(key)
    if hasattr(key, 'pv_key'):
        return key.pv_key()
    raise Unsupported('key {!r}'.format(type(key)))


def key_ops(key):
    """(index, injective operations) or None."""
    if isinstance(key, Key):
        return None if key.ops is None else (key.idx, key.ops)
    if isinstance(key, tuple) and len(key) == 2:
        h, c = tuple(key)
        if isinstance(h, Hop) and isinstance(c, Key) and h.ops is not None and c.ops is not None and h.idx == c.idx:
            return (h.idx, ('hop',) + h.ops + ('coeff',) + c.ops)
    return None


# ---------------------------------------------------------------- values

class V:
    """A coefficient value: matrix expression (rows/cols set) or scalar (rows = None)."""
    fmt = None
    __array_ufunc__ = None

    def __init__(self, e=None, *a, **k):
        if 'e' not in self.__dict__:       # construction by __new__ of a format is complete
            self.e = e

    @property
    def isscalar(self):
        return self.e.rows is None

    @property
    def shape(self):
        return () if self.isscalar else (Dim(self.e.rows), Dim(self.e.cols))

    ndim = property(lambda self: len(self.shape))

    def _n(self, e):
        return type(self)._make(e)

    @classmethod
    def _make(cls, e):
        o = object.__new__(cls)
        o.e = e
        return o

    @property
    def T(self):
        return self if self.isscalar else self._n(self.e.T())

    def transpose(self):
        return self.T

    def conj(self):
        return self._n(self.e.conj())
    conjugate = conj

    def copy(self):
        return self._n(self.e)

    def __copy__(self):
        return self.copy()

    def __neg__(self):
        return self._n(-self.e)

    def _join(self, o):
        if isinstance(self, (DenseV,)) or isinstance(o, (DenseV,)):
            return DenseV
        if isinstance(self, LinOpV) or isinstance(o, LinOpV):
            return LinOpV
        return type(self) if not self.isscalar else type(o)

    def __add__(self, o):
        if isinstance(o, V):
            if (self.e.rows, self.e.cols) != (o.e.rows, o.e.cols):
                raise ContractError('sum of values of shapes {} and {}'.format(self.shape, o.shape))
            return self._join(o)._make(self.e + o.e)
        if is_number(o) and o == 0:
            return self
        return NotImplemented
    __radd__ = __add__

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        if is_number(o):
            return self._n(self.e.scale(o))
        if isinstance(o, V):
            if isinstance(o, EntryV):
                return EntryV._make(self.e.smul(o.e)) if self.isscalar else NotImplemented
            if o.isscalar:
                return self._n(self.e.smul(o.e))
            if self.isscalar:
                return o._n(o.e.smul(self.e))
            raise Unsupported('elementwise product of matrices (treated entry by entry)')
        return NotImplemented

    def __rmul__(self, o):
        if is_number(o):
            return self * o
        return NotImplemented

    def __truediv__(self, o):
        return self * (1 / o)

    def __matmul__(self, o):
        if isinstance(o, V):
            if self.isscalar or o.isscalar:
                raise ContractError('@ with scalars')
            return self._join(o)._make(self.e @ o.e)
        if isinstance(o, Mat):
            return DenseV._make(self.e @ o.e)
        return NotImplemented

    def __rmatmul__(self, o):
        if isinstance(o, Mat):
            return DenseV._make(o.e @ self.e)
        return NotImplemented

    def dot(self, o):
        return self @ o

    def toarray(self):
        return DenseV._make(self.e)

    def diagonal(self):
        return Diag(self)

    def __eq__(self, o):
        if is_number(o) and o == 0:
            return is_zero_fact(self)
        if isinstance(o, V):
            if self.e.same(o.e):
                return True
        raise Unsupported('comparison of values')
    __hash__ = None

    def reshape(self, *a, **k):
        r = getattr(self, 'RESHAPE', None)
        return self._n(apply_linear('reshape', self.e, 'r1', 'r2'))

    def __array__(self, *a, **k):
        raise Unsupported('conversion of a symbolic value by numpy')

    def __repr__(self):
        return '{}({})'.format(type(self).__name__, self.e)


class DenseV(V, NdArray):
    pass


class EntryV(V, NdArray):
    """One entry (r, s), arbitrary but fixed, of a dense matrix; elementwise operations act on it."""
    SHAPE = ('n', 'm')

    @property
    def isscalar(self):
        return False

    @property
    def shape(self):
        return (Dim('n'), Dim('m'))

    def __mul__(self, o):
        if isinstance(o, (EntryV, ScalV)):
            return EntryV._make(self.e.smul(o.e))
        if is_number(o):
            return EntryV._make(self.e.scale(o))
        return NotImplemented

    def __matmul__(self, o):
        raise Unsupported('entries of a matrix product')
    T = property(__matmul__)


class CsrV(V, CsrMat):
    pass


class LinOpV(V, LinOp):
    pass


class ScalV(V, Complex128):
    """np.complex128 scalars and Python numbers."""
    __hash__ = None

    def __rtruediv__(self, o):
        if is_number(o) and len(self.e.t) == 1:
            ((b, s, w), c), = self.e.t.items()
            return self._n(Expr([((b, tuple(inv_scalar(x) for x in s), w), G.of(o) * c.inv())], None, None))
        return NotImplemented


def inv_scalar(x):
    n, c, a = x
    name, i = (n, None) if isinstance(n, str) else n
    m = name[:-3] if name.endswith('^-1') else name + '^-1'
    return (m if i is None else (m, i), c, a)


class Diag:
    def __init__(self, v):
        self.v = v


FORMATS = dict(dense=DenseV, csr=CsrV, scalar=ScalV, lo=LinOpV)


def apply_linear(op, e, rows, cols):
    """A linear map applied to every matrix term: uninterpreted letters op<word>."""
    terms = []
    for (b, s, w), c in e.t.items():
        if not w and len(s) == 1 and rows is None and op.startswith('around'):
            n, cj, arg = s[0]
            base = n if isinstance(n, str) else n[0]
            name = '{}({})'.format(op, base)
            declare_scalar(name)
            if base in MEMBER_OF:
                MEMBER_OF[name] = MEMBER_OF[base]
            terms.append(((b, ((name if isinstance(n, str) else (name,) + tuple(n[1:]), cj, arg),), ()), c))
            continue
        if len(w) != 1:
            raise Unsupported(op)
        n, t, cj, iv, arg = w[0]
        base = n if isinstance(n, str) else n[0]
        name = '{}({}{})'.format(op, base, '^T' if t else '')
        if name not in ATTR:
            declare(name, rows, cols)
            if base in MEMBER_OF:
                MEMBER_OF[name] = MEMBER_OF[base]
        l = name if isinstance(n, str) else (name, n[1])
        if rows is None:
            terms.append(((b, s + ((l, cj, arg),), ()), c))
        else:
            terms.append(((b, s, ((l, 0, cj, 0, arg),)), c))
    return Expr(terms, rows, cols)


def np_sum(x, *a, **k):
    if isinstance(x, Diag) and not a and not k:
        return ScalV._make(apply_linear('trace', x.v.e, None, None))
    raise Unsupported('np.sum')


def np_around(x, decimals=0):
    if not isinstance(x, (DenseV, ScalV)):
        raise Unsupported('np.around')
    return x._n(apply_linear('around{}'.format(decimals), x.e, x.e.rows, x.e.cols))


def np_trace(x):
    return ScalV._make(apply_linear('trace', x.e, None, None))


def csr(x, *a, **k):
    if isinstance(x, V):
        return CsrV._make(x.e)
    if isinstance(x, Mat):
        return CsrV._make(x.e)
    if isinstance(x, tuple) and len(x) == 2 and all(isinstance(d, Dim) for d in x):
        return CsrV._make(Expr.zero(x[0].name, x[1].name))
    raise Unsupported('csr_matrix')


def cast_scalar(x):
    if isinstance(x, V) and x.isscalar:
        return ScalV._make(x.e)
    if is_number(x):
        return ScalV._make(Expr([(((), (), ()), G.of(x))], None, None))
    raise Unsupported('np.complex128')


def zeros(shape, dtype=None):
    if isinstance(shape, tuple) and len(shape) == 2 and all(isinstance(d, Dim) for d in shape):
        return DenseV._make(Expr.zero(shape[0].name, shape[1].name))
    if isinstance(shape, tuple) and len(shape) == 1:
        return Hop(Expr([(((), (), ()), G(1))], None, None))
    raise Unsupported('zeros')


def np_array(x, dtype=None, **k):
    if isinstance(x, V):
        return DenseV._make(x.e)
    if isinstance(x, Mat):
        return W.Dense(x.e)
    raise Unsupported('np.array')


def asarray(x, *a, **k):
    if isinstance(x, V):
        return DenseV._make(x.e)
    raise Unsupported('np.asarray')


def np_eye(n, *a, **k):
    if isinstance(n, Dim):
        return W.Dense(Expr.one(n.name))
    raise Unsupported('np.eye')


ZERO_FACTS = {}     # z3 bool name -> Expr that is zero if it holds


def is_zero_fact(v, extra=''):
    if v.e.is_zero():
        return True
    name = 'zero<{}>{}'.format(v.e, extra)
    ZERO_FACTS[name] = v.e
    return SBool(z3.Bool(name))


def allclose(a, b, *args, **k):
    """equality within the given tolerance, taken as equality"""
    args = args + tuple(k[n] for n in ('rtol', 'atol', 'equal_nan') if n in k)
    extra = ';' + ','.join(map(repr, args)) if args else ''
    if isinstance(a, Hop) and is_number(b) and b == 0:
        return SBool(z3.Bool('zerohop<{!r}>'.format(a.e)))
    if isinstance(a, Hop) and isinstance(b, Hop):
        return True if a.e.same(b.e) else SBool(z3.Bool(zero_name(a, b)))
    if is_number(b) and b == 0 and isinstance(a, (V, Mat)):
        return is_zero_fact(a, extra)
    if isinstance(a, V) and isinstance(b, V):
        return is_zero_fact(a - b, extra)
    raise Unsupported('allclose')


def zero_name(a, b):
    return 'close<{}><{}>'.format(*sorted([repr(a.e), repr(b.e)]))


def isclose(*a, **k):
    raise Unsupported('isclose')


# ---------------------------------------------------------------- maps and their generic iteration

class Part:
    """sum over binders of key * val"""
    __slots__ = ('binders', 'key', 'val')

    def __init__(self, binders, key, val):
        self.binders, self.key, self.val = tuple(binders), key, val

    def den(self):
        e = self.val.e.smul(key_expr(self.key)) if self.val.e.rows is not None else key_expr(self.key).smul(self.val.e)
        return Expr([((self.binders + b, s, w), c) for (b, s, w), c in e.t.items()], self.val.e.rows, self.val.e.cols)


class Empty:
    """Truth value 'the collection has no element'."""


def empty_formula(parts):
    fs = []
    for p in parts:
        if not p.binders:
            return z3.BoolVal(False)
        fs.append(z3.Or([empty_domain(d) for i, d in p.binders]))
    return z3.And(fs) if fs else z3.BoolVal(True)


def empty_domain(d):
    """No key in this domain.  An abstracted dictionary is empty if what it was built from is empty; if entries
    were filtered while it was built, it may be empty otherwise, too."""
    b = z3.Bool('empty<{!r}>'.format(d))
    name = repr(d)
    if name in DEFS:
        parts = DEFS[name][2]
        if any('[' in repr(x) for p in parts for t in p.val.e.t for x in t[1]):
            return z3.Or(b, empty_formula(parts))
        return empty_formula(parts)
    return b


def known_empty(binders):
    """The path excludes the generic element."""
    return bool(binders and E._ctx) and known_empty_on(binders, E.ctx().pc)


def known_empty_on(binders, pc):
    if not binders:
        return False
    if not any('empty<' in str(f) for f in pc):
        return False
    s = z3.Solver()
    s.add(*pc)
    s.add(z3.Not(z3.Or([empty_domain(d) for i, d in binders])))
    return s.check() == z3.unsat


class SplitDomain(BaseException):
    """The generic key has to be decided to be inside or outside of a key set."""
    def __init__(self, idx, dom):
        self.idx, self.dom = idx, dom


def splitting(gens, process):
    """process(binders, x) for every generic element, split where the code asks for membership."""
    todo = list(gens)
    while todo:
        binders, x = todo.pop(0)
        if known_empty(binders):
            continue
        for i, d in binders:
            CURRENT_DOM[i] = d
        try:
            process(binders, x)
        except SplitDomain as s:
            if s.idx not in [i for i, d in binders]:
                raise
            for part in (lambda d: d & s.dom, lambda d: d - s.dom):
                b = tuple((i, part(d)) if i == s.idx else (i, d) for i, d in binders)
                if not any(d.empty() for i, d in b):
                    todo.append((b, x))


def member(key, parts):
    """key in {keys of the parts}, for a generic key."""
    ko = key_ops(key)
    if ko is None or ko[0] not in CURRENT_DOM:
        raise Unsupported('membership of a key that is not generic')
    dom = CURRENT_DOM[ko[0]]
    inside = None
    for p in parts:
        k2 = key_ops(p.key) if len(p.binders) == 1 else None
        if k2 is None or k2[1] != ko[1] or k2[0] != p.binders[0][0]:
            raise Unsupported('membership in a set of transformed keys')
        inside = p.binders[0][1] if inside is None else inside | p.binders[0][1]
    if inside is None or (dom & inside).empty():
        return False
    if (dom - inside).empty():
        return True
    raise SplitDomain(ko[0], inside)


class KeySet(Symbolic):
    """Keys of models, closed under set operations: a domain of generic keys."""
    pv_is_set = True

    def __init__(self, dom, mk):
        self.dom, self.mk = dom, mk

    def __and__(self, o):
        return KeySet(self.dom & o.dom, self.mk)

    def __or__(self, o):
        return KeySet(self.dom | o.dom, self.mk)

    def __sub__(self, o):
        return KeySet(self.dom - o.dom, self.mk)

    def __contains__(self, key):
        return member(key, [Part(b, x, None) for b, x in self.gens()])

    def __xor__(self, o):
        return KeySet((self.dom | o.dom) - (self.dom & o.dom), self.mk)
    union, intersection, difference = __or__, __and__, __sub__

    def copy(self):
        return KeySet(self.dom, self.mk)

    def pv_set(self):
        return self

    def gens(self):
        if self.dom.empty():
            return []
        i = fresh_index()
        CURRENT_DOM[i] = self.dom
        return [(((i, self.dom),), self.mk(i))]

    def pv_for(self, body, get, set_):
        return run_loop(self.gens(), body, get, set_)

    def pv_comp(self, kind, fn):
        return Comp(kind, self.gens(), fn)


class View(Symbolic):
    def __init__(self, parts, kind):
        self.parts, self.kind = parts, kind

    def gens(self):
        out = []
        for p in self.parts:
            m = {i: fresh_index() for i, d in p.binders}
            for i, d in p.binders:
                CURRENT_DOM[m[i]] = d
            key, val = rename(p.key, m), rename(p.val, m)
            x = (key, val) if self.kind == 'items' else val if self.kind == 'values' else key
            out.append((tuple((m[i], d) for i, d in p.binders), x))
        return out

    def pv_for(self, body, get, set_):
        return run_loop(self.gens(), body, get, set_)

    def pv_comp(self, kind, fn):
        return Comp(kind, self.gens(), fn)

    def pv_product(self, *views):
        return Product([v.gens() for v in views])

    def __iter__(self):
        # next(iter(values())) of a non-empty collection
        if not self.parts:
            return iter(())
        return iter([self.gens()[0][1]]) if not all(p.binders for p in self.parts) or len(self.parts) > 0 else iter(())

    def pv_len(self):
        raise Unsupported('number of terms')

    def __contains__(self, key):
        if self.kind != 'keys':
            raise Unsupported('membership in values')
        return member(key, self.parts)

    def __xor__(self, o):
        return self._ks() ^ (o._ks() if isinstance(o, View) else o)

    # set algebra of key views
    def _ks(self):
        dom, mk = None, None
        for p in self.parts:
            if not (len(p.binders) == 1 and key_ops(p.key) is not None and key_ops(p.key)[1] in ((), ('hop', 'coeff'))):
                raise Unsupported('set operation on transformed keys')
            dom = p.binders[0][1] if dom is None else dom | p.binders[0][1]
            mk = (lambda i, p=p: rename(p.key, {p.binders[0][0]: i}))
        if dom is None:
            raise Unsupported('set operation on an empty key set')
        return KeySet(dom, mk)

    def __and__(self, o):
        return self._ks() & (o._ks() if isinstance(o, View) else o)

    def __or__(self, o):
        return self._ks() | (o._ks() if isinstance(o, View) else o)

    def __sub__(self, o):
        return self._ks() - (o._ks() if isinstance(o, View) else o)

    def pv_set(self):
        return self._ks()


class Product(Symbolic):
    def __init__(self, gens):
        self.gs = gens

    def gens(self):
        return [(sum((b for b, x in combo), ()), tuple(x for b, x in combo)) for combo in itertools.product(*self.gs)]

    def pv_for(self, body, get, set_):
        return run_loop(self.gens(), body, get, set_)

    def pv_comp(self, kind, fn):
        return Comp(kind, self.gens(), fn)


def rename(x, m):
    from .algebra import _subst_index
    if isinstance(x, V):
        return x._n(_ren(x.e, m))
    if isinstance(x, HKey):
        return HKey(m.get(x.i, x.i), x.masks, x.pre, x.ops)
    if isinstance(x, Key):
        return Key(_ren(x.e, m), m.get(x.idx, x.idx), x.ops)
    if isinstance(x, Hop):
        return Hop(_ren(x.e, m), m.get(x.idx, x.idx), x.ops)
    if isinstance(x, tuple):
        y = tuple(rename(y, m) for y in x)
        return type(x)(*y) if type(x) is not tuple else y
    return x


def _ren(e, m):
    from .algebra import _subst_index
    return Expr([((tuple((m.get(i, i), d) for i, d in b), tuple(_subst_index(x, m) for x in s),
                   tuple(_subst_index(x, m) for x in w)), c) for (b, s, w), c in e.t.items()], e.rows, e.cols)


def sub_paths(fn):
    """Paths of fn for a generic element; facts about whole collections are decided on the outer path."""
    while True:
        try:
            return explore(fn, assumptions=list(E.ctx().pc) if E._ctx else ())
        except E.NeedOuter as e:
            E.decide(e.f)


class Keep(Symbolic):
    """An arbitrary set of kept keys."""
    pv_is_set = True

    def pv_comp(self, kind, fn):
        k = gen_key(fresh_index(), 'kept key')
        declare_scalar('kept key')
        r = fn(k)
        if kind == 'set' and len(r) == 1 and isinstance(r[0], Key) and r[0].e.same(k.e):
            return Keep(self.names)
        raise Unsupported('transformation of a filter')

    def __init__(self, names):
        self.names = frozenset(names)

    def __bool__(self):
        return E.decide(z3.Or([z3.Bool('nonempty<{}>'.format(n)) for n in sorted(self.names)])) if len(self.names) > 1 \
            else E.decide(z3.Bool('nonempty<{}>'.format(*self.names)))

    def __or__(self, o):
        if isinstance(o, Keep):
            return Keep(self.names | o.names)
        if o == set():
            return self
        return NotImplemented
    __ror__ = union = __or__

    def __and__(self, o):
        raise Unsupported('intersection of filters')

    def copy(self):
        return Keep(self.names)

    def pv_set(self):
        return self

    def __contains__(self, key):
        fs = [indicator(n, key) for n in sorted(self.names)]
        return E.decide(z3.Or(fs) if len(fs) > 1 else fs[0])

    def __eq__(self, o):
        return isinstance(o, Keep) and o.names == self.names

    def __hash__(self):
        return hash(self.names)

    def __repr__(self):
        return '|'.join(sorted(self.names))


INDICATOR = {}     # z3 name -> scalar letter


def indicator(k, key):
    e = key_expr(key)
    if len(e.t) != 1:
        raise Unsupported('membership of a sum')
    ((b, s, w), c), = e.t.items()
    lets = sorted(((x[0] if isinstance(x[0], str) else x[0][0], x[1], x[2]), None if isinstance(x[0], str) else x[0][1])
                  for x in s)
    sig, groups, idx = [], [], []
    for l, i in sorted(lets, key=repr):
        if i is not None:
            if sig and sig[-1] == l and groups:
                groups[-1] += 1
            else:
                groups.append(1)
            idx.append(i)
        sig.append(l)
    fam = 'in<{}>{}{}'.format(k, '' if c == G(1) else c, ''.join('[{}{}{}]'.format(n, '*' if cj else '', '' if a in (None, (1, ())) else a) for n, cj, a in sig))
    algebra.IND_GROUPS[fam] = groups
    declare_scalar(fam, 'real')
    letter = (((fam,) + tuple(idx)) if idx else fam, 0, None)
    from .algebra import set_indicators
    letter, = set_indicators([letter])
    name = 'in<>{}'.format(letter)
    INDICATOR[name] = letter
    return z3.Bool(name)


def indicator_expr(f):
    """Scalar 0/1 expression of a boolean combination of membership facts, or None."""
    if z3.is_true(f) or z3.is_false(f):
        return Expr([(((), (), ()), G(1 if z3.is_true(f) else 0))], None, None)
    one = Expr([(((), (), ()), G(1))], None, None)
    if z3.is_not(f):
        e = indicator_expr(f.arg(0))
        return None if e is None else one - e
    if z3.is_and(f):
        r = one
        for x in f.children():
            e = indicator_expr(x)
            if e is None:
                return None
            r = r.smul(e)
        return r
    if z3.is_or(f):
        return indicator_expr(z3.Not(z3.And([z3.Not(x) for x in f.children()])))
    if z3.is_const(f) and f.decl().name() in INDICATOR:
        return Expr([(((), (INDICATOR[f.decl().name()],), ()), G(1))], None, None)
    return None


def path_facts(pc):
    """Names of zero facts decided positively on a path."""
    zeros = []
    for f in pc:
        if z3.is_const(f) and f.decl().name() in ZERO_FACTS:
            z = ZERO_FACTS[f.decl().name()]
            zeros += z if isinstance(z, list) else [z]
    return zeros


def vanish(e, zeros):
    """e with the matrix letters known to be zero dropped."""
    if not zeros:
        return e
    gone = set()
    for z in zeros:
        if len(z.t) != 1:
            continue
        ((b, s, w), c), = z.t.items()
        for l in w[:1] if len(w) == 1 and not s else ():
            gone.add(l[0])
        if not w and len(s) == 1:
            gone.add(s[0][0])
    return Expr([(k, c) for k, c in e.t.items()
                 if not any(l[0] in gone for l in k[2]) and not any(x[0] in gone for x in k[1])], e.rows, e.cols)


def merge_paths(results):
    """results: [(pc, [parts])].  Returns the parts that represent all paths, or raises."""
    if len(results) == 1:
        return results[0][1]
    for pc, cand in results:
        ok = True
        for pc2, other in results:
            z = path_facts(pc2)
            a, b = total(cand, z), total(other, z)
            if (a is None) != (b is None):
                x = a if a is not None else b
                ok &= x.is_zero()
            elif a is not None:
                ok &= a.same(b)
            if not ok:
                break
        if ok:
            return cand
    # otherwise weigh the contribution of each path with the indicator of its membership facts
    outer = len(E.ctx().pc) if E._ctx else 0
    out = []
    for pc, parts in drop_presence(results, outer):
        ind = Expr([(((), (), ()), G(1))], None, None)
        for f in pc[outer:]:
            if E.is_global(f):      # decided on the outer path
                continue
            e = indicator_expr(f)
            if e is None:
                raise Unsupported('the contribution of a term depends on a condition without a contract: {}'.format(f))
            ind = ind.smul(e)
        out += [Part(p.binders, p.key, p.val._n(p.val.e.smul(ind))) for p in parts]
    return out


def drop_presence(results, outer):
    """Whether a key has been present before does not matter if it adds the same in both cases."""
    groups = {}
    for pc, parts in results:
        rest = [f for f in pc[outer:] if 'present<' not in str(f)]
        groups.setdefault(tuple(sorted(map(str, rest))), []).append((pc, rest, parts))
    out = []
    for g in groups.values():
        if len(g) > 1:
            ts = [total(parts, path_facts(pc)) for pc, rest, parts in g]
            if any((t is None) != (ts[0] is None) or (t is not None and not t.same(ts[0])) for t in ts):
                return results
        out.append((list(g[0][0][:outer]) + g[0][1], g[0][2]))
    return out


def total(parts, zeros=()):
    e = None
    for p in parts:
        d = vanish(p.den(), zeros)
        e = d if e is None else e + d
    return e


MUTLOG = [None]


class Carried:
    """A variable whose value depends on the previous iterations of a loop of unknown length."""
    def _no(self, *a, **k):
        raise Unsupported('value carried from one iteration of a loop to the next')
    for _n in ('__bool__', '__eq__', '__ne__', '__lt__', '__le__', '__gt__', '__ge__', '__add__', '__radd__', '__sub__', '__rsub__',
               '__mul__', '__rmul__', '__matmul__', '__rmatmul__', '__neg__', '__iter__', '__len__', '__contains__',
               '__getitem__', '__setitem__', '__call__', '__and__', '__or__', '__invert__', '__pow__', '__truediv__',
               '__iadd__', '__imul__', '__index__', '__float__', '__complex__'):
        locals()[_n] = _no
    __hash__ = None

    def __getattr__(self, name):
        raise Unsupported('value carried from one iteration of a loop to the next')


CLEAN = {}      # id of a model changed in a loop -> key signatures that are different in every iteration
CARRIED = 'carried'


def carried_part(model, v):
    """Unknown terms added by other iterations, of the kind of the value v."""
    i = fresh_index()
    declare_scalar(CARRIED + ' key')
    v = make_value(CARRIED + ' {}'.format(id(model)), v.shape, fmt_class(v), i, entries=isinstance(v, EntryV))
    return Part(((i, Dom.atom(CARRIED)),), Key(Expr([(((), (((CARRIED + ' key', i), 0, None),), ()), G(1))], None, None), i, None), v)


def is_carried(p):
    return any(repr(d).startswith(CARRIED) for i, d in p.binders)


def no_carry(parts):
    for p in parts:
        if is_carried(p) or CARRIED in repr(p.val.e) or CARRIED in repr(key_expr(p.key)):
            raise Unsupported('terms that depend on previous iterations of a loop')


class Log(list):
    """Writes to models, to be undone when the generic iteration is over."""
    def __init__(self):
        self.saved = {}

    def write(self, model, part):
        self.saved.setdefault(id(model), (model, model.parts))
        self.append((model, part))

    def undo(self):
        for m, parts in self.saved.values():
            m.parts = parts


def write_part(model, parts):
    if MUTLOG[-1] is not None:
        for p in parts:
            MUTLOG[-1].write(model, p)
    model.parts = model.parts + list(parts)


def run_loop(gens, body, get, set_):
    """Summarise a loop over a collection of unknown size by the contribution of a generic element."""
    before = get()
    outer = len(E.ctx().pc) if E._ctx else 0
    gens = list(gens)
    if known_empty_all(gens):
        return None

    def one_pass(start, written):
        updates, rebound, leaves, stays, changed, writes = {}, {}, [], [], set(), []

        def process(binders, x):
            def once():
                set_(start)
                log = Log()
                MUTLOG.append(log)
                try:
                    for m, extra in written.values():
                        log.saved[id(m)] = (m, m.parts)
                        m.parts = m.parts + [extra]
                    r = body(x)
                    after = get()
                    after = {k: (v, list(v.parts) if isinstance(v, ModelBase) else None) for k, v in after.items()}
                finally:
                    MUTLOG.pop()
                    log.undo()
                if isinstance(r, E._Ret) and (r.value is True or r.value is False or r.value is None):
                    return r, None
                if r is not None:
                    raise Unsupported('loop over terms left early')
                return log, after
            res = {}
            for p in sub_paths(once):
                if p.kind == 'raise':
                    raise p.value
                log, after = p.value
                if isinstance(log, E._Ret):
                    leaves.append(log.value)
                    continue
                stays.append((binders, p.pc))
                per = {}
                for model, part in log:
                    per.setdefault(id(model), (model, []))[1].append(part)
                    writes.append((model, binders, part))
                for k, (v, vparts) in after.items():
                    old = start.get(k)
                    if k not in start or v is old:
                        continue
                    changed.add(k)
                    if isinstance(old, ModelBase):
                        if not isinstance(v, ModelBase) or vparts[:len(old.parts)] != old.parts:
                            raise Unsupported('loop-carried model is not accumulated')
                        per.setdefault(('var', k), (k, []))[1].extend(vparts[len(old.parts):])
                res[tuple(map(str, p.pc))] = (p.pc, per)
            keys = {k for pc, per in res.values() for k in per}
            for k in keys:
                parts = merge_paths([(pc, per.get(k, (None, []))[1]) for pc, per in res.values()])
                obj = next(per[k][0] for pc, per in res.values() if k in per)
                parts = [Part(binders + p.binders, p.key, p.val) for p in parts]
                no_carry(parts)
                if isinstance(k, tuple):
                    rebound.setdefault(k[1], []).extend(parts)
                else:
                    updates.setdefault(k, (obj, []))[1].extend(parts)
        splitting(gens, process)
        set_(before)
        return updates, rebound, leaves, stays, changed, writes
    clean = dict(CLEAN)
    try:
        res = one_pass(before, {})
        # variables and models that later iterations see as changed by earlier ones
        for n in range(5):
            updates, rebound, leaves, stays, changed, writes = res
            start = dict(before)
            for k in changed:
                v = before[k]
                if isinstance(v, ModelBase):
                    start[k] = v.pv_clone()
                    if rebound.get(k):
                        start[k].parts = v.parts + [carried_part(v, rebound[k][0].val)]
                else:
                    start[k] = Carried()
            written = {}
            for k, (model, parts) in updates.items():
                if not parts:
                    continue
                written[k] = (model, carried_part(model, parts[0].val))
                ws = {}
                for m, binders, part in writes:
                    if m is model:
                        ws.setdefault((repr(binders), repr(key_expr(part.key)), len(part.binders)),
                                      Part(binders + part.binders, part.key, part.val))
                CLEAN[k] = frozenset() if collides(list(ws.values())) or any(key_ops(p.key) is None for p in ws.values()) else \
                    frozenset(key_ops(p.key)[1] for p in ws.values())
            res = one_pass(start, written)
            if res[4] <= changed and set(res[0]) <= set(updates):
                break
        else:
            raise Unsupported('loop-carried state')
        updates, rebound, leaves, stays, changed, writes = res
    finally:
        CLEAN.clear()
        CLEAN.update(clean)
    if leaves:
        # the loop runs to its end exactly if no element leaves it
        if updates or rebound or any(v is not leaves[0] for v in leaves):
            raise Unsupported('loop over terms left early')
        # (every path of an element that stays is a conjunction of facts about that element)
        elems = [(b, SBool(z3.And([f for f in pc[outer:] if not E.is_global(f)] or [z3.BoolVal(True)]))) for b, pc in stays]
        if len({repr(b) for b, y in elems}) != len(elems):
            raise Unsupported('loop over terms left early')
        staying = AllOf(Elems([(b, True if z3.is_true(y.f) else SBool(z3.simplify(y.f))) for b, y in elems]))
        if not staying:
            return E._Ret(leaves[0])
    for model, parts in updates.values():
        write_part(model, parts)
    for k in changed:
        if k not in rebound:
            set_({k: Carried()})
    for k, parts in rebound.items():
        m = before[k].pv_clone()
        m.parts = before[k].parts + parts
        set_({k: m})
    return None


def known_empty_all(gens):
    return bool(gens) and all(known_empty(b) for b, x in gens)


class Comp(Symbolic):
    """Comprehension over generic elements."""
    def __init__(self, kind, gens, fn):
        self.kind = kind
        self.elems = []        # (binders, element)
        self.src = gens

        def process(binders, x):
            res = []
            for p in sub_paths(lambda: fn(x)):
                if p.kind == 'raise':
                    raise p.value
                res.append((p.pc, p.value))
            if len(res) == 1:
                self.elems += [(binders, y) for y in res[0][1]]
            elif all(isinstance(y, ModelBase) for pc, ys in res for y in ys):
                full = max(res, key=lambda r: len(r[1]))[1]
                if len(full) != 1 or any(len(ys) > 1 for pc, ys in res):
                    raise Unsupported('conditional element')
                m = full[0].pv_clone()
                m.parts = merge_paths([(pc, ys[0].parts if ys else []) for pc, ys in res])
                self.elems.append((binders, m))
            else:
                self.elems += [(binders, y) for y in self._merge(binders, res)]
        splitting(gens, process)

    def _merge(self, binders, res):
        # a filter `if not value is zero`: the kept element contributes zero where it is filtered out
        full = max(res, key=lambda r: len(r[1]))[1]
        for pc, ys in res:
            z = path_facts(pc)
            if len(ys) == len(full):
                if any(part_of(a) is None or part_of(b) is None or not part_of(a).den().same(part_of(b).den())
                       for a, b in zip(ys, full)):
                    raise Unsupported('conditional element')
            elif not ys:
                for y in full:
                    p = part_of(y)
                    if p is None or not vanish(p.den(), z).is_zero():
                        raise Unsupported('elements filtered by a condition without a contract')
            else:
                raise Unsupported('conditional element')
        return full

    def pv_sum(self, start):
        parts, sample = [], None
        for binders, y in self.elems:
            if not isinstance(y, ModelBase):
                raise Unsupported('sum of {}'.format(type(y).__name__))
            if sample is not None and (y.momenta != sample.momenta):
                raise ContractError('sum of models with different momenta')
            sample = y
            parts += [Part(binders + p.binders, p.key, p.val) for p in y.parts]
        if isinstance(start, ModelBase):
            if sample is not None:
                if sample.momenta != start.momenta:
                    raise ContractError('sum of models with different momenta: {} and {}'.format(
                        start.momenta, sample.momenta))
                if start.shape != sample.shape or start.format is not sample.format:
                    raise ContractError('sum of models of different shapes or formats')
            m = start.pv_clone()
            m.parts = start.parts + parts
            return m
        if is_number(start) and start == 0:
            if not self.elems:
                return 0
            if SBool(z3.And([z3.Or([z3.Bool('empty<{!r}>'.format(d)) for i, d in b]) for b, y in self.elems])):
                return 0
            m = sample.pv_clone()
            m.parts = parts
            return m
        raise Unsupported('sum')

    def as_map(self):
        parts = []
        for binders, kv in self.elems:
            k, v = kv
            if isinstance(v, V):
                parts.append(Part(binders, k, v))
            else:
                raise Unsupported('dict of {}'.format(type(v).__name__))
        return SymMap(parts)

    def pv_all(self):
        return AllOf(self)

    def pv_set(self):
        if self.elems and all(not isinstance(y, V) for b, y in self.elems):
            return View([Part(b, y, ScalV._make(Expr([(((), (), ()), G(1))], None, None))) for b, y in self.elems], 'keys')
        raise Unsupported('set of values')


def part_of(y):
    if isinstance(y, tuple) and len(y) == 2 and isinstance(y[1], V):
        return Part((), y[0], y[1])
    return None


class Elems:
    def __init__(self, elems):
        self.elems = elems


class AllOf:
    """all(...) over generic elements: a fact named by what is required of which keys."""
    def __init__(self, comp):
        self.comp = comp

    def __bool__(self):
        elems = []
        for b, y in self.comp.elems:
            if y is False and b:        # fails for every term: true only if there is no term
                if E.decide(empty_formula([Part(b, None, None)])):
                    continue
                return False
            elems.append((b, y))
        sig = all_signature(elems)
        if sig is False or sig == ():
            return sig == ()
        return E.decide(z3.Bool('forall<{}>'.format(sig)))


def all_signature(elems):
    """Canonical description of a universally quantified requirement: for every minterm of the key sets, the
    expressions that have to vanish."""
    need = []
    for b, y in elems:
        if y is True:
            continue
        if y is False:
            if not b:
                return False
            raise Unsupported('a requirement that fails for every term')
        f = E.formula(y)
        for g in (f.children() if z3.is_and(f) else [f]):
            if not (z3.is_const(g) and g.decl().name() in ZERO_FACTS):
                raise Unsupported('quantified condition {}'.format(g))
            z = ZERO_FACTS[g.decl().name()]
            need.append((b, z, g.decl().name().split(';', 1)[1] if ';' in g.decl().name() else ''))
    atoms = sorted({a for b, z, x in need for i, d in b for a in d.atoms})
    out = set()
    for b, z, extra in need:
        if len(b) != 1:
            raise Unsupported('quantified condition on several terms')
        (i, d), = b
        for t in sorted(d._lift(tuple(atoms))):
            dd = Dom(tuple(atoms), {t})
            es = []
            for sgn in (1, -1):
                es.append(repr(Expr([((((i, dd),) + bb, s, w), c) for (bb, s, w), c in z.scale(sgn).t.items()], z.rows, z.cols)))
            if min(es) != '0':
                out.add((min(es), extra))
    return tuple(sorted(out))


def all_fact(parts, extra=''):
    """The fact that these (domain, expression) requirements hold for all keys."""
    elems = []
    for i, d, e in parts:
        name = 'zero<{}>{}'.format(e, extra)
        ZERO_FACTS[name] = e
        elems.append((((i, d),), SBool(z3.Bool(name))))
    return z3.Bool('forall<{}>'.format(all_signature(elems)))


ALL_FACTS = {}


class SymMap(Symbolic):
    """dict {key: value}"""
    def __init__(self, parts):
        self.parts = list(parts)
        check_no_collision(self.parts)

    def items(self):
        return View(self.parts, 'items')

    def keys(self):
        return View(self.parts, 'keys')

    def values(self):
        return View(self.parts, 'values')

    def copy(self):
        return SymMap(self.parts)

    def __contains__(self, key):
        return member(key, self.parts)

    def __eq__(self, o):
        if o == {} if isinstance(o, dict) else False:
            return SBool(empty_formula(self.parts))
        raise Unsupported('comparison of term dictionaries')
    __hash__ = None

    def pv_for(self, body, get, set_):
        return self.keys().pv_for(body, get, set_)

    def pv_comp(self, kind, fn):
        return self.keys().pv_comp(kind, fn)

    def pv_len(self):
        raise Unsupported('number of terms')


abc.Mapping.register(SymMap)


def check_no_collision(parts):
    """Distinct terms of a dict comprehension must have distinct keys, or terms would be lost."""
    if len(parts) == 1 and not parts[0].binders:
        return
    sig = None
    doms = []
    for p in parts:
        if not p.binders:
            if len(parts) > 1:
                raise Unsupported('explicit and generic keys mixed')
            continue
        ko = key_ops(p.key)
        if ko is None or len(p.binders) != 1 or ko[0] != p.binders[0][0]:
            raise ContractError('two terms may get the same key and overwrite each other: {!r}'.format(p.key))
        if sig is None:
            sig = ko[1]
        if ko[1] != sig:
            raise Unsupported('differently transformed keys in one dictionary')
        for d in doms:
            if not (d & p.binders[0][1]).empty():
                raise ContractError('two terms may get the same key and overwrite each other')
        doms.append(p.binders[0][1])


class MutMap(SymMap):
    """The term dictionary of a model under construction."""
    def __init__(self, model):
        self.model = model

    parts = property(lambda self: self.model.parts)

    def items(self):
        self.model.abstract()
        return View(self.parts, 'items')

    def keys(self):
        self.model.abstract()
        return View(self.parts, 'keys')

    def values(self):
        self.model.abstract()
        return View(self.parts, 'values')

    def __contains__(self, key):
        return key in self.model

    def __getitem__(self, key):
        if key not in self.model:
            raise KeyError(key)
        return Old(self.model, key)

    def __setitem__(self, key, item):
        if not isinstance(item, V):
            raise Unsupported('stored value {}'.format(type(item)))
        delta = item
        if key in self.model:
            delta = item + (-(Old(self.model, key).like(item)))
        write_part(self.model, [Part((), key, delta)])


class Old:
    """Value already stored for a key."""
    def __init__(self, model, key):
        self.name = 'present value<{!r}><{}>'.format(key_expr(key), model.version())

    def like(self, v):
        return make_value(self.name, v.shape, fmt_class(v), entries=isinstance(v, EntryV))

    def __add__(self, v):
        return self.like(v) + v
    __radd__ = __add__


DEFS = {}       # abstracted family -> (its generic sum, what that sum stands for)


def collides(parts):
    try:
        check_no_collision(parts)
        return False
    except (ContractError, Unsupported):
        return True


def abstract_family(parts, bloch=False):
    """One generic term per key of a dictionary whose construction may have merged keys."""
    name = 'F{}'.format(len(DEFS))
    i = fresh_index()
    v = parts[0].val
    val = make_value(name, v.shape, fmt_class(v), i, entries=isinstance(v, EntryV))
    MEMBER_OF[name] = name
    k0 = parts[0].key
    if isinstance(k0, HKey):
        key = HKey(i, k0.masks, name + '.')
    elif isinstance(k0, tuple):
        hop = Hop(Expr([(((), (((name + ' phase', i), 0, (1, ())),), ()), G(1))], None, None), i)
        SCAL_ATTR[name + ' phase'] = frozenset(['phase'])
        declare_scalar(name + ' coeff')
        key = type(k0)(hop, Key(Expr([(((), (((name + ' coeff', i), 0, None),), ()), G(1))], None, None), i))
    else:
        declare_scalar(name + ' key')
        key = gen_key(i, name + ' key')
    out = [Part(((i, Dom.atom(name)),), key, val)]
    DEFS[name] = (total(out), total(parts), parts)
    return out


def resolve(e):
    """Replace the generic sums of abstracted dictionaries by what they stand for."""
    for name in sorted(DEFS, key=lambda n: -int(n[1:])):
        pat, what, parts = DEFS[name]
        if any(x[0] != name and not isinstance(x[0], str) and x[0][0] == name for (b, s, w) in e.t for x in list(s) + list(w)):
            n = count_of(e, pat)
            if n is not None:
                e = e - pat.scale(n) + what.scale(n)
    return e


def count_of(e, pat):
    k, c = next(iter(pat.t.items()))
    return (e.t[k] * c.inv()) if k in e.t else None


class Factor(Key):
    def __init__(self, e, number):
        Key.__init__(self, e)
        self.is_number = number


class HKey(Key):
    """Key given by a user: a sum of products of factors, each a number or an expression with symbols.
    masks: one tuple of flags (is the factor a number?) per summand."""
    def __init__(self, i, masks, pre='', ops=()):
        self.i, self.masks, self.pre = i, masks, pre
        e = Expr.zero(None, None)
        for t in self.as_ordered_terms():
            p = Expr([(((), (), ()), G(1))], None, None)
            for f in t.as_ordered_factors():
                p = p.smul(f.e)
            e = e + p
        Key.__init__(self, e, i, ops)

    def expand(self, *a, **k):
        if a or k:
            raise Unsupported('expand')
        return self

    def powsimp(self, combine=None, **k):
        if k:
            raise Unsupported('powsimp')
        return self

    def as_ordered_terms(self):
        return [Summand(self, n) for n in range(len(self.masks))]


class Summand(Key):
    def __init__(self, key, n):
        self.key, self.n = key, n

    def as_ordered_factors(self):
        out = []
        for m, num in enumerate(self.key.masks[self.n]):
            name = '{}{}{}.{}'.format(self.key.pre, 'number' if num else 'symbol', self.n, m)
            declare_scalar(name)
            out.append(Factor(Expr([(((), (((name, self.key.i), 0, None),), ()), G(1))], None, None), num))
        return out


def sy_mul(*keys):
    e = Expr([(((), (), ()), G(1))], None, None)
    for k in keys:
        if not isinstance(k, Key):
            raise Unsupported('sympy.Mul')
        e = e.smul(k.e)
    r = Key(e)
    r.is_number = all(getattr(k, 'is_number', False) for k in keys)
    return r


def sym_complex(x, *a):
    if isinstance(x, Key):
        if not x.is_number:
            raise ContractError('conversion of a symbolic key to a number')
        return ScalV._make(x.e)
    if isinstance(x, V) and x.isscalar:
        return ScalV._make(x.e)
    return complex(x, *a)


class _Cx(type):
    def __call__(cls, *a):
        return sym_complex(*a)

    def __instancecheck__(cls, x):
        return isinstance(x, complex)


class SymComplex(metaclass=_Cx):
    """complex()"""


def merge_keep(parts, keep):
    out = []
    for p in parts:
        res = sub_paths(lambda: [p] if p.key in keep else [])
        out += merge_paths([(q.pc, q.value) for q in res])
    return out


def dict_builder(items):
    items = list(items)
    if items and all(isinstance(v, V) for k, v in items) and any(not isinstance(k, str) for k, v in items):
        if len(items) == 1:
            return SymMap([Part((), items[0][0], items[0][1])])
        raise Unsupported('dictionary with several explicit symbolic keys')
    if items and all(isinstance(v, MomComp) for k, v in items):
        return SubsMap(items[0][1].vec)
    return None


class MomVec:
    """sympy vector M k of the momenta"""
    def __init__(self, sign, word):
        self.sign, self.word = sign, word

    def __rmatmul__(self, M):
        if not isinstance(M, Mat) or len(M.e.t) != 1 or (M.e.rows, M.e.cols) != ('d', 'd'):
            raise ContractError('momenta multiplied by {}'.format(M))
        ((b, s, w), c), = M.e.t.items()
        if c.im != 0 or abs(c.re) != 1:
            raise ContractError('momenta multiplied by {}'.format(M))
        return MomVec(self.sign * int(c.re), w + self.word)
    __rmul__ = __rmatmul__


class MomComp:
    def __init__(self, vec):
        self.vec = vec


class SubsMap:
    def __init__(self, vec):
        self.lin = (vec.sign, vec.word)


class MomAll:
    def __init__(self, m):
        self.m = m


class Momenta(Symbolic):
    """Tuple of the momentum symbols."""
    def __init__(self, name='momenta'):
        self.name = name

    def __iter__(self):
        return iter([MomAll(self)])        # tuple(momenta): the same momenta

    def __eq__(self, o):
        return isinstance(o, Momenta) and o.name == self.name

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.name)

    def pv_len(self):
        return Dim('d')

    def __repr__(self):
        return self.name

    def pv_zip(self, *a):
        if len(a) == 2 and a[0] is self and isinstance(a[1], MomVec):
            return MomZip(self, a[1])
        raise Unsupported('zip of momenta')


class MomList(tuple):
    """d concrete momentum symbols"""
    def __new__(cls, d):
        return tuple.__new__(cls, [mom(i) for i in range(d)])

    def __eq__(self, o):
        return isinstance(o, MomList) and len(o) == len(self)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(len(self))


def mom(i):
    declare_scalar('k{}'.format(i), 'real')
    k = Key(Expr([(((), (('k{}'.format(i), 0, None),), ()), G(1))], None, None))
    k.momentum = i
    return k


def apply_scalar_function(f, e):
    """f applied to the scalar letters of an indexed family: f(key_i) as an unknown scalar."""
    out = []
    for (b, s, w), c in e.t.items():
        if len(s) != 1 or isinstance(s[0][0], str) or c != G(1) or w:
            raise Unsupported('{} of {}'.format(f, e))
        (n, cj, arg), = s
        fam = '{}({})'.format(f, n[0])
        declare_scalar(fam)
        out.append(((b, (((fam,) + tuple(n[1:]), cj, arg),), ()), c))
    return Expr(out, None, None)


def derivative(e, i):
    return apply_scalar_function('d/dk{} '.format(i), e)


def sy_diff(key, k, *a):
    if isinstance(key, Key) and getattr(k, 'momentum', None) is not None and not a:
        return Key(derivative(key.e, k.momentum))
    raise Unsupported('sympy.diff')


class MomZip(Symbolic):
    def __init__(self, momenta, vec):
        self.m, self.vec = momenta, vec

    def pv_comp(self, kind, fn):
        k, v = object(), MomComp(self.vec)
        r = fn((k, v))
        if kind in ('dict', 'list') and len(r) == 1 and r[0][0] is k and r[0][1] is v:
            return SubsMap(self.vec)
        raise Unsupported('substitution of the momenta')

    def pv_dict(self):
        return SubsMap(self.vec)


def sy_matrix(x):
    if isinstance(x, Momenta):
        return MomVec(1, ())
    if isinstance(x, Mat):
        return W.SymMat(x.e)
    raise Unsupported('sympy.Matrix')


def comp_hook(kind, comp):
    return comp.as_map()


_old_comp = E.Hooks.comp


def _comp(self, kind, it, fn):
    r = _old_comp(self, kind, it, fn)
    if kind == 'dict' and isinstance(r, Comp):
        return r.as_map()
    return r


E.Hooks.comp = _comp
E.DICT_BUILDERS.append(dict_builder)


ONE_KEY = Key(Expr([(((), (), ()), G(1))], None, None))


class ModelBase:
    """Marker; contract models derive from it and from the loaded Model class."""


def copy_contract(v):
    return v.copy() if hasattr(v, 'copy') else v


def imports(**extra):
    np_ = Stub('numpy', ndarray=NdArray, complex128=Complex128, zeros=zeros, sum=np_sum, trace=np_trace, array=np_array,
               asarray=asarray, eye=np_eye, allclose=allclose, around=np_around, round=np_around, dot=lambda a, b: a @ b, isclose=isclose)
    sparse = Stub('scipy.sparse', spmatrix=SpMat, csr_matrix=CsrMat, linalg=Stub('scipy.sparse.linalg', LinearOperator=LinOp,
                  aslinearoperator=lambda x: LinOpV._make(x.e)), issparse=lambda x: isinstance(x, SpMat))
    sy = Stub('sympy', I=IMAG, Matrix=sy_matrix, Expr=SExpr, Add=SumExpr, MatrixBase=MatrixBase, Basic=Basic,
              diff=sy_diff, Mul=sy_mul, ImmutableMatrix=W.SympyImmutable)
    kc = Stub('.kwant_continuum', momentum_operators=[], e='e', make_commutative=lambda *a: a[0])
    d = {'numpy': np_, 'scipy': Stub('scipy', sparse=sparse), 'scipy.sparse': sparse, 'sympy': sy,
         'sympy.core.numbers': Stub('n', One=lambda: Key(Expr([(((), (), ()), G(1))], None, None))),
         'sympy.matrices.matrices': Stub('m', MatrixBase=MatrixBase), 'sympy.core.basic': Stub('b', Basic=Basic),
         'sympy.core.function': Stub('f', AppliedUndef=type('AppliedUndef', (), {})),
         'copy': Stub('copy', copy=copy_contract, deepcopy=copy_contract),
         '.linalg': Stub('.linalg', allclose=allclose), '.kwant_continuum': kc}
    d.update(extra)
    return d


CACHE = {}


def find_momenta(m):
    """contract of _find_momenta: the momentum symbols of these names"""
    if isinstance(m, tuple) and len(m) == 1 and isinstance(m[0], MomAll):
        return m[0].m
    if isinstance(m, tuple) and all(isinstance(x, str) for x in m):
        return Momenta(','.join(m))
    if isinstance(m, MomList):
        return m
    raise Unsupported('_find_momenta')


def normalizer(key):
    """contract of _symbol_normalizer: a key of the same value"""
    if isinstance(key, HKey):
        return HKey(key.i, key.masks, key.pre, None)     # normal forms of user keys may coincide
    if isinstance(key, Key):
        return Key(key.e, key.idx, key.ops)
    raise Unsupported('_symbol_normalizer({})'.format(type(key).__name__))


def world():
    """Loads model.py; returns (module, contract class factory)."""
    if 'w' in CACHE:
        return CACHE['w']
    mod = E.load('model', imports(), dict(_find_momenta=find_momenta, _symbol_normalizer=normalizer,
                                          _shape_and_format=lambda v: (v.shape, fmt_class(v)),
                                          copy=copy_contract),
                 builtin_overrides=dict(complex=SymComplex))
    CACHE['w'] = mod
    return mod


def fmt_class(v):
    if isinstance(v, (DenseV, EntryV)):
        return NdArray
    if isinstance(v, ScalV):
        return Complex128
    if isinstance(v, CsrV):
        return CsrMat
    if isinstance(v, LinOpV):
        return LinOp
    raise Unsupported('format of {}'.format(type(v)))


FMT = dict(dense=NdArray, entry=NdArray, scalar=Complex128, csr=CsrMat, lo=LinOp)


def contract_class(mod, base, real=()):
    """Subclass of the real Model/BlochModel whose helper methods are replaced by their contracts, except
    those named in `real`, whose source is executed."""
    class CModel(ModelBase, getattr(mod, base)):
        def __init__(self, hamiltonian=None, locals=None, momenta='DEFAULT', keep=None, symbol_normalizer=None,
                     normalize=False, shape=None, format=None):
            self.parts = []
            self.entries = isinstance(hamiltonian, SymMap) and any(isinstance(p.val, EntryV) for p in hamiltonian.parts)
            if isinstance(hamiltonian, SymMap):
                self.parts = list(hamiltonian.parts)
            elif hamiltonian is None or hamiltonian == {}:
                pass
            elif isinstance(hamiltonian, ModelBase):
                self.parts = list(hamiltonian.parts)
                momenta = hamiltonian.momenta
            else:
                raise Unsupported('Model({})'.format(type(hamiltonian).__name__))
            self.momenta = momenta
            self.keep = set() if keep is None else keep
            if self.keep and not isinstance(hamiltonian, ModelBase):
                self.parts = merge_keep(self.parts, self.keep)
            self.shape, self.format = shape, format
            if isinstance(hamiltonian, SymMap) and hamiltonian.parts and not self.parts:
                self.shape, self.format = hamiltonian.parts[0].val.shape, fmt_class(hamiltonian.parts[0].val)
            if self.parts and (shape is None or format is None):
                self.shape, self.format = self.parts[0].val.shape, fmt_class(self.parts[0].val)

        entries = False     # values are stand-ins for one entry of the matrices

        def pv_clone(self):
            m = object.__new__(type(self))
            m.entries = self.entries
            m.parts, m.momenta, m.keep, m.shape, m.format = list(self.parts), self.momenta, self.keep, self.shape, self.format
            return m

        def abstract(self):
            if len(self.parts) and any(p.binders for p in self.parts) and collides(self.parts):
                self.parts = abstract_family(self.parts)

        @property
        def data(self):
            if '__init__' in real:
                return MutMap(self)
            return SymMap(self.parts)

        @data.setter
        def data(self, d):
            if isinstance(d, SymMap):
                self.parts = list(d.parts)
            elif d == {}:
                self.parts = []
            else:
                raise Unsupported('data = {}'.format(type(d)))

        def items(self):
            self.abstract()
            return View(self.parts, 'items')

        def keys(self):
            self.abstract()
            return View(self.parts, 'keys')

        def values(self):
            self.abstract()
            return View(self.parts, 'values')

        def den(self):
            e = total(self.parts)
            if e is None:
                if self.shape == () or self.entries:
                    return Expr.zero(None, None)
                return Expr.zero(self.shape[0].name, self.shape[1].name)
            return e

        def __contains__(self, key):
            parts = self.parts
            if any(is_carried(p) for p in parts):
                ko = key_ops(key)
                if ko is None or ko[1] not in CLEAN.get(id(self), ()):
                    return self.present(key)
                parts = [p for p in parts if not is_carried(p)]
            for p in parts:
                if not p.binders and key_expr(p.key).same(key_expr(key)):
                    return True
            if any(not p.binders for p in parts):
                return self.present(key)
            try:
                return member(key, parts)
            except Unsupported:
                return self.present(key)

        def present(self, key):
            return E.decide(z3.Bool('present<{!r}><{}>'.format(key_expr(key), self.version())))

        def version(self):
            """Name of the current contents."""
            return '{} {}'.format(getattr(self, 'fam', None) or '', ' '.join(sorted(repr(p.den()) for p in self.parts)))

        def __iter__(self):
            raise Unsupported('iteration over a model')

        def pv_for(self, body, get, set_):
            return self.keys().pv_for(body, get, set_)

        def pv_comp(self, kind, fn):
            return self.keys().pv_comp(kind, fn)

        def pv_len(self):
            raise Unsupported('number of terms')

        def __len__(self):
            raise Unsupported('number of terms')

        # -- contract of __getitem__: the coefficient of the key, zero if absent
        def __getitem__(self, key):
            if is_number(key) and key == 1:
                return self.pv_coeff(ONE_KEY)
            ko = key_ops(key)
            dom = None if ko is None else CURRENT_DOM.get(ko[0])
            out = zero_value(self.shape, self.format, self.entries)
            parts = self.parts
            if any(is_carried(p) for p in parts):
                if ko is None or ko[1] not in CLEAN.get(id(self), ()):
                    return self.pv_coeff(key)
                parts = [p for p in parts if not is_carried(p)]
            own = [p for p in parts if not p.binders]
            parts = [p for p in parts if p.binders]
            if any(not key_expr(p.key).same(key_expr(key)) for p in own):
                return self.pv_coeff(key)
            if dom is None and not parts and own:
                for p in own:
                    out = out + p.val
                return out
            if dom is not None and all(len(p.binders) == 1 and key_ops(p.key) is not None for p in parts):
                for p in own:
                    out = out + p.val
                for p in parts:
                    (i, d), = p.binders
                    k2 = key_ops(p.key)
                    if k2[1] != ko[1]:
                        break
                    if (d & dom).empty():
                        continue
                    if not ((dom - d).empty() or vanishes_outside(p.val, i, d)):
                        raise SplitDomain(ko[0], d)
                    out = out + rename(p.val, {i: ko[0]})
                else:
                    return out
            return self.pv_coeff(key)

        def pv_coeff(self, key):
            """Coefficient of one particular key as an unknown value."""
            if not self.parts:
                return zero_value(self.shape, self.format, self.entries)
            fam = getattr(self, 'fam', None)
            if fam is None or any(not p.binders or is_carried(p) for p in self.parts):
                fam = self.version()
            name = 'coeff<{}><{}>'.format(key_expr(key), fam)
            return make_value(name, self.shape, self.format, entries=self.entries)

        # -- contract of __setitem__: replaces the coefficient
        def __setitem__(self, key, item):
            if not isinstance(item, V) or fmt_class(item) is not self.format or item.shape != self.shape:
                raise ContractError('value {} of format {} stored in a model of shape {} and format {}'.format(
                    item.shape if isinstance(item, V) else type(item),
                    fmt_class(item).__name__ if isinstance(item, V) else '', self.shape, self.format))
            old = self[key]
            write_part(self, [Part((), key, item - old if not old.e.is_zero() else item)])

        # -- contract of +: sum of the functions
        def __add__(self, o):
            if is_number(o) and o == 0:
                return self.pv_clone()
            if isinstance(o, ModelBase):
                if self.parts and o.parts:
                    if self.momenta != o.momenta:
                        raise ContractError('sum of models with different momenta')
                    if self.shape != o.shape or self.format is not o.format:
                        raise ContractError('sum of models of shapes {} and {}, formats {} and {}'.format(
                            self.shape, o.shape, self.format.__name__, o.format.__name__))
                m = (self if self.parts or not o.parts else o).pv_clone()
                m.parts = self.parts + o.parts
                return m
            return NotImplemented

        def __radd__(self, o):
            if is_number(o) and o == 0:
                return self.pv_clone()
            return NotImplemented

        def zeros_like(self):
            m = self.pv_clone()
            m.parts = []
            m.keep = self.keep.copy()
            if hasattr(m, 'fam'):
                del m.fam
            return m

        def copy(self):
            return self.pv_clone()

        def __neg__(self):
            m = self.pv_clone()
            m.parts = [Part(p.binders, p.key, -p.val) for p in self.parts]
            return m

        def __mul__(self, o):
            if is_number(o) or (isinstance(o, V) and o.isscalar):
                m = self.pv_clone()
                m.parts = [Part(p.binders, p.key, p.val * o) for p in self.parts]
                return m
            return NotImplemented
        __rmul__ = __mul__

        def __matmul__(self, o):
            if isinstance(o, (V, Mat)):
                m = self.pv_clone()
                m.parts = [Part(p.binders, p.key, p.val @ o) for p in self.parts]
                m.shape = (self.shape[0], o.shape[1])
                m.format = NdArray
                return m
            return NotImplemented

        def __rmatmul__(self, o):
            if isinstance(o, (V, Mat)):
                m = self.pv_clone()
                m.parts = [Part(p.binders, p.key, o @ p.val) for p in self.parts]
                m.shape = (o.shape[0], self.shape[1])
                m.format = NdArray
                return m
            return NotImplemented

        def conj(self):
            m = self.pv_clone()
            m.parts = [Part(p.binders, Key(key_expr(p.key).conj()), p.val.conj()) for p in self.parts]
            return m

        def toarray(self):
            m = self.pv_clone()
            m.parts = [Part(p.binders, p.key, DenseV._make(p.val.e)) for p in self.parts]
            m.format = NdArray
            return m

        def transform_symbolic(self, func):
            """contract: sum of func(key) * value"""
            m = self.zeros_like()
            m.parts = []
            for p in self.parts:
                k = func(p.key)
                m.parts.append(Part(p.binders, k, p.val))
            return m

    for name in real:
        real_cls = getattr(mod, base)
        setattr(CModel, name, next(c.__dict__[name] for c in real_cls.__mro__ if name in c.__dict__))
    CModel.__name__ = base
    return CModel


def vanishes_outside(v, i, d):
    """Every term of the value contains a coefficient (at index i) of a family whose keys lie in d."""
    for (b, s, w), c in v.e.t.items():
        for x in list(w) + list(s):
            if not isinstance(x[0], str) and x[0][1] == i and x[0][0] in MEMBER_OF:
                if (Dom.atom(MEMBER_OF[x[0][0]]) - d).empty():
                    break
        else:
            return False
    return True


CURRENT_DOM = {}


def zero_value(shape, format, entries=False):
    if entries and shape != ():
        return EntryV._make(Expr.zero(None, None))
    cls = {NdArray: DenseV, Complex128: ScalV, CsrMat: CsrV, LinOp: LinOpV}[format]
    return cls._make(Expr.zero(None, None) if shape == () else Expr.zero(shape[0].name, shape[1].name))


def make_value(name, shape, format, idx=None, entries=False):
    if format == 'entry' or entries and shape != ():
        declare_scalar(name)
        return EntryV._make(Expr([(((), ((name if idx is None else (name, idx), 0, None),), ()), G(1))], None, None))
    cls = {NdArray: DenseV, Complex128: ScalV, CsrMat: CsrV, LinOp: LinOpV}[format]
    l = name if idx is None else (name, idx)
    if shape == ():
        declare_scalar(name)
        return cls._make(Expr([(((), ((l, 0, None),), ()), G(1))], None, None))
    if name not in ATTR:
        declare(name, shape[0].name, shape[1].name)
    return cls._make(Expr([(((), (), ((l, 0, 0, 0, None),)), G(1))], shape[0].name, shape[1].name))


def family(cls, name, shape, fmt, momenta=None, bloch=False, mod=None, keep=()):
    """The arbitrary model `name`."""
    i = fresh_index()
    m = object.__new__(cls)
    m.momenta, m.keep, m.shape, m.format = momenta or Momenta(), keep if isinstance(keep, Keep) else set(keep), shape, FMT[fmt]
    m.fam = name
    m.entries = fmt == 'entry'
    v = make_value(name, shape, FMT[fmt], i, entries=m.entries)
    MEMBER_OF[name] = name
    if bloch:
        hop = Hop(Expr([(((), ((('phase', i), 0, (1, ())),), ()), G(1))], None, None), i)
        ck = Key(Expr([(((), ((('coeff', i), 0, None),), ()), G(1))], None, None), i)
        key = mod.BlochCoeff(hop, ck)
    else:
        key = gen_key(i)
    m.parts = [Part(((i, Dom.atom(name)),), key, v)]
    return m


def den_of(name, shape, fmt='dense', bloch=False, mod=None):
    return total(family(_Spec, name, shape, fmt, bloch=bloch, mod=mod).parts)


class _Spec(ModelBase):
    pass


def holds_on_path(a, b, pc):
    """a = b given the emptiness and zero facts of the path."""
    a = resolve(a)
    s = z3.Solver()
    s.add(*pc)
    if not a.t:
        a = Expr.zero(b.rows, b.cols)      # the shape of an empty model is checked separately
    d = a - b
    keep = []
    for (bi, sc, w), c in d.t.items():
        fams = {x for i, dd in bi for x, v in dd if v}
        s.push()
        s.add([z3.Not(z3.Bool('empty<{!r}>'.format(Dom.atom(f)))) for f in fams])
        gone = bool(fams) and s.check() == z3.unsat
        s.pop()
        if not gone:
            keep.append(((bi, sc, w), c))
    e = d
    if len(keep) != len(d.t):
        e = Expr.zero(d.rows, d.cols)
        e.t = dict(keep)
    return vanish(e, path_facts(pc)).is_zero()
