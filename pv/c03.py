"""C03: equality, hashing and ordering of point group elements.

The comparison methods are executed from their source on elements whose spatial parts are arbitrary values of a
sort V, so that every answer becomes a formula; z3 then proves the documented meaning and the laws of an
equivalence relation and of a strict total order from these formulas."""
import itertools

import z3

from . import engine as E, matworld as W
from .algebra import Expr, declare
from .engine import explore, load, Stub, SBool, Unsupported, ContractError
from .obl import obligation, assumption

P = 'C03'
assumption(P, 'allclose and isclose are equality (tolerance is covered by the bounded layer; equality within a tolerance is not transitive)',
           'tinyarray compares its arrays lexicographically, which is a strict total order on matrices of one shape',
           'hash() of integer tinyarrays and sympy matrices depends on their value only',
           'unitary parts are unitary')
V = z3.DeclareSort('SpatialMatrix')
K = z3.DeclareSort('PhaseClass')
ONE = z3.Const('identity', V)
LESS = z3.Function('lexicographic', V, V, z3.BoolSort())
x, y, z = z3.Consts('x y z', V)
ORDER = [z3.ForAll([x], z3.Not(LESS(x, x))),
         z3.ForAll([x, y, z], z3.Implies(z3.And(LESS(x, y), LESS(y, z)), LESS(x, z))),
         z3.ForAll([x, y], z3.Or(x == y, LESS(x, y), LESS(y, x)))]
for n in ('U1', 'U2', 'U3'):
    declare(n, 'n', 'n', 'unitary')
declare('Rdummy', 'd', 'd', 'real', 'invertible')


class Val:
    """A spatial matrix in some representation."""
    def __init__(self, v):
        self.v = v

    shape = property(lambda self: (W.Dim('d'), W.Dim('d')))

    def __eq__(self, o):
        if not isinstance(o, Val):
            return NotImplemented
        return SBool(self.v == o.v)

    def __ne__(self, o):
        return SBool(z3.Not(self.v == o.v))

    def __lt__(self, o):
        return SBool(LESS(self.v, o.v))

    def __gt__(self, o):
        return SBool(LESS(o.v, self.v))

    def __hash__(self):
        raise Unsupported('hash of a symbolic matrix')

    def astype(self, t):
        if t is not float:
            raise Unsupported('astype')
        return VDense(self.v)


class VInt(Val, W.NdInt):
    pass


class VFloat(Val, W.NdFloat):
    pass


class VSym(Val, W.ImmutableMatrix):
    pass


class VDense(Val, W.NdArray):
    pass


class Hash:
    def __init__(self, items):
        self.items = items


def sym_hash(t):
    if isinstance(t, tuple):
        return Hash(t)
    raise Unsupported('hash')


def hash_equal(a, b):
    if not isinstance(a, Hash) or not isinstance(b, Hash) or len(a.items) != len(b.items):
        return z3.BoolVal(False)
    out = []
    for p, q in zip(a.items, b.items):
        if isinstance(p, Val) and isinstance(q, Val) and type(p) is type(q):
            out.append(p.v == q.v)
        elif isinstance(p, (bool, SBool)) and isinstance(q, (bool, SBool)):
            out.append(E._f(p) == E._f(q))
        else:
            return z3.BoolVal(False)
    return z3.And(out)


class Coeff:
    def __init__(self, fact):
        self.fact = fact

    def __abs__(self):
        return Modulus(self.fact)


class Modulus(Coeff):
    pass


def phase(i, j):
    return z3.Const('class U%d' % i, K) == z3.Const('class U%d' % j, K)


def prop_contract(m):
    """prop_to_id(X): X = c 1.  With X = U_i^dagger U_j (or its conjugate) this says U_j = c U_i, |c| = 1."""
    for i, j in itertools.permutations((1, 2, 3), 2):
        a, b = Expr.letter('U%d' % i), Expr.letter('U%d' % j)
        if (a @ m.e).same(b) or (a.conj() @ m.e).same(b.conj()) \
                or (m.e @ a).same(b) or (m.e @ a.conj()).same(b.conj()):
            return SBool(phase(i, j)), Coeff(phase(i, j))
        if (m.e.same(Expr.one('n'))):
            return True, Coeff(z3.BoolVal(True))
    raise ContractError('the matrix compared with the identity does not relate the two unitaries: {}'.format(m.e))


def isclose(a, b, **k):
    if isinstance(a, Modulus) and b == 1 and not k:
        return SBool(z3.BoolVal(True)) if z3.is_true(a.fact) else SBool(a.fact)
    raise Unsupported('isclose')


def allclose(a, b, *r, **k):
    if isinstance(a, Val) and isinstance(b, Val) and not r and not k:
        return SBool(a.v == b.v)
    raise Unsupported('allclose')


def ta_array(m, t=None):
    if t is float and isinstance(m, Val):
        return VFloat(m.v)
    if t is None and isinstance(m, VDense):
        return VFloat(m.v)
    raise Unsupported('ta.array')


def np_eye(n, dtype=None):
    return VDense(ONE)


def eq_contract(a, b):
    return SBool(a.v == b.v)


def inv_contract(R):
    return type(R)(z3.Function('inverse', V, V)(R.v))


def mul_contract(a, b):
    return VFloat(z3.Function('product', V, V, V)(a.v, b.v))


def module(**ov):
    im = W.imports()
    im['tinyarray'] = Stub('tinyarray', array=ta_array, ndarray_float=W.NdFloat, ndarray_int=W.NdInt)
    base = {k: v for k, v in vars(im['numpy']).items() if not k.startswith('_')}
    wnp_array = base['array']

    def np_array(m, *a, **k):
        return VDense(m.v) if isinstance(m, Val) and not a and not k else wnp_array(m, *a, **k)
    im['numpy'] = Stub('numpy', **base)
    im['numpy'].__dict__.update(array=np_array, eye=np_eye, identity=np_eye, isclose=isclose, abs=abs, ndarray=W.NdArray)
    im['.linalg'] = Stub('.linalg', prop_to_id=prop_contract, allclose=allclose, _inv_int=None)
    g = load('groups', im, dict(_make_int=lambda R: R, **ov), dict(hash=sym_hash))
    return g


REPS = dict(int=VInt, float=VFloat, sympy=VSym)


def element(g, i, rep='float', u=False, strict=False):
    c, a = SBool(z3.Bool('antiunitary%d' % i)), SBool(z3.Bool('antisymmetry%d' % i))
    e = object.__new__(g.PointGroupElement)
    e.R, e.conjugate, e.antisymmetry = REPS[rep](z3.Const('R%d' % i, V)), c, a
    e.U, e._strict_eq = W.Dense(Expr.letter('U%d' % i)) if u else None, strict
    return e


def outcome(fn, assumptions=()):
    """Formula: fn() returns a true value."""
    fs = []
    for p in explore(fn, assumptions):
        if p.kind == 'raise':
            raise ContractError('raises {}: {} on {}'.format(type(p.value).__name__, p.value, p.pc))
        r = p.value
        fs.append(z3.And([*p.pc, E._f(r)]))
    return z3.Or(fs)


def flag(i, n):
    return z3.Bool(('antiunitary%d' if n == 0 else 'antisymmetry%d') % i)


def same_basic(i, j):
    return z3.And(z3.Const('R%d' % i, V) == z3.Const('R%d' % j, V), flag(i, 0) == flag(j, 0), flag(i, 1) == flag(j, 1))


@obligation(P, ['groups._eq'])
def spatial_equality(ob):
    """_eq compares values, whatever the representations."""
    g = module()
    for r1, r2 in itertools.product(REPS, repeat=2):
        a, b = REPS[r1](z3.Const('R1', V)), REPS[r2](z3.Const('R2', V))
        ob.prove('equal exactly if the values are', outcome(lambda: g._eq(a, b)) == (a.v == b.v))


def eq(g, i, j, us, ss, reps=('float', 'float', 'float')):
    a = element(g, i, reps[i - 1], us[i - 1], ss[i - 1])
    b = element(g, j, reps[j - 1], us[j - 1], ss[j - 1])
    return outcome(lambda: a == b)


TF = (False, True)


@obligation(P, ['groups.PointGroupElement.__eq__', 'groups.PointGroupElement.inv', 'groups.PointGroupElement.__mul__'])
def equality(ob):
    g = module(_eq=eq_contract, _inv=inv_contract, _mul=mul_contract)
    for us in itertools.product(TF, repeat=2):
        for ss in itertools.product(TF, repeat=2):
            f = eq(g, 1, 2, us, ss)
            spec = same_basic(1, 2)
            if any(ss):
                spec = z3.And(spec, phase(1, 2) if all(us) else z3.BoolVal(us[0] == us[1]))
            ob.prove('documented meaning', f == spec)
            ob.prove('symmetric', f == eq(g, 2, 1, us, ss))
            same = [z3.Const('R1', V) == z3.Const('R2', V), flag(1, 0) == flag(2, 0), flag(1, 1) == flag(2, 1),
                    z3.Const('class U1', K) == z3.Const('class U2', K)]
            if us[0] == us[1]:
                ob.prove('reflexive', f, same)
    for us in itertools.product(TF, repeat=3):
        for s in TF:
            f12, f23, f13 = (eq(g, i, j, us, (s, s, s)) for i, j in ((1, 2), (2, 3), (1, 3)))
            ob.prove('transitive among elements of the same strictness', z3.Implies(z3.And(f12, f23), f13))


@obligation(P, ['groups.PointGroupElement.__hash__', 'groups.PointGroupElement.__eq__'])
def hashing(ob):
    g = module(_eq=eq_contract, _inv=inv_contract, _mul=mul_contract)
    for rep in REPS:
        for us in itertools.product(TF, repeat=2):
            for ss in itertools.product(TF, repeat=2):
                f = eq(g, 1, 2, us, ss, (rep, rep))
                a, b = element(g, 1, rep, us[0], ss[0]), element(g, 2, rep, us[1], ss[1])
                for p in explore(lambda: (a.__hash__(), b.__hash__())):
                    if p.kind == 'raise':
                        ob.check('hash returns', False, p.value)
                        continue
                    ob.prove('equal elements have equal hashes', z3.Implies(f, hash_equal(*p.value)), p.pc)


def lt(g, i, j, reps):
    a, b = element(g, i, reps[i - 1]), element(g, j, reps[j - 1])
    return outcome(lambda: a < b)


@obligation(P, ['groups.PointGroupElement.__lt__'])
def ordering(ob):
    g = module(_eq=eq_contract)
    for reps in itertools.product(REPS, repeat=2):
        f = lt(g, 1, 2, reps)
        c1, a1, c2, a2 = flag(1, 0), flag(1, 1), flag(2, 0), flag(2, 1)
        R1, R2 = z3.Const('R1', V), z3.Const('R2', V)
        spec = z3.Or(z3.And(z3.Not(c1), c2), z3.And(c1 == c2, z3.Not(a1), a2),
                     z3.And(c1 == c2, a1 == a2, z3.If(z3.Xor(R1 == ONE, R2 == ONE), R1 == ONE, LESS(R1, R2))))
        ob.prove('unitary first, then symmetries, identity, lexicographic', f == spec, ORDER)
    reps = ('float',) * 3
    f12, f21, f23, f13 = lt(g, 1, 2, reps), lt(g, 2, 1, reps), lt(g, 2, 3, reps), lt(g, 1, 3, reps)
    ob.prove('asymmetric', z3.Not(z3.And(f12, f21)), ORDER)
    ob.prove('transitive', z3.Implies(z3.And(f12, f23), f13), ORDER)
    ob.prove('distinct elements are comparable', z3.Implies(z3.Not(same_basic(1, 2)), z3.Or(f12, f21)), ORDER)
    ob.prove('elements that agree are not ordered', z3.Implies(same_basic(1, 2), z3.Not(f12)), ORDER)


# ---------------------------------------------------------------- linalg: prop_to_id and allclose

class Entries:
    """A square matrix given by its entries, a function of two indices (real numbers stand for the field)."""
    def __init__(self, f):
        self.f = f

    shape = property(lambda self: (W.Dim('n'), W.Dim('n')))

    def __getitem__(self, ij):
        return Num(self.f(*[z3.IntVal(i) for i in ij]))

    def __truediv__(self, c):
        if not isinstance(c, Num):
            raise Unsupported('division')
        return Entries(lambda i, j: self.f(i, j) / c.v)


class Num:
    def __init__(self, v):
        self.v = v


SIZE = z3.Int('n')


def _in(i, j):
    return z3.And(i >= 0, j >= 0, i < SIZE, j < SIZE)


def forall_equal(a, b):
    i, j = z3.Ints('i j')
    return z3.ForAll([i, j], z3.Implies(_in(i, j), a(i, j) == b(i, j)))


def entry_close(a, b, **k):
    if k:
        raise Unsupported('tolerance')
    if isinstance(a, Num) and b in (0,):
        return SBool(a.v == 0)
    if isinstance(a, Entries) and isinstance(b, Entries):
        return SBool(forall_equal(a.f, b.f))
    raise Unsupported('isclose')


def delta(i, j):
    return z3.If(i == j, z3.RealVal(1), z3.RealVal(0))


@obligation(P, ['linalg.prop_to_id'])
def proportional_to_identity(ob):
    np = Stub('numpy', isclose=entry_close, allclose=entry_close, zeros=lambda s: Entries(lambda i, j: z3.RealVal(0)),
              eye=lambda *s: Entries(delta))
    l = load('linalg', dict(numpy=np))
    A = z3.Function('A', z3.IntSort(), z3.IntSort(), z3.RealSort())
    lam = z3.Real('lambda')
    i, j = z3.Ints('i j')
    prop = lambda c: z3.ForAll([i, j], z3.Implies(_in(i, j), A(i, j) == z3.If(i == j, c, z3.RealVal(0))))
    for p in explore(lambda: l.prop_to_id(Entries(A)), [SIZE >= 1]):
        if p.kind == 'raise':
            ob.check('returns', False, p.value)
            continue
        ok, c = p.value
        c = c.v if isinstance(c, Num) else z3.RealVal(c)
        if ok is True:
            ob.prove('a multiple of the identity is reported with its factor', prop(c), p.pc)
        elif ok is False:
            ob.prove('everything else is rejected', z3.Not(prop(lam)), p.pc)
        else:
            ob.check('answers true or false', False, ok)


class Arr:
    """Array, sparse matrix, operator, list or number with an abstract value."""
    kinds = ('array', 'sparse', 'operator', 'list', 'number')

    def __init__(self, name, shape, size=None):
        self.name, self.shape, self.size = name, shape, size


class NArr(Arr, W.NdArray):
    def __sub__(self, o):
        return NArr(('-', self.name, o.name), self.shape)


class SpM:
    pass


class SpArr(Arr, SpM):
    def __sub__(self, o):
        if isinstance(o, SpArr):
            return SpArr(('-', self.name, o.name), self.shape)
        return NArr(('-', self.name, o.name), self.shape)

    @property
    def data(self):
        return NArr(('stored entries', self.name), 'some')


class LinOp:
    pass


class OpArr(Arr, LinOp):
    def __matmul__(self, o):
        if o == ('eye', self.shape[-1]):
            return NArr(self.name, self.shape)
        raise Unsupported('operator product')


def narr_rsub(self, o):
    return NArr(('-', o.name, self.name), self.shape)


class ListArr(Arr, list):
    def __init__(self, name, shape):
        Arr.__init__(self, name, shape)


class NumArr(Arr):
    pass


@obligation((P, 'C05', 'C08'), ['linalg.allclose'])
def closeness(ob):
    """linalg.allclose: |a - b| <= atol + rtol max(|a|, |b|) for all storage formats; empty arrays compare shapes."""
    rec = []
    Number = type('Number', (), {})

    class NumberArr(NumArr, Number):
        pass

    def np_asarray(a):
        return NArr(a.name, a.shape)

    def np_allclose(diff, b, rtol, atol, equal_nan=False):
        rec.append((diff, b, rtol, atol, equal_nan))
        return SBool(z3.Bool('close'))

    def np_eye(n, dtype=None):
        return ('eye', n)

    mx = lambda a: Tol('max', a.name[1]) if a.name[0] == 'abs' else _unsup()

    def _unsup():
        raise Unsupported('max of something else than absolute values')

    class Tol:
        """linear combination of maxima of absolute values"""
        def __init__(self, *k):
            self.k = k

        def __mul__(self, c):
            return Tol('*', c, self.k)
        __rmul__ = __mul__

        def __add__(self, c):
            return Tol('+', c, self.k)
        __radd__ = __add__

        def __gt__(self, o):
            return SBool(z3.Bool('greater {} {}'.format(self.k, o.k)))

    tols = []

    def np_abs(a):
        return type(a)(('abs', a.name), a.shape)
    np = Stub('numpy', asarray=np_asarray, eye=np_eye, prod=lambda s: Prod(s), max=mx, abs=np_abs, allclose=np_allclose,
              ndarray=W.NdArray)

    class Prod:
        def __init__(self, s):
            self.s = s

        def __eq__(self, o):
            return SBool(z3.Bool('empty')) if o == 0 else NotImplemented
        __hash__ = None
    sla = Stub('scipy.sparse.linalg', LinearOperator=LinOp)
    sp = Stub('scipy.sparse', spmatrix=SpM)
    NArr.__rsub__ = narr_rsub
    kinds = dict(array=NArr, sparse=SpArr, operator=OpArr, list=ListArr, number=NumberArr)
    sh, sh2 = (W.Dim('m'), W.Dim('n')), (W.Dim('m'), W.Dim('p'))
    for k1, k2 in itertools.product(kinds, repeat=2):
        if {k1, k2} == {'list', 'number'} or 'sparse' in (k1, k2) and {'list', 'number'} & {k1, k2}:
            continue

        def call(other=False, **kw):
            l = load('linalg', {'numpy': np, 'scipy': Stub('scipy', sparse=sp), 'scipy.sparse': sp, 'scipy.sparse.linalg': sla,
                                'numbers': Stub('numbers', Number=Number)},
                     builtin_overrides=dict(max=lambda *a: Tol('max', frozenset(t.k for t in a))))
            del rec[:]
            return l.allclose(kinds[k1]('a', sh if k1 != 'number' else ()), kinds[k2]('b', (sh2 if other else sh) if k2 != 'number' else ()), **kw), list(rec)
        if 'number' not in (k1, k2):
            for other in TF:
                for p in explore(lambda: call(other), [z3.Bool('empty')]):
                    ob.check('empty arrays of one shape are close', p.kind == 'return' and not p.value[1]
                             and bool(p.value[0]) == (not other), p.value)
        for kw in ({}, dict(rtol='RTOL', atol='ATOL')):
            for p in explore(lambda: call(**kw)):
                if p.kind == 'raise':
                    ob.check('returns', False, '{} for {} and {}'.format(p.value, k1, k2))
                    continue
                r, calls = p.value
                if not calls:
                    ob.prove('only empty arrays are compared by shape', z3.Bool('empty'), p.pc)
                    continue
                (diff, b, rtol, atol, en), = calls
                ob.check('the answer is that of the comparison', isinstance(r, SBool) and r.f.eq(z3.Bool('close')), r)
                want = ('-', 'a', 'b')
                ob.check('the difference is compared with zero', diff.name in (want, ('stored entries', want)) and b == 0, diff.name)
                ob.check('the tolerance is relative to the largest entry', rtol == 0 and isinstance(atol, Tol)
                         and atol.k == ('+', kw.get('atol', 1e-8), ('*', kw.get('rtol', 1e-5), ('max', frozenset([('max', 'a'), ('max', 'b')])))),
                         getattr(atol, 'k', atol))
