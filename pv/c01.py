"""C01: product, inverse, powers and identity of point group elements."""
import itertools

import sympy as sp
import z3

from . import engine as E, matworld as W
from .algebra import Expr, declare
from .engine import explore, load, Unsupported, SBool
from .obl import obligation, assumption

P = 'C01'
assumption(P, 'floating point arithmetic is exact and allclose is equality (numerical tolerance is covered by the bounded layer only)',
           'unitary parts are unitary, spatial parts real and invertible (documented preconditions)',
           'numpy, tinyarray, scipy.linalg.inv and sympy matrix operations compute the mathematical operation of their name',
           'Model.rotate_momenta, conj, negation and @ have the contracts proved under C02, C05 and C06')

for n in ('R1', 'R2', 'R3'):
    declare(n, 'd', 'd', 'real', 'invertible')
for n in ('U1', 'U2', 'U3'):
    declare(n, 'n', 'n', 'unitary')
declare('H', 'n', 'n')
REPS = dict(int=W.IntArr, float=W.FloatArr, sympy=W.SymMat)
FLAGS = (False, True)


def value_make_int(R):
    """Contract of _make_int (proved below): same value, possibly another representation."""
    if not isinstance(R, W.Mat):
        raise Unsupported('_make_int')
    return W.FloatArr(R.e) if isinstance(R, W.Dense) else R


def mul_contract(R1, R2):
    return W.FloatArr(R1.e @ R2.e)


def inv_contract(R):
    return W.FloatArr(R.e.inv())


def groups(modular=True):
    ov = dict(_make_int=value_make_int)
    if modular:
        ov.update(_mul=mul_contract, _inv=inv_contract)
    return load('groups', W.imports(), ov)


def R(n, rep='float'):
    return REPS[rep](Expr.letter(n))


def U(n):
    return W.Dense(Expr.letter(n))


def hamiltonian():
    return W.AbsModel(Expr.letter('H', (1, ())))


def elements(g, i, with_u, strict=(False,)):
    for c, a, s in itertools.product(FLAGS, FLAGS, strict):
        yield g.PointGroupElement(R('R%d' % i), c, a, U('U%d' % i) if with_u else None, _strict_eq=s), c, a, s


def run(fn):
    paths = explore(fn)
    if not paths:
        raise Unsupported('no feasible path')
    return paths


def returns(ob, label, fn):
    """Values of all paths; an exception refutes."""
    out = []
    for p in run(fn):
        if p.kind == 'raise':
            ob.check(label + ' returns', False, 'raises {}: {}'.format(type(p.value).__name__, p.value))
        else:
            out.append(p)
    return out


def spec_action(g_R, c, a, u, m):
    """The documented action, written independently of the code."""
    (((b, s, w), co),) = g_R.inv().t.items()
    h = m.compose(-1 if c else 1, w)
    if c:
        h = h.conj()
    if a:
        h = h.scale(-1)
    if u is not None:
        h = u @ h @ u.conj().T()
    return h


@obligation((P, 'C02'), ['groups.PointGroupElement.apply', 'groups.PointGroupElement.__init__'])
def apply_formula(ob):
    g = groups()
    for with_u in FLAGS:
        for x, c, a, s in elements(g, 1, with_u):
            for p in returns(ob, 'apply', lambda: x.apply(hamiltonian())):
                ob.same('apply(H)(k) = (+/-) U H(+/- R^-1 k)(*) U^dagger', p.value.e,
                        spec_action(Expr.letter('R1'), c, a, Expr.letter('U1') if with_u else None,
                                    Expr.letter('H', (1, ()))))
                ob.check('apply keeps the momenta', p.value.momenta == 'momenta', p.value.momenta)


@obligation(P, ['groups.PointGroupElement.__mul__', 'groups.PointGroupElement.__init__'])
def product_fields(ob):
    g = groups()
    for u1, u2 in itertools.product(FLAGS, FLAGS):
        for (x, c1, a1, s1), (y, c2, a2, s2) in itertools.product(elements(g, 1, u1, FLAGS), elements(g, 2, u2, FLAGS)):
            for p in returns(ob, 'product', lambda: x * y):
                z = p.value
                ob.same('spatial part of a*b is R_a R_b', z.R.e, Expr.letter('R1') @ Expr.letter('R2'))
                ob.check('flags combine by exclusive or', (bool(z.conjugate), bool(z.antisymmetry)) == (c1 ^ c2, a1 ^ a2))
                ob.check('strictness is inherited', bool(z._strict_eq) == (s1 or s2))
                if u1 and u2:
                    e2 = Expr.letter('U2')
                    ob.check('U is set', z.U is not None)
                    ob.same('unitary part is U_a U_b, conjugated if a is antiunitary', z.U.e,
                            Expr.letter('U1') @ (e2.conj() if c1 else e2))
                else:
                    ob.check('no unitary part if either has none', z.U is None)


@obligation(P, ['groups.PointGroupElement.inv'])
def inverse_fields(ob):
    g = groups()
    for u1 in FLAGS:
        for x, c, a, s in elements(g, 1, u1, FLAGS):
            for p in returns(ob, 'inverse', lambda: x.inv()):
                z = p.value
                ob.same('spatial part of the inverse', z.R.e, Expr.letter('R1').inv())
                ob.check('flags of the inverse', (bool(z.conjugate), bool(z.antisymmetry), bool(z._strict_eq)) == (c, a, s))
                if u1:
                    e = Expr.letter('U1')
                    ob.same('unitary part of the inverse', z.U.e, e.T() if c else e.T().conj())
                else:
                    ob.check('inverse has no unitary part', z.U is None)


@obligation(P, ['groups.PointGroupElement.identity', 'groups.identity'])
def identity_fields(ob):
    g = groups()
    for u1 in FLAGS:
        for x, c, a, s in elements(g, 1, u1, FLAGS):
            for p in returns(ob, 'identity', lambda: x.identity()):
                z = p.value
                ob.check('identity element', z.R.e.same(Expr.one('d')) and not z.conjugate and not z.antisymmetry
                         and (z.U is None) == (not u1) and (z.U is None or z.U.e.same(Expr.one('n'))))
    for shape in (None, W.Dim('n')):
        for p in returns(ob, 'identity()', lambda: g.identity(W.Dim('d'), shape)):
            z = p.value
            ob.check('identity()', z.R.e.same(Expr.one('d')) and not z.conjugate and not z.antisymmetry
                     and (z.U is None) == (shape is None) and (z.U is None or z.U.e.same(Expr.one('n'))))


@obligation(P, ['groups.PointGroupElement.__mul__', 'groups.PointGroupElement.inv', 'groups.PointGroupElement.apply'])
def action_lemmas(ob):
    """(a*b) acts as a after b, inverses undo from both sides, the identity does nothing."""
    g = groups()
    H = Expr.letter('H', (1, ()))
    for u in FLAGS:
        for (x, c1, a1, _), (y, c2, a2, _) in itertools.product(elements(g, 1, u), elements(g, 2, u)):
            for p in returns(ob, 'composition', lambda: ((x * y).apply(hamiltonian()), x.apply(y.apply(hamiltonian())))):
                ob.same('(a*b).apply(H) = a.apply(b.apply(H))', p.value[0].e, p.value[1].e)
        for x, c, a, _ in elements(g, 1, u):
            for p in returns(ob, 'inverse action', lambda: (
                    x.inv().apply(x.apply(hamiltonian())), x.apply(x.inv().apply(hamiltonian())),
                    (x * x.inv()), (x.inv() * x), x.identity().apply(hamiltonian()))):
                ob.same('inverse undoes the operation', p.value[0].e, H)
                ob.same('operation undoes the inverse', p.value[1].e, H)
                for z in p.value[2:4]:
                    ob.check('a*a^-1 and a^-1*a are the identity', z.R.e.same(Expr.one('d')) and not z.conjugate
                             and not z.antisymmetry and (z.U is None or z.U.e.same(Expr.one('n'))))
                ob.same('identity leaves H unchanged', p.value[4].e, H)
        for t in itertools.product(*(list(elements(g, i, u)) for i in (1, 2, 3))):
            (x, *_), (y, *_), (z, *_) = t
            for p in returns(ob, 'associativity', lambda: ((x * y) * z, x * (y * z))):
                l, r = p.value
                ob.check('product is associative', l.R.e.same(r.R.e) and l.conjugate == r.conjugate
                         and l.antisymmetry == r.antisymmetry and (l.U is None) == (r.U is None)
                         and (l.U is None or l.U.e.same(r.U.e)))


# ---- powers: induction over the loop

class Count:
    """A non-negative loop count |n| of a symbolic integer n."""
    def __init__(self, sign):
        self.sign = sign

    def __ge__(self, o):
        if o == 0:
            return self.sign >= 0
        return SBool(z3.Int('n') >= o)

    def __lt__(self, o):
        return E.SBool(z3.Not(E.formula(self >= o)))

    def __gt__(self, o):
        return SBool(z3.Int('n') > o)

    def __eq__(self, o):
        return SBool(z3.Int('n') == o)

    def __le__(self, o):
        return SBool(z3.Int('n') <= o)
    __hash__ = None

    def __abs__(self):
        return Abs()

    def __neg__(self):
        return Neg(self)


class Abs(E.Symbolic):
    def pv_range(self, *a):
        if len(a) != 1:
            raise Unsupported('range with bounds')
        return PowLoop()


class Neg:
    def __init__(self, n):
        self.n = n

    def pv_range(self, *a):
        if len(a) != 1 or self.n.sign >= 0:
            raise Unsupported('range(-n) of a non-negative n')
        return PowLoop()


class PowLoop(E.Symbolic):
    """for _ in range(|n|): the loop contract is 'the accumulator is (step)^i'.

    The only loop-carried variable must start as the identity element and be multiplied in every iteration
    by the same element; the result is then power(element, |n|)."""
    def pv_for(self, body, get, set_):
        st0 = get()
        probe = body(0)
        if probe is not None:
            raise Unsupported('loop left early')
        st1 = get()
        carried = [k for k in st1 if k in st0 and st1[k] is not st0[k]]
        extra = [k for k in st1 if k not in st0]
        if len(carried) != 1:
            raise Unsupported('loop-carried variables: {}'.format(carried))
        v = carried[0]
        POW['init'] = st0[v]
        # arbitrary iteration: havoc the accumulator
        havoc = POW['havoc']
        set_({**st0, v: havoc})
        if body(0) is not None:
            raise Unsupported('loop left early')
        POW['step'] = get()[v]
        set_({v: POW['final']})
        return None


POW = {}


@obligation(P, ['groups.PointGroupElement.__pow__'])
def powers(ob):
    """Loop invariant of a**n: after i iterations the accumulator is h^i, h = a or a^-1 (all n, by induction)."""
    g = groups()
    for u in FLAGS:
        for x, c, a, _ in elements(g, 1, u):
            for sign in (1, -1):
                h = {1: x, -1: x.inv()}[sign]

                def go():
                    POW.clear()
                    POW['havoc'] = g.PointGroupElement(R('R2'), False, False, U('U2') if u else None)
                    POW['final'] = g.PointGroupElement(R('R3'), False, False, U('U3') if u else None)
                    r = x ** Count(sign)
                    return r, dict(POW)
                for p in returns(ob, 'power', go):
                    r, st = p.value
                    if 'init' not in st:
                        ob.check('power is computed by iterated multiplication', None, 'no loop over range(|n|) found')
                        continue
                    z = st['init']
                    ob.check('invariant initially: accumulator = h^0 = identity',
                             z.R.e.same(Expr.one('d')) and not z.conjugate and not z.antisymmetry
                             and (z.U is None) == (not u) and (z.U is None or z.U.e.same(Expr.one('n'))))
                    w = st['step']
                    # acc commutes with h if acc = h^i: either order of multiplication is h^(i+1)
                    acc = st['havoc']
                    right, left = acc * h, h * acc
                    ok = any(w.R.e.same(t.R.e) and w.conjugate == t.conjugate and w.antisymmetry == t.antisymmetry
                             and (w.U is None) == (t.U is None) and (w.U is None or w.U.e.same(t.U.e))
                             for t in (right, left))
                    ob.check('invariant preserved: accumulator * h (h = a for n >= 0, a^-1 for n < 0)', ok,
                             'step gives {}'.format(w.R))
                    ob.check('the accumulator is returned', r is st['final'])
    # the step above was taken for a unitary, symmetric accumulator; the product contract covers the other flags


@obligation(P, ['groups._mul'])
def spatial_product(ob):
    g = load('groups', W.imports(), dict(_make_int=value_make_int))
    for r1, r2 in itertools.product(REPS, REPS):
        mixed = 'sympy' in (r1, r2) and 'float' in (r1, r2)
        for p in run(lambda: g._mul(R('R1', r1), R('R2', r2))):
            if mixed:
                ob.check('mixing exact and floating spatial parts is refused', p.kind == 'raise' and isinstance(p.value, ValueError))
            elif p.kind == 'raise':
                ob.check('_mul returns', False, repr(p.value))
            else:
                ob.same('_mul(R1, R2) = R1 R2', p.value.e, Expr.letter('R1') @ Expr.letter('R2'))
                if r1 == r2 == 'sympy' or {r1, r2} == {'int', 'sympy'}:
                    ob.check('exact factors have an exact product', isinstance(p.value, (W.SymMat, W.IntArr)))


declare('Rint', 'd', 'd', 'real', 'invertible', 'integer')


@obligation(P, ['groups._inv'])
def spatial_inverse(ob):
    inv_int = lambda A: W.IntArr(A.e.inv())       # contract of _inv_int, proved below for d <= 3
    from .algebra import ATTR
    imp = W.imports()
    imp['.linalg'] = E.Stub('.linalg', allclose=W.allclose, _inv_int=inv_int, prop_to_id=None)
    imp['tinyarray'] = E.Stub('tinyarray', **{**vars(W.TA), 'array': lambda x, dtype=None: (
        W.IntArr(x.e) if dtype is int else W.FloatArr(x.e))})
    g = load('groups', imp, dict(_make_int=value_make_int))
    for rep in REPS:
        for p in returns(ob, '_inv', lambda: g._inv(R('R1', rep))):
            ob.same('_inv(R) = R^-1', p.value.e, Expr.letter('R1').inv())
            if rep != 'float':
                ob.check('exactness is kept', isinstance(p.value, REPS[rep]))


@obligation(P, ['groups._make_int', 'groups.is_sympy_matrix'])
def make_int(ob):
    g = load('groups', W.imports())
    for rep in REPS:
        W.Facts.eqs.clear()
        for p in returns(ob, '_make_int', lambda: g._make_int(R('R1', rep))):
            ob.check('_make_int keeps the value', W.known_equal(p.value.e, Expr.letter('R1'), p.pc), repr(p.value))
            ob.check('_make_int returns an integer array or its argument',
                     isinstance(p.value, W.IntArr) or isinstance(p.value, REPS[rep]))


@obligation(P, ['groups.PointGroupElement.__init__'])
def constructor(ob):
    g = groups()
    for rep in list(REPS) + ['ndarray', 'mutable']:
        for u, c, a, s in itertools.product(FLAGS, FLAGS, FLAGS, FLAGS):
            Rv = (W.Dense(Expr.letter('R1')) if rep == 'ndarray' else W.MutSymMat(Expr.letter('R1')) if rep == 'mutable'
                  else R('R1', rep))
            for p in returns(ob, 'constructor', lambda: g.PointGroupElement(Rv, c, a, U('U1') if u else None, _strict_eq=s)):
                z = p.value
                ob.same('R is stored', z.R.e, Expr.letter('R1'))
                ob.check('flags are stored', (z.conjugate, z.antisymmetry, z._strict_eq) == (c, a, s))
                ob.check('U is stored', (z.U is None) == (not u) and (z.U is None or z.U.e.same(Expr.letter('U1'))))


@obligation(P, ['linalg._inv_int'])
def integer_inverse(ob):
    """_inv_int(A) A = 1 for all integer matrices with determinant +-1 of size 1, 2, 3: the inverse contract
    of scipy is applied to a matrix of symbols and the rounding acts on an integer matrix."""
    seen = {}

    class IArr:
        def __init__(self, m, integer=True):
            self.m, self.integer = sp.Matrix(m), integer

        def __eq__(self, o):
            if isinstance(o, IArr):
                return self.m == o.m
            return False

        def __ne__(self, o):
            return not self == o
        __hash__ = None

    class DetVal:
        def __init__(self, v):
            self.v = v

        def __abs__(self):
            return AbsDet(self.v)

    class AbsDet(DetVal):
        pass

    def isclose(x, y, **k):
        # precondition of the obligation: determinant is 1 or -1
        if isinstance(x, AbsDet) and y == 1:
            seen['det'] = x.v
            return True
        if isinstance(x, DetVal) and y in (1, -1):
            return SBool(z3.Bool('det_is_%d' % y))
        raise Unsupported('isclose')

    def arr(x, dtype=None):
        if not isinstance(x, IArr):
            raise Unsupported('array')
        if dtype is int and not x.integer:
            # conversion to int truncates: exact only if the value is an integer by construction
            raise ContractError('conversion to integers without rounding')
        return IArr(x.m)

    def rnd(x, *a):
        # the exact inverse is an integer matrix (adjugate times +-1): rounding is the identity
        return IArr(x.m, True)
    from .engine import ContractError
    for d in (1, 2, 3):
        A = sp.Matrix(d, d, sp.symbols('a0:%d' % (d * d)))
        np_ = E.Stub('numpy', isclose=isclose, round=rnd, array=arr, empty=lambda s: IArr(sp.zeros(0, 0)))
        l = load('linalg', {'numpy': np_, 'tinyarray': E.Stub('tinyarray', array=arr),
                            'scipy.linalg': E.Stub('la', det=lambda x: DetVal(x.m.det()),
                                                   inv=lambda x: IArr(x.m.inv(), False)),
                            'scipy': E.Stub('scipy', linalg=E.Stub('la')), 'scipy.sparse.linalg': E.Stub('sla')})
        for p in returns(ob, '_inv_int', lambda: l._inv_int(IArr(A))):
            r = p.value
            ob.check('_inv_int checks the determinant of the argument', 'det' in seen and sp.expand(seen['det'] - A.det()) == 0,
                     backend='sympy')
            ob.check('_inv_int(A) A = 1 for every integer A of size %d with det +-1' % d,
                     (r.m * A).applyfunc(sp.simplify) == sp.eye(d), r.m, 'sympy')
            adj = (r.m * A.det()).applyfunc(sp.cancel)
            ob.check('the inverse is det times an integer matrix',
                     all(sp.Poly(x, *A).domain.is_ZZ for x in adj), adj, 'sympy')
