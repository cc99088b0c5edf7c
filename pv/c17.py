"""C17: lattice reduction, closest vectors, Voronoi vectors.

lll is executed on exact symbolic arrays (numpy object arrays of sympy expressions) for every basis of one to four
vectors: rows are written in the orthogonal frame of the Gram-Schmidt vectors, norms are arbitrary positive numbers.
cvp is proved for any dimension, voronoi for one to three dimensions."""
import functools
import itertools
import types

import numpy as np
import sympy as sp
import z3

from . import engine as E
from .engine import explore, load, Stub, SBool, Symbolic, ContractError, Unsupported, assume
from .c08 import IntE, implied
from .obl import obligation, assumption

P = 'C17'
M = 'kwant_linalg_lll'
assumption(P, 'lll: one to four vectors; partial correctness (termination is not proved)',
           'numpy.linalg.lstsq solves consistent linear equations; numpy.argsort, diff and where order and group distances',
           'a lattice point whose coordinate differs by at least l + 1 from the rounded one is at least (2 l + 1) rad away, '
           'rad being half of the smallest height of the unit cell',
           'the shortest vectors of the classes modulo twice the lattice contain all Voronoi vectors; v bounds the cell unless '
           'v/2 lies on the face of another vector (Voronoi)', 'arithmetic is exact, rounding returns the nearest integer')


# ---------------------------------------------------------------- exact arrays

@functools.lru_cache(None)
def cancel(e):
    return sp.cancel(e)


class Rel:
    """Comparison of two expressions."""
    def __init__(self, op, a, b):
        if op in '>=':
            op, a, b = op.replace('>', '<'), b, a
        self.op, self.a, self.b = op, cancel(a), cancel(b)

    def __bool__(self):
        s = str((self.op, self.a, self.b))
        r = E.decide(z3.Bool(s))
        FACTS.append((r, self))
        return r

    def __invert__(self):
        return Rel('<=' if self.op == '<' else '<', self.b, self.a)


FACTS = []


class Ex(object):
    """Exact number: keeps comparisons symbolic."""
    __slots__ = ('e',)
    __array_ufunc__ = None
    __array_priority__ = 1000

    def __init__(self, e):
        self.e = e

    @staticmethod
    def of(x):
        if isinstance(x, Ex):
            return x.e
        if isinstance(x, (int, np.integer)):
            return sp.Integer(int(x))
        if isinstance(x, (float, np.floating)):
            return sp.Rational(str(float(x)))
        raise Unsupported('number {!r}'.format(x))

    def _b(f):
        def op(self, o):
            if isinstance(o, np.ndarray):
                return each(lambda y: Ex(f(self.e, Ex.of(y))), o)
            return Ex(f(self.e, Ex.of(o)))
        return op

    def _r(f):
        def op(self, o):
            if isinstance(o, np.ndarray):
                return each(lambda y: Ex(f(Ex.of(y), self.e)), o)
            return Ex(f(Ex.of(o), self.e))
        return op
    __add__, __radd__ = _b(lambda a, b: a + b), _r(lambda a, b: a + b)
    __sub__, __rsub__ = _b(lambda a, b: a - b), _r(lambda a, b: a - b)
    __mul__, __rmul__ = _b(lambda a, b: a * b), _r(lambda a, b: a * b)
    __truediv__, __rtruediv__ = _b(lambda a, b: a / b), _r(lambda a, b: a / b)

    def __pow__(self, k):
        return Ex(self.e ** int(k))

    def __neg__(self):
        return Ex(-self.e)

    def __abs__(self):
        return Ex(sp.Abs(self.e))

    def __lt__(self, o):
        return relation('<', self, o)

    def __le__(self, o):
        return relation('<=', self, o)

    def __gt__(self, o):
        return relation('>', self, o)

    def __ge__(self, o):
        return relation('>=', self, o)

    def __eq__(self, o):
        return sp.cancel(self.e - Ex.of(o)) == 0
    __hash__ = None

    def __repr__(self):
        return str(self.e)


def each(f, arr):
    out = np.empty(arr.shape, object)
    for i in np.ndindex(*arr.shape):
        out[i] = f(arr[i])
    return out


def relation(op, x, o):
    if isinstance(o, np.ndarray):
        return each(lambda y: Rel(op, x.e, Ex.of(y)), o)
    return Rel(op, x.e, Ex.of(o))


class Norm:
    def __init__(self, sq):
        self.sq = sq

    def __pow__(self, k):
        if k != 2:
            raise Unsupported('power of a norm')
        return Ex(self.sq)


def exprs(a):
    return sp.Matrix(a.shape[0], a.shape[1], [Ex.of(x) for x in a.ravel()])


def arr(rows):
    rows = rows.tolist() if isinstance(rows, sp.MatrixBase) else rows
    out = np.empty((len(rows), len(rows[0]) if rows else 0), object)
    for i, r in enumerate(rows):
        for j, x in enumerate(r):
            out[i, j] = Ex(sp.sympify(x))
    return out


class Coefs:
    """Solution of orig^T coefs = vecs^T."""
    def __init__(self, rounded=False):
        self.rounded = rounded


def lll_world(m, st):
    B = st['B']

    def dot(a, b):
        return Ex(sp.Add(*[Ex.of(x) * Ex.of(y) * n for x, y, n in zip(a, b, B)]))

    def norm(a):
        return Norm(sp.Add(*[Ex.of(x) ** 2 * n for x, n in zip(a, B)]))

    def rnd(x):
        if isinstance(x, Coefs):
            return Coefs(True)
        e = sp.cancel(Ex.of(x))
        if e.is_Integer:
            return Ex(e)
        if e not in st['rounded']:
            n = sp.Symbol('n%d' % len(st['ints']), integer=True)
            st['ints'].append(n)
            st['rounded'][e] = n
        return Ex(st['rounded'][e])

    def asarray(x, *a, **k):
        if x is st['arg']:
            return st['orig']
        return x

    def array(x, *a, **k):
        if isinstance(x, Coefs):
            st['int'] = bool(a) and a[0] is int or k.get('dtype') is int
            return x
        return np.array(x, object)

    def lstsq(a, b, rcond=None):
        st['lstsq'] = (a, b)
        return (Coefs(), None, None, None)

    def allclose(a, b, *r, **k):
        if not (isinstance(a, Coefs) and isinstance(b, Coefs) and a.rounded != b.rounded):
            raise ContractError('comparison of other coefficients')
        return SBool(z3.Bool('rounding is safe'))

    def identity(n):
        return arr([[int(i == j) for j in range(n)] for i in range(n)])

    def along(f, axis, a):
        if axis != 1:
            raise ContractError('norm of the columns')
        out = np.empty(len(a), object)
        for i, r in enumerate(a):
            out[i] = f(r)
        return out

    def all_(x):
        if isinstance(x, np.ndarray):
            for r in x.ravel():
                if not isinstance(r, Rel):
                    raise Unsupported('truth of {}'.format(r))
                if known(r, st['known']):
                    continue
                if not r:
                    return False
            return True
        raise Unsupported('all')
    return Stub('numpy', asarray=asarray, array=array, dot=dot, round=rnd, identity=identity, eye=identity, copy=lambda a: a.copy(),
                linalg=Stub('linalg', norm=norm, lstsq=lstsq), apply_along_axis=along, all=all_, allclose=allclose, vstack=np.vstack)


def known(r, facts):
    """Does the comparison follow from one of the facts (a < b with positive denominators)?"""
    if r.op != '<':
        return False
    n = sp.numer(sp.together(r.b - r.a))
    d = sp.denom(sp.together(r.b - r.a))
    for a, b in facts:
        q = sp.cancel((r.b - r.a) / (b - a))
        if q.is_positive:
            return True
    return False


def lower(m, name):
    return [[sp.Symbol('{}{}{}'.format(name, i, j), real=True) if j < i else int(i == j) for j in range(m)] for i in range(m)]


def unimodular(ob, W, ints, name):
    W = W.applyfunc(sp.cancel)
    ok = True
    for x in W:
        try:
            p = sp.Poly(x, *ints) if ints else sp.Poly(x, sp.Symbol('unused'))
            ok = ok and all(c.is_Integer for c in p.coeffs()) and not (x.free_symbols - set(ints))
        except sp.PolynomialError:
            ok = False
    ob.check('reduction: integer combinations ' + name, ok, W, 'polynomial normal form')
    d = sp.expand(W.det(method='berkowitz')) if W.rows else sp.Integer(1)
    ob.check('reduction: determinant one ' + name, d in (1, -1), d, 'polynomial normal form')


def gs_invariant(ob, st, name):
    """vecs = u vecsstar, u unit lower triangular, vecsstar orthogonal."""
    V, S, U = exprs(st['vecs']), exprs(st['star']), exprs(st['u'])
    m = V.rows
    ok = all(sp.cancel(x) == 0 for x in (V - U * S))
    ob.check('reduction: vectors are combinations of the orthogonal ones ' + name, ok, (V, U, S), 'polynomial normal form')
    ok = all(sp.cancel(U[i, j]) == int(i == j) for i in range(m) for j in range(i, m))
    ob.check('reduction: unit lower triangular ' + name, ok, U, 'polynomial normal form')
    D = sp.diag(*st['B'])
    G = S * D * S.T
    ok = all(sp.cancel(G[i, j]) == 0 for i in range(m) for j in range(i))
    ob.check('reduction: orthogonal vectors ' + name, ok, G, 'polynomial normal form')
    return G


@obligation(P, ['kwant_linalg_lll.lll', 'kwant_linalg_lll.gs', 'kwant_linalg_lll.gs_coefficient', 'kwant_linalg_lll.is_c_reduced'])
def reduction(ob):
    for m in (1, 2, 3, 4):
        B = [sp.Symbol('B%d' % i, positive=True) for i in range(m)]
        c = sp.Symbol('c', positive=True)

        def rule(name, cond, body, get, set_, orelse):
            fn = {**t_cells(body), **get()}
            arrays = {k: v for k, v in fn.items() if isinstance(v, np.ndarray) and v.dtype == object}
            st = STATE
            # which array plays which role: told by the invariant at the entry
            found = roles(arrays, st)
            if found is None:
                ob.check('reduction: the Gram-Schmidt data are right before the main loop', False, {k: v.tolist() for k, v in arrays.items()})
                raise Unsupported('arrays of the reduction')
            st.update(found)
            V = exprs(st['vecs'])
            gs_invariant(ob, st, 'initially')
            unimodular(ob, V * exprs(st['orig']).inv(), st['ints'], 'initially')
            idx = [k for k, v in get().items() if isinstance(v, int) and not isinstance(v, bool) and k in cond.__code__.co_freevars]
            if len(idx) != 1 or get()[idx[0]] != 0:
                raise Unsupported('position of the main loop')
            k = idx[0]
            # arbitrary state that satisfies the invariant
            U0 = lower(m, 'u')
            st['ints'] = []
            st['rounded'] = {}
            st['vecs'][...] = arr(2 * sp.Matrix(U0))
            st['u'][...] = arr(U0)
            st['star'][...] = arr([[2 * int(i == j) for j in range(m)] for i in range(m)])
            pos = st['position']
            set_({k: pos})
            st['known'] = [(4 * B[q], 4 * c * B[q + 1]) for q in range(pos)]
            if not cond():
                if pos < m - 1:
                    ob.check('reduction: all pairs are visited', False, pos)
                st['exit'] = True
                return None
            if pos >= m - 1:
                ob.check('reduction: positions inside of the basis', False, pos)
                raise E.Infeasible
            n_facts = len(FACTS)
            r = body()
            if r is not None:
                raise Unsupported('main loop left early')
            G = gs_invariant(ob, st, 'after a step')
            unimodular(ob, exprs(st['vecs']) * (2 * sp.Matrix(U0)).inv(), st['ints'], 'after a step')
            new = get()[k]
            ob.check('reduction: positions inside of the basis', isinstance(new, int) and 0 <= new <= m - 1, new)
            facts = list(st['known'])
            for val, rel in FACTS[n_facts:]:
                if val and rel.op == '<':
                    facts.append((rel.a, rel.b))
                if not val and rel.op == '<=':
                    facts.append((rel.b, rel.a))
            ok = isinstance(new, int) and all(known(Rel('<', G[q, q], c * G[q + 1, q + 1]), facts) for q in range(new))
            ob.check('reduction: pairs before the position are reduced', ok, (pos, new, facts), 'polynomial normal form')
            raise E.Infeasible
        for pos in range(m):
            STATE.clear()

            def run():
                FACTS.clear()
                STATE.clear()
                orig = arr(2 * sp.Matrix(lower(m, 'w')))
                STATE.update(B=B, ints=[], rounded={}, arg='the basis', orig=orig, position=pos, known=[], m=m)
                mod = load(M, {'numpy': lll_world(m, STATE), 'scipy': Stub('scipy'), 'scipy.linalg': Stub('la')})
                return mod.ns['lll']('the basis', Ex(c)), dict(STATE)
            E.WHILE_RULES['lll'] = rule
            try:
                ps = explore(run)
            finally:
                E.WHILE_RULES.clear()
            for p in ps:
                if p.kind == 'raise':
                    ok = isinstance(p.value, RuntimeError) and E.prove(z3.Not(z3.Bool('rounding is safe')), p.pc)[0]
                    ob.check('reduction: raises only a RuntimeError for unsafe rounding', bool(ok), (repr(p.value), p.pc))
                    continue
                v, st = p.value
                ok = isinstance(v, tuple) and len(v) == 2
                ob.check('reduction: basis and coefficients are returned', ok, v)
                if not ok:
                    continue
                ob.check('reduction: the reduced vectors are returned', isinstance(v[0], np.ndarray) and 'vecs' in st and v[0].tolist() == st['vecs'].tolist(), v[0])
                ob.prove('reduction: returned only if rounding is safe', z3.Bool('rounding is safe'), p.pc)
                a, b = st.get('lstsq', (None, None))
                ok = a is not None and a.shape == (m, m) and all(x is y or sp.cancel(Ex.of(x) - Ex.of(y)) == 0 for x, y in
                                                                 zip(a.T.ravel(), st['orig'].ravel())) and \
                    all(sp.cancel(Ex.of(x) - Ex.of(y)) == 0 for x, y in zip(b.T.ravel(), st['vecs'].ravel()))
                ob.check('reduction: coefficients solve basis^T coefs = reduced^T', ok, (a, b), 'polynomial normal form')
                ob.check('reduction: coefficients are rounded to integers', isinstance(v[1], Coefs) and v[1].rounded and st.get('int'), v[1])


STATE = {}


def t_cells(fn):
    d = {}
    todo = [fn]
    seen = set()
    while todo:
        f = todo.pop()
        if id(f) in seen or not isinstance(f, types.FunctionType):
            continue
        seen.add(id(f))
        for k, c in zip(f.__code__.co_freevars, f.__closure__ or ()):
            try:
                d.setdefault(k, c.cell_contents)
                todo.append(c.cell_contents)
            except ValueError:
                pass
    return d


def roles(arrays, st):
    """Assign vecs, vecsstar, u by what they contain."""
    cand = {k: v for k, v in arrays.items() if v.ndim == 2 and v is not st['orig'] and v.shape == (st['m'], st['m'])}
    best = None
    for a, b, u in itertools.permutations(cand, 3):
        V, S, U = (exprs(cand[x]) for x in (a, b, u))
        if all(sp.cancel(x) == 0 for x in V - U * S) and all(sp.cancel(U[i, j]) == int(i == j) for i in range(V.rows) for j in range(i, V.rows)):
            G = S * sp.diag(*st['B']) * S.T
            if all(sp.cancel(G[i, j]) == 0 for i in range(V.rows) for j in range(i)):
                # for orthogonal input several assignments fit: prefer the order of creation
                return dict(vecs=cand[a], star=cand[b], u=cand[u])
    return best


# ---------------------------------------------------------------- closest vectors

class Q:
    """Real number."""
    def __init__(self, t):
        self.t = t

    @staticmethod
    def of(x):
        if isinstance(x, Q):
            return x.t
        if isinstance(x, IntE):
            return z3.ToReal(x.t)
        if isinstance(x, (int, float)) and not isinstance(x, bool):
            return z3.RealVal(repr(x))
        raise Unsupported('number {!r}'.format(x))

    def _b(f):
        def op(self, o):
            return f(self, o)
        return op
    __add__ = __radd__ = _b(lambda a, b: Q(a.t + Q.of(b)))
    __sub__ = _b(lambda a, b: Q(a.t - Q.of(b)))
    __rsub__ = _b(lambda a, b: Q(Q.of(b) - a.t))
    __mul__ = __rmul__ = _b(lambda a, b: Q(a.t * Q.of(b)))
    __truediv__ = _b(lambda a, b: Q(a.t / Q.of(b)))
    __rtruediv__ = _b(lambda a, b: Q(Q.of(b) / a.t))
    __lt__ = _b(lambda a, b: SBool(a.t < Q.of(b)))
    __le__ = _b(lambda a, b: SBool(a.t <= Q.of(b)))
    __gt__ = _b(lambda a, b: SBool(a.t > Q.of(b)))
    __ge__ = _b(lambda a, b: SBool(a.t >= Q.of(b)))

    def __neg__(self):
        return Q(-self.t)

    def __pow__(self, k):
        if k in (0.5, -0.5):
            s = sqrt(self)
            return s if k > 0 else 1 / s
        r = self
        for _ in range(int(k) - 1):
            r = r * self
        return r

    def __repr__(self):
        return str(self.t)


def sqrt(x):
    s = z3.Real('sqrt({})'.format(z3.simplify(Q.of(x))))
    assume(z3.And(s > 0, s * s == Q.of(x)))
    return Q(s)


class Ar(Symbolic):
    """Array described by the operation that made it."""
    def __init__(self, op, *args, **a):
        self.op, self.args = op, args
        self.__dict__.update(a)

    def __repr__(self):
        return '{}({})'.format(self.op, ', '.join(map(repr, self.args))) if self.args else self.op

    __hash__ = None

    def __eq__(self, o):
        raise Unsupported('comparison of arrays')

    def __getattr__(self, a):
        if a.startswith('__') or a.startswith('pv_'):
            raise AttributeError(a)
        if a == 'poison':
            return False
        raise Unsupported('{} of {}'.format(a, self.op))

    @property
    def T(self):
        if self.op == 'T':
            return self.args[0]
        if self.vector():
            return self
        if self.op == 'grid columns':
            return Ar('points', *self.args)
        return Ar('T', self)

    def vector(self):
        return repr(self) in VECTORS

    @property
    def ndim(self):
        return {'basis': 2}.get(self.op) or (1 if self.vector() else 2)

    @property
    def shape(self):
        if self.op == 'basis':
            return (IntE(z3.Int('D')), IntE(z3.Int('space')))
        if self.op in ('points', 'kept') or self.op == 'sorted points':
            return (self.pv_len(), IntE(z3.Int('D')))
        if self.vector():
            return (self.pv_len(),)
        raise Unsupported('shape of ' + self.op)

    def pv_len(self):
        if self.op == 'basis':
            return IntE(z3.Int('D'))
        if self.op in ('points', 'sorted points', 'distances', 'sorted distances', 'order'):
            return IntE(z3.Int('N'))
        if self.op == 'boundaries':
            return IntE(z3.Int('NG'))
        raise Unsupported('length of ' + self.op)

    @property
    def size(self):
        return self.pv_len()

    def __matmul__(self, o):
        r = {('projected coordinates', 'basis'): 'projection', ('basis', 'T(basis)'): 'bbt'}.get((repr(self), repr(o)))
        if r:
            return Ar(r)
        if self.op in ('points', 'sorted points') and repr(o) == 'basis':
            return Ar('positions', self)
        raise Unsupported('product of {} and {}'.format(self, o))

    def __sub__(self, o):
        if self.op == 'positions' and isinstance(o, Ar):
            return Ar('relative positions', self.args[0], o)
        if isinstance(o, Ar) and o.op == 'positions':
            return Ar('relative positions', o.args[0], self)
        raise Unsupported('difference of {} and {}'.format(self, o))

    def __neg__(self):
        raise Unsupported('negative of ' + self.op)

    def __gt__(self, o):
        if self.op == 'diff':
            return Ar('jumps', self.args[0], thr=o)
        raise Unsupported('comparison of arrays')

    def astype(self, t):
        return np_array(self, t)

    def copy(self):
        return self

    def flatten(self):
        return self

    def reshape(self, *s):
        s = s[0] if len(s) == 1 and isinstance(s[0], tuple) else s
        if self.op == 'grid' and len(s) == 2 and s[1] == -1 and isinstance(s[0], IntE) and implied(s[0].t == z3.Int('D')):
            return Ar('grid columns', self, box=self.box)
        raise Unsupported('reshape of ' + self.op)

    def __getitem__(self, i):
        if isinstance(i, Ar) and i.op == 'order' and i.args[0].op == 'distances':
            if self.op == 'distances' and i.args[0] is self:
                return Ar('sorted distances', self)
            if self.op == 'points' and i.args[0].args[0] is self:
                return Ar('sorted points', self)
            if self.op == 'positions' and i.args[0].args[0] is self.args[0]:
                raise Unsupported('ordered positions')
        if self.op == 'sorted points' and isinstance(i, slice) and i.start in (None, 0) and i.step is None:
            n = IntE.of(i.stop)
            return Ar('kept', self, count=z3.If(n < z3.Int('N'), n, z3.Int('N')))
        if self.op == 'sorted distances' and isinstance(i, (int, IntE)):
            k = IntE.of(i)
            k = z3.If(k < 0, k + z3.Int('N'), k)
            if not implied(z3.And(0 <= k, k < z3.Int('N'))):
                raise ContractError('distance of a point that may not exist')
            return Q(DIST(k))
        if self.op == 'boundaries' and isinstance(i, (int, IntE)):
            k = IntE.of(i)
            if not implied(z3.And(0 <= k, k < z3.Int('NG'))):
                raise ContractError('boundary of a group that may not exist')
            assume(z3.And(0 <= GROUP(k), GROUP(k) < z3.Int('N') - 1))
            return IntE(GROUP(k))
        raise Unsupported('item {!r} of {}'.format(i, self.op))

    # coordinates of the rounded point
    def pv_comp(self, kind, fn):
        if self.op != 'center':
            raise Unsupported('comprehension over ' + self.op)
        c = z3.Int('centre coordinate')
        out = list(fn(IntE(c)))
        if len(out) != 1:
            raise Unsupported('several items per coordinate')
        return Ar('per coordinate', c, item=out[0])


VECTORS = {'vec', 'projected coordinates', 'projection', 'center', 'rounded coordinates'}
DIST = z3.Function('distance', z3.IntSort(), z3.RealSort())
JUMPS = []
GROUP = z3.Function('boundary', z3.IntSort(), z3.IntSort())


def np_array(x, *a, **k):
    d = a[0] if a else k.get('dtype')
    if isinstance(x, Ar):
        if x.op == 'rounded coordinates' and d is int:
            return Ar('center')
        if x.op == 'rounded coordinates':
            return x
        if d in (None, float) and x.op in ('basis', 'vec'):
            return x
        if x.op in ('kept', 'sorted points'):
            return Ar(x.op, *x.args, **{q: v for q, v in x.__dict__.items() if q not in ('op', 'args')})
        if d is None:
            return x
    raise Unsupported('array of {!r}'.format(x))


class Poison:
    def __getattr__(self, a):
        raise Unsupported('value of an earlier iteration')

    def _no(self, *a):
        raise Unsupported('value of an earlier iteration')
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __getitem__ = __lt__ = __gt__ = __bool__ = __matmul__ = _no


def cvp_world():
    def lstsq(a, b, *r, **k):
        if repr(a) == 'T(basis)' and repr(b) == 'vec':
            return (Ar('projected coordinates'), None, None, None)
        raise Unsupported('least squares of {} and {}'.format(a, b))

    def rnd(x, *a):
        if repr(x) == 'projected coordinates' and not a:
            return Ar('rounded coordinates')
        raise Unsupported('rounding of {}'.format(x))

    def inv(x):
        if repr(x) == 'bbt':
            return Ar('inverse of bbt')
        raise Unsupported('inverse of {}'.format(x))

    def diag(x):
        if repr(x) == 'inverse of bbt':
            return Ar('diagonal of the inverse')
        raise Unsupported('diagonal of {}'.format(x))

    def max_(x):
        if repr(x) == 'diagonal of the inverse':
            return Q(z3.Real('invmax'))
        raise Unsupported('maximum of {}'.format(x))

    def norm(x, ord=None, axis=None):
        if isinstance(x, Ar) and x.op == 'relative positions' and axis in (1, -1) and ord in (None, 2):
            return Ar('distances', *x.args)
        raise Unsupported('norm of {}'.format(x))

    def argsort(x, *a, **k):
        return Ar('order', x)

    def diff(x):
        if x.op == 'sorted distances':
            return Ar('diff', x)
        raise Unsupported('differences of {}'.format(x))

    def where(x):
        if isinstance(x, Ar) and x.op == 'jumps':
            JUMPS.append(x.thr)
            return (Ar('boundaries', x.args[0], thr=x.thr),)
        raise Unsupported('where')

    class Grid:
        def __getitem__(self, b):
            if not (isinstance(b, Ar) and b.op == 'per coordinate' and isinstance(b.item, slice) and b.item.step is None):
                raise Unsupported('grid')
            c = b.args[0]
            return Ar('grid', box=(z3.simplify(c - IntE.of(b.item.start)), z3.simplify(IntE.of(b.item.stop) - 1 - c)), c=c)
    la = Stub('linalg', lstsq=lstsq, inv=inv, norm=norm)
    npm = Stub('numpy', asarray=np_array, array=np_array, round=rnd, max=max_, diag=diag, diagonal=diag, sqrt=sqrt, linalg=la, mgrid=Grid(),
               argsort=argsort, diff=diff, where=where, flatnonzero=lambda x: where(x)[0], nonzero=where, amax=max_)
    npm.__dict__['rint'] = rnd
    return npm, la


@obligation(P, ['kwant_linalg_lll.cvp'])
def closest(ob):
    N, NG, l, n = z3.Ints('N NG l n')
    rtol, inv = z3.Reals('rtol invmax')
    basic = [N >= 1, NG >= 0, NG <= N - 1, n >= 1, rtol >= 0, inv > 0, z3.Int('D') >= 1]
    for group in (False, True):
        for default in (True, False):
            st = {}

            def rule(name, cond, body, get, set_, orelse):
                v = get()
                used = cond.__code__.co_freevars + body.__code__.co_freevars
                ints = [k for k, x in v.items() if isinstance(x, int) and not isinstance(x, bool) and k != 'n']
                reals = [k for k, x in v.items() if isinstance(x, (Q, float))]
                ints = [k for k in ints if k != 'rtol' and not k.startswith('_')]
                if len(ints) != 1:
                    raise Unsupported('loop variable')
                L = ints[0]
                ob.check('closest: the search starts with a box', v[L] >= 0, v[L])
                st['entered'] = True
                new = {k: Poison() for k in v}
                new[L] = IntE(l)
                assume(l >= v[L])
                for k in v:
                    if k != L and v[k] is not None and not isinstance(v[k], (Q, float)):
                        del new[k]      # unchanged unless assigned below
                given = {k: v[k] for k in v if k != L}
                for k in reals:
                    # the tolerance may have been replaced by an earlier iteration if it is not used
                    new[k] = v[k] if group else Q(z3.Real('tolerance of an earlier iteration'))
                    if not group:
                        assume(new[k].t >= 0)
                set_(new)
                if not cond():
                    raise Unsupported('search without a result')
                r = body()
                if isinstance(r, E._Ret):
                    return r
                if r is E.BREAK:
                    return None
                after = get()
                for k in given:
                    x = after.get(k)
                    same = x is given[k] or (isinstance(x, Q) and isinstance(given[k], Q) and z3.eq(x.t, given[k].t)) or \
                        (k in reals and not group)
                    if not same:
                        raise Unsupported('{} changes in the search'.format(k))
                a = after[L]
                ob.check('closest: otherwise a larger box is searched', isinstance(a, IntE), a)
                if isinstance(a, IntE):
                    ob.prove('closest: otherwise a larger box is searched', a.t > l, E.ctx().pc)
                raise E.Infeasible

            def run():
                st.clear()
                JUMPS.clear()
                for a in basic:
                    assume(a)
                npm, la = cvp_world()
                mod = load(M, {'numpy': npm, 'scipy': Stub('scipy', linalg=la), 'scipy.linalg': la},
                           builtin_overrides={'tuple': lambda *a: a[0] if a and isinstance(a[0], Symbolic) else tuple(*a),
                                              'list': lambda *a: a[0] if a and isinstance(a[0], Symbolic) else list(*a)})
                kw = {} if default and not group else dict(group_by_length=group)
                if not default:
                    kw['rtol'] = Q(rtol)
                return mod.ns['cvp'](Ar('vec'), Ar('basis'), IntE(n), **kw), list(JUMPS)
            E.WHILE_RULES['cvp'] = rule
            IntE.REAL = Q
            try:
                ps = explore(run)
            finally:
                E.WHILE_RULES.clear()
                IntE.REAL = None
            n_ret = 0
            for p in ps:
                if p.kind == 'raise':
                    ob.check('closest: no error', False, (repr(p.value), p.pc))
                    continue
                n_ret += 1
                v, jumps = p.value
                if isinstance(v, Ar) and v.op == 'sorted points':
                    v = Ar('kept', v, count=N)
                ok = isinstance(v, Ar) and v.op == 'kept'
                ob.check('closest: sorted lattice points are returned', ok, v)
                if not ok:
                    continue
                pts = v.args[0].args[0]
                box = pts.args[0].box if pts.args[0].op == 'grid' else None
                ob.check('closest: all points of a box', box is not None, v)
                lo, hi = box
                s = z3.Real('root')
                rad = z3.Real('rad')
                rt = (rtol if not default else z3.RealVal('1e-09')) if group else z3.RealVal(0)
                lemma = [s > 0, s * s == inv, rad * s == z3.RealVal('0.5'), rad > 0]
                # square roots named by the code
                for c in p.pc:
                    for q in names(c):
                        if q.startswith('sqrt('):
                            lemma.append(z3.Implies(z3.Real(q) * z3.Real(q) == inv, z3.Real(q) == s))
                cover = z3.If(lo < hi, lo, hi)
                k = v.count
                if group:
                    want = z3.Or(z3.And(NG >= n, k == GROUP(n - 1) + 1), z3.And(NG == n - 1, k == N))
                    ob.prove('closest: n groups of points are returned', want, p.pc)
                    ob.check('closest: groups are separated by rtol times the radius', jumps, p.pc)
                    for t in jumps:
                        ob.prove('closest: groups are separated by rtol times the radius', Q.of(t) == rt * rad, [*p.pc, *lemma])
                else:
                    ob.prove('closest: n points are returned', k == n, p.pc)
                last = DIST(k - 1)
                ob.prove('closest: no point outside of the box is closer', last + rt * rad < (2 * z3.ToReal(cover) + 1) * rad,
                         [*p.pc, *lemma])
            ob.check('closest: reachable', n_ret > 0, n_ret)


def names(t, out=None):
    out = set() if out is None else out
    todo = [t]
    while todo:
        x = todo.pop()
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(x.decl().name())
        todo += x.children()
    return out


@obligation(P, ['kwant_linalg_lll.cvp'])
def heights(ob):
    """Lemma: t^T G t >= t_i^2 / (G^-1)_ii: a point whose coordinate differs by t_i is at least |t_i| heights away."""
    for d in (1, 2, 3, 4):
        G = sp.Matrix(d, d, lambda i, j: sp.Symbol('g%d%d' % (min(i, j), max(i, j)), real=True))
        t = sp.Matrix([sp.Symbol('t%d' % i, real=True) for i in range(d)])
        C, b = G[1:, 1:], G[1:, 0]
        w = t[1:, :] + (C.inv(method='ADJ') * b if d > 1 else b) * t[0]
        rest = (w.T * C * w)[0, 0] if d > 1 else sp.Integer(0)
        inv00 = (C.det(method='berkowitz') if d > 1 else 1) / G.det(method='berkowitz')
        e = sp.cancel(sp.together((t.T * G * t)[0, 0] - t[0] ** 2 / inv00 - rest))
        ob.check('heights: the squared distance is the squared height plus a positive definite form', e == 0, e, 'polynomial normal form')


# ---------------------------------------------------------------- Voronoi vectors

class Rows(Symbolic):
    """Integer vectors, one per half lattice vector."""
    def __init__(self, a, whole=False):
        self.a, self.whole = a, whole

    def pv_len(self):
        return len(self.a)

    def __len__(self):
        return len(self.a)

    @property
    def shape(self):
        return self.a.shape

    @property
    def T(self):
        return Tr(self)

    def _o(self, o):
        if isinstance(o, (list, np.ndarray)):
            o = np.array(o, object)
            o = np.vectorize(lambda x: Ex(Ex.of(x)), otypes=[object])(o)
            if o.shape != self.a.shape:
                raise ContractError('shapes {} and {}'.format(o.shape, self.a.shape))
            return o
        raise Unsupported('vectors and {!r}'.format(o))

    def __sub__(self, o):
        return Rows(self.a - self._o(o))

    def __rsub__(self, o):
        return Rows(self._o(o) - self.a)
    __array_ufunc__ = None

    def __mul__(self, k):
        return Rows(self.a * Ex(Ex.of(k)))
    __rmul__ = __mul__

    def __neg__(self):
        return Rows(-self.a, self.whole)

    def astype(self, t):
        return Rows(self.a, t is int)

    def __getitem__(self, k):
        if isinstance(k, Keep):
            k = k.k
        return Rows(self.a[np.array(k)] if not isinstance(k, slice) else self.a[k], self.whole)

    def __matmul__(self, o):
        if isinstance(o, Gram):
            return Products(self)
        raise Unsupported('product with vectors')


class Keep(Symbolic):
    pass


class Tr:
    def __init__(self, x):
        self.x = x


class Products:
    """vertices G, then vertices G vertices^T."""
    def __init__(self, v):
        self.v = v

    def __matmul__(self, o):
        if not (isinstance(o, Tr) and o.x is self.v):
            raise Unsupported('product with other vectors')
        n = len(self.v)
        out = np.empty((n, n), object)
        for i in range(n):
            for j in range(n):
                out[i, j] = Ex(sp.Symbol('p_%d_%d' % (min(i, j), max(i, j)), **({'positive': True} if i == j else {'real': True})))
        return out


class Gram:
    pass


class Lattice(Symbolic):
    ndim = 2
    __array_ufunc__ = None

    def __init__(self, D):
        self.D = D

    def pv_len(self):
        return self.D

    @property
    def shape(self):
        return (self.D, IntE(z3.Int('space')))

    @property
    def T(self):
        return Tr(self)

    def __matmul__(self, o):
        if isinstance(o, Tr) and o.x is self:
            return Gram()
        raise Unsupported('product with the basis')

    def __rmatmul__(self, v):
        if isinstance(v, (tuple, list, np.ndarray)) and len(v) == self.D:
            return Half(tuple(sp.Rational(str(float(x))) for x in v))
        raise Unsupported('product with the basis')


class Half:
    def __init__(self, v):
        self.v = v


class AllRel:
    def __init__(self, rs):
        self.rs = rs


def decide_all(rs):
    """Decide whether all comparisons are true."""
    atoms = [z3.Bool(str((r.op, r.a, r.b))) for r in rs]
    for r in rs:
        RELS[str((r.op, r.a, r.b))] = r
    return E.decide(z3.And(*atoms) if atoms else z3.BoolVal(True))


RELS = {}


@obligation(P, ['kwant_linalg_lll.voronoi'])
def voronoi(ob):
    rt = sp.Symbol('rtol', positive=True)
    half = sp.Rational(1, 2)
    seen = {}
    for D in (1, 2, 3):
        for reduced in (False, True):
            near = {}

            def cvp(vec, basis, n=1, group_by_length=False, rtol=1e-9):
                if not (isinstance(vec, Half) and basis is LAT[0]) or n != 1:
                    raise ContractError('closest vectors of {!r}'.format(vec))
                a = np.array([Ex(sp.Symbol('a_' + '_'.join('%g' % (2 * x) for x in vec.v) + '_%d' % i, integer=True))
                              for i in range(D)], object)
                near[vec.v] = a
                return [a]

            def array(x, *a, **k):
                d = a[0] if a else k.get('dtype')
                if isinstance(x, Rows):
                    if d is int and not all(e.e.is_integer or sp.expand(e.e).is_integer for e in x.a.ravel()):
                        raise ContractError('truncation of {}'.format(x.a.tolist()))
                    return Rows(x.a, x.whole or d is int)
                if isinstance(x, (list, tuple)) and x and isinstance(x[0], np.ndarray) and x[0].dtype == object:
                    return Rows(np.array(list(x), object))
                if isinstance(x, np.ndarray) or isinstance(x, (list, tuple)) and all(isinstance(y, (bool, float, int, list, tuple, np.bool_)) for y in x):
                    return np.array(x, *a, **k)
                if isinstance(x, Lattice):
                    return x
                raise Unsupported('array of {!r}'.format(x))

            def rnd(x, *a):
                out = np.empty(x.a.shape, object)
                for i in np.ndindex(*x.a.shape):
                    e = sp.expand(x.a[i].e)
                    if not e.is_integer:
                        raise ContractError('rounding of {}'.format(e))
                    out[i] = Ex(e)
                return Rows(out)

            def cat(xs, axis=0):
                if all(isinstance(x, Rows) for x in xs) and axis == 0:
                    return Rows(np.concatenate([x.a for x in xs]), all(x.whole for x in xs))
                return np.concatenate(xs, axis)

            def all_(x):
                if isinstance(x, np.ndarray) and x.dtype == object:
                    return decide_all(list(x.ravel()))
                return np.all(x)

            def any_(x):
                if isinstance(x, np.ndarray) and x.dtype == object:
                    return not decide_all([~r for r in x.ravel()])
                return np.any(x)
            LAT = [None]

            def run():
                near.clear()
                LAT[0] = Lattice(D)
                npm = Stub('numpy', asarray=array, array=array, round=rnd, concatenate=cat, vstack=cat, all=all_, any=any_, diag=np.diag, abs=abs,
                           diagonal=np.diagonal, absolute=abs, ones=np.ones, arange=np.arange, eye=np.eye)
                npm.__dict__['rint'] = rnd
                mod = load(M, {'numpy': npm, 'scipy': Stub('scipy', linalg=Stub('la')), 'scipy.linalg': Stub('la')}, overrides={'cvp': cvp})
                kw = dict(reduced=True, rtol=Ex(rt)) if reduced else {}
                return mod.ns['voronoi'](LAT[0], **kw), dict(near)
            total = 0
            for p in explore(run):
                if p.kind == 'raise':
                    ob.check('voronoi: no error', False, (repr(p.value), p.pc))
                    continue
                v, nr = p.value
                total += 1
                ok = isinstance(v, Rows) and v.whole and len(v) % 2 == 0
                ob.check('voronoi: integer vectors are returned', ok, v)
                if not ok:
                    continue
                h = len(v) // 2
                rows = [tuple(sp.expand(x.e) for x in r) for r in v.a]
                ob.check('voronoi: the second half is minus the first half',
                         all(sp.expand(x + y) == 0 for r, s in zip(rows[:h], rows[h:]) for x, y in zip(r, s)), rows)
                want = {}
                for d in itertools.product((0, half), repeat=D):
                    if any(d):
                        ok = d in nr
                        ob.check('voronoi: closest lattice point of each half vector', ok, d)
                        if ok:
                            w = tuple(sp.expand(2 * (x.e - y)) for x, y in zip(nr[d], d))
                            want[w] = d
                index = {}
                for i, r in enumerate(rows[:h]):
                    neg = tuple(sp.expand(-x) for x in r)
                    index[i] = r if r in want else neg if neg in want else None
                ob.check('voronoi: twice the vectors from half vectors to their closest points', None not in index.values()
                         and len(set(index.values())) == h, rows)
                if not reduced:
                    ob.check('voronoi: one pair for each half vector', h == len(want) == 2 ** D - 1, h)
                    continue
                order = [tuple(sp.expand(x.e) for x in r) for r in ROWS_BEFORE(v, nr, D)]
                kept = {order.index(r) for r in rows[:h] if r in order}
                n = len(order)
                # the comparisons that were made
                facts = {}
                good = True
                for c in p.pc:
                    for q in names(c):
                        r = RELS.get(q)
                        if r is None:
                            good = False
                            continue
                        if (n, q) not in seen:
                            seen[n, q] = which(r, n, rt)
                        ik = seen[n, q]
                        good = good and ik is not None
                        facts[q] = ik
                ob.check('voronoi: projections of half vectors are compared to one half', good, p.pc)
                fits = [z3.Implies(z3.Bool(q), z3.Bool('fits%d,%d' % ik[:2]) if ik[2] else z3.Not(z3.Bool('fits%d,%d' % ik[:2])))
                        for q, ik in facts.items() if ik]
                fits += [z3.Implies(z3.Not(z3.Bool(q)), z3.Not(z3.Bool('fits%d,%d' % ik[:2])) if ik[2] else z3.Bool('fits%d,%d' % ik[:2]))
                         for q, ik in facts.items() if ik]
                for i in range(n):
                    if i in kept:
                        ob.prove('voronoi: kept vectors lie inside of the other faces',
                                 z3.And(*[z3.Bool('fits%d,%d' % (i, k)) for k in kept if k != i]), [*p.pc, *fits])
                    else:
                        later = z3.Or(*[z3.Not(z3.Bool('fits%d,%d' % (i, k))) for k in range(n) if k != i and (k in kept or k > i)])
                        ob.prove('voronoi: removed vectors lie on or outside of a remaining face', later, [*p.pc, *fits])
            ob.check('voronoi: reachable', total > 0 and (total == 1 or reduced), total)


def ROWS_BEFORE(v, nr, D):
    """All vectors in the order of the half vectors."""
    half = sp.Rational(1, 2)
    out = []
    for d in itertools.product((0, half), repeat=D):
        if any(d):
            out.append([Ex(2 * (x.e - y)) for x, y in zip(nr[d], d)])
    return out


def which(r, n, rt):
    """Which comparison: (i, k, sense)."""
    for i in range(n):
        for k in range(n):
            if i == k:
                continue
            p = sp.Symbol('p_%d_%d' % (min(i, k), max(i, k)), real=True)
            q = sp.Symbol('p_%d_%d' % (k, k), positive=True)
            if not {p, q} <= r.a.free_symbols | r.b.free_symbols:
                continue
            L, R = sp.Abs(p) / (2 * q), sp.Rational(1, 2) - rt
            for sense, (a, b) in ((True, (L, R)), (False, (R, L))):
                if r.op != ('<' if sense else '<='):
                    continue
                ratio = sp.cancel(sp.together(r.b - r.a) / sp.together(b - a)) if sp.simplify(b - a) != 0 else None
                if ratio is not None and ratio.is_positive:
                    return (i, k, sense)
    return None
