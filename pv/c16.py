"""C16: Bravais point groups.

The classification code is executed on every lattice in two and three dimensions: by Selling's theorem a lattice has an obtuse
superbase, its Voronoi vectors follow from the graph of the non-orthogonal pairs; the parameters are arbitrary positive reals.  For every
stratum (set of integer matrices that are isometries) the returned generators must generate exactly the isometries."""
import itertools
import os
import time
from fractions import Fraction

import numpy as np
import z3

from . import engine as E
from .engine import explore, load, Stub, SBool, Symbolic, ContractError, Unsupported, assume
from .lattice import Shape, graphs, apply, det, closure, mul
from .obl import obligation, assumption
from .tensor import cells_of

P = 'C16'
M = 'symmetry_finder'
assumption(P, 'every lattice in two and three dimensions has an obtuse superbase (Selling); its Voronoi vectors are the sums over the '
           'connected sets with connected complement (Voronoi, Conway and Sloane)',
           'rotation(angle, axis) is the rotation and mirror(axis) the reflection of that axis (C18); lll returns a basis of the same '
           'lattice and voronoi its Voronoi vectors (C17); generate_group the group (C04)',
           'an orthogonal map is an isometry of the lattice iff it permutes the Voronoi vectors',
           'numbers are compared exactly (rounding tolerances are not modelled)')


# ---------------------------------------------------------------- real numbers

class Q:
    """Real number."""
    __array_ufunc__ = None
    __array_priority__ = 1000

    def __init__(self, t):
        self.t = z3.simplify(t, som=True)

    @staticmethod
    def of(x):
        if isinstance(x, Q):
            return x.t
        if isinstance(x, (int, float, np.integer, np.floating)) and not isinstance(x, bool):
            return z3.RealVal(str(Fraction(float(x)).limit_denominator(10**6)))
        raise Unsupported('number {!r}'.format(x))

    def _b(f):
        def op(self, o):
            if isinstance(o, np.ndarray):
                out = np.empty(o.shape, object)
                for i in np.ndindex(*o.shape):
                    out[i] = f(self, o[i])
                return out
            if isinstance(o, (Root, Ang)):
                return NotImplemented
            return f(self, o)
        return op
    __add__ = __radd__ = _b(lambda a, b: Q(a.t + Q.of(b)))
    __sub__ = _b(lambda a, b: Q(a.t - Q.of(b)))
    __rsub__ = _b(lambda a, b: Q(Q.of(b) - a.t))
    __mul__ = __rmul__ = _b(lambda a, b: Q(a.t * Q.of(b)))
    __truediv__ = _b(lambda a, b: Ratio(a.t, b.t) if isinstance(b, Q) else Q(a.t / Q.of(b)))
    __rtruediv__ = _b(lambda a, b: Ratio(b.t, a.t) if isinstance(b, Q) else Ratio(Q.of(b), a.t))
    __lt__ = _b(lambda a, b: SBool(a.t < Q.of(b)))
    __le__ = _b(lambda a, b: SBool(a.t <= Q.of(b)))
    __gt__ = _b(lambda a, b: SBool(a.t > Q.of(b)))
    __ge__ = _b(lambda a, b: SBool(a.t >= Q.of(b)))

    def __neg__(self):
        return Q(-self.t)

    def __pow__(self, k):
        if k == 2:
            return self * self
        if k in (0.5, -0.5):
            return Root(self.t, k)
        raise Unsupported('power')

    def __abs__(self):
        a, b = self.t, z3.simplify(-self.t, som=True)
        c = E.ctx()
        if not c.feasible(a < 0):
            return self
        if not c.feasible(a > 0):
            return Q(b)
        if str(b) < str(a):
            a, b = b, a
        r = Q.__new__(Q)
        r.t = z3.If(a >= 0, a, b)
        return r

    def __repr__(self):
        return str(self.t)


class Ratio:
    """Quotient by a positive number."""
    def __init__(self, num, den):
        self.num, self.den = num, den

    def equals(self, x):
        return z3.And(self.den != 0, self.num == Q.of(x) * self.den)


class Root:
    """x ** (1/2) or x ** (-1/2), x > 0."""
    __array_ufunc__ = None

    def __init__(self, t, k):
        self.t, self.k = t, k

    def __mul__(self, o):
        if isinstance(o, Q) and self.k < 0:
            return Ang(o.t, self.t)
        raise Unsupported('product of roots')
    __rmul__ = __mul__

    def __rtruediv__(self, o):
        if isinstance(o, Q) and self.k > 0:
            return Ang(o.t, self.t)
        raise Unsupported('quotient of roots')


class Ang:
    """num / sqrt(sq)."""
    def __init__(self, num, sq):
        self.num, self.sq = num, sq

    def __abs__(self):
        return Ang(abs(Q(self.num)).t, self.sq)


def number_eq(a, b):
    if isinstance(a, Ang) and isinstance(b, Ang):
        # non-negative numerators
        f = z3.simplify(a.num * a.num * b.sq == b.num * b.num * a.sq, som=True)
        return f
    if isinstance(a, Ang) or isinstance(b, Ang):
        raise Unsupported('comparison of an angle and a length')
    return z3.simplify(Q.of(a) == Q.of(b), som=True)


def multiset_eq(a, b):
    a, b = list(a), list(b)
    if len(a) != len(b):
        return z3.BoolVal(False)
    for x in list(a):
        for y in list(b):
            if z3.is_true(number_eq(x, y)):
                a.remove(x)
                b.remove(y)
                break
    if not a:
        return z3.BoolVal(True)
    fs = []
    for t in a + b:
        n = z3.Sum([z3.If(number_eq(x, t), 1, 0) for x in a]) if a else 0
        m = z3.Sum([z3.If(number_eq(x, t), 1, 0) for x in b])
        fs.append(n == m)
    return z3.And(*fs)


class Multi(Symbolic):
    """sorted(numbers)."""
    def __init__(self, xs):
        self.xs = xs

    def __iter__(self):
        raise Unsupported('order of unknown numbers')


class Sig:
    def __init__(self, parts):
        self.parts = parts

    def eq(self, o):
        """Decides whether the signatures are equal, comparisons of lengths first."""
        if len(self.parts) != len(o.parts):
            return False
        pairs = list(zip(self.parts, o.parts))
        if any(isinstance(x, Multi) != isinstance(y, Multi) for x, y in pairs):
            return False
        fs = []
        for x, y in pairs:
            xs, ys = (x.xs, y.xs) if isinstance(x, Multi) else ([x], [y])
            fs.append((any(isinstance(t, Ang) for t in xs), len(xs), xs, ys))
        for hard in (False, True):
            f = []
            for h, n, xs, ys in sorted(fs, key=lambda t: t[:2]):
                if h == hard:
                    f.append(multiset_eq(xs, ys))
                    if not z3.is_true(f[-1]) and not E.ctx().feasible(z3.And(*f)):
                        return False
            if not E.decide(z3.And(*f)):
                return False
        return True


# ---------------------------------------------------------------- vectors in lattice coordinates

class V(Symbolic):
    """Array of vectors (or one vector) given by integer lattice coordinates."""
    __array_ufunc__ = None
    W = None      # the world

    def __init__(self, c, kind=''):
        self.c = np.array(c, int)
        self.kind = kind

    @property
    def ndim(self):
        return self.c.ndim

    @property
    def shape(self):
        return self.c.shape

    def pv_len(self):
        return len(self.c)

    def __len__(self):
        return len(self.c)

    @property
    def T(self):
        return VT(self) if self.c.ndim == 2 else self

    def __iter__(self):
        if self.c.ndim == 1:
            raise Unsupported('coordinates of a vector')
        return iter([V(r) for r in self.c])

    pv_else = True

    def pv_for(self, body, get, set_, orelse=None):
        return E.HOOKS.for_(list(iter(self)), body, get, set_, orelse)

    def pv_comp(self, kind, fn):
        return E.HOOKS.comp(kind, list(iter(self)), fn)

    def pv_enumerate(self):
        return enumerate(list(iter(self)))

    def pv_zip(self, *a):
        return zip(*[list(iter(x)) if isinstance(x, V) else x for x in a])

    def _o(self, o):
        if not isinstance(o, V):
            raise Unsupported('vector and {!r}'.format(o))
        return o.c

    def __add__(self, o):
        return V(self.c + self._o(o))

    def __sub__(self, o):
        return V(self.c - self._o(o))

    def __neg__(self):
        return V(-self.c)

    def __mul__(self, k):
        if isinstance(k, (int, np.integer)) or isinstance(k, float) and k.is_integer():
            return V(self.c * int(k))
        raise Unsupported('multiple of a vector')
    __rmul__ = __mul__

    def __getitem__(self, i):
        if self.c.ndim == 1:
            raise Unsupported('coordinate of a vector')
        return V(self.c[i])

    def __matmul__(self, o):
        if isinstance(o, VT):
            o = o.x
        elif not (isinstance(o, V) and o.c.ndim == 1):
            raise Unsupported('product of vectors')
        a, b = self.c, o.c
        ip = self.W.inner
        if a.ndim == 1 and b.ndim == 1:
            return ip(a, b)
        if a.ndim == 1:
            out = np.empty(len(b), object)
            for j in range(len(b)):
                out[j] = ip(a, b[j])
            return out
        if b.ndim == 1:
            out = np.empty(len(a), object)
            for j in range(len(a)):
                out[j] = ip(a[j], b)
            return out
        out = np.empty((len(a), len(b)), object)
        for i in range(len(a)):
            for j in range(len(b)):
                out[i, j] = ip(a[i], b[j])
        return out

    def __rmatmul__(self, s):
        if isinstance(s, (tuple, list, np.ndarray)) and self.c.ndim == 2 and len(s) == len(self.c):
            return V(np.array(s, int) @ self.c)
        raise Unsupported('combination of vectors')

    def __repr__(self):
        return 'V{}'.format(self.c.tolist())
    __hash__ = None


class VT:
    __array_ufunc__ = None

    def __init__(self, x):
        self.x = x

    @property
    def T(self):
        return self.x


class Neighbors(V):
    """Order and signs are arbitrary."""
    def __init__(self, c):
        V.__init__(self, c)
        self.slots = {}

    def __getitem__(self, i):
        if not isinstance(i, int):
            raise Unsupported('slice of the neighbors')
        if i < 0:
            i += len(self.c)
        if not 0 <= i < len(self.c):
            raise ContractError('neighbor that does not exist')
        if i not in self.slots:
            free = [k for k in range(len(self.c)) if k not in {r for r, s in self.slots.values()}]
            self.slots[i] = (pick('neighbor %d' % i, free), pick('sign of neighbor %d' % i, [1, -1]))
        k, s = self.slots[i]
        return V(s * self.c[k])


class Sets(Symbolic):
    """Lists of equivalent vectors; the order of lists of the same length, of the vectors and the signs are arbitrary."""
    def __init__(self, sets, num):
        self.sets, self.num, self.done = sets, num, {}

    def pv_len(self):
        return len(self.sets)

    def __len__(self):
        return len(self.sets)

    def get(self, i):
        if i < 0:
            i += len(self.sets)
        if not 0 <= i < len(self.sets):
            raise ContractError('set that does not exist')
        if i not in self.done:
            used = {k for k, _ in self.done.values()}
            free = [k for k in range(len(self.sets)) if k not in used and self.num[k] == self.num[i]]
            k = pick('set %d' % i, free)
            self.done[i] = (k, Shuffled(self.sets[k], 'set %d' % i))
        return self.done[i][1]

    def __getitem__(self, i):
        if isinstance(i, slice):
            return [self.get(k) for k in range(len(self.sets))[i]]
        return self.get(i)

    pv_else = True

    def pv_for(self, body, get, set_, orelse=None):
        return E.HOOKS.for_(self[:], body, get, set_, orelse)

    def pv_comp(self, kind, fn):
        return E.HOOKS.comp(kind, self[:], fn)

    def pv_zip(self, *a):
        return zip(*[x[:] if isinstance(x, Sets) else x for x in a])

    def pv_enumerate(self):
        return enumerate(self[:])


class Shuffled(V):
    """The same vectors in another order and with other signs (chosen when they are used)."""
    def __init__(self, v, name):
        self.v, self.name, self._c, self.kind = v, name, None, ''

    @property
    def c(self):
        if self._c is None:
            self._c = shuffled(self.v, self.name).c
        return self._c

    ndim = 2

    @property
    def shape(self):
        return self.v.c.shape

    def pv_len(self):
        return len(self.v.c)
    __len__ = pv_len


def pick(name, items):
    """Non-deterministic choice."""
    for k, x in enumerate(items[:-1]):
        if E.decide(z3.Bool('{} is {}'.format(name, k))):
            return x
    return items[-1]


def shuffled(v, name):
    rows = list(v.c)
    out = []
    while rows:
        k = pick('%s, item %d' % (name, len(out)), list(range(len(rows))))
        out.append(rows.pop(k))
    # the sign of all vectors together does not matter for axes
    out = [r if not i else pick('%s, sign %d' % (name, i), [1, -1]) * r for i, r in enumerate(out)]
    return V(np.array(out).reshape(len(out), -1))


class Cross:
    def __init__(self, a, b):
        self.a, self.b = a, b


class Op:
    """Rotation by a fraction of the full turn, or mirror, or inversion."""
    def __init__(self, kind, k, axis):
        self.kind, self.k, self.axis = kind, k, axis

    def __repr__(self):
        return '{}({}, {})'.format(self.kind, self.k, self.axis)


# ---------------------------------------------------------------- the world of one stratum

class World:
    def __init__(self, shape, stratum):
        self.shape = shape
        self.eqs, self.par, self.H, self.others = stratum
        n = len(shape.edges)
        self.p = [z3.Real('p%d%d' % e) for e in shape.edges]
        self.free = [i for i in range(n) if self.par[i][i] == 1 and sum(map(bool, self.par[i])) == 1]
        self.cache = {}

    def assume(self):
        for i in range(len(self.p)):
            assume(self.lin(tuple(int(i == j) for j in range(len(self.p)))) > 0)
        for eqs in self.others:
            assume(z3.Or(*[self.lin(r) != 0 for r in eqs]))

    def lin(self, coeffs):
        """Linear form of the edges in the free parameters."""
        n = len(self.p)
        tot = [sum(Fraction(c) * self.par[i][j] for i, c in enumerate(coeffs)) for j in range(n)]
        ts = [z3.RealVal(str(c)) * self.p[j] for j, c in enumerate(tot) if c]
        return z3.simplify(z3.Sum(*ts) if len(ts) > 1 else ts[0] if ts else z3.RealVal(0), som=True)

    def inner(self, a, b):
        key = tuple(map(int, a)), tuple(map(int, b))
        if key not in self.cache:
            self.cache[key] = self.lin(self.shape.inner(*key))
        return Q(self.cache[key])

    # ------------------------------------------------------------ contracts

    def matches(self, op):
        """Isometries of the lattice equal to this operation (up to the sense of rotation)."""
        D = self.shape.D
        out = []
        one = tuple(tuple(int(i == j) for j in range(D)) for i in range(D))
        for m in self.H:
            d, tr = det(m), sum(m[i][i] for i in range(D))
            if op.kind == 'inversion':
                ok = m == tuple(tuple(-x for x in r) for r in one)
            elif op.kind == 'mirror' and D == 2 and isinstance(op.axis, V):
                c = tuple(map(int, op.axis.c))
                ok = any(c) and d == -1 and apply(m, c) == tuple(-x for x in c)
            elif op.kind == 'rotation' and D == 2 and op.axis is None:
                ok = d == 1 and tr == TRACE[op.k] - 1
            elif op.kind == 'rotation' and D == 3 and op.axis is not None:
                ok = d == 1 and tr == TRACE[op.k]
                if ok and op.k != 1:
                    if isinstance(op.axis, V):
                        c = tuple(map(int, op.axis.c))
                        ok = any(c) and apply(m, c) == c
                    elif isinstance(op.axis, Cross):
                        ok = turns_plane(m, op.axis)
                    else:
                        raise Unsupported('axis')
            else:
                raise Unsupported('operation {}'.format(op))
            if ok:
                out.append(m)
        return out

    def check(self, neighbors, group):
        return all(bool(self.matches(g)) for g in group)


TRACE = {1: 3, 2: -1, 3: 0, 4: 1, 6: 2}


def turns_plane(m, x):
    """m rotates the plane of a and b (it is a proper isometry, not the identity, of the right order)."""
    a, b = (tuple(map(int, v.c)) for v in (x.a, x.b))
    n = [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
    if not any(n):
        return False
    ma, mb = apply(m, a), apply(m, b)
    if sum(s * t for s, t in zip(n, ma)) or sum(s * t for s, t in zip(n, mb)):
        return False
    # determinant of the restriction: ma x mb = det a x b (in coordinates, all parallel to n)
    w = [ma[1] * mb[2] - ma[2] * mb[1], ma[2] * mb[0] - ma[0] * mb[2], ma[0] * mb[1] - ma[1] * mb[0]]
    return w == n


def turn(angle):
    k = Fraction(float(angle)).limit_denominator(48)
    if abs(float(k) - float(angle)) > 1e-12 or k.numerator not in (1, -1) or k.denominator not in TRACE:
        raise ContractError('rotation by {} turns is no lattice symmetry'.format(angle))
    return k.denominator


def world(w):
    def array(x, *a, **k):
        if isinstance(x, V):
            return V(x.c)
        if isinstance(x, (list, tuple)) and len(x) and all(isinstance(y, V) for y in x):
            return V(np.array([y.c for y in x]))
        if isinstance(x, (list, tuple)):
            out = np.empty(len(x), object)
            for i, y in enumerate(x):
                out[i] = y
            return out
        if isinstance(x, np.ndarray):
            return x
        raise Unsupported('array of {!r}'.format(type(x)))

    def outer(a, b):
        out = np.empty((len(a), len(b)), object)
        for i in range(len(a)):
            for j in range(len(b)):
                out[i, j] = a[i] * b[j]
        return out

    def isclose(x, y=0, *a, **k):
        out = np.empty(len(x), object)
        for i, q in enumerate(x):
            out[i] = SBool(Q.of(q) == Q.of(y))
        return out

    def num_eq(x, y):
        return x.equals(y) if isinstance(x, Ratio) else Q.of(x) == Q.of(y)

    def allclose(x, y, *a, **k):
        xs = list(x.ravel()) if isinstance(x, np.ndarray) else list(x)
        ys = list(y) if isinstance(y, (list, tuple, np.ndarray)) else [y] * len(xs)
        return SBool(z3.And(*[num_eq(p, q) for p, q in zip(xs, ys)]))

    def concatenate(parts, axis=0):
        if all(isinstance(x, V) for x in parts):
            return V(np.concatenate([x.c for x in parts]))
        out = []
        for x in parts:
            if isinstance(x, Multi):
                out.append(x)
            else:
                out += list(x)
        return Sig(out)

    def sqrt(x):
        if isinstance(x, np.ndarray):
            out = np.empty(x.shape, object)
            for i in np.ndindex(*x.shape):
                out[i] = x[i] ** 0.5
            return out
        return x ** 0.5

    def total(x, *a, **k):
        return sum(int(bool(y)) for y in x)

    def cross(a, b):
        if not (isinstance(a, V) and isinstance(b, V) and a.ndim == b.ndim == 1):
            raise Unsupported('cross product')
        return Cross(a, b)

    def sorted_(x, key=None, reverse=False):
        if key is None and isinstance(x, (np.ndarray, list)) and len(x) and any(isinstance(y, (Q, Ang)) for y in x):
            return Multi(list(x))
        return sorted(x, key=key, reverse=reverse)

    class SymDefault(Symbolic):
        def __init__(self, factory):
            self.factory, self.k, self.v = factory, [], []

        def find(self, key):
            for q, v in zip(self.k, self.v):
                if q[1] is key[1] and q[0].eq(key[0]):
                    return v
            return None

        def __getitem__(self, key):
            v = self.find(key)
            if v is None:
                v = self.factory()
                self.k.append(key)
                self.v.append(v)
            return v

        def values(self):
            return list(self.v)

        def items(self):
            return list(zip(self.k, self.v))

        def keys(self):
            return list(self.k)

    def coeff(vec, c):
        if not isinstance(vec, Sig):
            raise Unsupported('key of the classification')
        return (vec, c)

    def prop(a):
        d = np.diag(a)
        n = len(d)
        return SBool(z3.And(*[Q.of(d[i]) == Q.of(d[0]) for i in range(n)])), d[0]

    one = object()
    npm = Stub('numpy', array=array, asarray=array, abs=abs, outer=outer, diag=np.diag, diagonal=np.diagonal, isclose=isclose, allclose=allclose,
               concatenate=concatenate, hstack=concatenate, vstack=concatenate, sum=total, count_nonzero=total, cross=cross, sqrt=sqrt, absolute=abs)

    def rotation(angle, axis=None, inversion=False, U=None, spin=None):
        if inversion or U is not None or spin is not None:
            raise Unsupported('rotation')
        return Op('rotation', turn(angle), axis)
    over = dict(defaultdict=SymDefault, BlochCoeff=coeff, prop_to_id=prop, rotation=rotation, mirror=lambda axis: Op('mirror', 2, axis),
                inversion=lambda d: Op('inversion', 2, None), check_bravais_symmetry=w.check)
    imports = {'numpy': npm, 'scipy': Stub('scipy'), 'scipy.linalg': Stub('la'), 'scipy.sparse': Stub('sparse'),
               '.': Stub('qsymm', kwant_continuum=Stub('kwant_continuum', sympify=lambda s, *a: one))}
    return load(M, imports, overrides=over, builtin_overrides={'sorted': sorted_, 'print': lambda *a, **k: None})


def strata(D):
    for g in graphs(D):
        sh = Shape(D, g)
        for st in sh.strata():
            yield sh, st


def complete(ob, D, part=None):
    n = 0
    for idx, (sh, st) in enumerate(strata(D)):
        if part is not None and idx % part[1] != part[0]:
            continue
        w = World(sh, st)
        V.W = w
        label = '{} Voronoi pairs, {} isometries, {} equalities'.format(len(sh.vectors), len(st[2]), len(st[0]))

        def run():
            w.assume()
            mod = world(w)
            orig = mod.ns['pick_perp']

            def perp(vectors, n, other_vectors=None):
                """The vectors found, in arbitrary order."""
                src = V(vectors.c) if isinstance(vectors, V) else vectors
                oth = V(other_vectors.c) if isinstance(other_vectors, V) else other_vectors
                r = orig(src, n, oth)
                return list(iter(shuffled(V(np.array([v.c for v in r])), 'orthogonal'))) if r else r
            mod.ns['pick_perp'] = perp
            num, sets = mod.ns['equals'](V(sh.vectors))
            if not (isinstance(num, list) and all(isinstance(k, int) for k in num) and [len(s) for s in sets] == num and num == sorted(num)):
                raise ContractError('equals returns {} {}'.format(num, sets))
            rows = sorted(tuple(map(int, r)) for s in sets for r in s.c)
            if rows != sorted(sh.vectors):
                raise ContractError('equals does not partition the vectors')
            f = mod.ns['bravais_group_%dd' % D]
            gens = f(Neighbors(sh.vectors), list(num), Sets([V(s.c) for s in sets], num), False)
            return num, sets, gens
        E.UNKNOWN_IS_FEASIBLE[0] = 1000
        t0 = time.time()
        try:
            ps = explore(run)
        finally:
            E.UNKNOWN_IS_FEASIBLE[0] = None
        if os.environ.get('PV_DEBUG'):
            print(label, len(ps), 'paths', round(time.time() - t0, 1), 's', flush=True)
        for p in ps:
            if p.kind == 'raise':
                ob.check('complete{}: no error'.format(D), False, (label, repr(p.value), str(p.pc)[-1500:]))
                continue
            num, sets, gens = p.value
            n += 1
            ok = isinstance(gens, (set, frozenset)) and all(isinstance(g, Op) for g in gens)
            ob.check('complete{}: a set of operations is returned'.format(D), ok, gens)
            if not ok:
                continue
            # isometric vectors are always in the same set
            ok = all(any(sum(tuple(map(int, r)) in orbit(v, w.H) for r in s.c) == len(set(orbit(v, w.H)) & set(sh.vectors)) for s in sets)
                     for v in sh.vectors)
            ob.check('complete{}: equivalent vectors are in the same set'.format(D), ok, (label, num))
            m = {g: w.matches(g) for g in gens}
            ob.check('complete{}: the generators are isometries of the lattice'.format(D), all(m.values()), (label, num, gens, str(p.pc)[-1500:]))
            inv = tuple(tuple(-int(i == j) for j in range(D)) for i in range(D))
            got = closure([inv] + [x for g in gens for x in m[g]], D)
            ob.check('complete{}: the generators generate all isometries'.format(D), got == set(w.H),
                     (label, num, gens, len(got), str(p.pc)[-1500:]))
        ob.check('complete{}: every kind of lattice is reached'.format(D), len(ps) > 0, label)


def orbit(v, H):
    out = set()
    for m in H:
        x = apply(m, v)
        out |= {x, tuple(-y for y in x)}
    return out


SRC3 = ['symmetry_finder.bravais_group_3d', 'symmetry_finder.equals', 'symmetry_finder.pick_perp', 'symmetry_finder.threefold_axis',
        'symmetry_finder.twofold_axis']


@obligation(P, ['symmetry_finder.bravais_group_2d', 'symmetry_finder.equals'])
def complete2(ob):
    complete(ob, 2)


@obligation(P, SRC3)
def complete3a(ob):
    complete(ob, 3, (0, 6))


@obligation(P, SRC3)
def complete3b(ob):
    complete(ob, 3, (1, 6))


@obligation(P, SRC3)
def complete3c(ob):
    complete(ob, 3, (2, 6))


@obligation(P, SRC3)
def complete3d(ob):
    complete(ob, 3, (3, 6))


@obligation(P, SRC3)
def complete3e(ob):
    complete(ob, 3, (4, 6))


@obligation(P, SRC3)
def complete3f(ob):
    complete(ob, 3, (5, 6))


# ---------------------------------------------------------------- symmetry check

class BC:
    """Hop vector with coefficient."""
    def __init__(self, v, c):
        self.v, self.c = v, c

    def __iter__(self):
        return iter((self.v, self.c))

    @property
    def hop(self):
        return self.v


class Vec:
    """g_k ... g_1 v for an arbitrary v of the neighbors."""
    __array_ufunc__ = None

    def __init__(self, word=(), sign='+-'):
        self.word, self.sign = word, sign

    def __neg__(self):
        return Vec(self.word, {'+': '-', '-': '+', '+-': '+-'}[self.sign])


class Mat:
    __array_ufunc__ = None

    def __init__(self, g):
        self.g = g

    def __matmul__(self, v):
        if isinstance(v, Vec):
            return Vec((self.g, *v.word), v.sign)
        raise Unsupported('product')

    def dot(self, v):
        return self @ v


class Hops(Symbolic):
    """The set of all vectors of a form."""
    def __init__(self, form, bc=None):
        self.form, self.bc = form, bc

    def __neg__(self):
        return Hops(-self.form, self.bc)

    def elem(self):
        return self.form if self.bc is None else BC(self.form, self.bc)

    def pv_comp(self, kind, fn):
        out = list(fn(self.elem()))
        if len(out) != 1:
            raise Unsupported('filter of the neighbors')
        x = out[0]
        if isinstance(x, BC):
            return Hops(x.v, x.c)
        if isinstance(x, Vec):
            return Hops(x)
        raise Unsupported('set of {!r}'.format(x))

    def __eq__(self, o):
        if not isinstance(o, Hops):
            return NotImplemented
        if self.bc is not o.bc:
            raise ContractError('comparison with and without coefficients')
        a, b = sorted([(self.form.word, self.form.sign), (o.form.word, o.form.sign)], key=lambda t: len(t[0]))
        if a == ((), '+-') and b[1] == '+-' and len(b[0]) == 1:
            return SBool(z3.Bool('{} permutes the neighbors'.format(b[0][0])))
        raise ContractError('comparison of {} and {}'.format(a, b))

    def __ne__(self, o):
        return ~(self == o)
    __hash__ = None


class Group(Symbolic):
    """Arbitrary set of operations."""
    pv_else = True

    def pv_for(self, body, get, set_, orelse=None):
        bad = z3.Bool('bad permutes the neighbors')
        before = get()
        if E.decide(z3.Bool('all operations permute the neighbors')):
            assume(z3.Bool('good permutes the neighbors'))
            if E.decide(z3.Bool('there are operations')):
                r = body(Stub('good', R=Mat('good')))
                if r is not None:
                    return None if r is E.BREAK else r
                same(before, get())
            return orelse() if orelse else None
        assume(z3.Not(bad))
        if E.decide(z3.Bool('other operations come first')):
            assume(z3.Bool('good permutes the neighbors'))
            r = body(Stub('good', R=Mat('good')))
            if r is not None:
                return None if r is E.BREAK else r
            same(before, get())
        r = body(Stub('bad', R=Mat('bad')))
        if r is not None:
            return None if r is E.BREAK else r
        raise Unsupported('the loop goes on after a failure')

    def pv_comp(self, kind, fn):
        g = list(fn(Stub('any', R=Mat('any'))))
        if len(g) != 1 or not isinstance(g[0], (SBool, bool)):
            raise Unsupported('comprehension over the group')
        return Every(g[0])


class Every(Symbolic):
    def __init__(self, f):
        self.f = f if isinstance(f, SBool) else SBool(z3.BoolVal(f))

    def pv_all(self):
        if z3.eq(self.f.f, z3.Bool('any permutes the neighbors')):
            return E.decide(z3.Bool('all operations permute the neighbors'))
        raise Unsupported('all')

    def pv_any(self):
        if z3.eq(z3.simplify(self.f.f), z3.simplify(z3.Not(z3.Bool('any permutes the neighbors')))):
            return not E.decide(z3.Bool('all operations permute the neighbors'))
        raise Unsupported('any')


def same(a, b):
    # variables that are new or rebound in the loop must not matter: only sets of this iteration
    for k, v in b.items():
        if k in a and v is not a[k] and not isinstance(v, Hops):
            raise Unsupported('{} changes in the loop'.format(k))


@obligation(P, ['symmetry_finder.check_bravais_symmetry'])
def check(ob):
    one = object()

    def vstack(xs):
        if len(xs) == 2 and all(isinstance(x, Hops) for x in xs) and {x.form.sign for x in xs} == {'+', '-'} and not xs[0].form.word:
            return Hops(Vec(sign='+-'))
        raise Unsupported('stack')

    def run():
        npm = Stub('numpy', vstack=vstack, concatenate=vstack)
        imports = {'numpy': npm, 'scipy': Stub('scipy'), 'scipy.linalg': Stub('la'), 'scipy.sparse': Stub('sparse'),
                   '.': Stub('qsymm', kwant_continuum=Stub('kwant_continuum', sympify=lambda s, *a: one))}
        mod = load(M, imports, overrides=dict(BlochCoeff=BC))
        return mod.ns['check_bravais_symmetry'](Hops(Vec(sign='+')), Group())
    n = 0
    for p in explore(run):
        if p.kind == 'raise':
            ob.check('check: no error', False, (repr(p.value), p.pc))
            continue
        n += 1
        ok = isinstance(p.value, bool)
        ob.check('check: a truth value is returned', ok, p.value)
        if ok:
            ob.prove('check: true iff every operation permutes the neighbors', z3.Bool('all operations permute the neighbors') == p.value, p.pc)
    ob.check('check: reachable', n >= 2, n)


# ---------------------------------------------------------------- the whole group

class W(Symbolic):
    """Product of named matrices."""
    __array_ufunc__ = None

    def __init__(self, word, shape=None, pure=False, **a):
        # pure: divided by a length of the lattice, so that it does not depend on the unit of length
        self.word, self._shape, self.pure = tuple(word), shape, pure
        self.__dict__.update(a)

    @property
    def shape(self):
        if self._shape is None:
            raise Unsupported('shape of {}'.format(self.word))
        return self._shape

    @property
    def T(self):
        return W([TRANSPOSED.get(x, x[:-2] if x.endswith('^T') else x + '^T') for x in reversed(self.word)],
                 self._shape and self._shape[::-1], self.pure)

    def __matmul__(self, o):
        if isinstance(o, W):
            s = (self._shape[0], o._shape[1]) if self._shape and o._shape else None
            return W(self.word + o.word, s, self.pure or o.pure)
        raise Unsupported('product')

    def __truediv__(self, o):
        if isinstance(o, Length) and (o.power, o.many) == (1, False) and not self.pure:
            return W(self.word, self._shape, True)
        raise Unsupported('quotient')

    def __mul__(self, o):
        if isinstance(o, Length) and (o.power, o.many) == (-1, False) and not self.pure:
            return W(self.word, self._shape, True)
        raise Unsupported('product')
    __rmul__ = __mul__

    def dot(self, o):
        return self @ o

    def pv_len(self):
        if self.word[0] == 'voronoi':
            return 2 * self.half if hasattr(self, 'half') else Half2()
        return self.shape[0]

    def __getitem__(self, k):
        if isinstance(k, slice) and k.start in (None, 0) and k.step is None and isinstance(k.stop, HalfN) and self.word[:1] == ('voronoi',):
            return W(('half ' + self.word[0],) + self.word[1:], pure=self.pure)
        raise Unsupported('item')

    def __repr__(self):
        return ' '.join(self.word)
    __hash__ = None

    def __eq__(self, o):
        raise Unsupported('comparison')


TRANSPOSED = {'sign': 'sign'}


class Length(Symbolic):
    """A positive length (power 1) or inverse length (power -1) of the lattice; a list of lengths if `many`."""
    def __init__(self, power=1, many=False):
        self.power, self.many = power, many

    def __rtruediv__(self, o):
        if isinstance(o, (int, float)) and o == 1 and not self.many:
            return Length(-self.power)
        raise Unsupported('quotient of lengths')


def some_length(x, *a, **k):
    if isinstance(x, Length) and x.many and not a and not k:
        return Length(x.power)
    raise Unsupported('one of the lengths')


def norms(x, *a, **k):
    if isinstance(x, W) and not x.pure and not a and set(k) <= {'axis'} and x.word in (('periods',), ('periods', 'Q'), ('periods', 'Q', 'sign'), ('reduced',)):
        if k.get('axis') is None:
            return Length()
        if k['axis'] in (1, -1):
            return Length(many=True)
    raise Unsupported('norm')


class Half2:
    def __floordiv__(self, k):
        if k == 2:
            return HalfN()
        raise Unsupported('part of the neighbors')


class HalfN:
    pass


class Gen:
    def __init__(self, *name):
        self.name = name

    def __repr__(self):
        return str(self.name)

    def __eq__(self, o):
        return isinstance(o, Gen) and self.name == o.name

    def __hash__(self):
        return hash(self.name)


@obligation(P, ['symmetry_finder.bravais_point_group'])
def point_group(ob):
    for dim in (1, 2, 3, 4):
        for space in range(dim, 5):
            tr, ph, gn = z3.Bools('tr ph generators')
            calls = {}

            def qr(a, mode='full', **k):
                if mode != 'economic' or a.word != ('periods^T',):
                    raise Unsupported('decomposition')
                return W(['Q'], (space, dim)), W(['R'], (dim, dim))

            def sign(a):
                if getattr(a, 'word', None) != ('R',):
                    raise Unsupported('signs')
                return W(['signs of R'], (dim, dim))

            def diag(a):
                if isinstance(a, W) and a.word == ('signs of R',):
                    return 'diagonal'
                if isinstance(a, W) and a.word == ('R',):
                    return 'diagonal of R'
                if a == 'diagonal':
                    return W(['sign'], (dim, dim))
                raise Unsupported('diagonal')

            def lll(p, *a, **k):
                calls['lll'] = p
                return W(['reduced'], (dim, dim), p.pure), W(['transformation'], (dim, dim))

            def vor(p, reduced=False, rtol=1e-9):
                if not (p.word == ('reduced',) and reduced is True and 0 < rtol <= 1e-3):
                    raise ContractError('Voronoi vectors of {}'.format(p))
                if not p.pure:
                    raise ContractError('the neighbors are compared with fixed tolerances, but depend on the unit of length')
                return W(['voronoi'])

            def eq(n):
                if n.word != ('half voronoi', 'reduced'):
                    raise ContractError('classification of {}'.format(n))
                return 'num', 'sets'

            def group(d):
                def f(n, num, sets, verbose=False):
                    if d != dim or n.word != ('half voronoi', 'reduced') or (num, sets) != ('num', 'sets'):
                        raise ContractError('group of {} {} {}'.format(n, num, sets))
                    return {Gen('group', d)}
                return f

            def chk(n, g):
                if n.word != ('half voronoi', 'reduced'):
                    raise ContractError('check of {}'.format(n))
                calls['checked'] = set(g)
                return SBool(z3.Bool('checked'))

            def run():
                calls.clear()
                npm = Stub('numpy', asarray=lambda x, *a: x, array=lambda x, *a: x, sign=sign, diag=diag, min=some_length, max=some_length, mean=some_length,
                           linalg=Stub('linalg', norm=norms))
                la = Stub('la', qr=qr, norm=norms)
                imports = {'numpy': npm, 'scipy': Stub('scipy', linalg=la), 'scipy.linalg': la, 'scipy.sparse': Stub('sparse'),
                           '.': Stub('qsymm', kwant_continuum=Stub('kwant_continuum'))}
                over = dict(lll=lll, voronoi=vor, equals=eq, bravais_group_2d=group(2), bravais_group_3d=group(3), check_bravais_symmetry=chk,
                            inversion=lambda d: Gen('inversion', d), time_reversal=lambda d: Gen('tr', d), particle_hole=lambda d: Gen('ph', d),
                            generate_group=lambda g: ('generated', frozenset(g)))
                mod = load(M, imports, overrides=over)
                return mod.ns['bravais_point_group'](W(['periods'], (dim, space)), SBool(tr), SBool(ph), SBool(gn)), dict(calls)
            n = 0
            for p in explore(run):
                if p.kind == 'raise':
                    ok = dim > 3 or isinstance(p.value, AssertionError) and E.prove(z3.Not(z3.Bool('checked')), p.pc)[0]
                    ob.check('point_group: error only for more than three dimensions or if the check fails', bool(ok), (dim, repr(p.value), p.pc))
                    continue
                n += 1
                ob.check('point_group: more than three dimensions are refused', dim <= 3, dim)
                v, c = p.value
                word = c['lll'].word
                ok = word == ('periods',) if space == dim else word in (('periods', 'Q'), ('periods', 'Q', 'sign'))
                ob.check('point_group: periods in an orthonormal frame of their span are reduced', ok, word)
                ob.prove('point_group: returned only if all generators permute the neighbors', z3.Bool('checked'), p.pc)
                gens = v
                if isinstance(v, tuple) and len(v) == 2 and v[0] == 'generated':
                    ob.prove('point_group: generators or group as requested', z3.Not(gn), p.pc)
                    gens = v[1]
                else:
                    ob.prove('point_group: generators or group as requested', gn, p.pc)
                ok = isinstance(gens, (set, frozenset))
                ob.check('point_group: a set is returned', ok, v)
                if not ok:
                    continue
                ob.check('point_group: all generators are checked', set(gens) == c.get('checked'), (gens, c))
                for g, f in ((Gen('tr', dim), tr), (Gen('ph', dim), ph)):
                    ob.prove('point_group: time reversal and particle-hole exactly on request', f == z3.BoolVal(g in gens), p.pc)
                rest = {g for g in gens if g.name[0] not in ('tr', 'ph')}
                want = {Gen('inversion', dim)} | ({Gen('group', dim)} if dim > 1 else set())
                ob.check('point_group: inversion and the classified group', rest == want, rest)
            ob.check('point_group: reachable', n > 0 or dim > 3, (dim, space))
