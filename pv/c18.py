"""C18: predefined operations: spin matrices, rotations, mirrors, groups.  The source is executed on exact (sympy) arrays; spins, angles and
axes are symbols."""
import itertools
import numbers
from fractions import Fraction

import numpy as np
import sympy as sp
import z3

from . import engine as E
from .engine import explore, load, Stub, SBool, Symbolic, ContractError, Unsupported
from .obl import obligation, assumption

P = 'C18'
M = 'groups'
assumption(P, 'scipy.linalg.expm is the matrix exponential; exp(X) = 1 + sin(t)/t X + (1 - cos t)/t^2 X^2 follows from X^3 = -t^2 X',
           'U(t) S U(t)^-1 and the rotated vector S solve the same linear differential equation with the same initial value, so they are equal',
           'generate_group returns the generated group (C04); products carry the unitary parts (C01)',
           'floating point constants such as 1/3 stand for the exact fraction')


def exact(e):
    e = sp.sympify(e)
    return e.xreplace({f: frac(f) for f in e.atoms(sp.Float)})


def frac(f):
    x = Fraction(float(f)).limit_denominator(1000)
    if abs(float(x) - float(f)) > 1e-12:
        raise Unsupported('constant {}'.format(f))
    return sp.Rational(x.numerator, x.denominator)


def obj(x):
    """Object array with exact entries."""
    a = np.array(x, object) if not isinstance(x, np.ndarray) else x
    out = np.empty(a.shape, object)
    for i in np.ndindex(*a.shape):
        out[i] = exact(a[i])
    return out


def mat(a):
    return sp.Matrix(a.shape[0], a.shape[1], [exact(x) for x in np.asarray(a).ravel()])


# ---------------------------------------------------------------- spin matrices for every spin

s_, i_ = sp.Symbol('s', positive=True), sp.Symbol('i', integer=True)
d_ = 2 * s_ + 1


class Seq(Symbolic):
    """Entries f(i), i = 0 .. n - 1."""
    def __init__(self, f, n):
        self.f, self.n = sp.expand(f) if not f.has(sp.sqrt) else f, sp.expand(n)

    def pv_comp(self, kind, fn):
        r = list(fn(exact(self.f)))
        if len(r) != 1:
            raise Unsupported('filter')
        return Seq(sp.sympify(r[0]), self.n)

    def __mul__(self, c):
        return Seq(exact(self.f * c), self.n)
    __rmul__ = __mul__

    def __add__(self, c):
        return Seq(exact(self.f + (c.f if isinstance(c, Seq) else c)), self.n)
    __radd__ = __add__

    def __sub__(self, c):
        return self + (c * -1)

    def __rsub__(self, c):
        return self * -1 + c

    def __truediv__(self, c):
        return self * (1 / exact(c))

    def __pow__(self, k):
        return Seq(exact(self.f) ** exact(k), self.n)


class Band:
    """Matrix with entries band[k](i) at (i, i + k)."""
    __array_ufunc__ = None

    def __init__(self, b):
        self.b = {k: exact(f) for k, f in b.items()}

    def __add__(self, o):
        return Band({k: self.b.get(k, 0) + o.b.get(k, 0) for k in {*self.b, *o.b}})

    def __mul__(self, c):
        if isinstance(c, Band):
            raise Unsupported('elementwise product')
        return Band({k: exact(c) * f for k, f in self.b.items()})
    __rmul__ = __mul__

    def __neg__(self):
        return self * -1

    def __sub__(self, o):
        return self + -o

    def __truediv__(self, c):
        return self * (1 / exact(c))

    def __matmul__(self, o):
        out = {}
        for a, f in self.b.items():
            for b, g in o.b.items():
                out[a + b] = out.get(a + b, 0) + f * g.subs(i_, i_ + a)
        return Band(out)

    @property
    def T(self):
        return Band({-k: f.subs(i_, i_ - k) for k, f in self.b.items()})

    def conj(self):
        return Band({k: sp.conjugate(f) if False else f.xreplace({sp.I: -sp.I}) for k, f in self.b.items()})
    conjugate = conj

    def norm(self):
        return Band({k: sp.expand(radicals(f)) for k, f in self.b.items()})

    def zero(self):
        return all(f == 0 for f in self.norm().b.values())


def radicals(e):
    return sp.expand(e).replace(lambda x: x.is_Pow and x.exp.is_Rational and x.exp.q == 2, lambda x: sp.expand(x.base) ** x.exp)


def spin_world():
    def arange(*a):
        a = [exact(x) for x in a]
        start, stop, step = (0, a[0], 1) if len(a) == 1 else (*a, 1) if len(a) == 2 else a
        n = sp.expand((stop - start) / sp.sympify(step))
        # n - ceil(n) for integer 2 s
        c = n.as_coefficients_dict().get(sp.S.One, 0)
        n = n - c + sp.ceiling(c)
        return Seq(sp.expand(start + step * i_), n)

    def diag(v, k=0):
        if not isinstance(v, Seq) or sp.expand(v.n - (d_ - abs(k))) != 0:
            raise ContractError('diagonal of length {}'.format(getattr(v, 'n', v)))
        return Band({k: v.f if k >= 0 else sp.sympify(v.f).subs(i_, i_ + k)})

    def sqrt(x):
        if isinstance(x, Seq):
            return Seq(sp.sqrt(sp.expand(exact(x.f))), x.n)
        return sp.sqrt(sp.expand(exact(x)))

    def eye(n, *a):
        if sp.expand(exact(n) - d_) != 0:
            raise ContractError('size of the identity')
        return Band({0: sp.S.One})
    return Stub('numpy', arange=arange, diag=diag, sqrt=sqrt, eye=eye, identity=eye, array=lambda x, *a: list(x), stack=lambda x, *a: list(x),
                round=lambda x: exact(x), isclose=lambda a, b, *r: sp.expand(exact(a) - exact(b)) == 0, pi=sp.pi)


def base(npm, la=None, over=None, builtin=None):
    imports = {'numpy': npm, 'scipy': Stub('scipy', linalg=la), 'scipy.linalg': la or Stub('la'), 'tinyarray': TA, 'sympy': sp,
               'sympy.matrices.matrices': Stub('matrices'), '.linalg': Stub('linalg'), '.model': Stub('model')}
    return load(M, imports, overrides=over, builtin_overrides=builtin)


TA = Stub('tinyarray', identity=lambda n, *a: obj([[int(i == j) for j in range(n)] for i in range(n)]), array=lambda x, *a: obj(x),
          zeros=lambda n, *a: obj(np.zeros(n, int)), ndarray_int=type('I', (), {}), ndarray_float=type('F', (), {}), ndarray_complex=type('C', (), {}))


def eps(a, b, c):
    return sp.LeviCivita(a, b, c)


@obligation(P, ['groups.spin_matrices'])
def spins(ob):
    for inc in (False, True):
        def run():
            mod = base(spin_world(), builtin={'int': lambda x: x})
            return mod.ns['spin_matrices'](s_, include_0=True) if inc else mod.ns['spin_matrices'](s_)
        for p in explore(run):
            if p.kind == 'raise':
                ob.check('spins: no error', False, repr(p.value))
                continue
            S = p.value
            ok = isinstance(S, list) and len(S) == 3 + inc and all(isinstance(x, Band) for x in S)
            ob.check('spins: three matrices (and the identity on request)', ok, S)
            if not ok:
                continue
            if inc:
                ob.check('spins: the first one is the identity on request', (S[0] - Band({0: sp.S.One})).zero(), S[0].b)
                S = S[1:]
            for x in S:
                # entries outside of the matrix vanish, so products may ignore the boundary
                for k, f in x.b.items():
                    for r in range(abs(k)):
                        ob.check('spins: entries outside of the matrix vanish', sp.expand(radicals(f.subs(i_, d_ - 1 - r))) == 0 if k > 0 else
                                 sp.expand(radicals(f.subs(i_, r))) == 0, (k, f), 'sympy normal form')
                ob.check('spins: Hermitian', (x - x.conj().T).zero(), x.b, 'sympy normal form')
            for a, b in itertools.combinations(range(3), 2):
                c = 3 - a - b
                D = S[a] @ S[b] - S[b] @ S[a] - S[c] * (sp.I * eps(a, b, c))
                ob.check('spins: commutation relations for every spin', D.zero(), D.norm().b, 'sympy normal form')
            C = S[0] @ S[0] + S[1] @ S[1] + S[2] @ S[2] - Band({0: s_ * (s_ + 1)})
            ob.check('spins: total spin', C.zero(), C.norm().b, 'sympy normal form')
            ob.check('spins: standard basis: z diagonal and descending', (S[2] - Band({0: s_ - i_})).zero(), S[2].b, 'sympy normal form')
            up = (S[0] + S[1] * sp.I).norm().b
            f = up.get(1, sp.S.Zero)
            ok = all(v == 0 for k, v in up.items() if k != 1) and f.subs({s_: sp.Rational(7, 2), i_: 1}).is_positive and not f.has(sp.I)
            ob.check('spins: standard basis: the raising operator is real and positive', ok, up, 'sympy normal form')
            ob.check('spins: x and z real, y imaginary (time reversal)', not any(f.has(sp.I) for q in (0, 2) for f in S[q].b.values()) and
                     not any((f / sp.I).has(sp.I) for f in S[1].b.values()), [x.b for x in S], 'sympy normal form')


# ---------------------------------------------------------------- exact arrays

class Spin(Symbolic):
    """Three angular momentum matrices."""
    def __init__(self, name):
        self.name = name

    def pv_isinstance(self, t):
        return {numbers.Number: False}.get(t)

    def pv_len(self):
        return 3


class Comb:
    """factor * sum_k n_k S_k."""
    __array_ufunc__ = None

    def __init__(self, n, s, f=1):
        self.n, self.s, self.f = n, s, f

    def __mul__(self, c):
        return Comb(self.n, self.s, exact(self.f * exact(c)))
    __rmul__ = __mul__

    def __neg__(self):
        return self * -1


class SpinRot:
    """exp(-i n.S)."""
    __array_ufunc__ = None

    def __init__(self, n, s):
        self.n, self.s = [sp.simplify(x) for x in n], s

    def __repr__(self):
        return 'exp(-i {} . S)'.format(self.n)

    def __eq__(self, o):
        raise Unsupported('comparison of unitary parts')
    __hash__ = object.__hash__


NORM = {}      # norm symbol -> its square


def norm(v, *a, **k):
    sq = sp.expand(sum(exact(x) ** 2 for x in v))
    if sq.is_number:
        return sp.sqrt(sq)
    r = sp.Symbol('norm%d' % len(NORM), positive=True)
    for q, t in NORM.items():
        if sp.expand(t - sq) == 0:
            return q
    NORM[r] = sq
    return r


def reduce_norm(e):
    """Normal form modulo norm^2 = the square of the vector."""
    e = sp.together(sp.expand(exact(e)))
    for r, sq in NORM.items():
        n, d = sp.fraction(sp.together(e))
        x = sorted(sq.free_symbols, key=str)[-1]
        # eliminate the highest component: x^2 = r^2 - rest
        rel = sp.expand(sq - r ** 2)
        n = sp.rem(sp.Poly(sp.expand(n), x), sp.Poly(rel, x)).as_expr()
        e = sp.cancel(sp.expand(n) / d)
    return sp.expand(e)


def expm(x):
    if isinstance(x, Comb):
        if sp.expand(x.f + sp.I) != 0:
            raise ContractError('exponential of {} n.S'.format(x.f))
        return SpinRot(x.n, x.s)
    X = mat(x).applyfunc(sp.expand)
    if X.shape != (3, 3) or any(sp.expand(X[i, j] + X[j, i]) != 0 for i in range(3) for j in range(3)) or X.has(sp.I):
        raise Unsupported('exponential of {}'.format(X))
    v = [X[2, 1], X[0, 2], X[1, 0]]
    sq = reduce_norm(sum(t ** 2 for t in v))
    if sq == 0:
        return obj(np.eye(3, dtype=int))
    th = sp.sqrt(sq)
    th = sp.simplify(th)
    c, s = sp.cos(th), sp.sin(th)
    # even functions of th: drop absolute values
    a = th.args[0] if th.func is sp.Abs else None
    if th.has(sp.Abs):
        un = th.replace(sp.Abs, lambda q: q)
        th, c, s = un, sp.cos(un), sp.sin(un)
    R = sp.eye(3) + s / th * X + (1 - c) / th ** 2 * X * X
    return obj(np.array(R.tolist(), object).reshape(3, 3))


def array_world(spin_lookup=None):
    def array(x, *a, **k):
        if isinstance(x, Spin):
            return x
        return obj(x)

    def tensordot(n, s, axes=2):
        if axes not in ((0, 0), ((0), (0)), ([0], [0]), ((0,), (0,))):
            raise Unsupported('axes')
        n = obj(n)
        if isinstance(s, Spin):
            return Comb(list(n), s)
        if len(n) != len(s):
            raise ContractError('lengths')
        tot = sum(n[k] * s[k] for k in range(len(n)))
        return obj(tot)

    def eye(n, *a, **k):
        return obj(np.eye(int(n), dtype=int))

    def append(a, b):
        return obj(np.append(a, exact(b)))

    def outer(a, b):
        return obj(np.outer(np.asarray(a, object), np.asarray(b, object)))
    f = lambda g: lambda x: g(exact(x))  # noqa: E731
    la = Stub('la', norm=norm, expm=expm)
    npm = Stub('numpy', array=array, asarray=array, tensordot=tensordot, eye=eye, identity=eye, append=append, outer=outer, pi=sp.pi, cos=f(sp.cos),
               sin=f(sp.sin), sqrt=f(sp.sqrt), linalg=la, zeros=lambda n, *a: obj(np.zeros(n, int)), concatenate=lambda x: obj(np.concatenate(x)),
               ndarray=np.ndarray, ones=lambda n: obj(np.ones(n, int)), diag=lambda x: obj(np.diag(x)))
    return npm, la


class PGE:
    """Records the arguments of PointGroupElement."""
    def __init__(self, R, conjugate=False, antisymmetry=False, U=None, _strict_eq=False, *, locals=None):
        if isinstance(R, sp.MatrixBase):
            R = np.array(R.tolist(), object)
        self.R, self.conjugate, self.antisymmetry, self.U = R, conjugate, antisymmetry, U


def groups_module():
    npm, la = array_world()
    mod = base(npm, la)
    mod.ns['PointGroupElement'] = PGE
    mod.ns['generate_group'] = lambda g: ('generated', set(g))
    orig = mod.ns['spin_matrices']
    mod.ns['spin_matrices'] = lambda s, include_0=False: Spin(('spin', s)) if not include_0 else orig(s, include_0)
    return mod


def same_matrix(a, b):
    a, b = mat(a), mat(b)
    return a.shape == b.shape and all(sp.simplify(reduce_norm(x - y)) == 0 for x, y in zip(a, b))


@obligation(P, ['groups.L_matrices'])
def orbital(ob):
    def run():
        mod = groups_module()
        L = mod.ns['L_matrices']
        return L(2, 1), L(3, 1), L(3, 2), L()
    for p in explore(run):
        if p.kind == 'raise':
            ob.check('orbital: no error', False, repr(p.value))
            continue
        L21, L31, L32, L0 = ([mat(x) for x in L] for L in p.value)
        ob.check('orbital: default is three dimensions, l = 1', L0 == L31, L0)
        ob.check('orbital: plane', L21 == [sp.Matrix([[0, -sp.I], [sp.I, 0]])], L21)
        ok = len(L31) == 3 and all(L31[a][j, k] == -sp.I * eps(a, j, k) for a in range(3) for j in range(3) for k in range(3))
        ob.check('orbital: l = 1 matrices are -i epsilon', ok, L31)
        for l, L in ((1, L31), (2, L32)):
            if not ob.check('orbital: three matrices', len(L) == 3 and all(x.shape == (2 * l + 1,) * 2 for x in L), L):
                continue
            for a, b in itertools.combinations(range(3), 2):
                c = 3 - a - b
                ob.check('orbital: commutation relations', (L[a] * L[b] - L[b] * L[a] - sp.I * eps(a, b, c) * L[c]).expand().is_zero_matrix, L,
                         'sympy normal form')
            ob.check('orbital: total angular momentum', (sum((x * x for x in L), sp.zeros(2 * l + 1)) - l * (l + 1) * sp.eye(2 * l + 1)).expand().is_zero_matrix,
                     L, 'sympy normal form')
            ob.check('orbital: imaginary and antisymmetric', all((x + x.T).is_zero_matrix and not (x / sp.I).applyfunc(sp.simplify).has(sp.I) for x in L), L)
        x, y, z = r = sp.symbols('x y z', real=True)
        phi = [x * x - y * y, (2 * z * z - x * x - y * y) / sp.sqrt(3), 2 * x * y, 2 * y * z, 2 * z * x]
        for a in range(3):
            for n, f in enumerate(phi):
                lf = sum(-sp.I * eps(a, b, c) * r[b] * sp.diff(f, r[c]) for b in range(3) for c in range(3))
                want = sum(L32[a][m, n] * phi[m] for m in range(5)) if L32[a].shape == (5, 5) else None
                ob.check('orbital: action on the documented d orbitals', want is not None and sp.expand(lf - want) == 0, (a, n), 'sympy normal form')
        # the spin vector turns like the spatial vector
        n = sp.symbols('n0:3', real=True)
        X = sum((-sp.I * n[a] * L31[a] for a in range(3)), sp.zeros(3))
        for j in range(3):
            for k in range(3):
                # coefficient of S_k in [-i n.S, S_j]
                com = sum(-sp.I * n[a] * sp.I * eps(a, j, k) for a in range(3))
                ob.check('orbital: exp(-i n.S) turns S by exp(-i n.L)', sp.expand(com - X[k, j]) == 0, (j, k), 'sympy normal form')
        t2 = sum(q * q for q in n)
        ob.check('orbital: X^3 = -|n|^2 X', (X ** 3 + t2 * X).expand().is_zero_matrix, X, 'sympy normal form')


def unit_rotation(u, th):
    """Rotation about the unit vector u by th."""
    K = sp.Matrix([[0, -u[2], u[1]], [u[2], 0, -u[0]], [-u[1], u[0], 0]])
    U = sp.Matrix(3, 1, list(u))
    return sp.cos(th) * sp.eye(3) + (1 - sp.cos(th)) * U * U.T + sp.sin(th) * K


def factory(ob, name, call, want):
    """call(mod, kw) -> element; want(R, g, spin): checks."""
    for kind in ('none', 'U', 'number', 'matrices', 'both'):
        NORM.clear()
        spin = {'number': sp.Rational(3, 2), 'matrices': Spin('S'), 'both': sp.Rational(1, 2)}.get(kind)
        U = 'U' if kind in ('U', 'both') else None

        def run():
            mod = groups_module()
            kw = {}
            if U is not None:
                kw['U'] = U
            if spin is not None:
                kw['spin'] = Num(spin) if kind != 'matrices' else spin
            return call(mod, kw)
        for p in explore(run):
            if kind == 'both':
                ob.check(name + ': either spin or unitary part', p.kind == 'raise' and isinstance(p.value, ValueError), repr(p.value))
                continue
            if p.kind == 'raise':
                ob.check(name + ': no error', False, (kind, repr(p.value)))
                continue
            g = p.value
            if not ob.check(name + ': an operation is returned', isinstance(g, PGE), g):
                continue
            R, conj, anti, n = want()
            ob.check(name + ': spatial part', same_matrix(g.R, R), (g.R, R), 'sympy normal form')
            ob.check(name + ': flags', g.conjugate is conj and g.antisymmetry is anti, (g.conjugate, g.antisymmetry))
            if kind == 'none':
                ob.check(name + ': no unitary part unless it is given', g.U is None, g.U)
            elif kind == 'U':
                ob.check(name + ': given unitary part', g.U == 'U', g.U)
            else:
                s = g.U.s if isinstance(g.U, SpinRot) else None
                ok = s is not None and (s is spin if kind == 'matrices' else s.name == ('spin', spin))
                ob.check(name + ': rotation of the given spin', ok, g.U)
                if ok:
                    ok = len(g.U.n) == len(n) and all(sp.simplify(reduce_norm(a - b)) == 0 for a, b in zip(g.U.n, n))
                    ob.check(name + ': the spin turns by the same axis and angle', ok, (g.U.n, n), 'sympy normal form')


class Num(sp.Rational):
    """A spin given as a number."""
    def __new__(cls, x):
        return sp.Rational(x)


numbers.Number.register(sp.Rational)


@obligation(P, ['groups.rotation', 'groups.mirror', 'groups.inversion', 'groups.time_reversal', 'groups.particle_hole', 'groups.chiral',
                'groups.identity', 'groups.spin_rotation'])
def factories(ob):
    a = sp.Symbol('a', real=True)
    x, y, z = sp.symbols('x y z', real=True)
    r = lambda: norm(obj([x, y, z]))  # noqa: E731
    c, s = sp.cos(2 * sp.pi * a), sp.sin(2 * sp.pi * a)
    factory(ob, 'rotation in the plane', lambda m, k: m.ns['rotation'](a, **k),
            lambda: (np.array([[c, -s], [s, c]]), False, False, [0, 0, 2 * sp.pi * a]))
    for inv in (False, True):
        factory(ob, 'rotoinversion' if inv else 'rotation', lambda m, k: m.ns['rotation'](a, [x, y, z], inversion=inv, **k),
                lambda: (np.array((unit_rotation([q / r() for q in (x, y, z)], 2 * sp.pi * a) * (-1 if inv else 1)).tolist(), object), False, False,
                         [2 * sp.pi * a * q / r() for q in (x, y, z)]))

    def refl(v):
        n = norm(obj(v))
        u = sp.Matrix(v) / n
        return np.array((sp.eye(len(v)) - 2 * u * u.T).tolist(), object)
    factory(ob, 'mirror in the plane', lambda m, k: m.ns['mirror']([x, y], **k),
            lambda: (refl([x, y]), False, False, [sp.pi * x / norm(obj([x, y])), sp.pi * y / norm(obj([x, y])), 0]))
    factory(ob, 'mirror', lambda m, k: m.ns['mirror']([x, y, z], **k),
            lambda: (refl([x, y, z]), False, False, [sp.pi * q / r() for q in (x, y, z)]))
    for d in (1, 2, 3):
        one = np.array(sp.eye(d).tolist(), object)
        factory(ob, 'time reversal', lambda m, k: m.ns['time_reversal'](d, **k), lambda: (one, True, False, [0, sp.pi, 0]))
        for nm, sign, conj, anti in (('inversion', -1, False, False), ('particle_hole', 1, True, True), ('chiral', 1, False, True)):
            for U in (None, 'U'):
                for p in explore(lambda: groups_module().ns[nm](d, **({} if U is None else dict(U=U)))):
                    g = p.value
                    ok = p.kind == 'return' and isinstance(g, PGE) and same_matrix(g.R, sign * one) and g.conjugate is conj and \
                        g.antisymmetry is anti and (g.U is None if U is None else g.U == 'U')
                    ob.check(nm + ': documented operation', ok, g)
        for n in (None, 1, 3):
            for p in explore(lambda: groups_module().ns['identity'](d, **({} if n is None else dict(shape=n)))):
                g = p.value
                ok = p.kind == 'return' and isinstance(g, PGE) and same_matrix(g.R, one) and not g.conjugate and not g.antisymmetry and \
                    (g.U is None if n is None else g.U.shape == (n, n) and same_matrix(g.U, np.eye(n, dtype=int)))
                ob.check('identity: documented operation', ok, g)
    for p in explore(lambda: groups_module().ns['rotation'](a, [x, y])):
        ob.check('rotation: axis must have three components', p.kind == 'raise' and isinstance(p.value, ValueError), p.value)
    # time reversal turns every spin around: exp(-i pi S_y) S* exp(i pi S_y) = -S for real S_x, S_z and imaginary S_y
    R = unit_rotation([0, 1, 0], sp.pi)
    ob.check('time reversal: spins are reversed', R * sp.diag(1, -1, 1) == -sp.eye(3), R, 'sympy normal form')
    n = sp.symbols('n0:3', real=True)
    u = sp.Matrix(3, 1, n)
    K = unit_rotation(n, sp.pi)
    ob.check('mirror: minus the half turn about the normal', (K.subs(n[2] ** 2, 1 - n[0] ** 2 - n[1] ** 2) + sp.eye(3) - 2 * u * u.T).subs(
        n[2] ** 2, 1 - n[0] ** 2 - n[1] ** 2).expand().is_zero_matrix, K, 'sympy normal form')


# ---------------------------------------------------------------- predefined groups

def spatial_of(g, d):
    return mat(g.R).applyfunc(lambda e: sp.nsimplify(sp.simplify(e)))


def generated(ms):
    n = ms[0].shape[0]
    key = lambda m: tuple(m)  # noqa: E731
    one = sp.ImmutableMatrix(sp.eye(n))
    got, todo = {key(one): one}, [one]
    while todo:
        g = todo.pop()
        for h in ms:
            x = (g * h).applyfunc(lambda e: sp.radsimp(sp.expand(e)))
            if key(x) not in got:
                got[key(x)] = x
                todo.append(x)
                if len(got) > 100:
                    return got
    return got


CACHE = {}


@obligation(P, ['groups.square', 'groups.cubic', 'groups.hexagonal'])
def predefined(ob):
    tr, ph, gn = z3.Bools('tr ph generators')
    S = Spin('S')
    for name, d, size, opts in (('square', 2, 8, {}), ('cubic', 3, 48, {}), ('hexagonal', 2, 12, dict(dim=2)), ('hexagonal', 3, 24, dict(dim=3)),
                                ('hexagonal', 2, 12, dict(dim=2, sympy_R=False)), ('hexagonal', 3, 24, dict(dim=3, sympy_R=False))):
        for spin in (None, S):
            def run():
                NORM.clear()
                mod = groups_module()
                return mod.ns[name](tr=SBool(tr), ph=SBool(ph), generators=SBool(gn), **({} if spin is None else dict(spin=spin)), **opts)
            n = 0
            for p in explore(run):
                if p.kind == 'raise':
                    ok = spin is not None and isinstance(p.value, ValueError) and E.prove(ph, p.pc)[0]
                    ob.check('predefined: error only for particle-hole with spin', bool(ok), (name, repr(p.value), p.pc))
                    continue
                n += 1
                if spin is not None:
                    ob.prove('predefined: particle-hole with spin is refused', z3.Not(ph), p.pc)
                v = p.value
                if isinstance(v, tuple) and v[0] == 'generated':
                    ob.prove('predefined: generators or group as requested', z3.Not(gn), p.pc)
                    v = v[1]
                else:
                    ob.prove('predefined: generators or group as requested', gn, p.pc)
                ok = isinstance(v, set) and all(isinstance(g, PGE) for g in v)
                if not ob.check('predefined: operations are returned', ok, v):
                    continue
                sp_ = [g for g in v if not g.conjugate and not g.antisymmetry]
                extra = [g for g in v if g.conjugate or g.antisymmetry]
                one = np.array(sp.eye(d).tolist(), object)
                T = [g for g in extra if g.conjugate and not g.antisymmetry]
                C = [g for g in extra if g.conjugate and g.antisymmetry]
                ok = len(T) + len(C) == len(extra) and all(same_matrix(g.R, one) for g in extra)
                ob.check('predefined: only time reversal and particle-hole besides spatial operations', ok, extra)
                ob.prove('predefined: time reversal on request', tr == z3.BoolVal(len(T) == 1), p.pc)
                ob.prove('predefined: particle-hole on request', ph == z3.BoolVal(len(C) == 1), p.pc)
                ms = [sp.ImmutableMatrix(spatial_of(g, d)) for g in sp_]
                ck = tuple(sorted(str(m) for m in ms))
                if ck not in CACHE:
                    CACHE[ck] = generated(ms)
                G = CACHE[ck]
                ok = len(G) == size and all((m * m.T).applyfunc(sp.expand) == sp.eye(d) for m in G.values())
                ob.check('predefined: the documented point group is generated', ok, (name, len(G)), 'exact closure')
                axes = [sp.diag(*[-1 if i == j else 1 for i in range(d)]) for j in range(d)]
                ok = all(tuple(sp.ImmutableMatrix(m)) in G for m in axes) and (d == 2 or name == 'cubic' or tuple(sp.ImmutableMatrix(
                    [[sp.Rational(1, 2), -sp.sqrt(3) / 2, 0], [sp.sqrt(3) / 2, sp.Rational(1, 2), 0], [0, 0, 1]])) in G)
                ob.check('predefined: standard axes', ok, name, 'exact closure')
                for g, m in zip(sp_, ms):
                    if spin is None:
                        ob.check('predefined: no unitary part without spin', g.U is None, g.U)
                        continue
                    ok = isinstance(g.U, SpinRot) and g.U.s is S
                    if not ob.check('predefined: every operation turns the given spin', ok, g.U):
                        continue
                    t = sp.sqrt(sum(q * q for q in g.U.n))
                    X = unit_rotation([q / t for q in g.U.n], t) if t != 0 else sp.eye(3)
                    X = X.applyfunc(lambda e: sp.nsimplify(sp.simplify(e)))
                    if d == 3:
                        ok = any((X - e * m).applyfunc(sp.simplify).is_zero_matrix and sp.simplify(m.det()) == e for e in (1, -1))
                    else:
                        m3 = sp.Matrix([[m[0, 0], m[0, 1], 0], [m[1, 0], m[1, 1], 0], [0, 0, 1]])
                        e = sp.simplify(m.det())
                        ok = (X - e * m3).applyfunc(sp.simplify).is_zero_matrix
                    ob.check('predefined: spins turn like the proper part of the spatial operation', ok, (name, g.R, g.U), 'sympy normal form')
                for g in T:
                    ok = g.U is None if spin is None else isinstance(g.U, SpinRot) and g.U.s is S and g.U.n == [0, sp.pi, 0]
                    ob.check('predefined: time reversal of the given spin', ok, g.U)
            ob.check('predefined: reachable', n >= 4, (name, n))
    for p in explore(lambda: groups_module().ns['hexagonal'](dim=4)):
        ob.check('predefined: two or three dimensions', p.kind == 'raise' and isinstance(p.value, ValueError), p.value)
