"""C19: printed names.  The printing functions are executed on an arbitrary orthogonal matrix (symbolic entries); numbers, axes and matrices
appear in the printed text as placeholders and the text is read back with the documented grammar."""
import itertools
import re

import numpy as np
import sympy as sp
import z3

from . import engine as E
from .engine import explore, load, Stub, SBool, Symbolic, ContractError, Unsupported, Infeasible
from .obl import obligation, assumption

P = 'C19'
M = 'groups'
assumption(P, 'isclose and allclose compare exactly (rounding tolerances are not modelled)',
           'eigh returns real eigenvalues in ascending order (their sum is the trace, their product the determinant) and orthonormal '
           'eigenvectors of a symmetric matrix; arctan2(k sin t, k cos t) = t for k > 0 and -pi < t <= pi',
           'every proper rotation is the rotation of an angle in [0, pi] about a unit vector (Euler)',
           'Fraction(x).limit_denominator(n) is the closest fraction; numpy prints vectors and matrices faithfully; np.round rounds',
           'a trace of l_j R is 2 r_j for R = sum r_j l_j (C18: the orbital matrices)')

TOK = []


def put(x):
    TOK.append(x)
    return '⟦{}⟧'.format(len(TOK) - 1)


def t_(x):
    if isinstance(x, N):
        return x.t
    if isinstance(x, (int, float, np.integer, np.floating)) and not isinstance(x, bool):
        return z3.RealVal(str(x))
    raise Unsupported('number {!r}'.format(x))


class N:
    """Real number."""
    __array_ufunc__ = None

    def __init__(self, t):
        self.t = t
    __add__ = __radd__ = lambda a, b: N(a.t + t_(b))  # noqa: E731
    __sub__ = lambda a, b: N(a.t - t_(b))  # noqa: E731
    __rsub__ = lambda a, b: N(t_(b) - a.t)  # noqa: E731
    __mul__ = __rmul__ = lambda a, b: N(a.t * t_(b))  # noqa: E731
    __truediv__ = lambda a, b: N(a.t / t_(b))  # noqa: E731
    __lt__ = lambda a, b: SBool(a.t < t_(b))  # noqa: E731
    __le__ = lambda a, b: SBool(a.t <= t_(b))  # noqa: E731
    __gt__ = lambda a, b: SBool(a.t > t_(b))  # noqa: E731
    __ge__ = lambda a, b: SBool(a.t >= t_(b))  # noqa: E731
    __eq__ = lambda a, b: SBool(a.t == t_(b))  # noqa: E731
    __ne__ = lambda a, b: SBool(a.t != t_(b))  # noqa: E731
    __hash__ = None
    __neg__ = lambda a: N(-a.t)  # noqa: E731
    __abs__ = lambda a: N(z3.If(a.t >= 0, a.t, -a.t))  # noqa: E731
    real = property(lambda a: a)


class Int:
    """Integer, printed as a placeholder."""
    def __init__(self, t):
        self.t = t

    def _o(x):
        return x.t if isinstance(x, Int) else z3.IntVal(int(x))
    __lt__ = lambda a, b, o=_o: SBool(a.t < o(b))  # noqa: E731
    __le__ = lambda a, b, o=_o: SBool(a.t <= o(b))  # noqa: E731
    __gt__ = lambda a, b, o=_o: SBool(a.t > o(b))  # noqa: E731
    __ge__ = lambda a, b, o=_o: SBool(a.t >= o(b))  # noqa: E731
    __eq__ = lambda a, b, o=_o: SBool(a.t == o(b))  # noqa: E731
    __ne__ = lambda a, b, o=_o: SBool(a.t != o(b))  # noqa: E731
    __hash__ = None
    __neg__ = lambda a: Int(-a.t)  # noqa: E731
    __mul__ = __rmul__ = lambda a, b, o=_o: Int(a.t * o(b))  # noqa: E731
    __abs__ = lambda a: Int(z3.If(a.t >= 0, a.t, -a.t))  # noqa: E731
    __bool__ = lambda a: E.decide(a.t != 0)  # noqa: E731

    def __str__(self):
        return put(self)
    __repr__ = __str__

    def __format__(self, spec):
        if spec not in ('', 'd'):
            raise Unsupported('format ' + spec)
        return put(self)


class Angle:
    """Angle in (-pi, pi] with cosine c and sine s."""
    def __init__(self, c, s):
        self.c, self.s = c, s

    def __neg__(self):
        raise Unsupported('reversed angle')

    def __truediv__(self, o):
        if isinstance(o, Pi):
            return Turn(self)
        raise Unsupported('quotient of angles')


class Pi:
    def __neg__(self):
        return MinusPi()


class MinusPi(Pi):
    pass


PI = Pi()


class Turn:
    def __init__(self, a):
        self.a = a


class Frac:
    """Fraction(theta / pi), or its closest fraction."""
    def __init__(self, t, *a):
        if a or not isinstance(t, Turn):
            raise Unsupported('fraction of {!r}'.format(t))
        self.a = t.a

    def limit_denominator(self, n=10**6):
        if n < 36:
            raise ContractError('the printed angle is too coarse')
        k = len(TOK)
        TOK.append(self)
        f = Frac.__new__(Frac)
        f.a = self.a
        f.num, f.den = z3.Int('num%d' % k), z3.Int('den%d' % k)
        E.assume(f.den >= 1)
        E.assume(f.den <= n)
        f.numerator, f.denominator = Int(f.num), Int(f.den)
        FR[str(f.num)] = f
        return f

    def as_integer_ratio(self):
        return self.numerator, self.denominator


FR = {}


class Vec:
    """Vector of real numbers."""
    __array_ufunc__ = None

    def __init__(self, e, scale=None):
        self.e = list(e)

    def __len__(self):
        return len(self.e)
    shape = property(lambda self: (len(self.e),))
    real = property(lambda self: self)

    def __rmatmul__(self, o):
        return N(sum((t_(a) * b for a, b in zip(o, self.e)), z3.RealVal(0)))

    def __matmul__(self, o):
        return self.__rmatmul__(o)

    def dot(self, o):
        return self.__rmatmul__(o)

    def __truediv__(self, o):
        return Vec([a / t_(o) for a in self.e])

    def __mul__(self, o):
        return Vec([a * t_(o) for a in self.e])
    __rmul__ = __mul__

    def __neg__(self):
        return self * -1

    def __getitem__(self, i):
        return N(self.e[i])

    def sq(self):
        return sum((a * a for a in self.e), z3.RealVal(0))


class Axis:
    """Printed axis: direction n (up to the printed rounding)."""
    def __init__(self, n):
        self.n = n

    def __str__(self):
        return put(self)
    __repr__ = __str__

    def __format__(self, spec):
        return put(self)


class Mat:
    """Real square matrix with entries."""
    __array_ufunc__ = None

    def __init__(self, e):
        self.e = e
        self.shape = (len(e), len(e))
    real = property(lambda self: self)
    T = property(lambda self: Mat([list(r) for r in zip(*self.e)]))

    def astype(self, t):
        return self

    def __getitem__(self, ij):
        return N(self.e[ij[0]][ij[1]])

    def __neg__(self):
        return Mat([[-x for x in r] for r in self.e])

    def det(self):
        e = self.e
        if len(e) == 2:
            return e[0][0] * e[1][1] - e[0][1] * e[1][0]
        raise Unsupported('determinant')


def rod(n, c, s):
    K = [[0, -n[2], n[1]], [n[2], 0, -n[0]], [-n[1], n[0], 0]]
    return [[(c if i == j else 0) + (1 - c) * n[i] * n[j] + s * K[i][j] for j in range(3)] for i in range(3)]


class Rot3:
    """+-(rotation about the unit vector n with cosine c and sine s)."""
    __array_ufunc__ = None
    shape = (3, 3)

    def __init__(self, plus, n, c, s):
        self.plus, self.n, self.c, self.s = plus, n, c, s

    def astype(self, t):
        return self
    real = property(lambda self: self)

    def __neg__(self):
        return Rot3(z3.Not(self.plus), self.n, self.c, self.s)

    def __mul__(self, o):
        if isinstance(o, (int, float)) and o in (1, -1):
            return self if o == 1 else -self
        raise Unsupported('multiple of a rotation')
    __rmul__ = __mul__

    def det(self):
        return z3.If(self.plus, z3.RealVal(1), z3.RealVal(-1))

    def entries(self):
        sg = self.det()
        return [[sg * x for x in r] for r in rod(self.n, self.c, self.s)]


class Text:
    """A matrix in the printed text."""
    def __init__(self, name, rounded=None, latex=False):
        self.name, self.rounded, self.latex, self.shape = name, rounded, latex, ('n', 'n')

    def pv_is_zero(self):
        return z3.Bool(self.name + ' is zero')

    def __str__(self):
        return put(self)
    __repr__ = __str__

    def __format__(self, spec):
        return put(self)


class Gen:
    """sum_j r_j l_j."""
    __array_ufunc__ = None

    def __init__(self, d, r):
        self.d, self.r, self.shape = d, r, (d, d)

    def pv_is_zero(self):
        return z3.And(*[x == 0 for x in self.r]) if self.r else z3.BoolVal(True)


class LM:
    __array_ufunc__ = None

    def __init__(self, d, j):
        self.d, self.j = d, j

    def __matmul__(self, o):
        if isinstance(o, Gen) and o.d == self.d:
            return Prod(self.j, o)
        raise Unsupported('product with an angular momentum matrix')

    def __rmatmul__(self, o):
        return self @ o


class Prod:
    def __init__(self, j, g):
        self.j, self.g = j, g


NROOT = {}


def norm(v):
    if not isinstance(v, Vec):
        v = [int(x) for x in v]
        k = sum(x * x for x in v)
        r = z3.Real('root%d' % k)
        E.assume(z3.And(r >= 0, r * r == k))
        return N(r) if k else 0
    r = z3.Real('norm(%s)' % ','.join(str(x) for x in v.e)[:200])
    E.assume(z3.And(r >= 0, r * r == v.sq()))
    return N(r)


def isclose(a, b, *r, **k):
    if isinstance(b, Angle) and not isinstance(a, Angle):
        a, b = b, a
    if isinstance(a, Angle):
        if isinstance(b, MinusPi):
            return False
        if isinstance(b, Pi):
            return SBool(a.c == -1)
        if isinstance(b, (int, float)) and b == 0:
            return SBool(a.c == 1)
        raise Unsupported('comparison of an angle')
    if isinstance(a, N) or isinstance(b, N):
        return SBool(t_(a) == t_(b))
    return bool(a == b)


def allclose(a, b, *r, **k):
    if hasattr(a, 'pv_is_zero') and isinstance(b, (Zeros, int)):
        return SBool(a.pv_is_zero())
    if isinstance(a, Vec):
        return SBool(z3.And(*[x == t_(y) for x, y in zip(a.e, b)]))
    if a is b:
        return True
    raise Unsupported('allclose')


class Zeros:
    pass


def eigh(R):
    if not isinstance(R, Mat) or len(R.e) != 2:
        raise Unsupported('eigh')
    if not E.prove(R.e[0][1] == R.e[1][0], E.ctx().pc)[0]:
        raise ContractError('eigh of a matrix that is not symmetric')
    v = z3.Reals('val0 val1')
    tr = R.e[0][0] + R.e[1][1]
    facts = z3.And(v[0] <= v[1], v[0] + v[1] == tr, v[0] * v[1] == R.det())
    if E.prove(z3.And(tr == 0, R.det() == -1), E.ctx().pc)[0]:
        # v0 = -v1, v0 v1 = -1, v0 <= v1
        v = [z3.RealVal(-1), z3.RealVal(1)]
    else:
        E.assume(facts)
    return Vec(v), Cols(R, v)


class Cols:
    def __init__(self, R, v):
        self.R, self.v = R, v

    def col(self, k):
        k %= 2
        w = z3.Reals('w0_%d w1_%d' % (k, k))
        if z3.is_rational_value(self.v[0]):
            # spectral theorem: R = w1 w1^T - w0 w0^T, 1 = w0 w0^T + w1 w1^T
            for i in range(2):
                for j in range(2):
                    E.assume(self.R.e[i][j] == self.v[k] * (2 * w[i] * w[j] - (1 if i == j else 0)))
        else:
            for i in range(2):
                E.assume(sum(self.R.e[i][j] * w[j] for j in range(2)) == self.v[k] * w[i])
        E.assume(w[0] ** 2 + w[1] ** 2 == 1)
        return Vec(w)

    def __getitem__(self, ij):
        if isinstance(ij, tuple) and ij[0] == slice(None):
            return self.col(ij[1])
        raise Unsupported('index')
    T = property(lambda self: [self.col(k) for k in range(2)])


def arctan2(y, x):
    y, x = t_(y), t_(x)
    if E.prove(x * x + y * y == 1, E.ctx().pc)[0]:
        return Angle(x, y)
    k = z3.Real('hypot(%s,%s)' % (str(y)[:80], str(x)[:80]))
    E.assume(z3.And(k >= 0, k * k == x * x + y * y))
    if not E.prove(k > 0, E.ctx().pc)[0]:
        raise Unsupported('arctan2(0, 0)')
    c, s = z3.Reals('cos%d sin%d' % (len(TOK), len(TOK)))
    TOK.append(None)
    E.assume(z3.And(c * k == x, s * k == y, c * c + s * s == 1))
    return Angle(c, s)


def rotation_to_angle(R):
    """Contract, see axis_angle."""
    if not isinstance(R, Rot3):
        raise Unsupported('rotation_to_angle')
    if not E.prove(R.plus, E.ctx().pc)[0]:
        raise ContractError('axis and angle of an improper rotation')
    # the angle is that of R up to sign and the axis is that of R or both are reversed; the identity has any axis
    if E.decide(R.c == 1):
        n = z3.Reals('m0 m1 m2')
        E.assume(n[0] ** 2 + n[1] ** 2 + n[2] ** 2 == 1)
        return Vec(n), Angle(z3.RealVal(1), z3.RealVal(0))
    if E.decide(z3.Bool('reversed')):
        return Vec([-x for x in R.n]), Angle(R.c, -R.s)
    return Vec(R.n), Angle(R.c, R.s)


def round_axis(v):
    """Contract, see axis."""
    if not isinstance(v, Vec):
        raise Unsupported('_round_axis')
    if not E.prove(v.sq() == 1, E.ctx().pc)[0]:
        raise ContractError('axis that is not normalised')
    return Axis(v)


def np_array(x, *a, **k):
    if isinstance(x, (Mat, Rot3, Text, Gen, Vec)):
        return x
    if isinstance(x, (list, tuple)) and x and all(isinstance(y, (N, int, float)) for y in x):
        return Vec([t_(y) for y in x])
    raise Unsupported('array')


def trace(x):
    if isinstance(x, Prod):
        return N(2 * x.g.r[x.j])
    raise Unsupported('trace')


def np_round(x, k=0, *a, **kw):
    k = kw.get('decimals', k)
    if isinstance(x, Text):
        if k < 2:
            raise ContractError('the printed matrix is too coarse')
        return Text(x.name, k)
    raise Unsupported('round')


def array_to_latex(a, precision=2):
    if isinstance(a, Text):
        return str(Text(a.name, a.rounded, latex=True))
    raise Unsupported('_array_to_latex')


def world():
    la = Stub('la', norm=norm, eigh=eigh, det=lambda R: N(R.det()))
    npm = Stub('numpy', array=np_array, asarray=np_array, isclose=isclose, allclose=allclose, arctan2=arctan2, pi=PI, round=np_round, trace=trace,
               zeros=lambda s, *a: Zeros(), linalg=la, sign=None)
    imports = {'numpy': npm, 'scipy': Stub('scipy', linalg=la), 'scipy.linalg': la, 'tinyarray': Stub('tinyarray'), 'sympy': Stub('sympy'),
               'sympy.matrices.matrices': Stub('matrices'), '.linalg': Stub('linalg', allclose=allclose), '.model': Stub('model')}
    return load(M, imports, overrides=dict(rotation_to_angle=rotation_to_angle, _round_axis=round_axis, Fraction=Frac,
                                           _array_to_latex=array_to_latex,
                                           L_matrices=lambda d=3, l=1: [LM(d, j) for j in range(3 if d == 3 else 1)]))


# ---------------------------------------------------------------- reading the text

T = '⟦\\d+⟧'


def tok(s):
    return TOK[int(s.strip('⟦⟧'))]


def integer(s):
    if not s:
        return z3.IntVal(1)
    if re.fullmatch(r'\d+', s):
        return z3.IntVal(int(s))
    x = tok(s)
    if not isinstance(x, Int):
        raise ValueError(s)
    return x.t


def read_angle(s):
    """(numerator, denominator) of the printed multiple of pi."""
    s = s.strip()
    m = re.fullmatch(r'(-?)\\frac\{(%s|\d*)\\pi\}\{(%s|\d+)\}' % (T, T), s) or re.fullmatch(r'(-?)(%s|\d*)(?:\\pi|π)(?:/(%s|\d+))?' % (T, T), s)
    if not m:
        raise ValueError('angle {!r}'.format(s))
    num = integer(m.group(2))
    return (-num if m.group(1) else num), integer(m.group(3) or '1')


def read_rot(name, d):
    """('1',), ('I',), ('R' or 'S', angle, axis), ('M', axis)."""
    name = name.replace(r'\left', '').replace(r'\right', '').strip()
    if name in ('1', 'I'):
        return (name,)
    m = re.fullmatch(r'([RMS])\((.*)\)', name)
    if not m:
        raise ValueError('name {!r}'.format(name))
    kind, arg = m.groups()
    if kind == 'M':
        ax = tok(re.fullmatch(T, arg.strip()).group(0))
        return ('M', ax)
    if d == 2:
        return (kind, read_angle(arg), None)
    ang, ax = arg.split(',', 1)
    return (kind, read_angle(ang), tok(re.fullmatch(T, ax.strip()).group(0)))


AZ = {'': (False, False), 'T': (True, False), 'P': (True, True), 'C': (False, True)}


def read_short(text, latex, d):
    if latex:
        if not (text.startswith('$') and text.endswith('$')):
            raise ValueError(text)
        m = re.fullmatch(r'(.*?)\s*(?:\\mathcal\{([TPC])\})?', text[1:-1], re.S)
    else:
        m = re.fullmatch(r'(.*?)\s*([TPC])?', text, re.S)
    return read_rot(m.group(1) or '1', d), AZ[m.group(2) or ''], None


def read_full(text, latex, d):
    if latex:
        if not (text.startswith('$') and text.endswith('$')):
            raise ValueError(text)
        m = re.fullmatch(r'U H\(\\mathbf\{k\}\)(\^\*)? U\^\{-1\} = (-?)H\((-?)R\\mathbf\{k\}\)\s*\\\\\s*R = (.*?)\\\\\s*(?:U = (%s)\s*)?' % T, text[1:-1], re.S)
    else:
        m = re.fullmatch(r'\s*U⋅H\(k\)(\*)?⋅U\^-1 = (-?)H\((-?)R⋅k\)\nR = (.*?)\n(?:\s*U = (%s)\s*)?' % T, text, re.S)
    if not m:
        raise ValueError('full name {!r}'.format(text))
    if bool(m.group(1)) != bool(m.group(3)):
        raise ValueError('momentum of {!r}'.format(text))
    return read_rot(m.group(4), d), (bool(m.group(1)), bool(m.group(2))), tok(m.group(5)) if m.group(5) else None


def the_angle(ob, name, ang, pc):
    """The printed fraction is the fraction of an angle: return that angle."""
    for f in reversed(list(FR.values())):
        ok, _ = E.prove(ang[0] * f.den == f.num * ang[1], pc)
        if ok:
            return f.a
    ob.check(name, False, ang)
    return None


def direction(ax):
    return ax.n.e if isinstance(ax, Axis) else None


class Elem:
    def __init__(self, R, c, a, U):
        self.R, self.conjugate, self.antisymmetry, self.U = R, c, a, U


def spatial(d, plus):
    """(matrix object, entries, facts)."""
    if d == 0:
        m = Mat([])
        m.shape = (0, 0)
        return m, [], []
    if d == 1:
        r = z3.Real('r')
        return Mat([[r]]), [[r]], [z3.Or(r == 1, r == -1)]
    if d == 2:
        # every orthogonal matrix in the plane has one of the two forms
        c, s = z3.Reals('c s')
        e = [[c, -s], [s, c]] if plus else [[c, s], [s, -c]]
        return Mat(e), e, [c * c + s * s == 1]
    n = z3.Reals('n0 n1 n2')
    c, s = z3.Reals('c s')
    R = Rot3(z3.Bool('proper'), n, c, s)
    return R, R.entries(), [n[0] ** 2 + n[1] ** 2 + n[2] ** 2 == 1, c * c + s * s == 1, s >= 0]


def described(kind, ang, ax, d):
    """Entries of the described operation."""
    one = [[z3.RealVal(int(i == j)) for j in range(d)] for i in range(d)]
    if kind == '1':
        return one
    if kind == 'I':
        return [[-x for x in r] for r in one]
    if kind == 'M':
        n = direction(ax)
        return [[one[i][j] - 2 * n[i] * n[j] for j in range(d)] for i in range(d)]
    if d == 2:
        return [[ang.c, -ang.s], [ang.s, ang.c]] if kind == 'R' else None
    R = rod(direction(ax), ang.c, ang.s)
    return R if kind == 'R' else [[-x for x in r] for r in R]


def discrete(ob, dims, fixed=None):
    conj, anti, full, latex = z3.Bools('conjugate antisymmetry full latex')
    for d, plus in dims:
        for hasU in (False, True) if fixed is None else fixed[:1]:
            R, ent, facts = spatial(d, plus)
            seen = set()
            proved = {}

            def once(label, f, pc):
                key = (label, str(f), str(pc))
                if key not in proved:
                    proved[key] = True
                    ob.prove(label, f, pc)

            def run():
                TOK.clear()
                FR.clear()
                mod = world()
                t = mod.ns['pretty_print_pge'](Elem(R, SBool(conj), SBool(anti), Text('U') if hasU else None), full=SBool(full), latex=SBool(latex))
                return t, list(TOK), dict(FR)
            paths = explore(run, facts + ([latex == fixed[1]] if fixed else []))
            for p in paths:
                if p.kind == 'raise':
                    ob.check('discrete: every operation can be printed', False, (d, repr(p.value), p.pc))
                    continue
                text, toks, fr = p.value
                TOK[:], FR_ = toks, fr
                FR.clear()
                FR.update(fr)
                isfull, _ = E.prove(full, p.pc)
                islatex, _ = E.prove(latex, p.pc)
                if not isfull:
                    ob.prove('discrete: short or full name as requested', z3.Not(full), p.pc)
                if not islatex:
                    ob.prove('discrete: plain text or LaTeX as requested', z3.Not(latex), p.pc)
                try:
                    rot, flags, U = (read_full if isfull else read_short)(text, bool(islatex), d)
                except Exception as e:
                    ob.check('discrete: the name can be read', False, (text, repr(e)))
                    continue
                ob.check('discrete: the name can be read', True)
                ob.prove('discrete: label of the flags', z3.And(conj == flags[0], anti == flags[1]), p.pc)
                if isfull:
                    ob.check('discrete: unitary part exactly when it is set', (isinstance(U, Text) and U.name == 'U') if hasU else U is None, text)
                    if isinstance(U, Text):
                        ob.check('discrete: LaTeX matrix in LaTeX text', U.latex is bool(islatex), text)
                # the facts that do not concern the options
                geo = [f for f in p.pc if str(f).replace('Not(', '').strip(')') not in ('conjugate', 'antisymmetry', 'full', 'latex')]
                kind, ang, ax = rot[0], None, rot[-1] if rot[0] in 'MRS' else None
                seen.add(kind)
                if kind in 'RS':
                    ang = the_angle(ob, 'discrete: printed angle', rot[1], [f for f in geo if 'num' in str(f) or 'den' in str(f)])
                    if ang is None:
                        continue
                    ob.check('discrete: printed angle', True, '', 'z3')
                if kind in 'MRS' and (d == 3 or kind == 'M') and not ob.check('discrete: printed axis', isinstance(ax, Axis), text):
                    continue
                D = described(kind, ang, ax, d)
                if not ob.check('discrete: name of an operation in this dimension', D is not None, text):
                    continue
                for i in range(d):
                    for j in range(d):
                        once('discrete: the described operation is the operation', ent[i][j] == D[i][j], geo)
                # the letter is the type of the operation
                if kind in 'RS':
                    once('discrete: trivial rotations are not printed as rotations', ang.c != 1, geo)
                if kind == 'S':
                    once('discrete: mirrors are not printed as rotoinversions', ang.c != -1, geo)
            want = {0: {'1'}, 1: {'1', 'I'}, 2: {'1', 'R'} if plus else {'M'}, 3: {'1', 'R', 'I', 'M', 'S'}}[d]
            ob.check('discrete: all types of operations occur', seen == want, (d, seen))


@obligation(P, ['groups.pretty_print_pge'])
def discrete_low(ob):
    discrete(ob, ((0, None), (1, None), (2, True), (2, False)))


def three(hasU, latex):
    def fn(ob):
        discrete(ob, ((3, None),), (hasU, latex))
    fn.__name__ = 'discrete_3d{}{}'.format('_U' if hasU else '', '_latex' if latex else '')
    obligation(P, ['groups.pretty_print_pge'])(fn)


for _u in (False, True):
    for _l in (False, True):
        three(_u, _l)


# ---------------------------------------------------------------- continuous generators

@obligation(P, ['groups.pretty_print_cgg'])
def continuous(ob):
    latex = z3.Bool('latex')
    for d in (None, 0, 1, 2, 3):
        for hasU in (False, True):
            r = {2: [z3.Real('r0')], 3: list(z3.Reals('r0 r1 r2'))}.get(d, [])
            R = None if d is None else Gen(d, r)

            def run():
                TOK.clear()
                t = world().ns['pretty_print_cgg'](Elem(R, None, None, Text('L') if hasU else None), latex=SBool(latex))
                return t, list(TOK)
            for p in explore(run):
                if p.kind == 'raise':
                    ob.check('continuous: every generator can be printed', False, (d, repr(p.value), p.pc))
                    continue
                text, toks = p.value
                TOK[:] = toks
                tex, _ = E.prove(latex, p.pc)
                if not tex:
                    ob.prove('continuous: plain text or LaTeX as requested', z3.Not(latex), p.pc)
                if tex:
                    ok = text.startswith('$') and text.endswith('$')
                    ob.check('continuous: LaTeX text', ok, text)
                    text = text.strip('$')
                m = re.search(r'= R\s*(?:\\left)?\((-?)\s*(?:\\phi|ϕ)\s*(?:,\s*(%s))?\s*(?:\\right)?\)' % T, text)
                mL = re.search(r'(?:^|\n|\\\\|\s)L = (%s)' % T, text)
                nz = z3.Or(*[x != 0 for x in r]) if r else z3.BoolVal(False)
                nzU = z3.Not(z3.Bool('L is zero')) if hasU else z3.BoolVal(False)
                ob.prove('continuous: rotation printed exactly when it is nontrivial', nz == bool(m), p.pc)
                ob.prove('continuous: conserved quantity printed exactly when it is nontrivial', nzU == bool(mL), p.pc)
                if mL:
                    L = tok(mL.group(1))
                    ob.check('continuous: printed conserved quantity', isinstance(L, Text) and L.name == 'L' and L.latex is bool(tex), text)
                if m:
                    sg = -1 if m.group(1) else 1
                    if d == 2:
                        ob.prove('continuous: direction of the rotation', r[0] * sg > 0, p.pc)
                        ob.check('continuous: no axis in the plane', not m.group(2), text)
                    else:
                        ax = tok(m.group(2)) if m.group(2) else None
                        if ob.check('continuous: axis', isinstance(ax, Axis), text):
                            n = [sg * x for x in ax.n.e]
                            ob.prove('continuous: axis of the rotation', z3.And(sum(a * b for a, b in zip(n, r)) > 0, *[
                                n[i] * r[j] == n[j] * r[i] for i in range(3) for j in range(i)]), p.pc)
                left, right, H = (r'e^{-i\phi L}', r'e^{i\phi L}', r'H(\mathbf{k})') if tex else ('exp(-i ϕ L)⋅', '⋅exp(i ϕ L)', 'H(k)')
                squeeze = lambda x: re.sub(r'[\s⋅]', '', x)  # noqa: E731
                if m:
                    head = (left if mL else '') + H + (right if mL else '') + ' = ' + (r'H(R_{\phi}\mathbf{k})' if tex else 'H(R_ϕ⋅k)')
                else:
                    head = r'\left[ H(\mathbf{k}), L \right] = 0' if tex else '[H(k), L] = 0'
                # braces are doubled where the text does not pass through format
                txt = text.replace('{{', '{').replace('}}', '}')
                ob.check('continuous: action on the Hamiltonian', squeeze(txt).startswith(squeeze(head)), (text, head))


# ---------------------------------------------------------------- axis and angle of a rotation

u0, u1, u2 = U_ = sp.symbols('u0:3', real=True)
w0, w1, w2 = W_ = sp.symbols('w0:3', real=True)
C_, S_ = sp.Symbol('c', real=True), sp.Symbol('s', positive=True)


def red(e):
    """Normal form modulo |u| = |w| = 1, c^2 + s^2 = 1."""
    e = sp.together(sp.expand(ex(e)))
    n, d = sp.fraction(e)
    for x, rel in ((u2, u2**2 - (1 - u0**2 - u1**2)), (w2, w2**2 - (1 - w0**2 - w1**2)), (C_, C_**2 - (1 - S_**2))):
        n = sp.rem(sp.Poly(sp.expand(n), x), sp.Poly(rel, x)).as_expr()
        d = sp.rem(sp.Poly(sp.expand(d), x), sp.Poly(rel, x)).as_expr()
    return sp.cancel(sp.expand(n) / sp.expand(d))


def ex(e):
    if isinstance(e, Ex):
        return e.e
    if isinstance(e, complex):
        return ex(e.real) + sp.I * ex(e.imag)
    return sp.nsimplify(sp.sympify(e))


class Ex:
    """Exact number."""
    __array_ufunc__ = None

    def __init__(self, e):
        self.e = red(ex(e))

    def _f(f):
        def op(self, o):
            if isinstance(o, Arr):
                return Arr([f(self.e, x) for x in o.e], o.shape)
            return Ex(f(self.e, ex(o)))
        return op
    __add__ = __radd__ = _f(lambda a, b: a + b)
    __sub__ = _f(lambda a, b: a - b)
    __rsub__ = _f(lambda a, b: b - a)
    __mul__ = __rmul__ = _f(lambda a, b: a * b)
    __truediv__ = _f(lambda a, b: a / b)

    def __neg__(self):
        return Ex(-self.e)

    def __abs__(self):
        if self.e.is_nonnegative:
            return self
        return -self if self < 0 else self
    real = property(lambda self: Ex(sp.re(sp.expand(self.e))))

    def _sign(self, o, rel):
        x = red(self.e - ex(o))
        for nm, v in (('__lt__', x.is_negative), ('__le__', x.is_nonpositive), ('__gt__', x.is_positive), ('__ge__', x.is_nonnegative)):
            if nm == rel and v is not None:
                return v
        b, z = z3.Bool('{} < 0'.format(x)), z3.Bool('{} = 0'.format(x))
        E.assume(z3.Not(z3.And(b, z)))
        return SBool({'__lt__': b, '__le__': z3.Or(b, z), '__gt__': z3.Not(z3.Or(b, z)), '__ge__': z3.Not(b)}[rel])

    def __lt__(self, o):
        return self._sign(o, '__lt__')

    def __le__(self, o):
        return self._sign(o, '__le__')

    def __gt__(self, o):
        return self._sign(o, '__gt__')

    def __ge__(self, o):
        return self._sign(o, '__ge__')

    def __eq__(self, o):
        return close(self, o)
    __hash__ = None


class Arr:
    """Exact array."""
    __array_ufunc__ = None

    def __init__(self, e, shape):
        self.e, self.shape = [red(x) for x in e], tuple(shape)

    @staticmethod
    def of(x):
        if isinstance(x, Arr):
            return x
        if isinstance(x, (list, tuple)) and x and isinstance(x[0], (Ex, int, float)):
            return Arr([ex(y) for y in x], (len(x),))
        a = np.array(x)
        return Arr([ex(complex(y)) for y in a.ravel()], a.shape)

    def m(self):
        return sp.Matrix(self.shape[0], self.shape[1], self.e)

    def map(self, f):
        return Arr([f(x) for x in self.e], self.shape)
    real = property(lambda self: self.map(lambda x: sp.re(sp.expand(x))))
    T = property(lambda self: Arr(list(self.m().T), self.shape[::-1]))

    def __matmul__(self, o):
        return Arr(list(self.m() * Arr.of(o).m()), (self.shape[0], o.shape[1]))

    def __mul__(self, c):
        if isinstance(c, Arr):
            raise Unsupported('elementwise product')
        return self.map(lambda x: x * ex(c))
    __rmul__ = __mul__

    def __neg__(self):
        return self * -1

    def __truediv__(self, c):
        return self.map(lambda x: x / ex(c))

    def __sub__(self, o):
        return Arr([a - b for a, b in zip(self.e, Arr.of(o).e)], self.shape)

    def __add__(self, o):
        return Arr([a + b for a, b in zip(self.e, Arr.of(o).e)], self.shape)

    def __getitem__(self, i):
        if len(self.shape) == 1 and isinstance(i, int):
            return Ex(self.e[i])
        a = np.empty(self.shape, object)
        for k, x in zip(np.ndindex(*self.shape), self.e):
            a[k] = x
        r = a[i]
        return Arr(list(r.ravel()), r.shape) if isinstance(r, np.ndarray) else Ex(r)

    def __iter__(self):
        return (self[i] for i in range(self.shape[0]))

    def __len__(self):
        return self.shape[0]

    def sum(self):
        return Ex(sum(self.e))

    def trace(self):
        return Ex(self.m().trace())


def close(a, b, *r, **k):
    x = red(ex(a) - ex(b))
    if x.is_zero:
        return True
    if x.is_nonzero or x.is_positive or x.is_negative:
        return False
    raise Unsupported('comparison {} with {}'.format(a, b))


def ex_norm(v):
    sq = red(sum(x * x for x in Arr.of(v).e))
    r = sp.sqrt(sp.factor(sq))
    r = sp.simplify(r)
    if r.is_nonnegative is not True:
        raise Unsupported('norm {}'.format(r))
    return Ex(r) if not r.has(sp.Pow) or True else r


def ex_eigh(R):
    m = R.m()
    if any(red(m[i, j] - m[j, i]) != 0 for i in range(3) for j in range(3)):
        raise ContractError('eigh of a matrix that is not symmetric')
    if all(red(m[i, j] - int(i == j)) == 0 for i in range(3) for j in range(3)):
        # any orthonormal basis
        val, last = [1, 1, 1], list(W_)
    elif all(red(m[i, j] - (2 * U_[i] * U_[j] - int(i == j))) == 0 for i in range(3) for j in range(3)):
        sg = -1 if E.decide(z3.Bool('eigenvector reversed')) else 1
        val, last = [-1, -1, 1], [sg * x for x in U_]
    else:
        raise Unsupported('eigh')
    oth = sp.symbols('v0:6', real=True)
    return Arr(val, (3,)), Arr([oth[0], oth[1], last[0], oth[2], oth[3], last[1], oth[4], oth[5], last[2]], (3, 3))


class ExAngle:
    def __init__(self, c, s):
        self.c, self.s = c, s

    def __neg__(self):
        raise Unsupported('reversed angle')


def ex_arctan2(y, x):
    y, x = ex(y), ex(x)
    k = sp.sqrt(red(x * x + y * y))
    if not k.is_positive:
        raise Unsupported('arctan2: {}'.format(k))
    return ExAngle(red(x / k), red(y / k))


@obligation(P, ['groups.rotation_to_angle'])
def axis_angle(ob):
    n = 0
    for name, (c, s) in (('identity', (1, 0)), ('half turn', (-1, 0)), ('generic', (C_, S_))):
        R0 = [x for r in rod(U_, c, s) for x in r]

        def run():
            la = Stub('la', norm=ex_norm, eigh=ex_eigh)
            arr = lambda x, *a, **k: Arr.of(x)  # noqa: E731
            npm = Stub('numpy', array=arr, asarray=arr, trace=lambda x: x.trace(), sum=lambda x: x.sum(), isclose=close, arctan2=ex_arctan2, linalg=la,
                       real=lambda x: x.real, dot=lambda a, b: a @ b)
            exact_close = lambda a, b, *r, **k: all(red(x - y) == 0 for x, y in zip(Arr.of(a).e, Arr.of(b).e))  # noqa: E731
            npm.allclose = exact_close
            imports = {'numpy': npm, 'scipy': Stub('scipy', linalg=la), 'scipy.linalg': la, 'tinyarray': Stub('tinyarray'), 'sympy': Stub('sympy'),
                       'sympy.matrices.matrices': Stub('matrices'), '.linalg': Stub('linalg', allclose=exact_close), '.model': Stub('model')}
            from .c18 import groups_module
            L = groups_module().ns['L_matrices']
            mod = load(M, imports, overrides=dict(L_matrices=lambda *a, **k: [Arr([ex(y) for y in x.ravel()], x.shape) for x in L(*a, **k)]))
            return mod.ns['rotation_to_angle'](Arr(R0, (3, 3)))
        for p in explore(run):
            n += 1
            if p.kind == 'raise':
                ob.check('axis and angle: every rotation has an axis', False, (name, repr(p.value)))
                continue
            v, th = p.value
            if not ob.check('axis and angle: returned', isinstance(v, Arr) and isinstance(th, ExAngle), p.value):
                continue
            ob.check('axis and angle: the axis is normalised', red(sum(x * x for x in v.e) - 1) == 0, v.e, 'sympy normal form')
            D = [x for r in rod(v.e, th.c, th.s) for x in r]
            ob.check('axis and angle: they describe the rotation', all(red(a - b) == 0 for a, b in zip(D, R0)), (name, v.e, th.c, th.s), 'sympy normal form')
            ob.check('axis and angle: cosine', red(th.c - c) == 0, th.c, 'sympy normal form')
            ok = name == 'identity' or any(all(red(a - sg * b) == 0 for a, b in zip(v.e, U_)) and red(th.s - sg * s) == 0 for sg in (1, -1))
            ob.check('axis and angle: axis and angle of the rotation, or both reversed', ok, (name, v.e, th.s), 'sympy normal form')
    ob.check('axis and angle: reachable', n >= 4, n)


class Rounded:
    def __init__(self, n, k):
        self.n, self.k = n, k


@obligation(P, ['groups._round_axis'])
def axis(ob):
    for d in (2, 3):
        n = Vec(z3.Reals('n0 n1 n2')[:d])

        def run():
            def rnd(x, k=0, decimals=None):
                if x is not n:
                    raise Unsupported('round')
                return Rounded(x, k if decimals is None else decimals)
            la = Stub('la', norm=norm)
            npm = Stub('numpy', array=lambda x, *a, **k: np.array(x, int), isclose=isclose, round=rnd, linalg=la, any=np.any)
            imports = {'numpy': npm, 'scipy': Stub('scipy', linalg=la), 'scipy.linalg': la, 'tinyarray': Stub('tinyarray'), 'sympy': Stub('sympy'),
                       'sympy.matrices.matrices': Stub('matrices'), '.linalg': Stub('linalg'), '.model': Stub('model')}
            return load(M, imports).ns['_round_axis'](n)
        k = 0
        for p in explore(run, [n.sq() == 1]):
            if p.kind == 'raise':
                ob.check('axis: every axis can be printed', False, (repr(p.value), p.pc))
                continue
            v = p.value
            k += 1
            if isinstance(v, Rounded):
                ob.check('axis: at least two decimals', v.k >= 2, v.k)
                continue
            if not ob.check('axis: integer vector or rounded vector', isinstance(v, np.ndarray) and v.shape == (d,) and v.any(), v):
                continue
            ob.prove('axis: integer axis parallel to the axis', z3.And(sum(int(a) * b for a, b in zip(v, n.e)) > 0, *[
                int(v[i]) * n.e[j] == int(v[j]) * n.e[i] for i in range(d) for j in range(i)]), p.pc)
        ob.check('axis: reachable', k >= 4, k)


# ---------------------------------------------------------------- LaTeX matrices, methods

class Row:
    def __init__(self, k):
        self.k = k


class Rows(Symbolic):
    """Any number of rows."""
    def __init__(self, ndim):
        self.shape = ('n',) * ndim

    def pv_for(self, body, get, set_):
        st0 = get()
        acc = {k: v for k, v in st0.items() if isinstance(v, str)}
        self.start = acc
        st = {**st0, **{k: '⟦acc⟧' for k in acc}}
        set_(st)
        body(Row(0))
        st1 = get()
        self.step = {k: st1[k] for k in acc}
        changed = [k for k in acc if st1[k] != '⟦acc⟧']
        if len(changed) != 1:
            raise Unsupported('loop state')
        self.var = changed[0]
        set_({**st0, self.var: '⟦rows⟧'})


@obligation(P, ['groups._array_to_latex'])
def matrix(ob):
    def a2s(line, precision=None, separator=' ', suppress_small=None, **k):
        if not isinstance(line, Row):
            raise Unsupported('array2string')
        if precision is not None and precision < 2:
            raise ContractError('the printed matrix is too coarse')
        return '[⟦first{0}⟧{0}⟦rest⟧]'.format(separator)
    rows = Rows(2)
    mod = load(M, {'numpy': Stub('numpy', array2string=a2s), 'scipy': Stub('scipy'), 'scipy.linalg': Stub('la'), 'tinyarray': Stub('t'),
                   'sympy': Stub('sympy'), 'sympy.matrices.matrices': Stub('m'), '.linalg': Stub('l'), '.model': Stub('m')})
    for p in explore(lambda: mod.ns['_array_to_latex'](rows)):
        if p.kind == 'raise':
            ob.check('matrix: no error', False, repr(p.value))
            continue
        b, e = r'\begin{bmatrix}', r'\end{bmatrix}'
        ob.check('matrix: LaTeX environment', rows.start[rows.var].strip() == b and p.value.replace(' ', '') == '⟦rows⟧' + e, (rows.start, p.value))
        ob.check('matrix: one line for each row, entries separated', re.fullmatch(r'⟦acc⟧\s*⟦first&⟧&⟦rest⟧\s*\\\\\s*', rows.step[rows.var].replace(' ', ''))
                 is not None, rows.step)
    for p in explore(lambda: mod.ns['_array_to_latex'](Rows(3))):
        ob.check('matrix: at most two dimensions', p.kind == 'raise' and isinstance(p.value, ValueError), p.value)


@obligation(P, ['groups.PointGroupElement.__str__', 'groups.PointGroupElement._repr_latex_', 'groups.PointGroupElement._repr_pretty_',
                'groups.ContinuousGroupGenerator.__str__', 'groups.ContinuousGroupGenerator._repr_latex_',
                'groups.ContinuousGroupGenerator._repr_pretty_'])
def methods(ob):
    mod = load(M, {'numpy': Stub('numpy'), 'scipy': Stub('scipy'), 'scipy.linalg': Stub('la'), 'tinyarray': Stub('t'),
                   'sympy': Stub('sympy'), 'sympy.matrices.matrices': Stub('m'), '.linalg': Stub('l'), '.model': Stub('m')})
    mod.ns['pretty_print_pge'] = lambda g, full=False, latex=False: ('pge', g, full, latex)
    mod.ns['pretty_print_cgg'] = lambda g, latex=False: ('cgg', g, None, latex)
    for cls, kind, full in (('PointGroupElement', 'pge', (True, False, False)), ('ContinuousGroupGenerator', 'cgg', (None,) * 3)):
        c = mod.ns[cls]
        g = c.__new__(c)
        out = []

        class PP:
            def text(self, x):
                out.append(x)
        for meth, f, tex in (('__str__', full[0], False), ('_repr_latex_', full[1], True), ('_repr_pretty_', full[2], False)):
            fn = getattr(c, meth)
            for p in explore(lambda: fn(g, PP(), False) if meth == '_repr_pretty_' else fn(g)):
                v = out[-1] if meth == '_repr_pretty_' and out else p.value
                ob.check('methods: printed name', p.kind == 'return' and isinstance(v, tuple) and v[0] == kind and v[1] is g and bool(v[2]) == bool(f) and
                         v[3] is tex, (cls, meth, v))


@obligation(P, ['groups.PrettyList._repr_latex_'])
def lists(ob):
    """PrettyList: the formulas of all members in their order, in one formula (up to four members)."""
    class It:
        def __init__(self, s):
            self.s = s

        def _repr_latex_(self):
            return self.s
    m = E.load('groups', {'numpy': np, 'collections': __import__('collections')}, {})
    for n in range(5):
        texts = ['m{}\\left({}\\right)'.format(i, i) for i in range(n)]
        for dollars in itertools.product((True, False), repeat=n):
            for p in explore(lambda: m.ns['PrettyList']([It('$' + x + '$' if d else x) for x, d in zip(texts, dollars)])._repr_latex_()):
                ob.check('all members in one formula', p.kind == 'return' and p.value == '$' + r'\\'.join(texts) + '$', (texts, p.value))


@obligation(P, ['groups.PointGroupElement.__repr__', 'groups.ContinuousGroupGenerator.__repr__'])
def representations(ob):
    """repr: every field appears with its name and its own representation, line breaks indented."""
    class Mat:
        def __init__(self, n):
            self.n = n

        def __repr__(self):
            return 'mat({},\n    {})'.format(self.n, self.n)
    m = E.load('groups', {'numpy': np}, {})
    sq = lambda t: re.sub(r'\s+', ' ', t)
    for cls, flags in (('PointGroupElement', True), ('ContinuousGroupGenerator', False)):
        for r, u, c, a in itertools.product((Mat('r'), None), (Mat('u'), None), (True, False), (True, False)):
            if flags and r is None:
                continue
            def run():
                x = object.__new__(m.ns[cls])
                for n, v in (('R', r), ('U', u)) + ((('conjugate', c), ('antisymmetry', a)) if flags else ()):
                    object.__setattr__(x, n, v)
                return repr(x)
            for p in explore(run):
                if p.kind == 'raise':
                    ob.check('returns', False, repr(p.value))
                    continue
                t = sq(p.value)
                want = [('R', repr(r)), ('U', repr(u))] + ([('conjugate', str(c)), ('antisymmetry', str(a))] if flags else [])
                ob.check('every field is shown', cls in t and all('{} = {}'.format(n, sq(v)) in t for n, v in want), t)
