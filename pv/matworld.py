"""World A: spatial matrices, unitaries and Hamiltonians as matrix expressions; contracts of the numpy,
tinyarray, scipy and sympy calls made on them.  Floating point is idealised: arithmetic is exact and
`allclose` is equality."""
import z3

from . import engine as E
from .engine import Stub, Unsupported, ContractError, SBool, Symbolic
from .algebra import Expr, G, declare, is_number, ATTR, DIMS, show


class NdArray:
    pass


class NdInt:
    pass


class NdFloat:
    pass


class MatrixBase:
    pass


class ImmutableMatrix(MatrixBase):
    pass


class Dim(int):
    """An unknown dimension (a label); never usable as a concrete number."""
    def __new__(cls, name):
        x = int.__new__(cls, 0)
        x.name = name
        return x

    def __eq__(self, o):
        if isinstance(o, Dim):
            return self.name == o.name
        return NotImplemented if not isinstance(o, int) else SBool(z3.Int('dim_' + self.name) == int(o))

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else SBool(z3.Not(r.f)) if isinstance(r, SBool) else r

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return 'dim({})'.format(self.name)

    def pv_range(self, *a):
        raise Unsupported('range over an unknown dimension')


class Facts:
    """Equalities learnt on the current path (from allclose and ==)."""
    eqs = []


class Mat:
    """A matrix value.  rep is a fixed class per representation; e is its mathematical value."""

    def __init__(self, e):
        self.e = e

    def _new(self, e):
        return type(self)(e)

    @property
    def shape(self):
        return (Dim(self.e.rows), Dim(self.e.cols))

    ndim = 2

    @property
    def dtype(self):
        return 'dtype'

    @property
    def T(self):
        return self._new(self.e.T())

    def transpose(self):
        return self.T

    @property
    def H(self):
        return self._new(self.e.T().conj())

    def conj(self):
        return self._new(self.e.conj())
    conjugate = conj

    @property
    def real(self):
        if (self.e - self.e.conj()).is_zero():
            return self._new(self.e)
        return self._new((self.e + self.e.conj()).scale(0.5))

    def copy(self):
        return self._new(self.e)

    def astype(self, t, *a, **k):
        if t in (float,):
            if not (self.e - self.e.conj()).is_zero():
                raise ContractError('conversion of a complex matrix to floats')
            return Dense(self.e)
        if t is complex:
            return Dense(self.e)
        raise Unsupported('astype({})'.format(t))

    def __neg__(self):
        return self._new(-self.e)

    def __add__(self, o):
        if isinstance(o, Mat):
            return self._new(self.e + o.e)
        return NotImplemented

    def __sub__(self, o):
        if isinstance(o, Mat):
            return self._new(self.e - o.e)
        return NotImplemented

    def __matmul__(self, o):
        if isinstance(o, Mat):
            return self._new(self.e @ o.e)
        return NotImplemented

    def dot(self, o):
        return self @ o

    def __mul__(self, o):
        if is_number(o):
            return self._new(self.e.scale(o))
        return NotImplemented

    def __rmul__(self, o):
        return self.__mul__(o) if is_number(o) else NotImplemented

    def __truediv__(self, o):
        return self._new(self.e.scale(G.of(o).inv()))

    def __eq__(self, o):
        if isinstance(o, Mat):
            return mat_eq(self, o)
        return NotImplemented

    def __hash__(self):
        return hash(repr(self.e))

    def __getitem__(self, i):
        raise Unsupported('matrix element')

    def __array__(self, *a, **k):
        raise Unsupported('conversion of a symbolic matrix by numpy')

    def __repr__(self):
        return '{}({})'.format(type(self).__name__, self.e)


class Dense(Mat, NdArray):
    pass


class IntArr(Mat, NdInt):
    pass


class FloatArr(Mat, NdFloat):
    pass


class SymMat(Mat, ImmutableMatrix):
    def __mul__(self, o):
        if isinstance(o, SymMat):
            return SymMat(self.e @ o.e)
        return Mat.__mul__(self, o)

    def __pow__(self, n):
        if n == -1:
            return SymMat(self.e.inv())
        raise Unsupported('matrix power')

    def inv(self):
        return SymMat(self.e.inv())


class MutSymMat(SymMat):
    pass


_eqvars = {}


def eq_formula(a, b):
    """Truth value of 'a and b are equal' for expressions that may be equal."""
    if a.same(b):
        return z3.BoolVal(True)
    ka, kb = sorted([repr(a), repr(b)])
    return z3.Bool('eq<{} , {}>'.format(ka, kb))


def mat_eq(a, b):
    f = eq_formula(a.e, b.e)
    Facts.eqs.append((f, a.e, b.e))
    return SBool(f)


def known_equal(a, b, pc):
    """a = b follows from the equalities decided on this path."""
    if a.same(b):
        return True
    s = z3.Solver()
    s.add(*pc)
    for f, x, y in Facts.eqs:
        if (x.same(a) and y.same(b)) or (x.same(b) and y.same(a)):
            s.push()
            s.add(z3.Not(f))
            r = s.check()
            s.pop()
            if r == z3.unsat:
                return True
    return False


_round = {}


def np_round(x, *a):
    if not isinstance(x, Mat):
        raise Unsupported('round')
    key = repr(x.e)
    if key not in _round:
        _round[key] = declare('round<{}>'.format(key), x.e.rows, x.e.cols, 'real', 'integer')
    return Dense(Expr.letter(_round[key]))


def np_array(x, dtype=None, copy=True, **k):
    if isinstance(x, Mat):
        return Dense(x.e)
    if isinstance(x, str) or x.__class__.__name__ == 'Expression':
        raise TypeError('not an array')
    raise Unsupported('np.array of {}'.format(type(x).__name__))


def ta_array(x, dtype=None):
    if not isinstance(x, Mat):
        raise Unsupported('ta.array')
    integer = all('integer' in ATTR[l[0]] and not l[3] for (b, s, w) in x.e.t for l in w)
    if dtype is int:
        if not integer:
            raise ContractError('conversion of a matrix that need not be integer to integers')
        return IntArr(x.e)
    return (IntArr if integer and dtype is None and isinstance(x, IntArr) else FloatArr)(x.e)


def dot(a, b):
    return a @ b


def eye(n, *a, **k):
    if isinstance(n, Dim):
        return Dense(Expr.one(n.name))
    raise Unsupported('identity of a concrete size')


def ta_identity(n, *a, **k):
    if isinstance(n, Dim):
        return IntArr(Expr.one(n.name))
    raise Unsupported('identity of a concrete size')


def immutable(x):
    if isinstance(x, Mat):
        return SymMat(x.e)
    raise Unsupported('sympy matrix of {}'.format(type(x).__name__))


class _ImmMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, ImmutableMatrix)

    def __call__(cls, x):
        return immutable(x)


class SympyImmutable(metaclass=_ImmMeta):
    pass


def la_inv(x):
    return Dense(x.e.inv())


def allclose(a, b, *args, **kw):
    if isinstance(a, Mat) and isinstance(b, Mat):
        if (a.e.rows, a.e.cols) != (b.e.rows, b.e.cols):
            raise ContractError('comparison of matrices of different shapes')
        return mat_eq(a, b)
    if isinstance(a, Mat) and is_number(b) and b == 0:
        return mat_eq(a, Dense(Expr.zero(a.e.rows, a.e.cols)))
    raise Unsupported('allclose')


def isclose(a, b, *args, **kw):
    raise Unsupported('isclose')


NP = Stub('numpy', array=np_array, asarray=np_array, round=np_round, around=np_round, ndarray=NdArray, dot=dot,
          eye=eye, identity=eye, atleast_2d=lambda x: x, isclose=isclose, conj=lambda x: x.conj(),
          conjugate=lambda x: x.conj(), transpose=lambda x: x.T, matmul=dot, allclose=allclose, pi=3.141592653589793)
TA = Stub('tinyarray', array=ta_array, dot=dot, identity=ta_identity, ndarray_int=NdInt, ndarray_float=NdFloat)
LA = Stub('scipy.linalg', inv=la_inv)
SY = Stub('sympy', ImmutableMatrix=SympyImmutable, Matrix=immutable, MatrixBase=MatrixBase)


def imports(**extra):
    d = {'numpy': NP, 'tinyarray': TA, 'scipy.linalg': LA, 'scipy': Stub('scipy', linalg=LA), 'sympy': SY,
         'sympy.matrices.matrices': Stub('sympy.matrices.matrices', MatrixBase=MatrixBase),
         '.linalg': Stub('.linalg', allclose=allclose), '.kwant_continuum': Stub('.kwant_continuum'),
         '.model': Stub('.model')}
    d.update(extra)
    return d


class AbsModel:
    """An arbitrary Hamiltonian: only the contracts of Model are available."""
    __array_ufunc__ = None

    def __init__(self, e, momenta='momenta'):
        self.e, self.momenta = e, momenta

    def _n(self, e):
        return AbsModel(e, self.momenta)

    @property
    def shape(self):
        return (Dim(self.e.rows), Dim(self.e.cols))

    def rotate_momenta(self, R):
        """contract: result(k) = self(R k); requires len(momenta) == R.shape[0]."""
        if len(R.e.t) != 1 or R.e.rows != 'd' or R.e.cols != 'd':
            raise ContractError('rotate_momenta with {}'.format(R))
        ((b, s, w), c), = R.e.t.items()
        if c.im != 0 or c.re not in (1, -1) or s or b:
            raise ContractError('rotate_momenta with {}'.format(R))
        return self._n(self.e.compose(int(c.re), w))

    def conj(self):
        return self._n(self.e.conj())
    conjugate = conj

    def T(self):
        return self._n(self.e.T())

    def copy(self):
        return self._n(self.e)

    def __neg__(self):
        return self._n(-self.e)

    def __add__(self, o):
        return self._n(self.e + o.e)

    def __sub__(self, o):
        return self._n(self.e - o.e)

    def __mul__(self, o):
        if is_number(o):
            return self._n(self.e.scale(o))
        raise Unsupported('product of a model and {}'.format(type(o)))
    __rmul__ = __mul__

    def __matmul__(self, o):
        if isinstance(o, (Mat, AbsModel)):
            return self._n(self.e @ o.e)
        return NotImplemented

    def __rmatmul__(self, o):
        if isinstance(o, Mat):
            return self._n(o.e @ self.e)
        return NotImplemented
