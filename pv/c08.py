"""C08: linear solvers.  matrix_basis, nullspace and solve_mat_eqn for matrices of any size, any number of
equations and any values; simult_diag by induction over its recursion.

The singular value decomposition, the Hermitian eigensolvers and the sparse storage are assumed by contract,
arithmetic is exact and 'close to zero' means zero."""
import itertools

import z3

from . import engine as E
from .engine import explore, load, Stub, SBool, Symbolic, Unsupported, ContractError, assume
from .algebra import Expr, G, declare, declare_scalar, is_number, MEMBER_OF
from .obl import obligation, assumption, bounded_only

P = 'C08'
assumption(P, 'scipy.linalg.svd(A, full_matrices=True) returns (u, s, vh) with A conj(vh[j]) = s[j] u[:, j] for '
           'j < len(s), A conj(vh[j]) = 0 for the other rows, and unitary vh',
           'scipy.sparse.linalg.eigsh(M, sigma, k) of a positive semidefinite matrix returns k eigenpairs with the '
           'smallest eigenvalues; ARPACK converges',
           'the singular value decomposition of a real matrix is real',
           'sparse and dense storage hold the same matrix; reshaping to a column is injective and linear',
           'arithmetic is exact, closeness to zero within the tolerance is equality to zero')
_n = itertools.count()


# ---------------------------------------------------------------- integers

class IntE:
    """Integer expression."""
    REAL = None     # class of real numbers

    def __init__(self, t):
        self.t = t if z3.is_expr(t) else z3.IntVal(t)

    @staticmethod
    def of(x):
        if isinstance(x, IntE):
            return x.t
        if z3.is_expr(x):
            return x
        if isinstance(x, bool) or not isinstance(x, int):
            raise Unsupported('not an integer')
        return z3.IntVal(x)

    def _b(f):
        def op(self, o):
            if isinstance(o, float) and o.is_integer():
                o = int(o)
            if isinstance(o, float) and IntE.REAL is not None:
                return f(IntE.REAL(z3.ToReal(self.t)), o)
            if not isinstance(o, (IntE, int)):
                return NotImplemented
            return IntE(z3.simplify(f(self.t, IntE.of(o))))
        return op
    __add__ = __radd__ = _b(lambda a, b: a + b)
    __sub__ = _b(lambda a, b: a - b)
    __rsub__ = _b(lambda a, b: b - a)
    __mul__ = _b(lambda a, b: a * b)

    def __rmul__(self, o):
        if isinstance(o, list) and len(o) == 1:
            return Seq(self.t, o[0], 'repeated')
        return self * o

    def _c(f):
        def op(self, o):
            if not isinstance(o, (IntE, int)):
                return NotImplemented
            return SBool(f(self.t, IntE.of(o)))
        return op
    __eq__ = _c(lambda a, b: a == b)
    __ne__ = _c(lambda a, b: a != b)
    __lt__ = _c(lambda a, b: a < b)
    __le__ = _c(lambda a, b: a <= b)
    __gt__ = _c(lambda a, b: a > b)
    __ge__ = _c(lambda a, b: a >= b)

    def __pow__(self, k):
        r = self
        for _ in range(k - 1):
            r = r * self
        return r

    def __abs__(self):
        return IntE(z3.If(self.t >= 0, self.t, -self.t))

    def __neg__(self):
        return IntE(-self.t)

    def __truediv__(self, o):
        return Tol()
    __rtruediv__ = __truediv__

    def __hash__(self):
        raise Unsupported('hash of an unknown integer')

    def pv_range(self, *a):
        return GenRange(*a)

    def pv_isinstance(self, t):
        return True if t is int else None

    def __repr__(self):
        return str(self.t)


class Tol:
    """A positive tolerance."""
    def __truediv__(self, o):
        return self

    def __mul__(self, o):
        return self
    __rmul__ = __mul__


class GenRange:
    """range with unknown bounds: iteration visits one arbitrary member."""

    def __init__(self, *a):
        self.lo, self.hi = (0, a[0]) if len(a) == 1 else a[:2]
        if len(a) > 2:
            raise Unsupported('range with a step')

    def __iter__(self):
        i = z3.Int('i!{}'.format(next(_n)))
        assume(z3.And(i >= IntE.of(self.lo), i < IntE.of(self.hi)))
        GEN.append(i)
        yield IntE(i)
        GEN.remove(i)


GEN = []


class GenPairs:
    def __init__(self, r):
        self.r = r

    def __iter__(self):
        for i in self.r:
            for j in self.r:
                assume(i.t < j.t)
                yield (i, j)


def implied(f):
    """Does f follow from the path condition?"""
    c = E.ctx()
    return not c.feasible(z3.Not(f))


# ---------------------------------------------------------------- matrix_basis

class EMat:
    """A matrix given by its non-zero entries at symbolic positions."""

    def __init__(self, n, d=None):
        self.n, self.d = n, dict(d or {})

    def _key(self, ij):
        i, j = IntE.of(ij[0]), IntE.of(ij[1])
        for k in (i, j):
            if not implied(z3.And(k >= 0, k < self.n)):
                raise ContractError('index out of range')
        for (a, b) in self.d:
            if implied(z3.And(a == i, b == j)):
                return (a, b)
            if not implied(z3.Not(z3.And(a == i, b == j))):
                raise Unsupported('entries that may coincide')
        return (i, j)

    def __setitem__(self, ij, v):
        self.d[self._key(ij)] = G.of(v)

    def __getitem__(self, ij):
        k = self._key(ij)
        return complex(self.d.get(k, G(0)))

    def __mul__(self, c):
        return EMat(self.n, {k: v * G.of(c) for k, v in self.d.items()})
    __rmul__ = __mul__

    def __add__(self, o):
        r = EMat(self.n, self.d)
        for k, v in o.d.items():
            k = r._key(k)
            r.d[k] = r.d.get(k, G(0)) + v
        return r

    def __neg__(self):
        return self * -1

    def __sub__(self, o):
        return self + (-o)

    def at(self, i, j):
        for (a, b), v in self.d.items():
            if implied(z3.And(a == i, b == j)):
                return v
            if not implied(z3.Not(z3.And(a == i, b == j))):
                raise Unsupported('entries that may coincide')
        return G(0)

    def tocsr(self):
        return self
    tocoo = tolil = toarray = copy = tocsr

    def __repr__(self):
        return ' + '.join('{} E[{},{}]'.format(v, *k) for k, v in self.d.items())


def basis_world(n, sparse_seen):
    def square(shape, *a, **k):
        if not (isinstance(shape, tuple) and len(shape) == 2) or not all(
                implied(IntE.of(s) == n) for s in shape):
            raise ContractError('matrix of the wrong shape {}'.format(shape))
        return EMat(n)

    def lil(shape, *a, **k):
        sparse_seen.append(True)
        return square(shape)
    sp = Stub('scipy.sparse', lil_matrix=lil, dok_matrix=lil, csr_matrix=lil)
    return {'numpy': Stub('numpy', zeros=square), 'scipy': Stub('scipy', sparse=sp),
            'scipy.sparse': sp, 'itertools': Stub('itertools', combinations=lambda r, k: GenPairs(r), chain=itertools.chain)}


def the_list(x=()):
    return x if isinstance(x, GenRange) else list(x)


@obligation(P, ['linalg.matrix_basis'])
def basis_of_matrices(ob):
    n = z3.Int('dim')
    for traceless, anti, real, sparse in itertools.product((False, True), repeat=4):
        what = 'traceless={}, antihermitian={}, real={}, sparse={}'.format(traceless, anti, real, sparse)
        fams, seen = [], []

        def run():
            m = load('linalg', basis_world(n, seen), builtin_overrides={'list': the_list, 'tuple': the_list})
            out = []
            base = len(E.ctx().pc)
            GEN.clear()
            for M in m.ns['matrix_basis'](IntE(n), traceless=traceless, antihermitian=anti, real=real, sparse=sparse):
                idx = list(GEN)
                out.append((M, idx, [str(i) for i in idx]))
                # Hermiticity, trace and realness at an arbitrary entry
                ok = all(v == M.at(j, i).conj() * G(-1 if anti else 1) for (i, j), v in M.d.items())
                ob.check('elements are {}'.format('antihermitian' if anti else 'Hermitian'), ok, (what, M))
                tr = G(0)
                for (i, j), v in M.d.items():
                    if implied(i == j):
                        tr = tr + v
                    elif not implied(i != j):
                        raise Unsupported('trace')
                if traceless:
                    ob.check('elements are traceless', tr.zero(), (what, M))
                if real and not anti or real and anti:
                    ob.check('elements of the real bases are real', all(v.im == 0 for v in M.d.values()), (what, M))
            fams.append((out, list(E.ctx().pc)))
        explore(run, assumptions=[n >= 1])
        # every member of the standard basis occurs, up to a non-zero real factor, in exactly one family
        p, q = z3.Ints('p q')
        ph = G(0, 1) if anti else G(1)
        targets = []
        if not (real and anti):
            if traceless:
                targets.append(('diagonal', {(p, p): G(1), (n - 1, n - 1): G(-1)}, [p >= 0, p < n - 1], 1))
            else:
                targets.append(('diagonal', {(p, p): G(1)}, [p >= 0, p < n], 1))
            targets.append(('symmetric', {(p, q): G(1), (q, p): G(1)}, [p >= 0, p < q, q < n], 2))
        if not real or anti:
            targets.append(('antisymmetric', {(p, q): G(0, 1), (q, p): G(0, -1)}, [p >= 0, p < q, q < n], 2))
        if len(fams) != 1:
            raise Unsupported('the elements depend on the dimension')
        out, pc = fams[0]
        used = [0] * len(out)
        for name, want, cons, k in targets:
            found = 0
            for f, (M, idx, _) in enumerate(out):
                if len(idx) != k:
                    continue
                for vars_ in itertools.permutations((p, q)[:k]):
                    sub = list(zip(idx, vars_))
                    # the index range of the family is exactly the one of the target
                    mine = [z3.substitute(c, *sub) for c in pc if {str(v) for v in _vars(c)} & {str(i) for i in idx}]
                    ok1, _ = E.prove(z3.And(*mine), [n >= 1] + cons)
                    ok2, _ = E.prove(z3.And(*cons), [n >= 1] + mine)
                    if not (ok1 and ok2):
                        continue
                    got = {(z3.simplify(z3.substitute(a, *sub)), z3.simplify(z3.substitute(b, *sub))): v
                           for (a, b), v in M.d.items() if not v.zero()}
                    w = {(z3.simplify(a), z3.simplify(b)): v * ph for (a, b), v in want.items()}
                    if set(map(str, got)) != set(map(str, w)):
                        continue
                    g2, w2 = {str(a): v for a, v in got.items()}, {str(a): v for a, v in w.items()}
                    ratios = {g2[a] * w2[a].inv() for a in w2}
                    if len(ratios) == 1 and next(iter(ratios)).im == 0:
                        found += 1
                        used[f] += 1
                        break
            ob.check('the {} matrices are spanned'.format(name), found == 1 or None, (what, found, [str(o[0]) for o in out]))
        ob.check('the elements are linearly independent', all(u == 1 for u in used) or None, (what, used))
        if sparse:
            ob.check('sparse storage on request', bool(seen), what)


def _vars(f):
    if z3.is_const(f) and f.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        return [f]
    return [v for c in f.children() for v in _vars(c)]


# ---------------------------------------------------------------- nullspace

class Vec1:
    """Vector of singular or eigenvalues."""
    def __init__(self, name, n):
        self.name, self.n = name, n

    def pv_len(self):
        return IntE(self.n)

    def __abs__(self):
        return self

    def __lt__(self, o):
        if isinstance(o, Tol):
            return Mask([('small', self.name)], self.n)
        raise Unsupported('comparison of values')
    __le__ = __lt__


class Mask:
    """Truth values: the first part says which values are small; then constant tails."""
    def __init__(self, parts, n):
        self.parts, self.n = parts, n

    def __invert__(self):
        return Mask([('large', p[1]) if p[0] == 'small' else ('small', p[1]) if p[0] == 'large'
                     else ('const', not p[1], p[2]) for p in self.parts], self.n)


class ConstList(Symbolic):
    """[x for _ in range(n)] with unknown n."""
    def __init__(self, x, n):
        self.x, self.n = x, n

    def pv_len(self):
        return IntE(self.n)


class Rows:
    """Rows of an orthonormal basis, the kept ones given by a mask; c: conjugated, t: transposed."""
    def __init__(self, what, mask, c=0, t=0, cut=None, q=False):
        self.what, self.mask, self.c, self.t, self.cut, self.q = what, mask, c, t, cut, q

    def _n(self, **k):
        d = dict(what=self.what, mask=self.mask, c=self.c, t=self.t, cut=self.cut, q=self.q)
        d.update(k)
        return Rows(**d)

    def pv_len(self):
        if self.mask is not None:
            raise Unsupported('length')
        return IntE(self.what.n)

    def conj(self):
        return self._n(c=self.c ^ 1)
    conjugate = conj

    @property
    def T(self):
        return self._n(t=self.t ^ 1)

    @property
    def shape(self):
        d = z3.Int('kept')
        assume(d >= 0)
        full = IntE(self.what.n)
        other = IntE(d)
        # eigenvectors are columns unless transposed
        if self.what.columns:
            return (full, other) if not self.t else (other, full)
        return (other, full) if not self.t else (full, other)

    def __getitem__(self, i):
        if isinstance(i, Mask):
            if self.t or self.mask is not None:
                raise Unsupported('selection')
            return self._sel(i, False)
        if isinstance(i, tuple) and len(i) == 2 and i[0] == slice(None) and isinstance(i[1], Mask):
            return self._sel(i[1], True)
        if isinstance(i, slice) and i.start is None and i.step is None:
            return self._n(cut=i.stop)
        raise Unsupported('selection')

    def _sel(self, mask, cols):
        if cols != self.what.columns:
            raise ContractError('rows selected as columns')
        if not implied(IntE.of(self.what.count) == mask.n):
            raise ContractError('a mask of {} values for {} vectors'.format(mask.n, self.what.count))
        return self._n(mask=mask)


class Vectors:
    def __init__(self, name, n, count, columns):
        self.name, self.n, self.count, self.columns = name, n, count, columns


class AMat:
    """The matrix A, its Gram matrix, or their adjoints."""
    def __init__(self, form, rows, cols, sparse):
        self.form, self.rows, self.cols, self.sparse = form, rows, cols, sparse

    @property
    def shape(self):
        return (IntE(self.rows), IntE(self.cols))

    def _n(self, form=None, sparse=None, flip=False):
        r, c = (self.cols, self.rows) if flip else (self.rows, self.cols)
        return AMat(self.form if form is None else form, r, c, self.sparse if sparse is None else sparse)

    def pv_isinstance(self, t):
        return t is SPM if self.sparse else t is NDA

    def toarray(self):
        return self._n(sparse=False)
    todense = tocsr = tocsc = copy = lambda self: self

    def eliminate_zeros(self):
        if not self.sparse:
            raise ContractError('eliminate_zeros of a dense array')

    def conj(self):
        return self._n({'A': 'A*', 'A*': 'A', 'At': 'Ah', 'Ah': 'At'}[self.form])
    conjugate = conj

    @property
    def T(self):
        return self._n({'A': 'At', 'At': 'A', 'A*': 'Ah', 'Ah': 'A*'}[self.form], flip=True)
    transpose = lambda self: self.T
    getH = lambda self: self.T.conj()
    H = property(lambda self: self.T.conj())

    @property
    def data(self):
        return ('data', self)

    def dot(self, o):
        if (self.form, o.form) == ('Ah', 'A'):
            return AMat('AhA', self.rows, o.cols, self.sparse)
        raise ContractError('the Gram matrix is not A^dagger A: {} {}'.format(self.form, o.form))
    __matmul__ = dot


class SPM:
    pass


class NDA:
    pass


class EvalsMax:
    """max |eigenvalue| of the eigenpairs found."""
    def __init__(self, ev):
        self.ev = ev

    def __gt__(self, tol):
        if not isinstance(tol, Tol):
            raise Unsupported('tolerance')
        return SBool(self.ev.somelarge)

    def __ge__(self, tol):
        return self > tol

    def __le__(self, tol):
        return SBool(z3.Not((self > tol).f))
    __lt__ = __le__


def null_world(state):
    def svd(A, full_matrices=True, **k):
        if not isinstance(A, AMat) or A.form != 'A' or A.sparse:
            raise ContractError('singular values of something else than the dense A')
        if full_matrices is not True:
            raise ContractError('the incomplete decomposition misses null vectors')
        if set(k) - {'check_finite', 'overwrite_a', 'lapack_driver'} or k.get('overwrite_a'):
            raise Unsupported('svd arguments')
        r = z3.If(A.rows < A.cols, A.rows, A.cols)
        return 'u', Vec1('s', r), Rows(Vectors('vh', A.cols, A.cols, False), None)

    def isclose(x, y, rtol=1e-5, atol=1e-8, **k):
        if not isinstance(x, Vec1) or y != 0 or not isinstance(atol, Tol):
            raise Unsupported('isclose')
        return Mask([('small', x.name)], x.n)

    def allclose(x, y, rtol=1e-5, atol=1e-8, **k):
        if isinstance(x, tuple) and x[0] == 'data' and y == 0 and isinstance(atol, Tol):
            return SBool(z3.Bool('A is zero'))
        raise Unsupported('allclose')

    def concatenate(parts, *a, **k):
        if len(parts) == 2 and isinstance(parts[0], Mask) and isinstance(parts[1], ConstList):
            return Mask(parts[0].parts + [('const', parts[1].x, parts[1].n)], parts[0].n + parts[1].n)
        raise Unsupported('concatenate')

    def eigsh(M, k=None, sigma=None, which='LM', return_eigenvectors=True, **kw):
        if kw:
            raise Unsupported('eigsh arguments')
        if not isinstance(M, AMat) or M.form != 'AhA':
            raise ContractError('eigenvectors of something else than A^dagger A')
        if not (isinstance(sigma, float) and sigma < 0 and which == 'LM'):
            raise ContractError('does not ask for the smallest eigenvalues')
        kk = IntE.of(k)
        if not implied(z3.And(kk >= 1, kk < M.rows)):
            raise ContractError('number of eigenvectors {} out of range'.format(kk))
        name = 'e{}'.format(next(_n))
        v = Vec1(name, kk)
        v.somelarge = z3.Bool('large<{}>'.format(name))
        # fewer vectors than the dimension of the null space are all small
        state['k'] = kk
        state['somelarge'] = v.somelarge
        return v, Rows(Vectors(name, M.rows, kk, True), None)

    def amax(x):
        if isinstance(x, Vec1) and hasattr(x, 'somelarge'):
            return EvalsMax(x)
        raise Unsupported('max')

    def qr(x, mode='full', **k):
        if mode != 'economic' or not isinstance(x, Rows) or x.t or not x.what.columns or x.mask is None:
            raise ContractError('orthonormalization of something else than columns')
        return x._n(q=True), 'r'

    def eye(n, *a, **k):
        if a or set(k) - {'dtype'}:
            raise Unsupported('identity')
        return ('eye', IntE.of(n))

    def csr(x, *a, **k):
        return x._n(sparse=True)
    absf = lambda x: abs(x)
    np_ = Stub('numpy', isclose=isclose, allclose=allclose, concatenate=concatenate, hstack=concatenate, max=amax, amax=amax,
               abs=absf, invert=lambda x: ~x, logical_not=lambda x: ~x, eye=eye, identity=eye, ndarray=NDA)
    la = Stub('scipy.linalg', svd=svd, qr=qr)
    sp = Stub('scipy.sparse', csr_matrix=csr, spmatrix=SPM)
    sla = Stub('scipy.sparse.linalg', eigsh=eigsh)
    return {'numpy': np_, 'scipy.linalg': la, 'scipy': Stub('scipy', sparse=sp, linalg=la), 'scipy.sparse.linalg': sla,
            'scipy.sparse': sp}


class GR(Symbolic):
    """range(n) for unknown n, in comprehensions of constants."""
    def __init__(self, n):
        self.n = n

    def pv_comp(self, kind, fn):
        r = fn(IntE(z3.Int('j!{}'.format(next(_n)))))
        if len(r) == 1 and isinstance(r[0], bool):
            return ConstList(r[0], self.n)
        raise Unsupported('comprehension')


class LenExpr(IntE):
    def pv_range(self, *a):
        return GR(IntE.of(a[0]))


def _minmax(is_min):
    def f(*a, **k):
        if any(isinstance(x, IntE) for x in a) and len(a) > 1:
            r = IntE.of(a[0])
            for x in a[1:]:
                t = IntE.of(x)
                r = z3.If(t < r, t, r) if is_min else z3.If(t > r, t, r)
            return IntE(r)
        return (min if is_min else max)(*a, **k)
    return f


def expect_dense(ob, value, complement, rows, cols, pc):
    def one(v, label, small):
        if not isinstance(v, Rows):
            ob.check(label, None, v)
            return
        good = v.what.name == 'vh' and v.c == 1 and v.t == 0 and v.cut is None and v.mask is not None
        ob.check(label + ': rows are conjugated right singular vectors', good, vars(v))
        if not good:
            return
        r = z3.If(rows < cols, rows, cols)
        pos = r
        parts = list(v.mask.parts)
        ob.check(label + ': selected by the singular values', parts and parts[0] == ('small' if small else 'large', 's'), parts)
        for p in parts[1:]:
            ob.check(label + ': vectors without a singular value', p[0] == 'const' and p[1] is small, p)
        total = r + sum((p[2] for p in parts[1:]), z3.IntVal(0))
        ob.prove(label + ': all vectors are considered', total == cols, pc)
    if complement:
        if not (isinstance(value, tuple) and len(value) == 2):
            ob.check('returns the null space and its complement', False, value)
            return
        one(value[0], 'null space', True)
        one(value[1], 'complement', False)
    else:
        one(value, 'null space', True)


@obligation(P, ['linalg.nullspace'])
def null_space(ob):
    rows, cols, k = z3.Ints('rows cols k_max')
    tol = Tol()
    for is_sparse, asked, comp in itertools.product((False, True), (None, True, False), (False, True)):
        def run():
            state = {}
            calls = []

            def rule(name, cond, body, get, set_, orelse):
                # loop invariant: 1 <= k_max <= dimension - 2 and no large eigenvalue was found before
                d = get()
                if 'k_max' not in d:
                    raise Unsupported('loop without k_max')
                c0 = IntE.of(d['k_max'])
                ob.prove('sparse: invariant holds initially', z3.Implies((cond_formula(cond)), z3.And(c0 >= 1)),
                         E.ctx().pc)
                kk = z3.Int('k!{}'.format(next(_n)))
                assume(kk >= 1)
                set_({'k_max': IntE(kk)})
                if cond():
                    r = body()
                    if r is E.BREAK or isinstance(r, E._Ret):
                        state['broke'] = True
                        return None if r is E.BREAK else r
                    k2 = IntE.of(get()['k_max'])
                    ob.prove('sparse: the search advances', k2 > kk, E.ctx().pc)
                    ob.prove('sparse: the search stops only for exhausted sizes or a large eigenvalue',
                             z3.Not(state['somelarge']), E.ctx().pc)
                    raise E.Infeasible      # covered by the arbitrary iteration
                return orelse() if orelse else None

            def cond_formula(cond):
                r = cond()
                return r.f if isinstance(r, SBool) else z3.BoolVal(bool(r))
            E.WHILE_RULES['nullspace'] = rule
            A = AMat('A', rows, cols, is_sparse)

            def length(x):
                r = E.sym_len(x)
                return LenExpr(r.t) if isinstance(r, IntE) else r
            m = load('linalg', null_world(state), builtin_overrides={
                'len': length, 'min': _minmax(True), 'max': _minmax(False), 'range': rng})
            real = m.ns['nullspace']
            depth = [0]

            def recursive(B, *a, **kw):
                if depth[0]:
                    calls.append((B, a, kw))
                    raise_if = not (isinstance(B, AMat) and B.form == 'A')
                    if raise_if:
                        raise ContractError('recursion on another matrix')
                    return Rows(Vectors('dense null space', B.cols, None, False), None)
                depth[0] += 1
                try:
                    return real(B, *a, **kw)
                finally:
                    depth[0] -= 1
            m.ns['nullspace'] = recursive
            v = recursive(A, atol=tol, return_complement=comp, sparse=asked, k_max=IntE(k))
            return v, state, calls

        def rng(*a):
            if any(isinstance(x, IntE) for x in a):
                if len(a) != 1:
                    raise Unsupported('range')
                return GR(IntE.of(a[0]))
            return range(*a)
        paths = explore(run, assumptions=[rows >= 1, cols >= 1])
        E.WHILE_RULES.pop('nullspace', None)
        sparse = is_sparse if asked is None else asked
        for p in paths:
            if p.kind == 'raise':
                pcs = z3.And(*p.pc)
                if not sparse or not isinstance(p.value, ValueError):
                    ob.check('no errors', False, repr(p.value))
                else:
                    # documented: the null space is too large for the sparse solver, or k_max == 0
                    ob.prove('sparse: raises ValueError only if it cannot find the null space',
                             z3.Or(k == 0, k < 0), p.pc)
                continue
            v, state, calls = p.value
            if not sparse:
                ob.check('dense: not solved recursively', not calls, calls)
                expect_dense(ob, v, comp, rows, cols, p.pc)
                continue
            if isinstance(v, tuple) and v[0] == 'eye':
                ob.prove('sparse: the identity is returned for A = 0 only', z3.Bool('A is zero'), p.pc)
                ob.prove('sparse: identity of the right size', v[1] == cols, p.pc)
                continue
            if not isinstance(v, Rows):
                ob.check('sparse: result', None, v)
                continue
            if v.what.name == 'dense null space':
                B, a, kw = calls[0]
                ob.check('sparse: the dense fallback gets the same matrix and tolerance',
                         B.form == 'A' and (a[:1] == (tol,) or kw.get('atol') is tol) and not v.c and not v.t, (a, kw))
                ok = kw.get('sparse', None)
                ob.check('sparse: the fallback is dense', ok is False or (ok is None and not B.sparse), kw)
                if v.cut is None:
                    ob.prove('sparse: a limited number of solutions is respected', k <= 0, p.pc)
                else:
                    ob.prove('sparse: truncated to k_max', z3.And(k > 0, IntE.of(v.cut) == k), p.pc)
                continue
            good = v.what.name.startswith('e') and v.c == 0 and v.t == 1 and v.cut is None and v.mask is not None
            ob.check('sparse: the rows are eigenvectors of A^dagger A', good, vars(v))
            if good:
                ob.check('sparse: those with small eigenvalues', v.mask.parts == [('small', v.what.name)], v.mask.parts)
                ob.check('sparse: null vectors are orthonormalized unless there are none', v.q or
                         not E.prove(z3.BoolVal(False), p.pc)[0] and E.prove(z3.Int('kept') <= 0, p.pc)[0], vars(v))
                # completeness: all null vectors are among those found
                ob.prove('sparse: all null vectors are found, or k_max of them', z3.Or(
                    z3.And(k > 0, state['k'] == k), z3.And(k < 0, state['somelarge'])), p.pc)
    ob.check('paths', True)


# ---------------------------------------------------------------- solve_mat_eqn

class Bas(Symbolic):
    """Basis of matrices: groups of (name, antihermitian).  The order of the members is the order of the groups."""

    def __init__(self, groups, traceless, sparse):
        self.groups, self.traceless, self.sparse = groups, traceless, sparse

    def pv_comp(self, kind, fn):
        out = []
        for g in self.groups:
            k = 'k_' + g
            r = fn(LMat(basis_letter(g, k), 'n', 'n', self.sparse))
            if len(r) != 1:
                raise ContractError('members of the basis are skipped')
            out.append((g, k, r[0]))
        return GRow(out)

    def pv_zip(self, *a):
        raise Unsupported('zip of a basis')

    def pv_list(self):
        return self


class GRow(Symbolic):
    """A list with one entry per basis member."""
    def __init__(self, parts):
        self.parts = parts

    def pv_len(self):
        raise Unsupported('length of the basis')


class LMat:
    """Dense or sparse matrix with value e."""
    __array_ufunc__ = None

    def __init__(self, e, r, c, sparse, shape=None):
        self.e, self.r, self.c, self.sparse = e, r, c, sparse
        self._shape = shape or (IntE(z3.Int('n')), IntE(z3.Int('n')))

    @property
    def shape(self):
        return Shape(self._shape)

    def pv_len(self):
        return self._shape[0]

    def pv_isinstance(self, t):
        return t is SPM if self.sparse else t is NDA

    def _n(self, e):
        return LMat(e, self.r, self.c, self.sparse)

    def __matmul__(self, o):
        if not isinstance(o, LMat):
            return NotImplemented
        return self._n(self.e @ o.e)
    dot = __matmul__

    def __add__(self, o):
        return self._n(self.e + o.e)

    def __sub__(self, o):
        return self._n(self.e - o.e)

    def __neg__(self):
        return self._n(-self.e)

    def conj(self):
        return self._n(self.e.conj())
    conjugate = conj

    @property
    def T(self):
        return self._n(self.e.T())

    def reshape(self, *s):
        s = s[0] if len(s) == 1 else s
        if len(s) == 2 and isinstance(s[1], int) and s[1] == 1:
            if isinstance(s[0], int) and s[0] == -1:
                return Col(self.e)
            n = z3.Int('n')
            if implied(IntE.of(s[0]) == n * n):
                return Col(self.e)
        raise Unsupported('reshape')

    def toarray(self):
        return LMat(self.e, self.r, self.c, False)


class Shape(tuple):
    def __eq__(self, o):
        return SBool(z3.And(*[IntE.of(a) == IntE.of(b) for a, b in zip(self, o)]))

    def __ne__(self, o):
        return SBool(z3.Not((self == o).f))
    __hash__ = None


class Col:
    """Column of all the entries of a matrix."""
    def __init__(self, e):
        self.e = e


class Seq(Symbolic):
    """List of unknown length; item() is its arbitrary member."""

    def __init__(self, n, item, name):
        self.n, self.item, self.name = n, item, name

    def pv_len(self):
        return IntE(self.n)

    def __getitem__(self, i):
        if i == 0:
            return self.item      # only its shape and storage are used
        raise Unsupported('element {}'.format(i))

    def pv_zip(self, *a):
        items = []
        for x in a:
            if isinstance(x, Seq):
                items.append(x.item)
                if not implied(x.n == self.n if isinstance(x.n, z3.ExprRef) else z3.BoolVal(False)):
                    raise ContractError('zip of lists of different lengths')
            else:
                raise Unsupported('zip')
        return Seq(self.n, tuple(items), 'zip')

    def pv_comp(self, kind, fn):
        r = fn(self.item)
        if len(r) != 1:
            raise Unsupported('filtered list')
        return Seq(self.n, r[0], 'comp')

    def pv_all(self):
        f = self.item
        f = f.f if isinstance(f, SBool) else z3.BoolVal(bool(f))
        if implied(f):
            return True
        if implied(z3.Not(f)):
            return False
        # the arbitrary member is a witness, or all members satisfy it
        return SBool(f)

    def pv_any(self):
        f = self.item
        if isinstance(f, bool):
            return f
        a = z3.Bool('any<{}>'.format(f.f))
        assume(z3.Implies(f.f, a))
        return SBool(a)

    def pv_for(self, body, get, set_):
        def lists():
            d = {}
            for k, c in zip(body.__code__.co_freevars, body.__closure__ or ()):
                try:
                    if isinstance(c.cell_contents, list):
                        d[k] = c.cell_contents
                except ValueError:
                    pass
            return d
        before = lists()
        lens = {k: len(v) for k, v in before.items()}
        r = body(self.item)
        if r is not None:
            raise Unsupported('the loop over the equations is left early')
        after = lists()
        grown = []
        for k, v in before.items():
            if after.get(k) is not v and isinstance(after.get(k), list):
                raise Unsupported('rebound list')
            if len(v) > lens[k]:
                if len(v) != 1 or lens[k]:
                    raise Unsupported('list of equations')
                grown.append(v)
        for v in grown:
            v[0] = Each(self.n, v[0])
        return None


class Each:
    """One such element for every equation."""
    def __init__(self, n, item):
        self.n, self.item = n, item


class Null:
    """The matrix of the linear system."""
    def __init__(self, row, parts=('complex',)):
        self.row, self.parts = row, parts

    @property
    def real(self):
        return Null(self.row, ('real',))

    @property
    def imag(self):
        return Null(self.row, ('imag',))


class NVecs(Symbolic):
    """Null vectors; the arbitrary one has components v."""
    def __init__(self, M):
        self.M = M

    def pv_comp(self, kind, fn):
        r = fn(NVec(self.M))
        if len(r) != 1:
            raise ContractError('null vectors are skipped')
        return Sol(r[0], self.M)


class NVec(Symbolic):
    def __init__(self, M):
        self.M = M

    def pv_zip(self, *a):
        if len(a) == 2 and {type(x) for x in a} == {NVec, Bas}:
            b = next(x for x in a if isinstance(x, Bas))
            if [g for g, k, e in self.M.row.parts] != b.groups:
                raise ContractError('coefficients {} of a basis {}'.format([g for g, k, e in self.M.row.parts], b.groups))
            return VZip(self.M, b, a[0] is self)
        raise Unsupported('zip')


def vname(M, g):
    return 'v{}{}'.format('r' if M.parts == ('real', 'imag') else 'c', g)


class VZip(Symbolic):
    def __init__(self, M, b, first):
        self.M, self.b, self.first = M, b, first

    def pv_comp(self, kind, fn):
        out = []
        for g in self.b.groups:
            k = 'k_' + g
            v = Sc(Expr([(((), ((((vname(self.M, g), k)), 0, None),), ()), G(1))], None, None))
            b = LMat(basis_letter(g, k), 'n', 'n', False)
            r = fn((v, b) if self.first else (b, v))
            if len(r) != 1:
                raise ContractError('members of the basis are skipped')
            out.append((g, k, r[0]))
        return Terms(out)


class Sc:
    """Scalar expression."""
    def __init__(self, e):
        self.e = e

    def __mul__(self, o):
        if isinstance(o, LMat):
            return o._n(o.e.smul(self.e))
        return NotImplemented
    __rmul__ = __mul__

    def conj(self):
        return Sc(self.e.conj())
    conjugate = conj


class Terms(Symbolic):
    def __init__(self, parts):
        self.parts = parts

    def pv_sum(self, start=0):
        if not (isinstance(start, int) and start == 0):
            raise Unsupported('sum with a start')
        r = Expr.zero('n', 'n')
        for g, k, m in self.parts:
            r = r + m.e.bind([(k, (('K' + g, True),))])
        return LMat(r, 'n', 'n', False)


class Sol:
    def __init__(self, X, M):
        self.X, self.M = X, M


def basis_letter(g, k):
    return Expr([(((), (), ((('B' + g, k), 0, 0, 0, None),)), G(1))], 'n', 'n')


def declare_world():
    from .algebra import ATTR, DIMS, SCAL_ATTR
    declare('Bh', 'n', 'n', 'hermitian')
    declare('Ba', 'n', 'n', 'antihermitian')
    declare('HL', 'n', 'n')
    declare('HR', 'n', 'n')
    for g in 'ha':
        declare_scalar('vr' + g, 'real')
        declare_scalar('vc' + g)


def solve_world(rec):
    def matrix_basis(dim, traceless=False, antihermitian=False, real=False, sparse=False):
        if not implied(IntE.of(dim) == z3.Int('n')):
            raise ContractError('basis of another dimension')
        if real is not False:
            raise ContractError('basis of real matrices only')
        rec.setdefault('tls', []).append(bool(traceless))
        return Bas(['a' if antihermitian else 'h'], bool(traceless), bool(sparse))

    def chain(*bs):
        if not all(isinstance(b, Bas) for b in bs) or len({b.traceless for b in bs}) != 1:
            raise ContractError('different kinds of bases are combined')
        gs = [g for b in bs for g in b.groups]
        if len(set(gs)) != len(gs):
            raise ContractError('linearly dependent basis')
        return Bas(gs, bs[0].traceless, bs[0].sparse)

    def bmat(rows):
        if isinstance(rows, Seq):
            rows = [Each(rows.n, rows.item)]
        if not (isinstance(rows, list) and len(rows) == 1 and isinstance(rows[0], Each) and implied(rows[0].n == z3.Int('m'))):
            raise ContractError('not all of the equations enter the linear system')
        row = rows[0].item
        if not isinstance(row, GRow) or not all(isinstance(e, Col) for g, k, e in row.parts):
            raise Unsupported('rows of the linear system')
        return Null(row)

    def vstack(ms):
        ms = list(ms)
        if len(ms) == 2 and sorted(m.parts for m in ms) == [('imag',), ('real',)] and ms[0].row is ms[1].row:
            return Null(ms[0].row, ('real', 'imag'))
        raise ContractError('real and imaginary parts are not both used')

    def nullspace(M, **k):
        if not isinstance(M, Null) or M.parts not in (('complex',), ('real', 'imag')):
            raise ContractError('only a part of the linear system is solved')
        rec['nullspace'] = k
        rec['M'] = M
        return NVecs(M)

    def empty(shape, *a, **k):
        rec['empty'] = shape
        return ('empty', shape)

    def zeros(shape, *a, **k):
        return empty(shape)

    def array(x, *a, **k):
        return x

    def coo(x):
        return x
    sp = Stub('scipy.sparse', spmatrix=SPM, vstack=vstack, bmat=bmat, coo_matrix=coo, csr_matrix=coo, hstack=bmat)
    np_ = Stub('numpy', ndarray=NDA, vstack=vstack, block=bmat, empty=empty, zeros=zeros, array=array, real=lambda x: x.real,
               imag=lambda x: x.imag, dot=lambda a, b: a @ b)
    itt = Stub('itertools', chain=chain)
    return ({'numpy': np_, 'scipy': Stub('scipy', sparse=sp), 'scipy.sparse': sp, 'itertools': itt},
            dict(matrix_basis=matrix_basis, nullspace=nullspace))


@obligation([P, 'C09', 'C10', 'C11', 'C12', 'C13'], ['linalg.solve_mat_eqn'])
def matrix_equations(ob):
    declare_world()
    n, m = z3.Ints('n m')
    kmax = IntE(z3.Int('k_max'))
    for herm, tl, sparse_in, asked, hr, conj in itertools.product(
            (False, True), (False, True), (False, True), (None, False, True), (False, True), (False, True, 'list')):
        if asked is not None and sparse_in:
            continue
        what = dict(hermitian=herm, traceless=tl, stored_sparse=sparse_in, sparse=asked, HR=hr, conjugate=conj)
        ci = z3.Bool('conjugate_i')

        def run():
            rec = {}
            imports, over = solve_world(rec)
            mod = load('linalg', imports, over, builtin_overrides={'list': lambda x=(): x if isinstance(x, (Bas, Seq)) else list(x)})
            HL = Seq(m, LMat(Expr.letter('HL'), 'n', 'n', sparse_in), 'HL')
            HR = Seq(m, LMat(Expr.letter('HR'), 'n', 'n', sparse_in), 'HR') if hr else None
            c = Seq(m, SBool(ci), 'conj') if conj == 'list' else conj
            args = dict(hermitian=herm, traceless=tl, conjugate=c, sparse=asked, k_max=kmax)
            return mod.ns['solve_mat_eqn'](HL, HR, **args), rec
        for p in explore(run, assumptions=[n >= 1, m >= 1]):
            if p.kind == 'raise':
                ob.check('valid equations are accepted', False, (what, repr(p.value)))
                continue
            v, rec = p.value
            if isinstance(v, tuple) and v[0] == 'empty':
                ob.prove('no basis vectors: only for traceless 1x1 matrices', z3.And(z3.BoolVal(tl), n == 1), p.pc)
                ob.prove('no basis vectors: shape', z3.And(IntE.of(v[1][0]) == 0, *[IntE.of(s) == n for s in v[1][1:]])
                         if len(v[1]) == 3 else z3.BoolVal(False), p.pc)
                continue
            if not isinstance(v, Sol):
                ob.check('result', None, (what, v))
                continue
            X, M = v.X.e, v.M
            split = M.parts == ('real', 'imag')
            # is equation i conjugated on this path?
            if conj == 'list':
                is_c = E.prove(ci, p.pc)[0]
                if not is_c and not E.prove(z3.Not(ci), p.pc)[0]:
                    ob.check('conjugated equations are distinguished', False, what)
                    continue
                anyc = z3.Bool('any<conjugate_i>')
                some = E.prove(anyc, p.pc)[0]
                none = E.prove(z3.Not(anyc), p.pc)[0]
                if not (some or none or herm):
                    ob.check('the number of conjugated equations is taken into account', False, what)
                    continue
            else:
                is_c = some = bool(conj)
            hL, hR = Expr.letter('HL'), Expr.letter('HR' if hr else 'HL')
            lhs = X @ hL - hR @ (X.conj() if is_c else X)
            # M v = 0 gives sum_k v_k entry_k = 0 for every equation
            tot = Expr.zero('n', 'n')
            for g, k, col in M.row.parts:
                sc = Expr([(((), ((((vname(M, g), k)), 0, None),), ()), G(1))], None, None)
                tot = tot + col.e.smul(sc).bind([(k, (('K' + g, True),))])
            ob.check('X HL = HR X{} for every solution'.format('*' if is_c else ''), lhs.same(tot), (what, lhs, tot),
                     'matrix normal form')
            groups = [g for g, k, c in M.row.parts]
            if herm:
                ob.check('Hermitian: solutions are Hermitian', X.T().conj().same(X), (what, X), 'matrix normal form')
                ob.check('Hermitian: real combinations of all Hermitian matrices', groups == ['h'] and split, (what, groups))
            elif some:
                ob.check('conjugated equations: real combinations spanning all matrices',
                         sorted(groups) == ['a', 'h'] and split, (what, groups))
            else:
                ok = len(groups) == 1 and not split
                ob.check('linear equations: complex combinations spanning all matrices', ok, (what, groups, split))
            ob.check('traceless on request', rec.get('tls') and all(t == tl for t in rec['tls']), what)
            k = rec['nullspace']
            want = sparse_in if asked is None else asked
            ob.check('sparse and k_max reach the null space solver', bool(k.get('sparse')) == want and k.get('k_max') is kmax
                     and not set(k) - {'sparse', 'k_max', 'atol'}, (what, k))
            ob.check('the default tolerance is used', 'atol' not in k or k['atol'] == 1e-6, k)
    ob.check('paths', True)


@obligation(P, ['linalg.solve_mat_eqn'])
def invalid_equations(ob):
    declare_world()
    n, m, n2, m2 = z3.Ints('n m n2 m2')

    def shaped(e, r, c):
        return LMat(Expr.letter(e), 'n', 'n', False, (IntE(r), IntE(c)))
    cases = {
        'different numbers of matrices': ([m != m2], lambda: (Seq(m, shaped('HL', n, n), 'HL'), Seq(m2, shaped('HR', n, n), 'HR'), False)),
        'different shapes': ([n != n2], lambda: (Seq(m, shaped('HL', n, n), 'HL'), Seq(m, shaped('HR', n2, n2), 'HR'), False)),
        'rectangular matrices': ([n != n2], lambda: (Seq(m, shaped('HL', n, n2), 'HL'), None, False)),
        'wrong number of conjugate flags': ([m != m2], lambda: (Seq(m, shaped('HL', n, n), 'HL'), None,
                                                               Seq(m2, SBool(z3.Bool('conjugate_i')), 'conj'))),
    }
    for name, (assum, mk) in cases.items():
        def run():
            imports, over = solve_world({})
            mod = load('linalg', imports, over)
            HL, HR, c = mk()
            return mod.ns['solve_mat_eqn'](HL, HR, conjugate=c)
        for p in explore(run, assumptions=assum + [n >= 1, m >= 1, n2 >= 1, m2 >= 1]):
            ob.check(name + ' are rejected', p.kind == 'raise' and isinstance(p.value, ValueError), (p.kind, p.value))


# ---------------------------------------------------------------- simult_diag

class Pieces(Symbolic):
    """A list with one or more members for every block: the arbitrary member."""
    def __init__(self, item, over):
        self.item, self.over = item, over

    def pv_comp(self, kind, fn):
        r = fn(self.item)
        if len(r) != 1:
            raise ContractError('common eigenspaces are skipped')
        return Pieces(r[0], self.over)

    def pv_for(self, body, get, set_):
        Seq.pv_for(self, body, get, set_)

    n = None

    def __iter__(self):
        yield Each(None, self)


class Ev:
    def __init__(self, kind, order=None):
        self.kind, self.order = kind, order
    real = property(lambda s: ('re', s))
    imag = property(lambda s: ('im', s))

    def pv_len(self):
        return IntE(z3.Int('n'))

    def __getitem__(self, o):
        if isinstance(o, Order) and self.order is None:
            return Ev(self.kind, o)
        raise Unsupported('selection of eigenvalues')


class Order:
    def __init__(self, groups):
        self.groups = groups


class EvU(LMat):
    """Matrix of eigenvectors; only usable as a unitary when it is one."""
    def __init__(self, kind, order=None, q=False):
        self.kind, self.order, self.q = kind, order, q
        LMat.__init__(self, Expr.letter('U' if kind == 'eigh' or q else 'V'), 'n', 'n', False)

    def __getitem__(self, ix):
        if isinstance(ix, tuple) and len(ix) == 2 and ix[0] == slice(None):
            if isinstance(ix[1], Order) and self.order is None and not self.q:
                return EvU(self.kind, ix[1])
            if isinstance(ix[1], slice) and isinstance(ix[1].start, Bound):
                if (ix[1].start.which, ix[1].stop.which) != ('begin', 'end'):
                    raise ContractError('wrong bounds of a block')
                ix[1].start.use(self)
                return SMat(self.e @ Expr.letter('S'), 'n', 'b')
        raise Unsupported('selection of eigenvectors')


class SMat(LMat):
    def __init__(self, e, r, c):
        LMat.__init__(self, e, r, c, False)

    def _n(self, e):
        return SMat(e, e.rows, e.cols)


class Bound:
    def __init__(self, which, ev):
        self.which, self.ev = which, ev

    def use(self, U):
        ev = self.ev
        if ev.kind != U.kind or ev.order is not U.order:
            raise ContractError('eigenvalues and eigenvectors are in different order')
        if U.kind == 'eig' and not (U.q and U.order is not None):
            raise ContractError('eigenvectors of a non-Hermitian matrix are not orthonormal and grouped')


class MSeq(Symbolic):
    """The matrices to diagonalize: first one, and arbitrary other."""
    def __init__(self, first, rest, n):
        self.first, self.rest, self.n = first, rest, n

    def pv_len(self):
        return IntE(self.n)

    def __getitem__(self, i):
        if isinstance(i, int) and i == 0:
            return self.first
        if isinstance(i, slice) and i.start == 1 and i.stop is None:
            return RestSeq(self.rest, self.n - 1)
        if isinstance(i, slice) and i.start in (None, 0) and i.stop is None:
            return self
        raise Unsupported('element of the list of matrices')


class RestSeq(Symbolic):
    def __init__(self, item, n):
        self.item, self.n = item, n

    def pv_comp(self, kind, fn):
        r = fn(self.item)
        if len(r) != 1:
            raise ContractError('matrices are skipped')
        return RestSeq(r[0], self.n)

    def pv_len(self):
        return IntE(self.n)

    def __getitem__(self, ix):
        if isinstance(ix, tuple) and len(ix) == 3 and ix[0] == slice(None) and all(
                isinstance(s, slice) and isinstance(s.start, Bound) and (s.start.which, s.stop.which) == ('begin', 'end')
                for s in ix[1:]):
            S = Expr.letter('S')
            m = self.item
            return RestSeq(SMat(S.T().conj() @ m.e @ S, 'b', 'b'), self.n)
        raise Unsupported('selection of blocks')


class NEv:
    pass


@obligation(P, ['linalg.simult_diag', 'linalg.mtm', 'linalg.commutator'])
def simultaneous_diagonalization(ob):
    declare_world()
    declare('M0', 'n', 'n')
    declare('M1', 'n', 'n')
    declare('U', 'n', 'n', 'unitary')
    declare('V', 'n', 'n')
    declare('S', 'n', 'b')
    declare('P', 'b', 'p')
    n, m = z3.Int('n'), z3.Int('m')
    tol = Tol()

    def run():
        calls = []

        def allclose(a, b, **k):
            if isinstance(a, LMat) and isinstance(b, LMat):
                if a.e.same(Expr.letter('M0')) and b.e.same(Expr.letter('M0').T().conj()):
                    return SBool(z3.Bool('Hermitian'))
                if a.e.same(Expr.letter('M0').T().conj()) and b.e.same(Expr.letter('M0')):
                    return SBool(z3.Bool('Hermitian'))
            raise Unsupported('comparison')

        def npallclose(a, b, **k):
            if b == 0 and isinstance(a, LMat):
                M0 = Expr.letter('M0')
                c = M0 @ M0.T().conj() - M0.T().conj() @ M0
                if a.e.same(c) or a.e.same(-c):
                    return SBool(z3.Bool('normal'))
            if b == 0 and isinstance(a, RestSeq):
                M0, M1 = Expr.letter('M0'), Expr.letter('M1')
                c = M0 @ M1 - M1 @ M0
                if a.item.e.same(c) or a.item.e.same(-c):
                    return SBool(z3.Bool('commute'))
            raise Unsupported('comparison')

        def eigh(H, **k):
            if k or not H.e.same(Expr.letter('M0')):
                raise ContractError('diagonalizes {}'.format(H.e))
            if not implied(z3.Bool('Hermitian')):
                raise ContractError('eigh of a matrix that is not Hermitian')
            return Ev('eigh'), EvU('eigh')

        def eig(H, **k):
            if k or not H.e.same(Expr.letter('M0')):
                raise ContractError('diagonalizes {}'.format(H.e))
            if not implied(z3.Bool('normal')):
                raise ContractError('eig of a matrix that is not normal')
            return Ev('eig'), EvU('eig')

        class Pts:
            def __init__(self, ev):
                self.ev = ev
            T = property(lambda s: s)

        def array(x, *a, **k):
            if isinstance(x, list) and len(x) == 2 and all(isinstance(y, tuple) and y[0] in ('re', 'im') for y in x):
                if {y[0] for y in x} != {'re', 'im'} or x[0][1] is not x[1][1]:
                    raise ContractError('eigenvalues are compared by a part only')
                return Pts(x[0][1])
            if isinstance(x, RestSeq):
                return x
            raise Unsupported('array')

        class Dist:
            def __init__(self, ev):
                self.ev = ev

            def __lt__(self, t):
                if not isinstance(t, Tol):
                    raise Unsupported('tolerance')
                return ('close', self.ev)
            __le__ = __lt__

        def cdist(a, b):
            if a.ev is not b.ev:
                raise ContractError('distance of different lists')
            return Dist(a.ev)

        def cc(c, **k):
            return 'n', ('groups', c[1])

        def argsort(g, **k):
            if isinstance(g, tuple) and g[0] == 'groups':
                return Order(g[1])
            raise Unsupported('argsort')

        def qr(U, **k):
            if k or not isinstance(U, EvU) or U.order is None:
                raise ContractError('orthonormalization of ungrouped eigenvectors')
            return EvU(U.kind, U.order, True), 'r'

        def split_list(ev, tol=None):
            if not isinstance(ev, Ev) or not isinstance(tol, Tol):
                raise ContractError('blocks of {}'.format(ev))
            return Pieces((Bound('begin', ev), Bound('end', ev)), 'blocks')

        def eye(k, *a):
            return ('eye', k)
        np_ = Stub('numpy', allclose=npallclose, array=array, argsort=argsort, dot=lambda a, b: a @ b, eye=eye, identity=eye,
                   hstack=lambda x: x)
        la = Stub('scipy.linalg', eigh=eigh, eig=eig, qr=qr)
        mod = load('linalg', {'numpy': np_, 'scipy.linalg': la, 'scipy.spatial.distance': Stub('x', cdist=cdist),
                              'scipy.sparse.csgraph': Stub('x', connected_components=cc)},
                   dict(allclose=allclose, split_list=split_list))
        real = mod.ns['simult_diag']
        depth = [0]

        def rec(mats, tol=tol, checks=0):
            if depth[0]:
                S, U = Expr.letter('S'), Expr.letter('U')
                M1 = Expr.letter('M1')
                if not isinstance(mats, RestSeq) or not isinstance(tol, Tol):
                    raise ContractError('recursion on {}'.format(mats))
                want = S.T().conj() @ U.T().conj() @ M1 @ U @ S
                ob.check('the recursion gets the blocks of all the other matrices', mats.item.e.same(want),
                         mats.item.e, 'matrix normal form')
                ob.prove('the recursion is on fewer matrices', mats.n < m, E.ctx().pc)
                calls.append(mats)
                return Pieces(SMat(Expr.letter('P'), 'b', 'p'), 'pieces')
            depth[0] += 1
            try:
                return real(mats, tol=tol, checks=checks)
            finally:
                depth[0] -= 1
        mod.ns['simult_diag'] = rec
        first = LMat(Expr.letter('M0'), 'n', 'n', False)
        return rec(MSeq(first, LMat(Expr.letter('M1'), 'n', 'n', False), m), tol=tol), calls
    U, S, Pp = Expr.letter('U'), Expr.letter('S'), Expr.letter('P')
    for p in explore(run, assumptions=[n >= 1, m >= 1]):
        if p.kind == 'raise':
            ok = isinstance(p.value, ValueError)
            ob.check('errors are ValueErrors', ok, repr(p.value))
            ob.prove('errors only for matrices that are not normal or do not commute',
                     z3.Or(z3.Not(z3.Bool('normal')), z3.And(m > 1, z3.Not(z3.Bool('commute')))), p.pc)
            continue
        v, calls = p.value
        if isinstance(v, list) and len(v) == 1 and isinstance(v[0], tuple):
            ob.prove('the identity is only returned for 1x1 matrices', n == 1, p.pc)
            ob.check('identity of size 1', v[0] == ('eye', 1), v)
            continue
        if isinstance(v, Pieces):      # a single matrix
            ob.prove('eigenspaces of the first matrix suffice for a single one', m == 1, p.pc)
            ob.check('eigenspaces of a single matrix', v.item.e.same(U @ S), v.item.e, 'matrix normal form')
            continue
        if isinstance(v, list) and len(v) == 1 and isinstance(v[0], Each):
            x = v[0].item
            x = x.item if isinstance(x, Each) else x
            ok = isinstance(x, Pieces) and x.over == 'pieces'
            ob.check('all the common eigenspaces within every block', ok or None, x)
            if not ok:
                continue
            ob.check('common eigenspaces are eigenspaces within the blocks', x.item.e.same(U @ S @ Pp),
                     x.item.e, 'matrix normal form')
            ob.check('one recursion for every block', len(calls) == 1, len(calls))
            continue
        ob.check('result', None, repr(v))
    ob.check('paths', True)


# ---------------------------------------------------------------- degenerate intervals

class RealV:
    """A real number (z3)."""
    def __init__(self, x):
        self.x = x

    @staticmethod
    def of(o):
        if isinstance(o, RealV):
            return o.x
        if isinstance(o, (int, float)):
            return z3.RealVal(repr(o))
        raise Unsupported('number {!r}'.format(o))

    def __sub__(self, o):
        return RealV(self.x - RealV.of(o))

    def __rsub__(self, o):
        return RealV(RealV.of(o) - self.x)

    def __add__(self, o):
        return RealV(self.x + RealV.of(o))
    __radd__ = __add__

    def __truediv__(self, o):
        return RealV(self.x / RealV.of(o))

    def __mul__(self, o):
        return RealV(self.x * RealV.of(o))
    __rmul__ = __mul__

    def __neg__(self):
        return RealV(-self.x)

    def __abs__(self):
        return RealV(z3.If(self.x >= 0, self.x, -self.x))

    def __gt__(self, o):
        return SBool(self.x > RealV.of(o))

    def __ge__(self, o):
        return SBool(self.x >= RealV.of(o))

    def __lt__(self, o):
        return SBool(self.x < RealV.of(o))

    def __le__(self, o):
        return SBool(self.x <= RealV.of(o))

    def __eq__(self, o):
        return SBool(self.x == RealV.of(o))

    def __ne__(self, o):
        return SBool(self.x != RealV.of(o))
    __hash__ = None

    # numpy calls these on arrays of objects
    def conjugate(self):
        return self


@obligation(['C08', 'C10'], ['linalg.split_list'])
def degenerate_intervals(ob):
    """split_list: consecutive intervals that cover the list; neighbours are in the same interval iff they are close.
    Lists of up to four arbitrary real numbers, in any order; every tolerance (bounded in the length only)."""
    import numpy as np
    from .engine import explore
    for n in (1, 2, 3, 4):
        xs = [z3.Real('x%d' % i) for i in range(n)]
        tol = z3.Real('tol')

        def run():
            m = E.load('linalg', {'numpy': np, 'scipy': E.Stub('scipy'), 'tinyarray': E.Stub('tinyarray')})
            vals = np.empty(n, dtype=object)
            vals[:] = [RealV(v) for v in xs]
            r = m.ns['split_list'](vals, RealV(tol))
            return [tuple(int(i) for i in row) for row in r]
        for p in explore(run, assumptions=[tol > 0]):
            if p.kind == 'raise':
                ob.check('returns', False, repr(p.value))
                continue
            v = p.value
            ok = bool(v) and v[0][0] == 0 and v[-1][1] == n and all(a < b for a, b in v) and \
                all(v[i][1] == v[i + 1][0] for i in range(len(v) - 1))
            ob.check('consecutive intervals that cover the list', ok, v)
            if not ok:
                continue
            starts = {a for a, b in v}
            for i in range(1, n):
                far = z3.Or(xs[i] - xs[i - 1] > tol / n, xs[i - 1] - xs[i] > tol / n)
                ob.prove('neighbours are separated iff they differ by more than the tolerance', far if i in starts else z3.Not(far), p.pc)
