"""Independent reference solutions for symmetric families (used by C12, C13, C14, C15)."""
from .common import *


def herm_basis(n):
    out = []
    for i in range(n):
        m = np.zeros((n, n), complex); m[i, i] = 1; out.append(m)
        for j in range(i):
            m = np.zeros((n, n), complex); m[i, j] = m[j, i] = 1; out.append(m)
            m = np.zeros((n, n), complex); m[i, j] = 1j; m[j, i] = -1j; out.append(m)
    return out


def full_basis(n, m=None):
    m = n if m is None else m
    out = []
    for i in range(n):
        for j in range(m):
            for f in (1, 1j):
                x = np.zeros((n, m), complex); x[i, j] = f; out.append(x)
    return out


class Term:
    """Monomial prod k_i^p_i times a matrix."""
    def __init__(self, p, mat):
        self.p, self.mat = tuple(p), mat

    def f(self, k):
        r = 1.0
        for x, q in zip(k, self.p):
            r = r * x ** q
        return r

    def grad(self, k):
        out = []
        for i in range(len(self.p)):
            q = list(self.p)
            if q[i] == 0:
                out.append(0.0)
                continue
            c = q[i]; q[i] -= 1
            out.append(c * Term(q, 1).f(k))
        return np.array(out)

    def __call__(self, k):
        return self.f(k) * self.mat

    def deriv(self, k, v):
        return (np.dot(self.grad(k), v) if len(k) else 0) * self.mat


def defect(sym, term, k, pairing=None):
    """(g H - H)(k) for discrete, generator action for continuous symmetries; real-linear in the term."""
    if isinstance(sym, PGE):
        R = Rf(sym)
        kk = la.solve(R, k) if len(k) else k
        if sym.conjugate:
            kk = -kk
        H = term(kk)
        if sym.conjugate:
            H = H.conj()
        if sym.antisymmetry:
            H = -H
        return sym.U @ H @ sym.U.conj().T - term(k)
    H = term(k)
    out = 0 * H
    if sym.U is not None:
        out = out + 1j * (H @ sym.U - sym.U @ H)
    if sym.R is not None and len(k) and np.any(np.asarray(sym.R)):
        v = np.asarray(sym.R) @ k
        out = out + 1j * (term.deriv(k, v))
    return out


def solve_invariant(basis, conditions, points):
    """Real null space (coefficient rows) of all conditions(term, k) over the basis."""
    if not basis:
        return np.zeros((0, 0))
    cols = []
    for b in basis:
        c = [np.zeros(1)]
        for cond in conditions:
            for k in points:
                v = np.asarray(cond(b, k), complex).ravel()
                c += [v.real, v.imag]
        cols.append(np.concatenate(c))
    A = np.array(cols).T
    u, s, vh = la.svd(A)
    s = np.concatenate([s, np.zeros(len(vh) - len(s))])
    scale = max(1, s[0])
    if np.any((s > 1e-9 * scale) & (s < 1e-4 * scale)):
        raise Skip()
    return vh[s < 1e-6 * scale]


def values(basis, coeffs, points):
    rows = []
    T = np.array([np.concatenate([np.asarray(b(k), complex).ravel() for k in points]) for b in basis]) \
        if basis else np.zeros((0, 1))
    for c in coeffs:
        v = c @ T
        rows.append(np.concatenate([v.real, v.imag]))
    return np.array(rows) if rows else np.zeros((0, 1))


def model_values(family, momenta, points, shape):
    rows = []
    for m in family:
        v = np.concatenate([evm(m, dict(zip(momenta, k)), shape).ravel() for k in points])
        rows.append(np.concatenate([v.real, v.imag]))
    return np.array(rows) if rows else np.zeros((0, 1))


def require_family(family, momenta, basis, coeffs, points, shape, tol=1e-6):
    """family spans exactly the real span of coeffs @ basis, with linearly independent members."""
    ref = values(basis, coeffs, points)
    got = model_values(family, momenta, points, shape)
    require(len(family) == len(coeffs), '{} members returned, {} independent allowed terms exist',
            len(family), len(coeffs))
    if len(coeffs):
        require(span_rank(got, tol) == len(family), 'family members are linearly dependent')
        require(same_span(got, ref, tol), 'family does not span the allowed symmetric terms')


def rot2(t):
    return np.array([[np.cos(t), -np.sin(t)], [np.sin(t), np.cos(t)]])


def finite_R(rng, d, exact=None):
    """Finite-order orthogonal matrix in an accepted form, and its order."""
    exact = rbool(rng) if exact is None else exact
    if d == 0:
        return np.empty((0, 0)), 1
    if exact and rbool(rng, 0.6):
        m = signed_perm(rng, d)
    elif d == 1:
        m = np.array([[choice(rng, [1, -1])]])
    else:
        n = choice(rng, [3, 6, 4, 2] + ([] if exact else [5, 8]))
        if exact:
            c, s = sympy.cos(2 * sympy.pi / n), sympy.sin(2 * sympy.pi / n)
            sm = sympy.Matrix([[c, -s], [s, c]])
            if d == 3:
                sm = sympy.diag(sm, choice(rng, [1, -1]))
            order = n if n % 2 == 0 else (2 * n if d == 3 and sm[2, 2] == -1 else n)
            return sympy.ImmutableMatrix(sm), order
        m = rot2(2 * np.pi / n)
        if d == 3:
            m = la.block_diag(m, choice(rng, [1, -1]))
            q = rorth(rng, 3)
            m = q @ m @ q.T
    x, order = np.eye(d), 0
    while True:
        x = x @ np.asarray(m, float)
        order += 1
        if np.allclose(x, np.eye(d)) or order > 48:
            break
    return m, order


def rand_sym(rng, d, N, V, exact=None, kinds=None):
    """Random symmetry (discrete or continuous) with a unitary part built from the frame V."""
    kind = choice(rng, kinds or ['rot', 'rot', 'T', 'P', 'C', 'inv', 'cgg U', 'cgg R', 'generic', 'id', 'small'])
    diag = lambda vals: V @ np.diag(np.asarray(vals, complex)) @ V.conj().T
    eye = np.eye(d, dtype=int) if d else np.empty((0, 0))
    if kind == 'small':
        # close to the identity, but not the identity
        t = 10 ** -rng.uniform(1, 3)
        W = diag(np.exp(1j * t * rng.integers(-1, 2, N) / 2))
        if d < 2:
            return PGE(eye, False, False, W)
        a = np.zeros((d, d))
        i, j = rng.choice(d, 2, replace=False)
        a[i, j], a[j, i] = -t, t
        return PGE(la.expm(a), False, False, W)
    if kind == 'rot':
        R, n = finite_R(rng, d, exact)
        return PGE(R, False, False, diag(np.exp(2j * np.pi * rng.integers(0, n, N) / n)))
    if kind in ('T', 'P'):
        W = V @ V.T
        if N % 2 == 0 and rbool(rng):
            J = la.block_diag(*([np.array([[0, 1], [-1, 0]])] * (N // 2)))
            W = V @ J @ V.T
        R = eye if rbool(rng, 0.7) else finite_R(rng, d, exact)[0]
        return PGE(R, True, kind == 'P', W)
    if kind == 'C':
        return PGE(eye, False, True, diag(rng.choice([1, -1], N)))
    if kind == 'inv':
        return PGE(-eye, False, rbool(rng, 0.2), diag(rng.choice([1, -1], N)))
    if kind == 'id':
        return PGE(eye, False, False, np.eye(N))
    if kind == 'cgg U' or (kind == 'cgg R' and d < 2):
        return CGG(None if rbool(rng) or d == 0 else np.zeros((d, d)), diag(rng.integers(-1, 2, N)))
    if kind == 'cgg R':
        a = np.zeros((d, d))
        i, j = rng.choice(d, 2, replace=False)
        a[i, j], a[j, i] = -1, 1
        return CGG(1j * a, diag(rng.integers(-2, 3, N) / choice(rng, [1, 2])))
    return rand_pge(rng, d, N, kind='int' if exact else None)[0] if d else PGE(eye, rbool(rng), rbool(rng), runitary(rng, N))


def describe_sym(s):
    if isinstance(s, PGE):
        return describe_pge(s)
    return 'CGG(R={}, U={})'.format(None if s.R is None else fmt_mat(s.R), None if s.U is None else fmt_mat(s.U))


def rand_frame(rng, N):
    return choice(rng, [np.eye(N), np.eye(N), runitary(rng, N), runitary(rng, N),
                        la.block_diag(*([np.array([[1, 1], [1, -1]]) / np.sqrt(2)] * (N // 2)),
                                      *([np.eye(1)] * (N % 2)))])


def allowed_powers(rng, dim, maxdeg):
    """(argument, list of allowed power sets) for all_powers."""
    if rbool(rng, 0.5):
        return None, None
    arg, sets = [], []
    for _ in range(dim + int(rng.integers(0, 2))):
        if rbool(rng):
            p = int(rng.integers(0, maxdeg + 1))
            arg.append(p)
            sets.append(list(range(p + 1)))
        else:
            s = sorted(rng.choice(maxdeg + 1, int(rng.integers(1, maxdeg + 2)), replace=False).tolist())
            arg.append([int(x) for x in s])
            sets.append(arg[-1])
    return arg, sets[:dim]


def monomials(dim, degree, sets):
    rng_ = range(degree + 1)
    return [p for p in it.product(*([rng_] * dim if sets is None else sets)) if sum(p) == degree]


def momenta_arg(rng, dim, ints=False):
    """(argument value or None for the default, names)"""
    names = rand_momenta(rng, 3)
    extra = names if rbool(rng, 0.5) or dim == 0 else names[:dim]
    form = choice(rng, ['default', 'default', 'str', 'symbols', 'comm symbols'] + (['int'] if ints else []))
    if form == 'default':
        return None, ('k_x', 'k_y', 'k_z')[:dim]
    if form == 'int':
        perm = [int(i) for i in rng.permutation(3)]
        perm = perm if rbool(rng, 0.5) or dim == 0 else perm[:dim]
        return perm, tuple(('k_x', 'k_y', 'k_z')[i] for i in perm)[:dim]
    if form == 'str':
        return choice(rng, [list, tuple])(extra), names[:dim]
    if form == 'symbols':
        return choice(rng, [list, tuple])(sympy.Symbol(x) for x in extra), names[:dim]
    return tuple(sympy.Symbol(x, commutative=True) for x in extra), names[:dim]


def points(rng, dim, count):
    return [rng.uniform(-1.3, 1.3, dim) for _ in range(count)] if dim else [np.zeros(0)]
