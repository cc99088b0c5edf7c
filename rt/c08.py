"""C08: linear solvers return all solutions and nothing else."""
from .common import *

P = 'C08'


def real_vec(M):
    v = np.asarray(dense(M)).ravel()
    return np.concatenate([v.real, v.imag])


def real_span(mats, complex_span=False):
    rows = [real_vec(m) for m in mats]
    if complex_span:
        rows += [real_vec(1j * np.asarray(dense(m))) for m in mats]
    return np.array(rows) if rows else np.zeros((0, 1))


@case(P, 60)
def bases(rng, note):
    n = int(rng.integers(1, 6))
    kw = dict(traceless=rbool(rng), antihermitian=rbool(rng), real=rbool(rng), sparse=rbool(rng))
    note(n, kw)
    B = list(ql.matrix_basis(n, **kw))
    for b in B:
        require(scipy.sparse.issparse(b) == kw['sparse'], 'storage type of basis element')
        b = dense(b)
        require(b.shape == (n, n), 'shape of basis element')
        s = -1 if kw['antihermitian'] else 1
        require_close(b.conj().T, s * b, 'Hermiticity of basis element')
        if kw['real']:
            require_close(b.imag, 0 * b.real, 'basis element is real')
        if kw['traceless']:
            require_close(np.trace(b), 0, 'basis element is traceless')
    if kw['real']:
        dim = n * (n - 1) // 2 if kw['antihermitian'] else n * (n + 1) // 2 - (1 if kw['traceless'] else 0)
    else:
        dim = n * n - (1 if kw['traceless'] else 0)
    require(len(B) == dim, 'number of basis elements {} instead of {}', len(B), dim)
    require(span_rank(real_span(B)) == dim, 'basis elements are linearly dependent')


def low_rank(rng, m, n, r, real, integer):
    if integer:
        A = rng.integers(-2, 3, (m, r)) @ rng.integers(-2, 3, (r, n)).astype(complex)
        if not real:
            A = A + 1j * (rng.integers(-2, 3, (m, r)) @ rng.integers(-2, 3, (r, n)))
        return A.real if real else A
    U = la.qr(rmat(rng, m, m, real))[0][:, :r]
    V = la.qr(rmat(rng, n, n, real))[0][:r]
    return U @ np.diag(rng.uniform(0.3, 3, r)) @ V


def check_ns(A, ns, full_dim=None, msg='null space', tol=1e-5, kmax=None):
    n = A.shape[1]
    s = la.svdvals(A) if A.size else np.zeros(0)
    if len(s) and np.any((s > 1e-9) & (s < 0.05)):
        raise Skip()
    dim = n - int(np.sum(s > 1e-3))
    ns = np.asarray(ns)
    require(ns.ndim == 2 and (ns.shape[1] == n), msg + ': shape {}', ns.shape)
    if kmax is not None:
        dim = min(dim, kmax)
    require(len(ns) == dim, msg + ': {} vectors, dimension is {}', len(ns), dim)
    require_close(ns @ ns.conj().T, np.eye(len(ns)), msg + ': rows are orthonormal', tol=tol)
    if len(ns):
        require_close(A @ ns.T, np.zeros((A.shape[0], len(ns))), msg + ': vectors are annihilated', tol=tol)


@case(P, 150)
def nullspace_dense(rng, note):
    m, n = int(rng.integers(1, 8)), int(rng.integers(1, 8))
    r = int(rng.integers(0, min(m, n) + 1))
    real, integer = rbool(rng), rbool(rng, 0.3)
    A = low_rank(rng, m, n, r, real, integer)
    note('A', A.tolist())
    mode = choice(rng, ['plain', 'complement', 'sparse input'])
    note(mode)
    if mode == 'plain':
        check_ns(A, ql.nullspace(A))
    elif mode == 'sparse input':
        check_ns(A, ql.nullspace(scipy.sparse.csr_matrix(A), sparse=False))
    else:
        ns, nsc = ql.nullspace(A, return_complement=True)
        check_ns(A, ns)
        full = np.vstack([ns, nsc])
        require_close(full @ full.conj().T, np.eye(n), 'null space and complement form an orthonormal basis')


@case(P, 120)
def nullspace_sparse(rng, note):
    n = int(rng.integers(4, 22))
    m = int(rng.integers(1, 25))
    r = int(rng.integers(0, min(m, n) + 1))
    real = rbool(rng)
    A = low_rank(rng, m, n, r, real, False)
    if 0 < np.linalg.matrix_rank(A) < 3 and A.shape[1] - np.linalg.matrix_rank(A) >= A.shape[1] - 2:
        raise Skip()       # documented limit of the sparse solver
    form = choice(rng, ['sparse', 'forced', 'coo', 'csc', 'stored zeros'])
    note('A', A.tolist(), form)
    with exact_eigsh():
        A, ns = run_sparse(A, form)
    check_ns(A, ns)


def run_sparse(A, form):
    if form == 'sparse':
        ns = ql.nullspace(scipy.sparse.csr_matrix(A))
    elif form == 'forced':
        ns = ql.nullspace(A, sparse=True)
    elif form == 'csc':
        ns = ql.nullspace(scipy.sparse.csc_matrix(A), sparse=True)
    elif form == 'coo':
        ns = ql.nullspace(scipy.sparse.coo_matrix(A))
    else:
        B = scipy.sparse.csr_matrix(A)
        if B.nnz:
            B.data[0] = 0
        A = B.toarray()
        if 0 < np.linalg.matrix_rank(A) < 3:
            raise Skip()
        ns = ql.nullspace(B)
    return A, ns


@case(P, 60)
def nullspace_scaled(rng, note):
    """Matrices of small or large entries with a tolerance to match."""
    n = int(rng.integers(5, 14))
    m = n + int(rng.integers(0, 4))
    r = int(rng.integers(3, n + 1))
    scale = float(10.0 ** rng.integers(-3, 3))
    A = low_rank(rng, m, n, r, rbool(rng), False)
    A = A / np.linalg.norm(A, 2) * scale
    sv = np.linalg.svd(A, compute_uv=False)
    if sv[r - 1] < 1e-2 * scale:
        raise Skip()
    sparse = rbool(rng)
    # the sparse solver compares the squares of the singular values
    atol = 1e-6 * scale ** 2 if sparse else 1e-6 * scale
    note('A', A.tolist(), 'sparse', sparse, 'atol', atol)
    with exact_eigsh():
        ns = ql.nullspace(A, atol=atol, sparse=sparse)
    require(len(ns) == n - r, 'dimension of the null space is {}, not {}', len(ns), n - r)
    require_close(A @ ns.T / scale, np.zeros((m, n - r)), 'rows are in the null space', tol=1e-5)


@case(P, 30)
def nullspace_kmax(rng, note):
    n = int(rng.integers(6, 16))
    r = int(rng.integers(3, n))
    A = low_rank(rng, n + 2, n, r, rbool(rng), False)
    k = int(rng.integers(1, n - 2))
    note('A', A.tolist(), k)
    with exact_eigsh():
        ns = ql.nullspace(scipy.sparse.csr_matrix(A), k_max=k)
    check_ns(A, ns, kmax=k)


def structured(rng, n, count):
    """Family with a nontrivial commutant."""
    kind = choice(rng, ['generic', 'blocks', 'kron', 'real', 'integer', 'diag'])
    if kind == 'generic' or n == 1:
        return [rmat(rng, n) for _ in range(count)], kind
    if kind == 'real':
        return [rmat(rng, n, real=True) for _ in range(count)], kind
    if kind == 'integer':
        return [nice_mat(rng, n) for _ in range(count)], kind
    if kind == 'diag':
        return [np.diag(rng.integers(-1, 2, n)).astype(complex) for _ in range(count)], kind
    if kind == 'kron' and n % 2 == 0:
        U = runitary(rng, n)
        return [U @ np.kron(rmat(rng, n // 2), np.eye(2)) @ U.conj().T for _ in range(count)], kind
    a = int(rng.integers(1, n))
    return [la.block_diag(rmat(rng, a), rmat(rng, n - a)) for _ in range(count)], kind


def ref_solutions(HL, HR, conj, hermitian, traceless):
    """Real orthonormal basis (rows) of {X} in the real coordinates (Re X, Im X)."""
    n = HL[0].shape[0]
    E = []
    for i in range(n * n):
        for f in (1, 1j):
            X = np.zeros(n * n, complex)
            X[i] = f
            E.append(X.reshape(n, n))
    cols = []
    for X in E:
        c = []
        for L, R, cj in zip(HL, HR, conj):
            c.append(real_vec(X @ L - R @ (X.conj() if cj else X)))
        if hermitian:
            c.append(real_vec(X - X.conj().T))
        if traceless:
            c.append(real_vec(np.trace(X).reshape(1, 1)))
        cols.append(np.concatenate(c))
    A = np.array(cols).T
    u, s, vh = la.svd(A)
    s = np.concatenate([s, np.zeros(len(vh) - len(s))])
    if np.any((s > 1e-8) & (s < 1e-2)):
        raise Skip()
    out = []
    for v in vh[s < 1e-5]:
        X = np.zeros((n, n), complex)
        for x, e in zip(v, E):
            X += x * e
        out.append(X)
    return out


@case(P, 260)
def matrix_equations(rng, note):
    n = int(rng.integers(1, 5))
    cnt = int(rng.integers(1, 4))
    HL, kind = structured(rng, n, cnt)
    rel = choice(rng, ['same', 'none', 'unitary', 'unitary conj', 'other', 'transpose'])
    if rel in ('same', 'none'):
        HR = HL
    elif rel == 'unitary':
        U = runitary(rng, n)
        HR = [U @ h @ U.conj().T for h in HL]
    elif rel == 'unitary conj':
        U = runitary(rng, n)
        HR = [U @ h @ U.T for h in HL]
    elif rel == 'transpose':
        HR = [h.T for h in HL]
    else:
        HR = structured(rng, n, cnt)[0]
    cj = choice(rng, [False, False, True, 'list'])
    conj = [rbool(rng) for _ in HL] if cj == 'list' else [cj] * cnt
    herm, tr = rbool(rng), rbool(rng)
    sparse = choice(rng, [False, False, None, True, 'input'])
    note(n, kind, rel, 'conj', conj, 'herm', herm, 'traceless', tr, 'sparse', sparse,
         'HL', [fmt_mat(h, 12) for h in HL], 'HR', [fmt_mat(h, 12) for h in HR])
    ref = ref_solutions(HL, HR, conj, herm, tr)
    args = [HL, None if rel == 'none' else HR]
    if rbool(rng, 0.3) and sparse != 'input':
        args = [None if a is None else np.array(a) for a in args]
    if sparse == 'input':
        args = [None if a is None else [scipy.sparse.csr_matrix(x) for x in a] for a in args]
    anti = any(conj) and not herm
    real_space = herm or anti
    N = n * n - (1 if tr else 0)
    N = 2 * N if anti else N
    dim = len(ref) if real_space else len(ref) // 2
    try:
        with exact_eigsh():
            X = ql.solve_mat_eqn(*args, hermitian=herm, traceless=tr,
                                 conjugate=conj if cj == 'list' else cj,
                                 sparse=None if sparse == 'input' else sparse)
    except ValueError:
        if sparse in (True, 'input') and (dim >= N - 2 or N < 4):
            raise Skip()
        raise
    X = list(X)
    for x in X:
        require(x.shape == (n, n), 'shape of solution')
        for L, R, c in zip(HL, HR, conj):
            require_close(x @ L, R @ (x.conj() if c else x), 'returned matrix solves the equations', tol=1e-4)
        if herm:
            require_close(x, x.conj().T, 'solution is Hermitian', tol=1e-5)
        if tr:
            require_close(np.trace(x), 0, 'solution is traceless', tol=1e-5)
    require(len(X) == dim, '{} solutions returned, solution space has dimension {}', len(X), dim)
    if real_space:
        require(span_rank(real_span(X), 1e-4) == dim, 'solutions are linearly dependent')
    else:
        require(span_rank(real_span(X, True), 1e-4) == 2 * dim, 'solutions are linearly dependent')


@case(P, 20)
def matrix_equation_errors(rng, note):
    n = int(rng.integers(2, 4))
    a, b = rmat(rng, n), rmat(rng, n + 1)
    expect_raises(lambda: ql.solve_mat_eqn([a], [b]), ValueError, 'different shapes accepted')
    expect_raises(lambda: ql.solve_mat_eqn([a, a], [a]), ValueError, 'different lengths accepted')
    expect_raises(lambda: ql.solve_mat_eqn([a, a], conjugate=[True]), ValueError, 'short conjugate list accepted')
    expect_raises(lambda: ql.solve_mat_eqn([rmat(rng, n, n + 1)]), ValueError, 'nonsquare matrices accepted')
    note(n)


@case(P, 150)
def simultaneous_diagonalization(rng, note):
    n = int(rng.integers(1, 8))
    cnt = int(rng.integers(1, 5))
    U = runitary(rng, n) if rbool(rng, 0.8) else np.eye(n)
    kind = choice(rng, ['herm', 'normal', 'unitary', 'mixed', 'real'])
    if kind == 'real':
        U = rorth(rng, n)
    evs = []
    for _ in range(cnt):
        k = kind if kind != 'mixed' else choice(rng, ['herm', 'normal', 'unitary'])
        if k in ('herm', 'real'):
            evs.append(rng.integers(-1, 3, n).astype(complex))
        elif k == 'normal':
            evs.append(rng.integers(-1, 2, n) + 1j * rng.integers(-1, 2, n))
        else:
            evs.append(np.exp(2j * np.pi * rng.integers(0, 6, n) / 6))
    mats = np.array([U @ np.diag(e) @ U.conj().T for e in evs])
    if kind == 'real' and rbool(rng):
        mats = mats.real
    checks = int(rng.integers(0, 3))
    note(kind, 'mats', mats.tolist(), 'checks', checks)
    Ps = ql.simult_diag(mats, checks=checks)
    W = np.hstack(Ps)
    require(W.shape == (n, n), 'eigenspaces have total dimension {} of {}', W.shape[1], n)
    require_close(W.conj().T @ W, np.eye(n), 'stacked eigenvectors are unitary')
    ev = []
    for Pi in Ps:
        tup = []
        for m in mats:
            D = Pi.conj().T @ m @ Pi
            l = np.trace(D) / len(D)
            require_close(m @ Pi, l * Pi, 'columns are common eigenvectors with one eigenvalue per matrix')
            tup.append(l)
        ev.append(tup)
    for i, j in it.combinations(range(len(ev)), 2):
        require(np.max(np.abs(np.array(ev[i]) - np.array(ev[j]))) > 0.3,
                'the same common eigenspace is returned in two pieces')


@case(P, 20)
def diagonalization_errors(rng, note):
    n = int(rng.integers(2, 5))
    a, b = rherm(rng, n), rherm(rng, n)
    note(a, b)
    expect_raises(lambda: ql.simult_diag(np.array([a, b])), ValueError, 'noncommuting matrices accepted')
    c = np.diag(np.arange(n)) + np.triu(np.ones((n, n)), 1)
    expect_raises(lambda: ql.simult_diag(np.array([c])), ValueError, 'nonnormal matrix accepted')


@case(P, 100)
def family_vectors_faithful(rng, note):
    d = int(rng.integers(1, 4))
    mom = rand_momenta(rng, d)
    n = int(rng.integers(1, 4))
    bloch = rbool(rng, 0.4)
    cnt = int(rng.integers(1, 5))
    m = n if rbool(rng) else int(rng.integers(1, 4))
    fam = [(rand_bloch_model(rng, mom, n, m) if bloch else rand_poly_model(rng, mom, n, m)) for _ in range(cnt)]
    note([describe_model(f) for f in fam])
    keys = []
    for f in fam:
        for k in f.data:
            if k not in keys:
                keys.append(k)
    keys = [keys[i] for i in rng.permutation(len(keys))]
    if rbool(rng, 0.3) and not bloch:
        keys.append(sympy.Symbol('unused'))

    def get(f, k):
        for kk, v in f.data.items():
            if kk == k:
                return dense(v)
        return np.zeros((n, m), complex)
    ref = np.array([np.concatenate([real_vec(get(f, k)) for k in keys]) for f in fam])
    require_close(ql.family_to_vectors(fam, all_keys=keys), ref, 'vectors list the coefficients in key order')
    V = ql.family_to_vectors(fam)
    require_close(V @ V.T, ref @ ref.T, 'vectors represent the coefficient inner products')
    expect_raises(lambda: ql.family_to_vectors(fam, all_keys=[sympy.Symbol('unused')]), AssertionError,
                  'incomplete key list accepted')


@case(P, 150)
def closeness(rng, note):
    shape = (int(rng.integers(1, 4)), int(rng.integers(1, 4)))
    a = nice_mat(rng, *shape) * float(choice(rng, [1, 1e3, 1e-3, 0]))
    eps = float(choice(rng, [0, 1e-12, 1e-9, 3e-6, 3e-5, 1e-3, 1]))
    p = np.zeros(shape, complex)
    p[int(rng.integers(shape[0])), int(rng.integers(shape[1]))] = 1
    b = a + eps * p * float(choice(rng, [1, 1e3, 1e-3]))
    fa, fb = choice(rng, [('dense', 'dense'), ('csr', 'csr'), ('lo', 'lo'), ('lo', 'dense'), ('dense', 'lo'),
                          ('list', 'dense'), ('csc', 'csr')])
    conv = lambda x, f: x.tolist() if f == 'list' else to_format(x, f)
    rtol, atol = float(choice(rng, [1e-5, 1e-2, 0])), float(choice(rng, [1e-8, 1e-2, 1e-12]))
    note(a.tolist(), b.tolist(), fa, fb, rtol, atol)
    diff = np.max(np.abs(a - b))
    bound = atol + rtol * max(np.max(np.abs(a)), np.max(np.abs(b)))
    if bound > 0 and abs(diff - bound) < 1e-6 * bound:
        raise Skip()
    got = ql.allclose(conv(a, fa), conv(b, fb), rtol=rtol, atol=atol)
    require(bool(got) == bool(diff <= bound), 'allclose is {} for difference {:.3g}, bound {:.3g}', got, diff, bound)


@case(P, 60)
def proportional(rng, note):
    n = int(rng.integers(1, 5))
    kind = choice(rng, ['id', 'zero', 'diag', 'offdiag', 'generic', 'firstzero'])
    c = complex(rng.standard_normal(), rng.standard_normal())
    A = c * np.eye(n, dtype=complex)
    if kind == 'zero':
        A = 0 * A
        c = 0
    elif kind == 'diag':
        A[-1, -1] *= 2
    elif kind == 'firstzero':
        A[0, 0] = 0
    elif kind == 'offdiag':
        A[0, -1] += 1
    elif kind == 'generic':
        A = rmat(rng, n)
    note(kind, A.tolist())
    ref = close(A, A[0, 0] * np.eye(n), 1e-9)
    prop, coeff = ql.prop_to_id(A)
    require(bool(prop) == ref, 'prop_to_id says {}', prop)
    if ref:
        require_close(coeff, A[0, 0], 'proportionality factor')


@case(P, 40)
def products_of_stacks(rng, note):
    n, a, c = int(rng.integers(1, 4)), int(rng.integers(1, 4)), int(rng.integers(1, 4))
    A, B, C = rmat(rng, c, n), np.array([rmat(rng, n) for _ in range(a)]), rmat(rng, n, c)
    note(A.tolist(), B.tolist(), C.tolist())
    require_close(ql.mtm(A, B, C), np.einsum('ij,ajk,kl->ail', A, B, C), 'mtm')
    x = rmat(rng, n)
    y = rmat(rng, n)
    require_close(ql.commutator(x, y), x @ y - y @ x, 'commutator')
    vals = np.sort(rng.integers(0, 4, int(rng.integers(1, 8)))).astype(float)
    blocks = ql.split_list(vals)
    require([tuple(b) for b in blocks] == [(int(np.sum(vals < v)), int(np.sum(vals <= v))) for v in sorted(set(vals))],
            'split_list blocks')
