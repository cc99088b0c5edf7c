"""C10: conserved quantities are exactly the commutant."""
from .common import *
from .symref import *

KEYS = ['1', 'k_x', 'k_y', 'm', 'k_x**2', 'k_x*k_y', 'a*k_x']


def as_model(fam, fmt='dense'):
    return Model({KEYS[i]: to_format(h, fmt) for i, h in enumerate(fam)}, momenta=('k_x', 'k_y'))


def check_Ps(Ps, fam, com):
    N = fam[0].shape[0]
    cols = np.hstack([P[a] for P in Ps for a in range(P.shape[0])])
    require(cols.shape == (N, N), 'block bases have shape {}', cols.shape)
    require_close(cols.conj().T @ cols, np.eye(N), 'block bases are not orthonormal and complete')
    require(sum(P.shape[0] ** 2 for P in Ps) == len(com),
            'multiplicities {} do not match commutant dimension {}', [P.shape[0] for P in Ps], len(com))
    for h in fam:
        for i, Pi in enumerate(Ps):
            for j, Pj in enumerate(Ps):
                for a in range(len(Pi)):
                    for b in range(len(Pj)):
                        blk = Pi[a].conj().T @ h @ Pj[b]
                        if i == j and a == b:
                            require_close(blk, Pi[0].conj().T @ h @ Pi[0],
                                          'repeated blocks are not identical')
                        else:
                            require_close(blk, np.zeros(blk.shape), 'family is not block diagonal')


def check_conserved(gens, fam, com):
    N = fam[0].shape[0]
    require(len(gens) == len(com) - 1, '{} conserved quantities, commutant has dimension {}',
            len(gens), len(com))
    Ls = []
    for g in gens:
        require(g.R is None, 'conserved quantity has a spatial part')
        L = np.asarray(g.U)
        require(L.shape == (N, N), 'shape of conserved quantity')
        require_close(L, L.conj().T, 'conserved quantity not Hermitian')
        require_close(np.trace(L), 0, 'conserved quantity not traceless')
        for h in fam:
            require_close(L @ h, h @ L, 'conserved quantity does not commute with the family')
        Ls.append(L.ravel())
    if Ls:
        require(span_rank(Ls, 1e-6) == len(Ls), 'conserved quantities are not linearly independent')
        full = np.vstack([np.array(Ls), np.eye(N).ravel()[None, :]])
        require(same_span(full, com.reshape(len(com), -1)), 'conserved quantities do not span the commutant')


def make(rng, note, nmax=7):
    blocks = algebra_sizes(rng, nmax)
    N = sum(d * n for d, n in blocks)
    kind = choice(rng, ['id', 'perm', 'unitary', 'unitary'])
    W = (np.eye(N) if kind == 'id' else np.eye(N)[rng.permutation(N)] if kind == 'perm'
         else runitary(rng, N))
    m = int(rng.integers(1, 5))
    fam = structured_family(rng, blocks, m, W)
    if rbool(rng, 0.3):
        fam = [np.eye(N, dtype=complex)] + fam[:6]
    note('blocks (multiplicity, size)', blocks, 'basis', kind, 'members', m, 'first', fmt_mat(fam[0]))
    return fam


def pauli_family(rng, note):
    s = [np.eye(2), np.array([[0, 1], [1, 0]]), np.array([[0, -1j], [1j, 0]]), np.diag([1, -1])]
    q = int(rng.integers(1, 4))
    fam = []
    for _ in range(int(rng.integers(1, 4))):
        h = np.eye(1)
        for _ in range(q):
            h = np.kron(h, choice(rng, s))
        fam.append(h.astype(complex))
    note('pauli family', [fmt_mat(h, 0) for h in fam])
    return fam


def spin_family(rng, note):
    """Integer-valued families with integer spectra: spin matrices and their direct sums."""
    def spin(s):
        n = int(round(2 * s + 1))
        m = s - np.arange(n)
        sp = np.diag(np.sqrt(s * (s + 1) - m[1:] * (m[1:] + 1)), 1)
        return [(sp + sp.T) / 2, (sp - sp.T) / 2j, np.diag(m).astype(complex)]
    reps = [choice(rng, [0, 0.5, 0.5, 1]) for _ in range(int(rng.integers(1, 4)))]
    parts = [spin(s) for s in reps]
    which = [i for i in range(3) if rbool(rng, 0.6)] or [2]
    fam = [la.block_diag(*[p[i] for p in parts]).astype(complex) for i in which]
    if fam[0].shape[0] < 2:
        raise Skip('one dimensional')
    note('spin family', reps, which)
    return fam


def any_family(rng, note):
    k = rng.random()
    return (make(rng, note) if k < 0.5 else pauli_family(rng, note) if k < 0.8
            else spin_family(rng, note))


@case('C10', 90)
def reduction(rng, note):
    fam = any_family(rng, note)
    com = commutant(fam)
    np_fam = np.array(fam) if rbool(rng) else list(fam)
    Ps = internal(qs, '_reduce_hamiltonian')(np_fam)
    check_Ps(Ps, fam, com)
    gens = qs.conserved_quantities(Ps, prettify=rbool(rng), num_digits=8)
    check_conserved(gens, fam, com)


@case('C10', 110)
def top_level(rng, note):
    fam = any_family(rng, note)
    com = commutant(fam)
    pret = rbool(rng)
    note('prettify', pret)
    model = as_model(fam)
    _, cont = qsymm.symmetries(model, candidates=[], prettify=pret)
    check_conserved(cont, fam, com)


@case('C10', 40)
def sparse(rng, note):
    fam = make(rng, note, 6)
    com = commutant(fam)
    pret = rbool(rng)
    alg = rbool(rng)
    fmt = choice(rng, ['csr', 'dense'])
    note('prettify', pret, 'sparse_linalg', alg, fmt)
    model = as_model(fam, fmt)
    try:
        with exact_eigsh():
            _, cont = qsymm.symmetries(model, candidates=[], prettify=pret, sparse_linalg=alg)
    except ValueError as e:
        if alg and 'dimensional null space' in str(e):
            raise Skip('documented limit of the sparse solver')
        raise
    check_conserved(cont, fam, com)


@case('C10', 25)
def bloch(rng, note):
    """Bloch families: the terms are not Hermitian, but the family is closed under adjoint."""
    blocks = algebra_sizes(rng, 6)
    N = sum(d * n for d, n in blocks)
    W = runitary(rng, N)
    note('bloch blocks', blocks)
    mats = []
    for i in range(2):
        T = la.block_diag(*[np.kron(np.eye(d), rmat(rng, n)) for d, n in blocks])
        mats.append(W @ T @ W.conj().T)
    on = W @ la.block_diag(*[np.kron(np.eye(d), rherm(rng, n)) for d, n in blocks]) @ W.conj().T
    one = sympy.Integer(1)
    model = BlochModel({BlochCoeff(np.array([0., 0.]), one): on,
                        BlochCoeff(np.array([1., 0.]), one): mats[0],
                        BlochCoeff(np.array([-1., 0.]), one): mats[0].conj().T,
                        BlochCoeff(np.array([0., 1.]), sympy.Symbol('t')): mats[1],
                        BlochCoeff(np.array([0., -1.]), sympy.Symbol('t')): mats[1].conj().T},
                       momenta=('k_x', 'k_y'))
    fam = list(model.values())
    com = commutant(fam)
    _, cont = qsymm.symmetries(model, candidates=[], prettify=rbool(rng))
    check_conserved(cont, fam, com)


@case('C10', 30)
def lie_algebra(rng, note):
    """Center / semisimple separation and su(d) adapted bases."""
    blocks = algebra_sizes(rng, 6)
    N = sum(d * n for d, n in blocks)
    W = runitary(rng, N)
    fam = structured_family(rng, blocks, 3, W)
    note('blocks', blocks)
    com = commutant(fam)
    if len(com) < 2:
        raise Skip('no conserved quantity')
    gens = ql.solve_mat_eqn(np.array(fam), hermitian=True, traceless=True)
    require(len(gens) == len(com) - 1, 'number of generators')
    c, s = qs.separate_lie_algebra(gens)
    require(len(c) == len(blocks) - 1, 'center has dimension {}, expected {}', len(c), len(blocks) - 1)
    require(len(c) + len(s) == len(gens), 'center and semisimple part do not add up')
    for x in c:
        for g in gens:
            require_close(x @ g, g @ x, 'center element does not commute')
    allg = np.concatenate([np.reshape(c, (len(c), N * N)), np.reshape(s, (len(s), N * N))])
    require(same_span(allg, np.reshape(gens, (len(gens), -1))), 'parts do not span the algebra')
    d, n = int(rng.integers(2, 4)), int(rng.integers(1, 4))
    V = runitary(rng, d * n)
    gg = [V @ np.kron(l, np.eye(n)) @ V.conj().T for l in
          [x for x in (rherm(rng, d) for _ in range(d * d - 1))]]
    gg = np.array([g - np.trace(g) / len(g) * np.eye(len(g)) for g in gg])
    P = qs.symmetry_adapted_sun(gg, check=rbool(rng))
    U = np.hstack(list(P))
    require_close(U.conj().T @ U, np.eye(d * n), 'adapted basis not unitary')
    for g in gg:
        t = U.conj().T @ g @ U
        b = t.reshape(d, n, d, n)
        l = np.einsum('ajbj->ab', b) / n
        require_close(t, np.kron(l, np.eye(n)), 'generators are not of the form L x 1 in the adapted basis')
