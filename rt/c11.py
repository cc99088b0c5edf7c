"""C11: continuous rotation symmetries are exactly those of the Hamiltonian."""
from .common import *
from .symref import *


def spin(s):
    n = int(round(2 * s + 1))
    m = s - np.arange(n)
    sp = np.diag(np.sqrt(s * (s + 1) - m[1:] * (m[1:] + 1)), 1)
    return [((sp + sp.T) / 2).astype(complex), (sp - sp.T) / 2j, np.diag(m).astype(complex)]


def antisyms(d):
    res = []
    for i in range(d):
        for j in range(i):
            A = np.zeros((d, d))
            A[i, j], A[j, i] = 1, -1
            res.append(A)
    return res


def value_and_gradient(model, env):
    """H and dH/dk_i from the terms (symbolic differentiation of the coefficients)."""
    H = evm(model, env)
    grads = []
    for k in model.momenta:
        g = np.zeros(model.shape, dtype=complex)
        for key, val in model.data.items():
            g = g + ev(sympy.diff(key, k), env) * dense(val)
        grads.append(g)
    return H, grads


def rotation_equation(model, rng, npts=8):
    """Null vectors (r, x) of sum_a r_a A_a-rotation + i[H, X], X = sum x_j B_j Hermitian."""
    d = len(model.momenta)
    N = model.shape[0]
    As = antisyms(d)
    names = model_names(model)
    # real basis of Hermitian matrices, without the identity direction
    basis = []
    for i in range(N):
        for j in range(i):
            b = np.zeros((N, N), complex)
            b[i, j] = b[j, i] = 1
            basis.append(b)
            b = np.zeros((N, N), complex)
            b[i, j], b[j, i] = 1j, -1j
            basis.append(b)
    for i in range(1, N):
        b = np.zeros((N, N), complex)
        b[0, 0], b[i, i] = 1, -1
        basis.append(b)
    rows = []
    for env in [rand_env(rng, names, -1.5, 1.5) for _ in range(npts)]:
        H, G = value_and_gradient(model, env)
        k = kvec(env, model.momenta)
        # R = i A: i sum_ij G_i (iA)_ij k_j = - sum_i G_i (A k)_i
        cols = [-sum(G[i] * (A @ k)[i] for i in range(d)) for A in As]
        cols += [1j * (H @ B - B @ H) for B in basis]
        rows.append(np.array([c.ravel() for c in cols]).T)
    M = np.vstack(rows)
    M = np.vstack([M.real, M.imag])
    ns = complex_nullspace(M, 1e-7, max(np.max(np.abs(dense(v))) for v in model.values()))
    return np.real(ns[:len(As)]), ns


def check_generators(gens, model, rng, spatial_ref, tol=1e-5):
    d = len(model.momenta)
    N = model.shape[0]
    As = antisyms(d)
    vecs, spat = [], []
    for g in gens:
        R = np.zeros((d, d)) if g.R is None else np.asarray(g.R)
        require(R.shape == (d, d), 'spatial part has shape {}', R.shape)
        require_close(R, R.conj().T, 'spatial part is not Hermitian')
        require_close(R, -R.T, 'spatial part is not antisymmetric')
        U = np.zeros((N, N)) if g.U is None else np.asarray(g.U)
        require_close(U, U.conj().T, 'unitary part is not Hermitian')
        for env in envs(rng, [model], 3):
            H, G = value_and_gradient(model, env)
            k = kvec(env, model.momenta)
            res = 1j * (H @ U - U @ H) + 1j * sum((G[i] * (R @ k)[i] for i in range(d)), np.zeros((N, N)))
            require_close(res, np.zeros((N, N)), 'generator does not annihilate the Hamiltonian', tol=tol)
        vecs.append(np.concatenate([R.ravel(), U.ravel()]))
        spat.append([np.imag(R[tuple(np.argwhere(A == 1)[0])]) for A in As])
    if vecs:
        v = np.array(vecs)
        v = np.hstack([v.real, v.imag])
        require(span_rank(v, 1e-6) == len(v), 'generators are not linearly independent')
    ref = spatial_ref.T if spatial_ref.size else np.zeros((0, len(As)))
    require(same_span(np.array(spat).reshape(-1, len(As)), ref, 1e-5),
            'spatial parts span {} dimensions, {} expected', span_rank(np.array(spat).reshape(-1, len(As)), 1e-5),
            span_rank(ref, 1e-5))


def symmetric_terms(rng, d, s, names, plane=True):
    """Terms invariant under rotations with spin s (full SO(d), or about one axis in 3D)."""
    k = [sympy.Symbol(x) for x in names]
    Sx, Sy, Sz = spin(s)
    one = np.eye(len(Sz), dtype=complex)
    out = []
    if d == 2:
        pool = [
            [(k[0], Sx), (k[1], Sy)],
            [(k[0], Sy), (k[1], -Sx)],
            [(k[0] ** 2 + k[1] ** 2, one)],
            [(k[0] ** 2 + k[1] ** 2, Sz)],
            [(sympy.Integer(1), Sz)],
            [(sympy.Symbol('m'), Sz @ Sz)],
            [(k[0] ** 2 - k[1] ** 2, Sx @ Sx - Sy @ Sy), (2 * k[0] * k[1], Sx @ Sy + Sy @ Sx)],
        ]
    else:
        full = [
            [(k[0], Sx), (k[1], Sy), (k[2], Sz)],
            [(k[0] ** 2 + k[1] ** 2 + k[2] ** 2, one)],
            [(sympy.Symbol('m'), one)],
            [(a * b, (M @ L + L @ M) / 2) for a, M in zip(k, (Sx, Sy, Sz)) for b, L in zip(k, (Sx, Sy, Sz))],
        ]
        axial = [
            [(k[2], Sz)], [(k[0], Sx), (k[1], Sy)], [(sympy.Integer(1), Sz)], [(k[2] ** 2, one)],
            [(k[0], Sy), (k[1], -Sx)], [(k[2], one)],
        ]
        pool = full if not plane else full + axial
    for _ in range(int(rng.integers(1, 4))):
        out += choice(rng, pool)
    return out


BREAK = {2: ['k0', 'k0*k1', 'k0**2', 'k1'], 3: ['k0', 'k0*k2', 'k1**2', 'k2']}


def rot_model(rng, note, fmt='dense'):
    d = choice(rng, [2, 2, 3])
    names = choice(rng, [('k_x', 'k_y', 'k_z'), ('k_z', 'k_x', 'k_y'), ('p', 'q', 'r')])[:d]
    nb = int(rng.integers(1, 3))
    data = []
    sizes = []
    kinds = []
    for _ in range(nb):
        s = choice(rng, [0, 0.5, 0.5, 1] if nb > 1 else [0, 0.5, 1, 1.5])
        terms = symmetric_terms(rng, d, s, names, plane=rbool(rng))
        # rotate the frame: the invariant axis of the block is not z in general
        mult = choice(rng, [1, 1, 2]) if s < 1 else 1
        n = int(round(2 * s + 1))
        V = runitary(rng, n) if rbool(rng) else np.eye(n)
        data.append([(f, np.kron(np.eye(mult), V @ m @ V.conj().T)) for f, m in terms])
        sizes.append(mult * n)
        kinds.append((s, mult))
    N = sum(sizes)
    broken = rbool(rng, 0.3)
    if broken:
        b = choice(rng, BREAK[d])
        f = sympy.sympify(b, locals={'k%d' % i: sympy.Symbol(x) for i, x in enumerate(names)})
        which = int(rng.integers(nb))
        data[which].append((f, np.kron(np.eye(kinds[which][1]), rherm(rng, sizes[which] // kinds[which][1]))))
    frame = None
    if d == 3 and rbool(rng, 0.4):
        frame = rorth(rng, 3)
    W = choice(rng, [np.eye(N), runitary(rng, N)])
    ks = [sympy.Symbol(x) for x in names]
    total = {}
    off = 0
    for terms, size in zip(data, sizes):
        for f, m in terms:
            if frame is not None:
                f = sympy.expand(f.subs({k: sum(float(frame[i, j]) * ks[j] for j in range(3))
                                         for i, k in enumerate(ks)}, simultaneous=True))
            big = np.zeros((N, N), complex)
            big[off:off + size, off:off + size] = m
            f = sympy.expand(f)
            for term in f.as_ordered_terms():
                c, rest = term.as_coeff_Mul()
                total[rest] = total.get(rest, 0) + complex(c) * (W @ big @ W.conj().T)
        off += size
    model = Model({k: to_format(v, 'dense') for k, v in total.items()}, momenta=names).eliminate_zeros()
    if not model.data or N > 7:
        raise Skip('zero or large')
    note('d', d, 'blocks', kinds, 'broken', broken, 'tilted', frame is not None, describe_model(model))
    return model


@case('C11', 80)
def rotations(rng, note):
    model = rot_model(rng, note)
    pret = rbool(rng)
    note('prettify', pret)
    ref, _ = rotation_equation(model, rng)
    gens = qs.continuous_symmetries(model, prettify=pret)
    check_generators(gens, model, rng, ref)


@case('C11', 60)
def top_level(rng, note):
    model = rot_model(rng, note)
    pret = rbool(rng)
    note('prettify', pret)
    ref, full = rotation_equation(model, rng)
    _, cont = qsymm.symmetries(model, candidates=[], continuous_rotations=True, prettify=pret)
    check_generators(list(cont), model, rng, ref)
    require(len(cont) == full.shape[1], '{} generators returned, the algebra has dimension {}',
            len(cont), full.shape[1])
    # conserved quantities come first
    kinds = [g.R is None or close(np.asarray(g.R), 0 * np.asarray(g.R)) for g in cont]
    require(kinds == sorted(kinds, reverse=True), 'conserved quantities are not listed first')
    only, _ = None, None
    _, cons = qsymm.symmetries(model, candidates=[], prettify=pret)
    require(len(cons) == sum(kinds), 'number of conserved quantities changes when rotations are requested')


@case('C11', 20)
def sparse(rng, note):
    model = rot_model(rng, note)
    if model.shape[0] > 5:
        raise Skip('large')
    alg = rbool(rng)
    pret = rbool(rng)
    sp = model.tocsr() if rbool(rng) else model
    note('sparse_linalg', alg, sp.format.__name__, pret)
    ref, _ = rotation_equation(model, rng)
    try:
        with exact_eigsh():
            _, cont = qsymm.symmetries(sp, candidates=[], continuous_rotations=True, prettify=pret,
                                       sparse_linalg=alg)
    except ValueError as e:
        if alg and 'dimensional null space' in str(e):
            raise Skip('documented limit of the sparse solver')
        raise
    check_generators(list(cont), model, rng, ref)


@case('C11', 12)
def low_dimension(rng, note):
    d = choice(rng, [0, 1])
    n = int(rng.integers(1, 4))
    model = Model({'k_x' if d else 'm': rherm(rng, n), '1': rherm(rng, n)}, momenta=('k_x',)[:d])
    note(describe_model(model))
    require(list(qs.continuous_symmetries(model)) == [], 'rotation generators below two dimensions')
    _, cont = qsymm.symmetries(model, candidates=[], continuous_rotations=True)
    require(all(g.R is None for g in cont), 'rotation generators below two dimensions')


@case('C11', 12)
def periodic(rng, note):
    d = choice(rng, [2, 3])
    model = rand_bloch_model(rng, ('k_x', 'k_y', 'k_z')[:d], int(rng.integers(1, 4)), herm=True)
    note(describe_model(model))
    require(list(qs.continuous_symmetries(model)) == [], 'rotation generators of a periodic model')
    _, cont = qsymm.symmetries(model, candidates=[], continuous_rotations=True)
    require(all(g.R is None for g in cont), 'rotation generators of a periodic model')
