"""C18: predefined symmetry operations have consistent spatial and spin actions."""
from fractions import Fraction
from .common import *
from .fam import rot2

P = 'C18'
SPINS = [0, 0.5, 1, 1.5, 2, 2.5, 3, 3.5, 4.5]


def rodrigues(n, theta):
    n = np.asarray(n, float) / la.norm(n)
    K = np.array([[0, -n[2], n[1]], [n[2], 0, -n[0]], [-n[1], n[0], 0]])
    return np.eye(3) + np.sin(theta) * K + (1 - np.cos(theta)) * K @ K


def ref_spin(s):
    """Textbook spin matrices, built from <m'|S_+|m> = sqrt(s(s+1) - m m')."""
    d = int(round(2 * s + 1))
    ms = [s - i for i in range(d)]
    Sp = np.zeros((d, d), complex)
    for i in range(d):
        for j in range(d):
            if abs(ms[i] - ms[j] - 1) < 1e-9:
                Sp[i, j] = np.sqrt(s * (s + 1) - ms[i] * ms[j])
    Sz = np.diag(ms).astype(complex)
    return np.array([(Sp + Sp.conj().T) / 2, (Sp - Sp.conj().T) / 2j, Sz])


def proper3(R):
    """Proper 3D rotation acting on axial vectors for a 2D or 3D orthogonal matrix."""
    R = np.asarray(R, float)
    if len(R) == 2:
        R = la.block_diag(R, 1)
    return R * la.det(R)


def require_spin_action(g, S, msg, R=None):
    """U^-1 S_i U = sum_j R_ij S_j (with - and conjugation for time reversal)."""
    R3 = proper3(Rf(g) if R is None else R)
    U = np.asarray(g.U)
    require_close(U @ U.conj().T, np.eye(len(U)), msg + ': unitary')
    RS = np.tensordot(R3, S, axes=(1, 0))
    for i in range(3):
        if g.conjugate:
            # antiunitary: (UK)^-1 S_i (UK) = conj(U^+ S_i U) = -R S
            lhs = np.conj(U.conj().T @ S[i] @ U)
            require_close(lhs, -RS[i], msg + ': spin reversed under time reversal')
        else:
            require_close(U.conj().T @ S[i] @ U, RS[i], msg + ': spin rotated with space')


def rand_spin(rng, allow=True):
    kind = choice(rng, ['num', 'num', 'arr', 'rot', 'sum'])
    s = choice(rng, SPINS)
    if kind == 'num':
        return s, ref_spin(s)
    S = ref_spin(choice(rng, [0.5, 1, 1.5]))
    if kind == 'rot':
        W = runitary(rng, S.shape[1])
        S = np.array([W @ x @ W.conj().T for x in S])
    if kind == 'sum':
        S = np.array([np.kron(x, np.eye(2)) + np.kron(np.eye(len(x)), y) for x, y in zip(S, ref_spin(0.5))])
    return choice(rng, [lambda x: x, list, tuple])(S), S


def tr_spin(rng):
    """Time reversal is exp(-i pi s_y): valid for matrices with S_x, S_z real and S_y imaginary."""
    s = choice(rng, SPINS)
    return s, ref_spin(s)


@case(P, 40)
def spin_matrices(rng, note):
    s = choice(rng, SPINS + [5, 6, 7.5])
    form = choice(rng, [float, lambda x: np.float64(x), lambda x: int(x) if x == int(x) else x])
    s = form(s)
    note('spin_matrices', repr(s))
    S = np.asarray(qg.spin_matrices(s))
    require_close(S, ref_spin(float(s)), 'spin matrices')
    S0 = np.asarray(qg.spin_matrices(s, include_0=True))
    require_close(S0[0], np.eye(S.shape[1]), 'S_0')
    require_close(S0[1:], S, 'S with include_0')
    bad = float(np.round(rng.uniform(0.05, 0.2), 3)) + s
    expect_raises(lambda: qg.spin_matrices(bad), Exception, 'fractional spin accepted')


@case(P, 20)
def orbital_matrices(rng, note):
    note('L_matrices')
    for l in (1, 2):
        L = np.asarray(qg.L_matrices(d=3, l=l))
        for i, j, k in [(0, 1, 2), (1, 2, 0), (2, 0, 1)]:
            require_close(L[i] @ L[j] - L[j] @ L[i], 1j * L[k], 'commutator l={}', l)
        require_close(sum(x @ x for x in L), l * (l + 1) * np.eye(2 * l + 1), 'total angular momentum')
        require_close(L, L.conj().transpose(0, 2, 1), 'Hermitian')
        require_close(L.real, 0 * L.real, 'imaginary')
    L2 = np.asarray(qg.L_matrices(d=2))
    require_close(L2, 1j * np.array([[[0, -1], [1, 0]]]), '2D generator')
    n = rng.standard_normal(3)
    t = la.norm(n)
    R = rodrigues(n, t)
    require_close(qg.spin_rotation(n, qg.L_matrices()), R, 'vector representation')
    # d orbitals rotate like functions: f_i(R^-1 r) = sum_j f_j(r) U_ji
    f = [lambda r: (r[0] ** 2 - r[1] ** 2) / 2, lambda r: (3 * r[2] ** 2 - r @ r) / (2 * np.sqrt(3)),
         lambda r: r[0] * r[1], lambda r: r[1] * r[2], lambda r: r[2] * r[0]]
    U = qg.spin_rotation(n, qg.L_matrices(d=3, l=2))
    for r in rng.standard_normal((5, 3)):
        require_close([fi(R.T @ r) for fi in f], [sum(f[j](r) * U[j, i] for j in range(5)) for i in range(5)],
                      'd orbitals')
    for a in [(2, 2), (1, 1), (3, 3), (4, 1)]:
        expect_raises(lambda: qg.L_matrices(*a), ValueError, 'unsupported representation accepted')


@case(P, 60)
def spin_rotation(rng, note):
    arg, S = rand_spin(rng)
    n = choice(rng, [rng.standard_normal(3), np.array([0, 0, 1.0]) * rng.uniform(-7, 7), np.zeros(3),
                     np.array([1, 1, 1]) * 2 * np.pi / 3 / np.sqrt(3), rng.standard_normal(3) * 4])
    note('spin_rotation', n, arg if np.isscalar(arg) else 'matrices')
    U = qg.spin_rotation(choice(rng, [np.array, list, tuple])(n), arg)
    t = la.norm(n)
    R = rodrigues(n, t) if t > 0 else np.eye(3)
    g = PGE(R, False, False, U)
    require_spin_action(g, S, 'spin_rotation')
    # sign: series of the exponential
    H = -1j * np.tensordot(n, S, axes=(0, 0))
    w, v = la.eigh(1j * H)
    require_close(U, v @ np.diag(np.exp(-1j * w)) @ v.conj().T, 'exp(-i n.s)')


@case(P, 20)
def roundint(rng, note):
    m = int(rng.integers(0, 4))
    ax = choice(rng, [[1, 0, 0], [0, 1, 0], [0, 0, 1], [0, 0, -1]])
    note('roundint', m, ax)
    n = np.pi / 2 * m * np.array(ax)
    U = qg.spin_rotation(n, qg.L_matrices(), roundint=True)
    require_close(np.array(U), np.round(rodrigues(ax, np.pi / 2 * m)), 'integer rotation')
    require(all(float(x) == int(x) for x in np.array(U).ravel()), 'integer entries')
    expect_raises(lambda: qg.spin_rotation(np.array(ax) * 0.4, qg.L_matrices(), roundint=True), Exception,
                  'non-integer rotation rounded')


ANGLES = [Fraction(a, b) for b in (1, 2, 3, 4, 6, 8, 12, 5) for a in range(-b, b + 1)]


@case(P, 120)
def rotation(rng, note):
    ang = choice(rng, ANGLES)
    ang = float(ang) if rbool(rng, 0.7) else float(np.round(rng.uniform(-1.5, 1.5), 4))
    arg, S = (None, None) if rbool(rng, 0.3) else rand_spin(rng)
    inv = False
    if rbool(rng, 0.3):
        g = qg.rotation(ang, spin=arg)
        R = rot2(2 * np.pi * ang)
        axis = None
    else:
        axis = choice(rng, [[1, 0, 0], [0, 0, 2], [1, 1, 1], [1, -1, 0], [0, 0, -1], list(rng.standard_normal(3)),
                            np.array([0.1, 0.2, 3]), (1, 2, 3)])
        inv = rbool(rng, 0.3)
        g = qg.rotation(ang, axis, inversion=inv, spin=arg)
        R = rodrigues(axis, 2 * np.pi * ang) * (-1 if inv else 1)
    note('rotation', ang, axis, inv, arg if arg is None or np.isscalar(arg) else 'matrices')
    require_close(Rf(g), R, 'spatial matrix')
    require(not g.conjugate and not g.antisymmetry, 'flags')
    if arg is None:
        require(g.U is None, 'no unitary requested')
        U = runitary(rng, 2)
        require_close(qg.rotation(ang, axis, U=U).U, U, 'given unitary')
    else:
        require_spin_action(g, S, 'rotation', R)
        n = 2 * np.pi * ang * (np.array([0, 0, 1.0]) if axis is None else np.array(axis) / la.norm(axis))
        w, v = la.eigh(np.tensordot(n, S, axes=(0, 0)))
        require_close(g.U, v @ np.diag(np.exp(-1j * w)) @ v.conj().T, 'U = exp(-i n.s)')
        expect_raises(lambda: qg.rotation(ang, axis, U=np.eye(2), spin=0.5), ValueError, 'U and spin accepted')


@case(P, 80)
def mirror(rng, note):
    d = int(rng.integers(1, 4))
    axis = rng.standard_normal(d) if rbool(rng) else rng.integers(-2, 3, d)
    if not np.any(axis):
        axis = np.ones(d, int)
    arg, S = (None, None) if rbool(rng, 0.3) or d == 1 else rand_spin(rng)
    form = choice(rng, [list, tuple, np.array])
    note('mirror', axis, arg if arg is None or np.isscalar(arg) else 'matrices')
    a = form(axis)
    g = qg.mirror(a, spin=arg)
    n = np.asarray(axis, float) / la.norm(axis)
    require_close(Rf(g), np.eye(d) - 2 * np.outer(n, n), 'spatial matrix')
    require(np.array_equal(np.asarray(a), axis), 'axis argument modified')
    require(not g.conjugate and not g.antisymmetry, 'flags')
    if arg is None:
        require(g.U is None, 'no unitary requested')
        U = runitary(rng, 2)
        require_close(qg.mirror(a, U=U).U, U, 'given unitary')
    else:
        require_spin_action(g, S, 'mirror')
        n3 = np.append(n, 0)[:3]
        w, v = la.eigh(np.pi * np.tensordot(n3, S, axes=(0, 0)))
        require_close(g.U, v @ np.diag(np.exp(-1j * w)) @ v.conj().T, 'U = exp(-i pi n.s)')
    expect_raises(lambda: qg.mirror(a, U=np.eye(2), spin=0.5), ValueError, 'U and spin accepted')


@case(P, 60)
def simple(rng, note):
    d = int(rng.integers(0, 4))
    U = None if rbool(rng, 0.3) else runitary(rng, int(rng.integers(1, 4)))
    note('simple', d, None if U is None else U.shape)
    table = [(qg.time_reversal, 1, True, False), (qg.particle_hole, 1, True, True), (qg.chiral, 1, False, True),
             (qg.inversion, -1, False, False)]
    for fn, sign, c, a in table:
        g = fn(d, U=U)
        require_close(Rf(g).reshape(d, d), sign * np.eye(d), fn.__name__ + ' spatial part')
        require((g.conjugate, g.antisymmetry) == (c, a), fn.__name__ + ' flags')
        require((g.U is None) == (U is None), fn.__name__ + ' unitary part')
        if U is not None:
            require_close(g.U, U, fn.__name__ + ' unitary part')
    s, S = tr_spin(rng)
    T = qg.time_reversal(max(d, 1), spin=s)
    require_close(Rf(T), np.eye(max(d, 1)), 'time reversal acts trivially in space')
    require(T.conjugate and not T.antisymmetry, 'flags')
    require_spin_action(T, S, 'time reversal', np.eye(3))
    require_close(T.U @ T.U.conj(), (-1) ** int(round(2 * s)) * np.eye(len(T.U)), 'T^2 = (-1)^(2s)')
    expect_raises(lambda: qg.time_reversal(2, U=np.eye(2), spin=0.5), ValueError, 'U and spin accepted')
    n = int(rng.integers(1, 4))
    e = qg.identity(d, n)
    require_close(Rf(e).reshape(d, d), np.eye(d), 'identity')
    require_close(e.U, np.eye(n), 'identity')
    require(not e.conjugate and not e.antisymmetry, 'identity flags')
    require(qg.identity(d).U is None, 'identity without unitary')


def isometries(vectors):
    """All orthogonal matrices mapping the finite vector set (full rank) to itself."""
    V = [np.asarray(v, float) for v in vectors]
    d = len(V[0])
    basis = []
    for v in V:
        if la.svdvals(np.array(basis + [v]))[-1] > 1e-6:
            basis.append(v)
        if len(basis) == d:
            break
    B = np.array(basis).T
    out = []
    for img in it.product(V, repeat=d):
        R = np.array(img).T @ la.inv(B)
        if not np.allclose(R @ R.T, np.eye(d), atol=1e-8):
            continue
        if all(any(np.allclose(R @ v, w, atol=1e-7) for w in V) for v in V):
            out.append(R)
    return out


def star(name):
    if name == 'square':
        return [[1, 0], [0, 1], [-1, 0], [0, -1]]
    if name == 'cubic':
        return [list(s * x) for x in np.eye(3) for s in (1, -1)]
    h = [[np.cos(np.pi / 3 * i), np.sin(np.pi / 3 * i)] for i in range(6)]
    if name == 'hex2':
        return h
    return [x + [0] for x in h] + [[0, 0, 1], [0, 0, -1]]


_ISO = {}


@case(P, 60, timeout=100)
def groups(rng, note):
    name = choice(rng, ['square', 'cubic', 'hex2', 'hex3'])
    tr, ph = rbool(rng), rbool(rng)
    sympy_R = rbool(rng)
    spin, S = None, None
    if not ph and rbool(rng, 0.7):
        if tr:
            spin, S = tr_spin(rng)
            if spin > 2:
                spin, S = 0.5, ref_spin(0.5)
        else:
            spin, S = rand_spin(rng)
    note('group', name, tr, ph, sympy_R, spin if spin is None or np.isscalar(spin) else 'matrices')
    kw = dict(tr=tr, ph=ph, spin=spin)
    fn = dict(square=qg.square, cubic=qg.cubic, hex2=lambda **k: qg.hexagonal(2, sympy_R=sympy_R, **k),
              hex3=lambda **k: qg.hexagonal(dim=3, sympy_R=sympy_R, **k))[name]
    if name not in _ISO:
        _ISO[name] = isometries(star(name))
    ref = _ISO[name]
    full = fn(**kw)
    gens = fn(generators=True, **kw)
    az = [(c, a) for c in (False, True) for a in (False, True)
          if (tr and ph) or (c, a) == (False, False) or (tr and (c, a) == (True, False))
          or (ph and (c, a) == (True, True))]
    require(len(full) == len(ref) * len(az), '{} elements, expected {}', len(full), len(ref) * len(az))
    for g in full:
        require((g.conjugate, g.antisymmetry) in az, 'unexpected flags')
        require(any(np.allclose(Rf(g), R, atol=1e-8) for R in ref), 'spatial part is not a symmetry of the star')
        if sympy_R and name[:3] == 'hex':
            pass
        if spin is None:
            require(g.U is None, 'no unitary requested')
        else:
            require_spin_action(g, S, 'group element')
    seen = {(tuple(np.round(Rf(g), 6).ravel() + 0.0), g.conjugate, g.antisymmetry) for g in full}
    require(len(seen) == len(full), 'repeated elements')
    # the generators are elements and generate all
    for g in gens:
        key = (tuple(np.round(Rf(g), 6).ravel() + 0.0), g.conjugate, g.antisymmetry)
        require(key in seen, 'generator is not an element')
        if spin is not None:
            require_spin_action(g, S, 'generator')
    mats = {k: k for k in [(tuple(np.round(np.eye(len(ref[0])), 6).ravel() + 0.0), False, False)]}
    todo = list(mats)
    gk = [(Rf(g), g.conjugate, g.antisymmetry) for g in gens]
    d = len(ref[0])
    while todo:
        x = todo.pop()
        for R, c, a in gk:
            y = (tuple(np.round(np.array(x[0]).reshape(d, d) @ R, 6).ravel() + 0.0), x[1] ^ c, x[2] ^ a)
            if y not in mats:
                mats[y] = y
                todo.append(y)
    require(set(mats) == seen, 'generators generate {} elements of {}', len(mats), len(seen))
    if spin is not None or True:
        if not ph:
            return
        expect_raises(lambda: fn(tr=tr, ph=True, spin=0.5), ValueError, 'spin accepted with particle-hole')


@case(P, 4)
def group_defaults(rng, note):
    note('defaults')
    require(len(qg.square()) == 32 and len(qg.cubic()) == 192 and len(qg.hexagonal()) == 48
            and len(qg.hexagonal(3)) == 96, 'default groups')
    require(any(qg.is_sympy_matrix(g.R) for g in qg.hexagonal(2, generators=True)), 'exact hexagonal rotations')
    require(not any(qg.is_sympy_matrix(g.R) for g in qg.hexagonal(2, sympy_R=False)), 'floating point rotations')
    for d in (0, 1, 4):
        expect_raises(lambda: qg.hexagonal(d), ValueError, 'unsupported dimension accepted')
    expect_raises(lambda: qg.rotation(1 / 4, [1, 0]), ValueError, '2D axis accepted for rotation')
