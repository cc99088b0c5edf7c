"""C16: the Bravais point group is exactly the set of isometries of the lattice."""
from .common import *
from .lat import *

P = 'C16'


def conv(rng, name):
    """Primitive vectors of a Bravais lattice in a standard orientation."""
    a, b, c = sorted(rng.uniform(0.6, 2.5, 3))
    if min(b - a, c - b) < 0.08:
        raise Skip()
    a, b, c = [(a, b, c)[i] for i in rng.permutation(3)]
    x, y = rng.uniform(0.1, 0.45, 2)
    if abs(x - y) < 0.05:
        raise Skip()
    h = np.sqrt(3) / 2
    T = {
        'chain': [[a]],
        'square': [[a, 0], [0, a]],
        'rectangular': [[a, 0], [0, b]],
        'centered rectangular': [[a / 2, b / 2], [a / 2, -b / 2]],
        'hexagonal2': [[a, 0], [a / 2, a * h]],
        'oblique': [[a, 0], [a * x, b]],
        'cubic': np.eye(3) * a,
        'fcc': np.array([[0, 1, 1], [1, 0, 1], [1, 1, 0]]) * a / 2,
        'bcc': np.array([[-1, 1, 1], [1, -1, 1], [1, 1, -1]]) * a / 2,
        'tetragonal': np.diag([a, a, c]),
        'bct': np.array([[-1, 1, 1], [1, -1, 1], [1, 1, -1]]) / 2 @ np.diag([a, a, c]),
        'orthorhombic': np.diag([a, b, c]),
        'fco': np.array([[0, 1, 1], [1, 0, 1], [1, 1, 0]]) / 2 @ np.diag([a, b, c]),
        'bco': np.array([[-1, 1, 1], [1, -1, 1], [1, 1, -1]]) / 2 @ np.diag([a, b, c]),
        'cco': np.array([[1, 1, 0], [1, -1, 0], [0, 0, 2]]) / 2 @ np.diag([a, b, c]),
        'hexagonal': [[a, 0, 0], [a / 2, a * h, 0], [0, 0, c]],
        'rhombohedral': np.array([[1, 0, 0], [-.5, h, 0], [-.5, -h, 0]]) * a + np.array([0, 0, c]),
        'monoclinic': [[a, 0, 0], [a * x, b, 0], [0, 0, c]],
        'ccm': None,
        'triclinic': [[a, 0, 0], [a * x, b, 0], [a * y, b * x, c]],
    }[name]
    if name == 'ccm':
        # base centered monoclinic, unique axis z: centring mixes z with one in-plane vector
        u, v, w = np.array([a, 0, 0]), np.array([a * x, b, 0]), np.array([0, 0, c])
        T = np.array([(u + w) / 2, (u - w) / 2, v])
    return np.array(T, float)


KINDS = {1: ['chain'], 2: ['square', 'rectangular', 'centered rectangular', 'hexagonal2', 'oblique'],
         3: ['cubic', 'fcc', 'bcc', 'tetragonal', 'bct', 'orthorhombic', 'fco', 'bco', 'cco', 'hexagonal',
             'rhombohedral', 'monoclinic', 'ccm', 'triclinic']}
SIZE = dict(chain=2, square=8, rectangular=4, hexagonal2=12, oblique=2, cubic=48, fcc=48, bcc=48, tetragonal=16,
            bct=16, orthorhombic=8, fco=8, bco=8, cco=8, hexagonal=24, rhombohedral=12, monoclinic=4, ccm=4,
            triclinic=2)
SIZE['centered rectangular'] = 4


def frame(B):
    """Coordinates in the orthonormal frame of the span: Gram-Schmidt of the rows in order."""
    if B.shape[0] == B.shape[1]:
        return B
    return la.cholesky(B @ B.T, lower=True)


def gap_ok(L):
    """No nearly-but-not-exactly symmetric lattices: the isometries found are stable under the tolerance."""
    return len(lattice_isometries(L, 1e-7)) == len(lattice_isometries(L, 2e-2))


def key(M):
    return tuple((np.round(np.asarray(M, float), 3) + 0.0).ravel())


def run(rng, note, B, want=None):
    d = len(B)
    tr, ph = rbool(rng, 0.3), rbool(rng, 0.3)
    s = la.svdvals(B)
    if s[-1] < 2e-2 * s[0]:
        raise Skip()
    L = frame(B)
    if not gap_ok(L):
        raise Skip()
    iso = lattice_isometries(L)
    if want is not None:
        require(len(iso) == want, 'harness: {} isometries', len(iso))
    arg = choice(rng, [np.array, lambda b: b.tolist()])(B)
    note('bravais_point_group', B.tolist(), tr, ph)
    before = snapshot(arg)
    group = qs.bravais_point_group(arg, tr=tr, ph=ph)
    require(snapshot(arg) == before, 'periods modified')
    az = [(False, False)] + ([(True, False)] if tr else []) + ([(True, True)] if ph else []) \
        + ([(False, True)] if tr and ph else [])
    require(len(group) == len(iso) * len(az), '{} elements returned, {} isometries x {}', len(group), len(iso), len(az))
    for g in group:
        require((g.conjugate, g.antisymmetry) in az, 'flags {} {} not requested', g.conjugate, g.antisymmetry)
        require(any(np.allclose(Rf(g), R, atol=1e-5) for R in iso), 'element is not an isometry of the lattice')
        require(g.U is None, 'unitary part of a lattice symmetry')
    seen = {(key(Rf(g)), g.conjugate, g.antisymmetry) for g in group}
    require(len(seen) == len(group), 'repeated elements')
    gens = qs.bravais_point_group(arg, tr=tr, ph=ph, generators=True)
    gen = {(Rf(g).tobytes(), g.conjugate, g.antisymmetry): g for g in gens}
    elems = {(key(np.eye(d)), False, False): np.eye(d)}
    todo = list(elems)
    while todo:
        x = todo.pop()
        for g in gens:
            M = elems[x] @ Rf(g)
            y = (key(M), x[1] ^ g.conjugate, x[2] ^ g.antisymmetry)
            if not any(y[1:] == z[1:] and np.allclose(M, elems[z], atol=1e-4) for z in elems):
                elems[y] = M
                todo.append(y)
                require(len(elems) <= 400, 'generators do not generate a finite group')
    require(len(elems) == len(group), 'generators generate {} elements of {}', len(elems), len(group))


def dress(rng, B):
    d = len(B)
    for _ in range(int(rng.integers(0, 4))):
        B = unimodular(rng, d) @ B
    if rbool(rng, 0.6):
        B = B * 10.0 ** rng.uniform(-1.5, 1.5)
    if rbool(rng, 0.7):
        B = B @ rorth(rng, d)
    if rbool(rng, 0.25):
        q = rorth(rng, d + int(rng.integers(1, 3)))[:d]
        B = B @ q
    return B


@case(P, 240, timeout=80)
def bravais(rng, note):
    d = int(choice(rng, [1, 2, 2, 3, 3, 3, 3, 3, 3, 3]))
    name = choice(rng, KINDS[d])
    note(name)
    B = conv(rng, name)
    if len(lattice_isometries(B)) != SIZE[name]:
        raise Skip()
    run(rng, note, dress(rng, B), SIZE[name])


@case(P, 60, timeout=80)
def units(rng, note):
    """The unit of length is arbitrary."""
    d = int(choice(rng, [1, 2, 2, 3, 3, 3]))
    name = choice(rng, KINDS[d])
    B = conv(rng, name)
    if len(lattice_isometries(B)) != SIZE[name]:
        raise Skip()
    B = dress(rng, B)
    iso = lattice_isometries(frame(B))
    unit = 10.0 ** rng.uniform(-12, 9)
    note(name, (B * unit).tolist())
    if not gap_ok(frame(B)):
        raise Skip()
    group = qs.bravais_point_group(B * unit)
    require(len(group) == len(iso), '{} elements returned, {} isometries', len(group), len(iso))
    for g in group:
        require(any(np.allclose(Rf(g), R, atol=1e-5) for R in iso), 'element is not an isometry of the lattice')


@case(P, 120, timeout=80)
def slightly_distorted(rng, note):
    """Lattices that are close to one of higher symmetry, but well outside of the tolerance."""
    d = int(choice(rng, [2, 2, 3, 3, 3]))
    name = choice(rng, KINDS[d])
    B = conv(rng, name)
    if len(lattice_isometries(B)) != SIZE[name]:
        raise Skip()
    eps = 10 ** rng.uniform(-3.2, -1.8)
    kind = choice(rng, ['diagonal', 'any', 'one'])
    D = rng.uniform(-1, 1, (d, d))
    if kind == 'diagonal':
        D = np.diag(np.diag(D))
    elif kind == 'one':
        D = np.zeros((d, d))
        D[tuple(rng.integers(0, d, 2))] = 1
    B = B @ (np.eye(d) + eps * D)
    iso = lattice_isometries(B, 1e-7)
    if len(iso) != len(lattice_isometries(B, 5e-4)):
        raise Skip()
    B = dress(rng, B)
    note(name, kind, eps, B.tolist())
    group = qs.bravais_point_group(B)
    require(len(group) == len(iso), '{} elements returned, {} isometries', len(group), len(iso))
    L = frame(B)
    want = lattice_isometries(L, 1e-7)
    for g in group:
        require(any(np.allclose(Rf(g), R, atol=2e-5) for R in want), 'element is not an isometry of the lattice')


@case(P, 160, timeout=80)
def special(rng, note):
    """Lattices with accidental equalities between lengths or angles."""
    d = int(choice(rng, [2, 3, 3, 3]))
    kind = choice(rng, ['rational', 'root', 'gram', 'gram'])
    if kind == 'rational':
        B = rng.integers(-2, 3, (d, d)).astype(float)
    elif kind == 'root':
        B = rng.choice([0, 0, 1, -1, .5, np.sqrt(3) / 2, 2, np.sqrt(2)], (d, d))
    else:
        # Gram matrix with equal lengths and angles from a small set
        l = rng.choice([1.0, 1.0, 1.0, np.sqrt(2), np.sqrt(3), 2.0], d)
        cs = rng.choice([0, 0.5, -0.5, 0.25, 1 / 3, -1 / 3, -0.25, 0.3], (d, d))
        G = np.outer(l, l) * (np.triu(cs, 1) + np.triu(cs, 1).T + np.eye(d))
        if la.eigvalsh(G)[0] < 0.05:
            raise Skip()
        B = la.cholesky(G, lower=True)
    if abs(la.det(B)) < 1e-3:
        raise Skip()
    note(kind)
    run(rng, note, dress(rng, B))


@case(P, 80, timeout=80)
def basis_independence(rng, note):
    """The result depends on the lattice only."""
    d = int(choice(rng, [2, 3]))
    B = conv(rng, choice(rng, KINDS[d]))
    if not gap_ok(B):
        raise Skip()
    M = np.eye(d)
    for _ in range(3):
        M = unimodular(rng, d) @ M
    note('same lattice, different bases', B.tolist(), M.tolist())
    g1 = qs.bravais_point_group(B)
    g2 = qs.bravais_point_group(M @ B)
    require(len(g1) == len(g2), 'groups of {} and {} elements', len(g1), len(g2))
    for g in g1:
        require(any(np.allclose(Rf(g), Rf(h), atol=1e-5) for h in g2), 'group depends on the basis')
    Q = rorth(rng, d)
    g3 = qs.bravais_point_group(B @ Q.T * 3.7)
    for g in g1:
        require(any(np.allclose(Q @ Rf(g) @ Q.T, Rf(h), atol=1e-5) for h in g3), 'group does not rotate with the lattice')
    require(len(g3) == len(g1), 'group depends on orientation or scale')


@case(P, 4)
def errors(rng, note):
    note('4D')
    expect_raises(lambda: qs.bravais_point_group(np.eye(4)), NotImplementedError, '4D lattice accepted')
