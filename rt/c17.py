"""C17: lattice reduction and closest-vector routines are exact."""
from .common import *
from .lat import *

P = 'C17'


def rand_basis(rng, d=None, extra=True):
    d = int(rng.integers(1, 4)) if d is None else d
    kind = choice(rng, ['gen', 'int', 'ortho', 'hex', 'skew', 'long', 'special', 'aniso'])
    if kind == 'gen':
        B = rng.standard_normal((d, d))
    elif kind == 'int':
        B = rng.integers(-3, 4, (d, d)).astype(float)
    elif kind == 'ortho':
        B = np.diag(rng.choice([1.0, 1.0, 2.0, 0.7, 3.3], d))
    elif kind == 'hex':
        B = np.eye(d)
        if d > 1:
            B[1, :2] = [choice(rng, [0.5, -0.5]), np.sqrt(3) / 2]
    elif kind == 'special':
        B = {1: [[[2.0]]], 2: [[[1, 1], [1, -1]], [[1, 0], [0.5, 0.5]]],
             3: [[[0, 1, 1], [1, 0, 1], [1, 1, 0]], [[-1, 1, 1], [1, -1, 1], [1, 1, -1]]]}[d]
        B = np.array(choice(rng, B), float)
    elif kind == 'aniso':
        B = np.diag(10.0 ** rng.uniform(-1, 1, d)) + 0.05 * rng.standard_normal((d, d))
    else:
        B = rng.standard_normal((d, d))
    if kind in ('skew', 'long') or rbool(rng, 0.4):
        for _ in range(int(rng.integers(1, 5))):
            B = unimodular(rng, d) @ B
    if rbool(rng, 0.3):
        B = B * 10.0 ** rng.uniform(-2, 2)
    if extra and rbool(rng, 0.3):
        q = rorth(rng, d + int(rng.integers(1, 3)))[:d]
        B = B @ q
    s = la.svdvals(B)
    if s[-1] <= 1e-3 * s[0]:
        raise Skip()
    return B


def integer(x):
    return np.issubdtype(np.asarray(x).dtype, np.integer)


@case(P, 500)
def lll(rng, note):
    d = int(rng.integers(1, 6))
    B = rand_basis(rng, d) if d <= 3 else unimodular(rng, d) @ unimodular(rng, d) @ (
        rng.standard_normal((d, d)) + 3 * np.eye(d))
    if la.svdvals(B)[-1] < 1e-3 * la.svdvals(B)[0]:
        raise Skip()
    c = float(choice(rng, [1.34, 1.34, 1.511, 2.037, 5.073]))
    arg = choice(rng, [np.array, list, lambda b: [list(r) for r in b], lambda b: np.asfortranarray(b)])(B)
    note('lll', B.tolist(), c)
    before = snapshot(arg)
    V, C = qlll.lll(arg, c)
    require(snapshot(arg) == before, 'basis modified')
    C = np.asarray(C)
    require(integer(C), 'coefficients are not integers')
    require(C.shape == (d, d), 'shape of the coefficients')
    require(abs(abs(la.det(C.astype(float))) - 1) < 1e-6, 'coefficients are not unimodular')
    require_close(B.T @ C, V.T, 'reduced basis is not the stated combination of the basis', tol=1e-6)
    # Gram-Schmidt norms
    q, r = la.qr(V.T, mode='economic')
    n = np.diag(r) ** 2
    require(np.all(n[:-1] < c * n[1:] * (1 + 1e-9)), 'reduction condition violated: {}', n)
    require(bool(qlll.is_c_reduced(V, c)), 'is_c_reduced rejects the reduced basis')
    g = np.asarray(qlll.gs(V))
    gg = g @ g.T
    require_close(gg / np.max(gg), np.diag(n) / np.max(gg), 'Gram-Schmidt vectors are orthogonal')


@case(P, 60)
def reducedness(rng, note):
    d = int(rng.integers(2, 5))
    V = rng.standard_normal((d, d))
    c = float(rng.uniform(1.34, 4))
    n = np.diag(la.qr(V.T)[1]) ** 2
    ratio = n[:-1] / n[1:]
    if np.any(np.abs(ratio - c) < 1e-6 * c):
        raise Skip()
    note('is_c_reduced', V.tolist(), c)
    require(bool(qlll.is_c_reduced(V, c)) == bool(np.all(ratio < c)), 'is_c_reduced is wrong')
    bad = [np.ones(3), np.ones((3, 2))]
    for b in bad:
        expect_raises(lambda: qlll.lll(b), ValueError, 'invalid basis accepted')
    expect_raises(lambda: qlll.cvp([0.0, 1], np.ones(2)), ValueError, 'invalid basis accepted')
    expect_raises(lambda: qlll.voronoi(np.ones(2)), ValueError, 'invalid basis accepted')


def rand_vec(rng, B):
    d = len(B)
    kind = choice(rng, ['zero', 'half', 'gen', 'lat', 'third', 'off', 'far'])
    c = {'zero': np.zeros(d), 'half': rng.integers(0, 2, d) / 2, 'gen': rng.uniform(-2, 2, d),
         'lat': rng.integers(-3, 4, d).astype(float), 'third': rng.integers(-3, 4, d) / 3,
         'off': rng.uniform(-1, 1, d), 'far': rng.uniform(-30, 30, d)}[kind]
    v = c @ B
    if kind == 'off':
        v = v + rng.standard_normal(B.shape[1]) * 0.5
    return v


def project(B, v):
    return la.lstsq(B.T, v)[0] @ B


def costly(B, n=1):
    """The search box of cvp grows with the ratio of the longest and the shortest direction of the cell."""
    half = 0.5 * np.sqrt(np.sum(np.square(B))) * n ** (1 / len(B))
    return (2 * half * np.max(dual_norms(B)) + 3) ** len(B) > 3e5


@case(P, 500)
def cvp(rng, note):
    B = rand_basis(rng)
    v = rand_vec(rng, B)
    n = int(choice(rng, [1, 1, 2, 3, 4, 6, 9, 13]))
    red = rbool(rng, 0.6)
    if red:
        B = qlll.lll(B)[0]
    if np.prod(dual_norms(B)) * np.prod(la.svdvals(B)) > 30 or costly(B, n):
        raise Skip()
    note('cvp', B.tolist(), v.tolist(), n)
    got = np.asarray(qlll.cvp(choice(rng, [np.array, list])(v), choice(rng, [np.array, lambda b: b.tolist()])(B), n=n))
    require(integer(got) and got.shape == (n, len(B)), 'shape or type of the result')
    p = project(B, v)
    dist = la.norm(got @ B - p, axis=1)
    require(np.all(np.diff(dist) > -1e-9 * max(1, dist[-1])), 'points are not ordered by distance')
    require(len({tuple(x) for x in got}) == n, 'repeated points')
    ref, rd = points_within(B, p, dist[-1] + 1e-9)
    closer = np.sum(rd < dist[-1] * (1 - 1e-8) - 1e-9)
    inside = np.sum(dist < dist[-1] * (1 - 1e-8) - 1e-9)
    require(closer == inside, 'there are {} lattice points closer than the last one returned, {} of them returned',
            closer, inside)


@case(P, 500)
def cvp_groups(rng, note):
    B = rand_basis(rng)
    v = rand_vec(rng, B)
    n = int(choice(rng, [1, 1, 2, 3, 4, 5]))
    if rbool(rng, 0.6):
        B = qlll.lll(B)[0]
    if np.prod(dual_norms(B)) * np.prod(la.svdvals(B)) > 30 or costly(B, n):
        raise Skip()
    rtol = float(choice(rng, [1e-9, 1e-6, 1e-4]))
    note('cvp group_by_length', B.tolist(), v.tolist(), n, rtol)
    got = np.asarray(qlll.cvp(v, B, n=n, group_by_length=True, rtol=rtol))
    p = project(B, v)
    dist = la.norm(got @ B - p, axis=1)
    rad = 0.5 / np.max(dual_norms(B))
    ref, rd = points_within(B, p, dist.max() * (1 + 1e-6) + 3 * rtol * rad + 1e-9)
    rd = np.sort(rd)
    gaps = np.diff(rd)
    if np.any((gaps > 1e-2 * rtol * rad) & (gaps < 100 * rtol * rad)):
        raise Skip()
    groups = np.split(rd, np.where(gaps > rtol * rad)[0] + 1)
    # groups that are complete within the enumerated range
    full = [g for g in groups if g[-1] <= dist.max() + 1e-9 + rtol * rad]
    require(len(full) == n, '{} distinct distances returned, {} requested', len(full), n)
    require(len(got) == sum(len(g) for g in full), '{} points returned, {} within the {} smallest distances',
            len(got), sum(len(g) for g in full), n)
    require(len({tuple(x) for x in got}) == len(got), 'repeated points')


@case(P, 400)
def voronoi(rng, note):
    B = rand_basis(rng)
    if rbool(rng, 0.8):
        B = qlll.lll(B)[0]
    if np.prod(dual_norms(B)) * np.prod(la.svdvals(B)) > 15 or costly(B):
        raise Skip()
    d = len(B)
    rel, near = coset_relevant(B)
    if near:
        raise Skip()
    note('voronoi', B.tolist())
    full = np.asarray(qlll.voronoi(B if rbool(rng) else B.tolist()))
    red = np.asarray(qlll.voronoi(B.tolist() if rbool(rng) else B, reduced=True))
    for name, V in (('full', full), ('reduced', red)):
        require(integer(V) and V.ndim == 2 and V.shape[1] == d and len(V) % 2 == 0, name + ' shape or type')
        h = len(V) // 2
        require(np.array_equal(V[:h], -V[h:]), name + ' vectors do not come in opposite pairs')
        require(len({tuple(x) for x in V}) == len(V), name + ' vectors repeat')
    require(len(full) == 2 * (2 ** d - 1), '{} vectors returned', len(full))
    fs, rs = {tuple(x) for x in full}, {tuple(x) for x in red}
    require(set(rel) <= fs, 'a vector bounding the Voronoi cell is missing')
    require(rs == set(rel), 'minimal set has {} vectors, {} bound the Voronoi cell', len(rs), len(rel))
