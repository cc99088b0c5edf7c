"""C14: generated lattice families are exactly the symmetric hopping Hamiltonians."""
from collections import OrderedDict
from .common import *
from .fam import *

P = 'C14'

SQ3 = sympy.sqrt(3)


def exact_gen(rng, d):
    if d == 1:
        return sympy.Matrix([[choice(rng, [1, -1])]])
    if d == 2:
        k = choice(rng, ['c3', 'c6', 'm', 'c4', 'id', 'inv', 'md'])
        h = sympy.Rational(1, 2)
        return sympy.Matrix({'c3': [[-h, -SQ3 / 2], [SQ3 / 2, -h]], 'c6': [[h, -SQ3 / 2], [SQ3 / 2, h]],
                             'm': [[-1, 0], [0, 1]], 'c4': [[0, -1], [1, 0]], 'id': [[1, 0], [0, 1]],
                             'inv': [[-1, 0], [0, -1]], 'md': [[0, 1], [1, 0]]}[k])
    m = signed_perm(rng, d)
    return sympy.Matrix(m.tolist())


SPIN = [np.eye(2), 1j * np.array([[0, 1], [1, 0]]), np.array([[0, 1], [-1, 0]]), np.diag([1, -1]), np.diag([1j, 1]),
        np.array([[1, 1], [1, -1]]) / np.sqrt(2), -np.eye(2)]


def onsite_unitary(rng, n):
    if n == 2 and rbool(rng, 0.8):
        return np.array(choice(rng, SPIN), complex)
    return np.diag(rng.choice([1, -1], n)).astype(complex) @ np.eye(n)[rng.permutation(n)]


def rand_perm(rng, norbs):
    """Permutation of sites with equal orbital count: {site: image}."""
    perm = {}
    for n in set(norbs.values()):
        s = [a for a in norbs if norbs[a] == n]
        t = [s[i] for i in rng.permutation(len(s))] if rbool(rng, 0.6) else s
        perm.update(dict(zip(s, t)))
    return perm


def slices(norbs):
    out, N = {}, 0
    for a, n in norbs.items():
        out[a] = slice(N, N + n)
        N += n
    return out, N


def ref_U(norbs, perm, onsite):
    sl, N = slices(norbs)
    U = np.zeros((N, N), complex)
    for a in norbs:
        U[sl[perm[a]], sl[a]] = onsite[a]
    return U


def group_size(gens, limit=30):
    from .c04 import raw, raw_mul, _rk
    elems = {}
    todo = [raw(g, True) for g in gens]
    gs = list(todo)
    while todo:
        x = todo.pop()
        k = _rk(*x, True)
        if k in elems:
            continue
        elems[k] = x
        if len(elems) > limit:
            return limit + 1
        todo += [raw_mul(x, y) for y in gs]
    return len(elems)


class Hop:
    """Matrix at block [a, b] times exp(i v k), plus Hermitian conjugate."""
    def __init__(self, M, v):
        self.M, self.v = M, np.asarray(v, float)

    def __call__(self, k):
        x = self.M * np.exp(1j * np.dot(self.v, k))
        return x + self.M.conj().T * np.exp(-1j * np.dot(self.v, k))


def vec_close(u, v):
    return np.allclose(u, v, atol=1e-7)


def closure(hops, gens, perms):
    """Orbits of undirected hoppings under the generators."""
    out = []

    def find(h):
        for o in out:
            if (o[0], o[1]) == (h[0], h[1]) and vec_close(o[2], h[2]):
                return True
            if (o[1], o[0]) == (h[0], h[1]) and vec_close(-o[2], h[2]):
                return True
        return False
    todo = list(hops)
    while todo:
        h = todo.pop()
        if find(h):
            continue
        out.append(h)
        if len(out) > 40:
            raise Skip()
        for g, perm in zip(gens, perms):
            todo.append((perm[h[0]], perm[h[1]], Rf(g) @ h[2]))
    return out


def build(rng, note, symmetrize, bloch, pretty, two=False):
    d = int(choice(rng, [1, 2, 2, 2, 3]))
    sites = choice(rng, [['A', 'B'], ['A', 'B', 'C'], ['A'], [0, 1]])
    norbs = OrderedDict((a, int(choice(rng, [1, 1, 2]))) for a in sites)
    if rbool(rng) and len(sites) < 3:
        norbs = OrderedDict((a, 2) for a in sites)
    if two:
        sites = sites[:2]
        norbs = OrderedDict((a, 2) for a in sites)
    sl, N = slices(norbs)
    if rbool(rng, 0.2):
        perm_sites = {}
    gens, perms = [], []
    floatR = bloch and rbool(rng)
    for _ in range(int(rng.integers(1, 3)) if two else int(rng.integers(0, 3))):
        R = exact_gen(rng, d)
        perm = rand_perm(rng, norbs)
        onsite = {a: onsite_unitary(rng, norbs[a]) for a in norbs}
        if rbool(rng, 0.3):
            onsite = {a: np.eye(norbs[a]) for a in norbs}
        anti, asym = rbool(rng, 0.25), rbool(rng, 0.2)
        Rarg = np.array(R.tolist(), float) if floatR else choice(rng, [sympy.ImmutableMatrix, sympy.Matrix])(R)
        if rbool(rng):
            same = len(set(norbs.values())) == 1 and rbool(rng)
            if same:
                onsite = {a: onsite[sites[0]] for a in norbs}
            g = qg.symmetry_from_permutation(Rarg, perm, choice(rng, [norbs, list(norbs.items())]),
                                             onsite[sites[0]] if same else onsite,
                                             antiunitary=anti, antisymmetry=asym)
        else:
            g = PGE(Rarg, anti, asym, ref_U(norbs, perm, onsite))
        gens.append(g)
        perms.append(perm)
    if group_size(gens) > (12 if bloch else 24):
        raise Skip()
    conserved = []
    for _ in range(2 if two else int(choice(rng, [0, 0, 0, 1, 2, 2]))):
        Q = np.zeros((N, N), complex)
        for a in norbs:
            n = norbs[a]
            Q[sl[a], sl[a]] = (np.diag(rng.integers(-1, 2, n)) if rbool(rng, 0.6)
                               else np.round(rherm(rng, n), 2))
        if not conserved and (two or rbool(rng, 0.4)):
            Q = np.eye(N) * 2.0     # compatible with everything
        conserved.append(CGG(choice(rng, [None, np.zeros((d, d))]), Q))
    hops = []
    for _ in range(int(rng.integers(1, 4))):
        a, b = choice(rng, sites), choice(rng, sites)
        kind = choice(rng, ['int', 'exact', 'half'] + (['float'] if bloch else []))
        if kind == 'int':
            v = [int(x) for x in rng.integers(-1, 2, d)]
        elif kind == 'float':
            v = [float(x) for x in np.round(rng.uniform(-1.5, 1.5, d), 3)]
        elif kind == 'half':
            v = [sympy.Rational(int(x), 2) for x in rng.integers(-2, 3, d)]
        else:
            v = [choice(rng, [sympy.Rational(1, 2), SQ3 / 2, sympy.Integer(0), sympy.Integer(1), -SQ3 / 3])
                 for _ in range(d)]
        if bloch:
            v = np.array([float(x) for x in v])
        elif rbool(rng) and kind == 'int':
            v = np.array(v)
        hops.append((a, b, v))
    onsites = rbool(rng, 0.7)
    note('d', d, 'norbs', dict(norbs), 'hoppings', hops, 'onsites', onsites, 'symmetrize', symmetrize,
         'bloch', bloch, 'pretty', pretty, [describe_sym(g) for g in gens + conserved], 'perms', perms)
    return d, norbs, sl, N, gens, perms, conserved, hops, onsites


def run(rng, note, symmetrize, bloch, pretty, two=False):
    d, norbs, sl, N, gens, perms, conserved, hops, onsites = build(rng, note, symmetrize, bloch, pretty, two)
    marg, names = momenta_arg(rng, d)
    kw = dict(symmetrize=symmetrize, prettify=pretty, onsites=onsites, bloch_model=bloch)
    if marg is not None:
        kw['momenta'] = marg
    num = [(a, b, np.array([float(x) for x in v])) for a, b, v in hops]
    if onsites:
        num += [(a, a, np.zeros(d)) for a in norbs]
    if symmetrize:
        orb = closure(num, gens, perms)
    else:
        orb = closure(num, [], [])
    basis = []
    for a, b, v in orb:
        n, m = norbs[a], norbs[b]
        if a == b and vec_close(v, 0 * v):
            mats = [x / 2 for x in herm_basis(n)]
        else:
            mats = full_basis(n, m)
        for x in mats:
            M = np.zeros((N, N), complex)
            M[sl[a], sl[b]] = x
            basis.append(Hop(M, v))
    if len(basis) > ((24 if pretty else 50) if bloch else 80):
        raise Skip()
    pts = [rng.uniform(-2, 2, d) for _ in range(2 * len(orb) + 6)]
    conds = [lambda t, k, s=s: defect(s, t, k) for s in gens + conserved]
    coeffs = solve_invariant(basis, conds, pts)
    syms = gens + conserved
    if not two:
        syms = [syms[i] for i in rng.permutation(len(syms))]
    fam = qh.bloch_family(hops, choice(rng, [list, tuple])(syms),
                          choice(rng, [lambda x: x, lambda x: list(x.items()), lambda x: tuple(x.items())])(norbs), **kw)
    for m in fam:
        require(isinstance(m, BlochModel) == bloch, 'type of the returned members')
        require(tuple(str(x) for x in m.momenta) == tuple(names), 'momenta of the family are {}', m.momenta)
        H = evm(m, dict(zip(names, pts[0])))
        require_close(H, H.conj().T, 'family member is Hermitian')
    require_family(fam, names, basis, coeffs, pts, (N, N), 1e-6)


@case(P, 60, timeout=100)
def symmetrized(rng, note):
    run(rng, note, True, False, rbool(rng))


@case(P, 80, timeout=100)
def symmetrized_bloch(rng, note):
    run(rng, note, True, True, rbool(rng))


@case(P, 25, timeout=100)
def two_conserved(rng, note):
    """A conserved quantity that the point group preserves, followed by one that it may not preserve."""
    run(rng, note, True, True, False, two=True)


@case(P, 60, timeout=100)
def constrained(rng, note):
    run(rng, note, False, False, rbool(rng))


@case(P, 80, timeout=100)
def constrained_bloch(rng, note):
    run(rng, note, False, True, rbool(rng))


@case(P, 60)
def permutation_symmetry(rng, note):
    """Site symmetries map each site to its image with the given onsite action."""
    d = int(rng.integers(1, 4))
    sites = choice(rng, [['A', 'B', 'C', 'D'], [2, 0, 1], ['x']])
    norbs = OrderedDict((a, int(rng.integers(1, 4))) for a in sites)
    if rbool(rng):
        norbs = OrderedDict((a, 2) for a in sites)
    perm = rand_perm(rng, norbs)
    mode = choice(rng, ['dict', 'none'] + (['array'] if len(set(norbs.values())) == 1 else []))
    onsite = {a: runitary(rng, norbs[a]) for a in norbs}
    if mode == 'none':
        onsite = {a: np.eye(norbs[a]) for a in norbs}
    if mode == 'array':
        onsite = {a: onsite[sites[0]] for a in norbs}
    R, f, kind = rand_R(rng, d)
    anti, asym = rbool(rng), rbool(rng)
    note(dict(norbs), perm, mode, [fmt_mat(o) for o in onsite.values()], R)
    arg = {'dict': onsite, 'none': None, 'array': onsite[sites[0]]}[mode]
    g = qg.symmetry_from_permutation(R, perm, choice(rng, [norbs, list(norbs.items()), tuple(norbs.items())]), arg,
                                     antiunitary=anti, antisymmetry=asym)
    require_close(g.U, ref_U(norbs, perm, onsite), 'unitary part maps sites to their images')
    require_close(Rf(g), f, 'spatial part')
    require((g.conjugate, g.antisymmetry) == (anti, asym), 'flags')


@case(P, 20)
def permutation_errors(rng, note):
    norbs = OrderedDict(A=1, B=2, C=1)
    R = np.eye(2)
    note('')
    expect_raises(lambda: qg.symmetry_from_permutation(R, {'A': 'B', 'B': 'A', 'C': 'C'}, norbs), ValueError,
                  'sites with different orbital numbers exchanged')
    expect_raises(lambda: qg.symmetry_from_permutation(R, {'A': 'A', 'B': 'B'}, norbs), ValueError,
                  'incomplete permutation accepted')
    expect_raises(lambda: qg.symmetry_from_permutation(R, {'A': 'A', 'B': 'B', 'C': 'A'}, norbs), ValueError,
                  'non-invertible permutation accepted')


@case(P, 20)
def family_errors(rng, note):
    norbs = OrderedDict(A=1)
    note('')
    L = 1j * np.array([[0, -1], [1, 0]])
    expect_raises(lambda: qh.bloch_family([('A', 'A', [1, 0])], [CGG(L, np.eye(1))], norbs), ValueError,
                  'continuous rotation accepted for a lattice')
    expect_raises(lambda: qh.bloch_family([('A', 'A', [1, 0])], [PGE(rot2(0.3), False, False, np.eye(1))], norbs),
                  ValueError, 'floating point rotation accepted for Model format')
    expect_raises(lambda: qh.bloch_family([('A', 'A', [1, 0])], [], {'A': 1}.items()), ValueError,
                  'norbs of unsupported type accepted')
