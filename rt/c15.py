"""C15: family manipulations preserve the span; symmetry checks are exact."""
from .common import *
from .fam import *

P = 'C15'


def keys_for(rng, bloch, names, n=3):
    out = []
    if bloch:
        hops = []
        while len(hops) < n:
            v = rand_hop(rng, len(names), choice(rng, ['int', 'half', 'f']))
            if not any(np.allclose(v, w, atol=0.1) for w in hops):
                hops.append(v)
        for v in hops:
            out.append(BlochCoeff(v, sympy.Symbol('a') if rbool(rng, 0.3) else sympy.Integer(1)))
        return out
    ks = [sympy.Symbol(x) for x in names]
    pool = [sympy.Integer(1)] + ks + [a * b for a in ks for b in ks] + [sympy.Symbol('m_1') * k for k in ks]
    pool = list(dict.fromkeys(pool))
    return [pool[i] for i in rng.permutation(len(pool))[:n]]


class Fam:
    """Family given by coefficient arrays over fixed keys; the vectors are the reference."""
    def __init__(self, keys, names, bloch, shape):
        self.keys, self.names, self.bloch, self.shape = keys, names, bloch, shape
        self.mult = 2 * int(np.prod(shape))

    def dim(self):
        return len(self.keys) * self.mult

    def model(self, vec):
        n = int(np.prod(self.shape))
        d = {}
        for i, k in enumerate(self.keys):
            v = vec[i * 2 * n:(i + 1) * 2 * n]
            m = (v[:n] + 1j * v[n:]).reshape(self.shape)
            if np.any(m):
                d[k] = m
        return (BlochModel if self.bloch else Model)(d, momenta=self.names, shape=self.shape, format=np.ndarray)

    def vec(self, model):
        out = []
        data = dict(model.data)
        for k in self.keys:
            hit = [q for q in data if q == k]
            m = dense(data.pop(hit[0])) if hit else np.zeros(self.shape)
            m = np.broadcast_to(m, self.shape).ravel()
            out += [m.real, m.imag]
        require(all(np.allclose(dense(v), 0, atol=1e-7) for v in data.values()), 'foreign terms {} in result',
                list(data))
        return np.concatenate(out)


def setup(rng):
    d = int(rng.integers(1, 4))
    bloch = rbool(rng, 0.4)
    names = rand_momenta(rng, d)
    n = int(rng.integers(1, 4))
    shape = (n, n) if rbool(rng, 0.7) else (n, int(rng.integers(1, 4)))
    keys = keys_for(rng, bloch, names, int(rng.integers(1, 4)) if d > 1 else 2)
    return Fam(keys, names, bloch, shape)


def cont(rng, fam, r, style):
    D = fam.dim()
    if style == 'int':
        return rng.integers(-2, 3, (r, D)) * (rng.random((r, D)) < 0.6) * 1.0
    if style == 'unit':
        return np.eye(D)[rng.permutation(D)[:r]] * rng.choice([1.0, -2.0, 0.5], (r, 1))
    if style == 'tiny':
        return rng.standard_normal((r, D)) * 1e-2
    return np.round(rng.standard_normal((r, D)), 3)


def well(V, lo=2e-2):
    """Rank of V, requiring a clear numerical gap."""
    if V.size == 0:
        return 0
    s = la.svdvals(V)
    sc = max(s[0], 1e-300)
    if np.any((s > 1e-9 * sc) & (s < lo * sc)):
        raise Skip()
    return int(np.sum(s > 1e-9 * sc))


def rowspan_eq(A, B, tol):
    """Row spaces coincide up to tol in angle."""
    def orth(X):
        u, s, vh = la.svd(X, full_matrices=False)
        return vh[s > 1e-7 * max(s[0], 1e-300)] if len(X) and np.any(X) else np.zeros((0, X.shape[1]))
    a, b = orth(A), orth(B)
    if len(a) != len(b):
        return False
    return len(a) == 0 or la.norm(a - a @ b.T @ b) < tol


@case(P, 150)
def pretty(rng, note):
    fam = setup(rng)
    r = int(rng.integers(1, min(6, fam.dim()) + 1))
    style = choice(rng, ['int', 'unit', 'float', 'tiny', 'close'])
    V = cont(rng, fam, r, 'int' if style == 'close' else style)
    nd = int(rng.integers(6, 11))
    if style == 'close':
        # a member differs only little from another one
        V = np.vstack([V, V[0]])
        V[-1, int(rng.integers(fam.dim()))] += choice(rng, [4e-3, -2e-3])
        r += 1
    if well(V, 1e-4 if style == 'close' else 2e-2) < r:
        raise Skip()
    models = [fam.model(v) for v in V]
    note('make_basis_pretty', nd, fam.keys, fam.shape, np.round(V, 3).tolist())
    before = snapshot(models)
    out = qh.make_basis_pretty(models, num_digits=nd)
    W = np.array([fam.vec(m) for m in out])
    require(len(out) == r, '{} members from {} independent ones', len(out), r)
    require(np.allclose(W, np.round(W, nd), atol=1e-12), 'result is not rounded')
    if np.max(np.abs(W)) < 200:
        require(well(W, 1e-4) == r, 'prettified members are linearly dependent')
        require(rowspan_eq(V, W, 10 ** (4.0 - nd)), 'span of the prettified family differs')
    require(snapshot(models) == before, 'family modified')


@case(P, 150)
def duplicates(rng, note):
    fam = setup(rng)
    r = int(rng.integers(1, min(5, fam.dim()) + 1))
    V = cont(rng, fam, r, choice(rng, ['int', 'unit', 'float', 'tiny']))
    k = int(rng.integers(0, 4))
    if k:
        C = rng.integers(-1, 2, (k, r)) * 1.0 if rbool(rng) else rng.standard_normal((k, r))
        V = np.vstack([V, C @ V])[rng.permutation(r + k)]
    rank = well(V)
    models = [fam.model(v) for v in V]
    note('remove_duplicates', fam.keys, fam.shape, np.round(V, 3).tolist())
    out = qh.remove_duplicates(models)
    W = np.array([fam.vec(m) for m in out]).reshape(len(out), fam.dim())
    require(len(out) == rank, '{} members returned, rank is {}', len(out), rank)
    require(well(W, 1e-5) == rank, 'members are linearly dependent')
    require(rowspan_eq(V, W, 1e-6), 'span differs')


@case(P, 150)
def subtract(rng, note):
    fam = setup(rng)
    D = fam.dim()
    r = int(rng.integers(1, min(6, D) + 1))
    V = cont(rng, fam, r, choice(rng, ['int', 'unit', 'float']))
    r = well(V)
    if r == 0:
        raise Skip()
    if rbool(rng, 0.3):
        # members of very different magnitude
        V = V * 10.0 ** -rng.integers(0, 4, (len(V), 1))
    s = int(rng.integers(1, 4))
    inside = rbool(rng, 0.75)
    ortho = la.null_space(V).T
    parts = []
    if inside:
        C = rng.integers(-1, 2, (s, len(V))) * 1.0 if rbool(rng) else rng.standard_normal((s, len(V)))
        parts.append(C @ V)
    if (not inside or rbool(rng, 0.3)) and len(ortho):
        parts.append(rng.standard_normal((2, len(ortho))) @ ortho)
    if not parts:
        raise Skip()
    F2 = np.vstack(parts)
    F2 = F2[rng.permutation(len(F2))]
    well(F2)
    bad = rbool(rng, 0.2) and len(ortho) and r > 0
    if bad:
        # a member with comparable parts inside and outside of the span: not an allowed input
        v = rng.standard_normal(len(V)) @ V
        F2 = (v / la.norm(v) + 1.3 * (lambda x: x / la.norm(x))(rng.standard_normal(len(ortho)) @ ortho))[None]
    pretty_ = rbool(rng, 0.3)
    note('subtract_family', fam.keys, fam.shape, np.round(V, 3).tolist(), np.round(F2, 3).tolist(), 'bad', bad, pretty_)
    f1, f2 = [fam.model(v) for v in V], [fam.model(v) for v in F2]
    if bad:
        expect_raises(lambda: qh.subtract_family(f1, f2), ValueError, 'family neither inside nor orthogonal accepted')
        return
    out = qh.subtract_family(f1, f2, prettify=pretty_)
    W = np.array([fam.vec(m) for m in out]).reshape(len(out), D)
    q = la.orth(F2.T).T if np.any(F2) else np.zeros((0, D))
    ref = V - V @ q.T @ q
    ref[np.abs(ref) < 1e-10] = 0
    rank = well(ref) if np.any(ref) else 0
    require(len(out) == rank, '{} members returned, complement has dimension {}', len(out), rank)
    if rank and (not pretty_ or np.max(np.abs(W)) < 100):
        require(rowspan_eq(ref, W, 1e-5), 'result does not span the orthogonal complement')


@case(P, 40)
def subtract_edges(rng, note):
    fam = setup(rng)
    V = cont(rng, fam, 2, 'float')
    f = [fam.model(v) for v in V]
    note('subtract_family edges', fam.keys)
    require(len(qh.subtract_family(f, [])) == 2, 'subtracting nothing changes the family')
    require(len(qh.subtract_family([], f)) == 0, 'empty family')
    require(len(qh.subtract_family(f, f)) == 0, 'family minus itself is not empty')
    require(qh.remove_duplicates([]) == [] and qh.make_basis_pretty([]) == [], 'empty family')


def closed_group(rng, d, n):
    """Group of PointGroupElements acting consistently (a true representation)."""
    kind = choice(rng, ['c2', 'c3', 'c4', 'm', 'tr', 'ph', 'ch', 'q8'])
    if d == 1 and kind in ('c3', 'c4', 'q8'):
        kind = 'm'
    W = runitary(rng, n)

    def conj_basis(u, anti):
        return W @ u @ (W.T if anti else W.conj().T)
    def R(t):
        r = np.eye(d)
        if d > 1:
            r[:2, :2] = rot2(t)
        return np.round(r, 14)
    out = []
    if kind in ('c2', 'c3', 'c4'):
        m = int(kind[1])
        ph = np.exp(2j * np.pi * rng.integers(0, m, n) / m)
        for i in range(m):
            r = (R(2 * np.pi * i / m) if d > 1 else np.array([[(-1.0) ** i]]))
            out.append(PGE(r, False, False, conj_basis(np.diag(ph ** i), False)))
    elif kind == 'm':
        s = np.diag(rng.choice([1, -1], n)).astype(complex)
        r = np.eye(d); r[0, 0] = -1
        anti = rbool(rng)
        out = [PGE(np.eye(d), False, False, np.eye(n)), PGE(r, False, anti, conj_basis(s, False))]
    elif kind == 'q8':
        # double cover only up to sign: conjugation action is what matters
        sx, sy, sz = [np.kron(p, np.eye(1)) for p in qg.spin_matrices(1 / 2)]
        us = [np.eye(2), 2 * sx, 2 * sy, 2 * sz]
        k = n // 2
        if k == 0:
            return closed_group(rng, d, n)
        us = [la.block_diag(*([u] * k + [np.eye(1)] * (n % 2))) if n % 2 == 0 else None for u in us]
        if us[0] is None:
            return closed_group(rng, d, n)
        out = [PGE(np.eye(d), False, False, conj_basis(u, False)) for u in us]
        for g in out:
            g._strict_eq = True
    else:
        conj, anti = dict(tr=(True, False), ph=(True, True), ch=(False, True))[kind]
        s = np.diag(rng.choice([1, -1], n)).astype(complex)
        if conj:
            s = np.eye(n)
        out = [PGE(np.eye(d), False, False, np.eye(n)), PGE(np.eye(d), conj, anti, conj_basis(s, conj))]
    return kind, out


def rand_model(rng, d, n, bloch, names):
    if bloch:
        return rand_bloch_model(rng, names, n, terms=2, kind=choice(rng, ['int', 'half']))
    return rand_poly_model(rng, names, n, terms=3, deg=2)


@case(P, 150)
def symmetrize(rng, note):
    """Averaging over a closed group is the projection onto invariant terms."""
    d, n = int(rng.integers(1, 4)), int(rng.integers(1, 4))
    kind, group = closed_group(rng, d, n)
    names = rand_momenta(rng, d)
    bloch = rbool(rng)
    model = rand_model(rng, d, n, bloch, names)
    note('symmetrize_monomial', kind, [describe_pge(g) for g in group], describe_model(model))
    form = choice(rng, [list, tuple, set])
    if form is set and kind == 'q8':
        form = list
    out = qh.symmetrize_monomial(model, form(group))
    for env in envs(rng, [model], 3, names):
        ref = sum(pge_action(g, model, env) for g in group) / len(group)
        require_close(evm(out, env, model.shape), ref, 'average over the group')
        for g in group:
            if len(out.data):
                require_close(pge_action(g, out, env), ref, 'average is invariant')
    if len(out.data):
        again = qh.symmetrize_monomial(out, list(group))
        compare_models(again, out, rng, 'invariant terms are unchanged')
        qh.check_symmetry([out], group)


@case(P, 200)
def check(rng, note):
    d, n = int(rng.integers(1, 4)), int(rng.integers(1, 4))
    names = rand_momenta(rng, d)
    bloch = rbool(rng)
    kind, group = closed_group(rng, d, n)
    members = []
    for _ in range(int(rng.integers(1, 4))):
        m = rand_model(rng, d, n, bloch, names)
        env = envs(rng, [m], 1, names)[0]
        ref = qh.symmetrize_monomial(m, list(group))
        if len(ref.data):
            members.append(ref)
    syms = list(group)
    note('check_symmetry', kind, [describe_pge(g) for g in group], [describe_model(m) for m in members])
    if not members:
        raise Skip()
    if not bloch and rbool(rng, 0.3):
        Q = np.eye(n) * float(rng.integers(1, 3))
        syms.append(CGG(None, Q))
    qh.check_symmetry(members, syms)
    qh.check_symmetry(members, syms, num_digits=5)
    # break one member at a random position
    i = int(rng.integers(len(members)))
    extra = rand_model(rng, d, n, bloch, names) * float(choice(rng, [1.0, 0.1, 1e-2]))
    broken = members[i] + extra
    worst = 0
    for env in envs(rng, [broken], 4, names):
        H = evm(broken, env)
        worst = max([worst] + [np.max(np.abs(pge_action(g, broken, env) - H)) for g in group])
    fam2 = list(members)
    fam2[i] = broken
    if worst > 1e-3:
        it = iter if rbool(rng, 0.3) else list
        expect_raises(lambda: qh.check_symmetry(it(fam2), it(syms)), ValueError, 'broken symmetry accepted')
        expect_raises(lambda: qh.check_symmetry(fam2, syms[::-1], num_digits=6), ValueError,
                      'broken symmetry accepted with num_digits')
        bad = [g for g in group if any(np.max(np.abs(pge_action(g, broken, env) - evm(broken, env))) > 1e-3
                                       for env in envs(rng, [broken], 3, names))]
        if bad:
            expect_raises(lambda: qh.check_symmetry([broken], [choice(rng, bad)]), ValueError,
                          'broken symmetry accepted (single)')
    elif worst < 1e-9:
        qh.check_symmetry(fam2, syms)


@case(P, 120)
def check_continuous(rng, note):
    """Generators: exact rejection/acceptance."""
    n = int(rng.integers(1, 4))
    d = int(rng.integers(2, 4))
    names = rand_momenta(rng, d)
    Q = np.diag(rng.integers(0, 3, n)).astype(float)
    W = runitary(rng, n)
    Qw = W @ Q @ W.conj().T
    kind = choice(rng, ['onsite', 'rotation'])
    ks = [sympy.Symbol(x) for x in names]
    A = rmat(rng, n)
    mask = (np.subtract.outer(np.diag(Q), np.diag(Q)) == 0)
    A0 = W @ (A * mask) @ W.conj().T
    if kind == 'onsite':
        g = CGG(None, Qw)
        good = Model({ks[0] ** 2: A0, sympy.Integer(1): A0 @ A0}, momenta=names)
    else:
        L = np.zeros((d, d), complex)
        L[0, 1], L[1, 0] = 1j, -1j
        g = CGG(L, Qw if rbool(rng) else None)
        good = Model({ks[0] ** 2: A0, ks[1] ** 2: A0, sympy.Integer(1): A0 @ A0}, momenta=names)
    note('check_symmetry CGG', kind, d, n, fmt_mat(Qw), describe_model(good))
    qh.check_symmetry([good], [g])
    eps = float(choice(rng, [1, 0.1, 1e-2, 1e-3, 1e-4]))
    if kind == 'onsite':
        part = W @ (A * ~mask) @ W.conj().T
        key = ks[-1]
    else:
        part, key = A0, choice(rng, [ks[0], ks[0] * ks[1], ks[1] ** 2])
    if la.norm(part) < 1e-2:
        return
    bad = good + Model({key: eps / la.norm(part) * part}, momenta=names)
    note('broken by', eps)
    expect_raises(lambda: qh.check_symmetry([good, bad], [g]), ValueError, 'broken continuous symmetry accepted')


@case(P, 150)
def combine(rng, note):
    d, n = int(rng.integers(1, 4)), int(rng.integers(1, 4))
    names = rand_momenta(rng, d, default=True)
    bloch = rbool(rng, 0.4)
    r = int(rng.integers(1, 5))
    family = [rand_model(rng, d, n, bloch, names) for _ in range(r)]
    family = [f for f in family if len(f.data)]
    r = len(family)
    if not r:
        raise Skip()
    style = choice(rng, ['default', 'symbols', 'numbers', 'same'] + ([] if bloch else ['mixed']))
    syms = [sympy.Symbol('t_%d' % i) for i in range(r)]
    coeffs = {'default': None, 'symbols': syms, 'numbers': [float(x) for x in np.round(rng.uniform(-2, 2, r), 2)],
              'mixed': [s * 2 + 1 if i % 2 else s ** 2 for i, s in enumerate(syms)],
              'same': [syms[0]] * r}[style]
    note('hamiltonian_from_family', style, [describe_model(f) for f in family], coeffs)
    H = qh.hamiltonian_from_family(family, coeffs=coeffs, tosympy=False)
    require(isinstance(H, BlochModel) == bloch, 'type of the combination')
    cs = [sympy.Symbol('c%d' % i) for i in range(r)] if coeffs is None else coeffs
    names_c = set()
    for c in cs:
        if isinstance(c, sympy.Basic):
            names_c |= sym_names(c)
    nsimp = rbool(rng)
    S = qh.hamiltonian_from_family(family, coeffs=coeffs, tosympy=True, nsimplify=nsimp)
    require(S.shape == (n, n), 'shape of the sympy Hamiltonian')
    for env in envs(rng, family, 2, set(names) | names_c):
        ref = sum(ev(sympy.sympify(c), env) * evm(f, env) for c, f in zip(cs, family))
        require_close(evm(H, env, (n, n)), ref, 'linear combination as a model')
        num = np.array([[ev(S[i, j], env) for j in range(n)] for i in range(n)])
        require_close(num, ref, 'linear combination as a sympy matrix', tol=1e-5)


@case(P, 80)
def rounding(rng, note):
    fam = setup(rng)
    V = rng.standard_normal((2, fam.dim())) * choice(rng, [1, 1e-2, 1e-3])
    nd = int(rng.integers(1, 6))
    note('round_family', nd, fam.keys, V.tolist())
    out = qh.round_family([fam.model(v) for v in V], nd)
    require(len(out) == 2, 'number of members')
    for v, m in zip(V, out):
        require_close(fam.vec(m), np.round(v, nd), 'rounded coefficients', tol=1e-12)
