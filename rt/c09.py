"""C09: the discrete symmetry search finds exactly the symmetries among the candidates."""
from .common import *
from .symref import *

S = [np.eye(2), np.array([[0, 1], [1, 0]]), np.array([[0, -1j], [1j, 0]]), np.diag([1, -1])]

POLY2 = ['1', 'k_x', 'k_y', 'k_x*k_y', 'k_x**2 - k_y**2', 'k_x**2 + k_y**2', 'm', 'a*k_x', 'a*k_y',
         'k_x**3', 'k_x**2']
POLY1 = ['1', 'k_x', 'k_x**2', 'm', 'a*k_x', 'k_x**3']
POLY3 = POLY2 + ['k_z', 'k_z**2', 'k_x*k_y*k_z', 'a*k_z']
TRIG2 = ['1', 'cos(k_x)', 'cos(k_y)', 'sin(k_x)', 'sin(k_y)', 'cos(k_x) + cos(k_y)', 'cos(k_x) - cos(k_y)',
         'sin(k_x)*sin(k_y)', 'm', 'a*sin(k_x)', 'cos(k_x + k_y)', 'sin(k_x + k_y)', 'sin(k_x - k_y)']
TRIG1 = ['1', 'cos(k_x)', 'sin(k_x)', 'm', 'cos(2*k_x)', 'a*sin(k_x)']
HEX = [np.array([np.cos(t), np.sin(t)]) for t in 2 * np.pi * np.arange(3) / 3]


def kron(*a):
    r = np.eye(1)
    for x in a:
        r = np.kron(r, x)
    return r.astype(complex)


def pauli_terms(rng, q, exprs):
    """Coefficient functions times Pauli strings, with related terms added in pairs."""
    terms = []
    for _ in range(int(rng.integers(1, 5))):
        terms.append((choice(rng, exprs), kron(*[choice(rng, S) for _ in range(q)])))
    if rbool(rng, 0.6) and q and 'k_y' in exprs or 'sin(k_y)' in exprs:
        a, b = rng.permutation(3)[:2] + 1
        tail = [choice(rng, S) for _ in range(max(q - 1, 0))]
        pair = choice(rng, [('k_x', 'k_y'), ('k_y', 'k_x')] if 'k_y' in exprs
                      else [('sin(k_x)', 'sin(k_y)'), ('sin(k_y)', 'sin(k_x)')])
        if q:
            terms += [(pair[0], kron(S[a], *tail)), (pair[1], kron(S[b], *tail) * choice(rng, [1, -1]))]
    return terms


def build(terms, momenta):
    """Model from (string, matrix) terms by the documented dictionary constructor."""
    total = None
    for expr, mat in terms:
        m = Model({sympy.sympify(expr): mat}, momenta=momenta, normalize=True) \
            if not any(x in expr for x in ('sin', 'cos')) else trig_term(expr, mat, momenta)
        total = m if total is None else total + m
    return total.eliminate_zeros()


def trig_term(expr, mat, momenta):
    e = qm.e
    x = sympy.sympify(expr)
    x = qm.substitute_exponents(x)
    # momenta in the commutative form used by Models
    return Model({x: mat}, momenta=momenta, normalize=True)


def poly_terms(rng, d, q):
    return pauli_terms(rng, q, {0: ['1', 'm', 'a'], 1: POLY1, 2: POLY2, 3: POLY3}[d])


def conj_terms(terms, W):
    return [(f, W @ m @ W.conj().T) for f, m in terms]


def onsite(d):
    return list(qg.generate_group({qg.time_reversal(d), qg.particle_hole(d), qg.chiral(d)}))


def candidates(rng, d, exact=False):
    """A closed group of operations without unitary part."""
    gens = set()
    tr, ph, ch = rbool(rng, 0.6), rbool(rng, 0.6), rbool(rng, 0.3)
    if tr:
        gens.add(qg.time_reversal(d))
    if ph:
        gens.add(qg.particle_hole(d))
    if ch:
        gens.add(qg.chiral(d))
    if d == 1:
        if rbool(rng, 0.7):
            gens.add(PGE(-np.eye(1, dtype=int), rbool(rng, 0.3), rbool(rng, 0.3), None))
    elif d == 2:
        pool = [np.array([[0, -1], [1, 0]]), np.diag([-1, 1]), np.array([[0, 1], [1, 0]]), -np.eye(2, dtype=int)]
        for _ in range(int(rng.integers(1, 3))):
            k = rng.random()
            if k < 0.7:
                gens.add(PGE(choice(rng, pool), rbool(rng, 0.3), rbool(rng, 0.3), None))
    elif d == 3:
        pool = [np.array([[0, -1, 0], [1, 0, 0], [0, 0, 1]]), np.diag([-1, 1, 1]),
                np.array([[0, 1, 0], [0, 0, 1], [1, 0, 0]]), -np.eye(3, dtype=int), np.diag([1, -1, -1])]
        gens.add(PGE(choice(rng, pool), rbool(rng, 0.3), rbool(rng, 0.3), None))
        if rbool(rng):
            gens.add(PGE(pool[3], False, False, None))
    if not gens:
        gens.add(qg.time_reversal(d))
    grp = {g.identity() for g in gens} | gens
    while True:
        new = {a * b for a in grp for b in grp} - grp
        if not new:
            break
        grp |= new
        if len(grp) > 64:
            raise Skip('group too large')
    return grp


def same_op(g, h):
    return (np.allclose(Rf(g), Rf(h)) and g.conjugate == h.conjugate and g.antisymmetry == h.antisymmetry)


def check_result(found, cand, model, rng, gen=False):
    ref = {}
    for g in cand:
        ok, _ = is_symmetry(g, model, rng)
        ref[g] = ok
    expected = [g for g in cand if ref[g]]
    n = model.shape[0]
    names = model_names(model)
    for g in found:
        require(g.U is not None, 'returned symmetry without unitary part')
        require_close(g.U @ np.conj(g.U).T, np.eye(n), 'unitary part is not unitary')
        require(any(same_op(g, h) for h in cand), 'returned operation is not a candidate')
        for env in envs(rng, [model], 2):
            require_close(pge_action(g, model, env), evm(model, env), 'returned operation is not a symmetry')
    if gen:
        grp = [PGE(next(iter(cand)).identity().R, False, False, None)]
        while True:
            new = []
            for a in grp:
                for b in found:
                    c = PGE(Rf(a) @ Rf(b), a.conjugate != b.conjugate,
                            a.antisymmetry != b.antisymmetry, None)
                    if not any(same_op(c, x) for x in grp + new):
                        new.append(c)
            if not new:
                break
            grp += new
        found_set = grp
    else:
        found_set = list(found)
    for i, a in enumerate(found_set):
        for b in found_set[:i]:
            require(not same_op(a, b), 'an operation was returned twice')
    for g in expected:
        require(any(same_op(g, h) for h in found_set), 'symmetry {} was missed', describe_pge(g))
    require(len(found_set) == len(expected), '{} symmetries found, {} exist among the candidates',
            len(found_set), len(expected))
    return expected


def family_model(rng, note, d):
    """A polynomial Hermitian family with conserved quantities, partner blocks and a random basis."""
    kind = choice(rng, ['pauli', 'pauli', 'tensor', 'partner', 'generic', 'spin'])
    momenta = ('k_x', 'k_y', 'k_z')[:d]
    q = int(rng.integers(0, 3)) if kind == 'tensor' else int(rng.integers(1, 3))
    terms = poly_terms(rng, d, q)
    if kind == 'tensor':
        k = int(rng.integers(2, 4))
        terms = [(f, np.kron(m, np.eye(k))) for f, m in terms]
    elif kind == 'partner':
        # direct sum with an image of itself under an operation, so blocks are exchanged
        g = choice(rng, ['T', 'P', 'R', 'I', 'C4'])
        V = runitary(rng, terms[0][1].shape[0])
        out = []
        for f, m in terms:
            x = sympy.sympify(f)
            sub, m2 = x, m
            ks = [sympy.Symbol(s) for s in momenta]
            if g in ('T', 'P', 'I'):
                sub = x.subs({k: -k for k in ks}, simultaneous=True)
            if g == 'R' and d:
                sub = x.subs({ks[0]: -ks[0]}, simultaneous=True)
            if g == 'C4' and d > 1:
                sub = x.subs({ks[0]: ks[1], ks[1]: -ks[0]}, simultaneous=True)
            if g in ('T', 'P'):
                m2 = m.conj()
            if g == 'P':
                m2 = -m2
            z = np.zeros(m.shape)
            out.append((f, np.block([[m, z], [z, z]])))
            out.append((str(sympy.expand(sub)), np.block([[z, z], [z, V @ m2 @ V.conj().T]])))
        terms = out
    elif kind == 'generic':
        n = int(rng.integers(1, 4))
        terms = [(f, rherm(rng, n)) for f, _ in terms]
    elif kind == 'spin':
        s = choice(rng, [1, 1.5])
        n = int(round(2 * s + 1))
        mm = s - np.arange(n)
        sp = np.diag(np.sqrt(s * (s + 1) - mm[1:] * (mm[1:] + 1)), 1)
        sx, sy, sz = (sp + sp.T) / 2, (sp - sp.T) / 2j, np.diag(mm)
        opts = [('k_x', sx), ('k_y', sy), ('k_y', sx), ('k_x', -sy), ('m', sz), ('k_x**2 - k_y**2', sx @ sx - sy @ sy),
                ('1', sz @ sz)]
        opts = [(f, m.astype(complex)) for f, m in opts if all(x in momenta for x in ('k_x', 'k_y') if x in f)]
        terms = [choice(rng, opts) for _ in range(int(rng.integers(1, 4)))]
    N = terms[0][1].shape[0]
    if N > 9:
        raise Skip('large')
    wk = choice(rng, ['id', 'random', 'perm'])
    W = np.eye(N) if wk == 'id' else runitary(rng, N) if wk == 'random' else np.eye(N)[rng.permutation(N)]
    terms = conj_terms(terms, W)
    model = build(terms, momenta)
    if not model.data:
        raise Skip('zero model')
    note(kind, wk, describe_model(model))
    return model


@case('C09', 110)
def kp_symmetries(rng, note):
    d = choice(rng, [0, 1, 2, 2, 2, 3])
    model = family_model(rng, note, d)
    cand = candidates(rng, d)
    gen = rbool(rng, 0.25)
    note('candidates', len(cand), 'generators', gen)
    arg = choice(rng, [set, list])(cand)
    found, _ = qsymm.symmetries(model, candidates=arg, generators=gen, prettify=rbool(rng))
    check_result(list(found), cand, model, rng, gen)
    if not gen:
        keys = [(g.conjugate, g.antisymmetry) for g in found]
        require(keys == sorted(keys), 'result is not sorted')


@case('C09', 40)
def onsite_default(rng, note):
    d = choice(rng, [0, 1, 2, 3])
    model = family_model(rng, note, d)
    found, _ = qsymm.symmetries(model)
    check_result(list(found), onsite(d), model, rng)


@case('C09', 40)
def exact_bloch(rng, note):
    """Symbolic lattice Hamiltonians and the same in the periodic form."""
    d = choice(rng, [1, 2])
    terms = pauli_terms(rng, int(rng.integers(1, 3)), TRIG1 if d == 1 else TRIG2)
    N = terms[0][1].shape[0]
    terms = conj_terms(terms, runitary(rng, N) if rbool(rng) else np.eye(N))
    model = build(terms, ('k_x', 'k_y')[:d])
    if not model.data:
        raise Skip('zero')
    form = choice(rng, ['model', 'bloch', 'bloch'])
    if form == 'bloch':
        model = BlochModel(model)
    note(form, describe_model(model))
    cand = candidates(rng, d)
    gen = rbool(rng, 0.25)
    found, _ = qs.discrete_symmetries(model, set(cand), generators=gen)
    check_result(list(found), cand, model, rng, gen)


@case('C09', 25)
def hexagonal_bloch(rng, note):
    """Triangular lattice families with floating point hopping vectors and rotations."""
    q = int(rng.integers(0, 3))
    n = 2 ** q
    W = runitary(rng, n)
    one = sympy.Integer(1)
    data = {}
    mats = [kron(*[choice(rng, S) for _ in range(q)]) * choice(rng, [1, 1j]) for _ in range(3)]
    kind = choice(rng, ['equal', 'signs', 'different', 'rotated'])
    if kind == 'equal':
        mats = [mats[0]] * 3
    elif kind == 'signs':
        mats = [mats[0], -mats[0], mats[0]]
    elif kind == 'rotated' and q:
        sig = [np.cos(t) * S[1] + np.sin(t) * S[2] for t in 2 * np.pi * np.arange(3) / 3]
        mats = [kron(s, *[np.eye(2)] * (q - 1)) * 1j for s in sig]
    for v, m in zip(HEX, mats):
        m = W @ m @ W.conj().T
        data[BlochCoeff(v, one)] = m
        data[BlochCoeff(-v, one)] = m.conj().T
    if rbool(rng):
        data[BlochCoeff(np.zeros(2), sympy.Symbol('mu'))] = W @ kron(*[choice(rng, S) for _ in range(q)]) @ W.conj().T
    model = BlochModel(data, momenta=('k_x', 'k_y'))
    note(kind, describe_model(model))
    c, s = np.cos(np.pi / 3), np.sin(np.pi / 3)
    C6 = PGE(np.array([[c, -s], [s, c]]), rbool(rng, 0.2), rbool(rng, 0.2), None)
    gens = {C6, qg.time_reversal(2)} if rbool(rng) else {PGE(Rf(C6) @ Rf(C6), False, False, None), PGE(np.diag([-1., 1.]), False, False, None),
                                                        qg.particle_hole(2)}
    cand = qg.generate_group(gens)
    require(len(cand) in (12, 24), 'unexpected candidate group')
    gen = rbool(rng, 0.25)
    found, _ = qsymm.symmetries(model, candidates=cand, generators=gen)
    check_result(list(found), cand, model, rng, gen)


@case('C09', 30)
def sparse(rng, note):
    d = choice(rng, [0, 1, 2])
    model = family_model(rng, note, d)
    cand = candidates(rng, d)
    alg = rbool(rng)
    sp = model.tocsr() if rbool(rng) else model
    note('sparse_linalg', alg, sp.format.__name__)
    try:
        with exact_eigsh():
            found, _ = qsymm.symmetries(sp, candidates=cand, sparse_linalg=alg)
    except ValueError as e:
        if alg and 'dimensional null space' in str(e):
            raise Skip('documented limit of the sparse solver')
        raise
    check_result(list(found), cand, model, rng)


@case('C09', 25)
def planted(rng, note):
    """Families generated to be symmetric: the planted group must be found."""
    d = choice(rng, [1, 2, 2])
    n = int(rng.integers(2, 4))
    cand = sorted(candidates(rng, d))
    sub = [g for g in cand if rbool(rng, 0.3)][:2]
    W = runitary(rng, n)
    if rbool(rng):
        V = {False: np.eye(n), True: W @ W.T}
    else:
        V = {False: np.eye(n), True: np.eye(n)}
    # representation: unitary operations act by a power of a diagonal sign matrix
    syms = [PGE(g.R, g.conjugate, g.antisymmetry, V[g.conjugate]) for g in sub]
    if not syms:
        raise Skip('nothing planted')
    fam = qsymm.continuum_hamiltonian(syms, d, 2, momenta=('k_x', 'k_y')[:d], prettify=False)
    if not fam:
        raise Skip('empty family')
    model = sum((m * sympy.Symbol('c_%d' % i) for i, m in enumerate(fam[1:4])), fam[0])
    note(describe_model(model))
    found, _ = qsymm.symmetries(model, candidates=set(cand))
    exp = check_result(list(found), cand, model, rng)
    for g in sub:
        require(any(same_op(g, h) for h in exp), 'planted symmetry is not a symmetry of the generated family')


@case('C09', 40)
def orbits(rng, note):
    """Blocks permuted cyclically by a rotation (with multiplicities and random block bases)."""
    names = choice(rng, [('k_x', 'k_y'), ('p', 'q'), ('k_y', 'k_x')])
    ks = [sympy.Symbol(x) for x in names]
    C4 = np.array([[0, -1], [1, 0]])
    C3 = np.array([[-.5, -np.sqrt(3) / 2], [np.sqrt(3) / 2, -.5]])
    order = choice(rng, [2, 3, 4])
    R = {2: C4 @ C4, 3: C3, 4: C4}[order]
    conj, anti = (rbool(rng, 0.25), rbool(rng, 0.25)) if order != 3 else (False, False)
    n, mult = choice(rng, [(1, 1), (1, 1), (1, 2), (2, 1)] if order > 2 else [(1, 1), (2, 1), (1, 2), (2, 2)])
    lin = [rherm(rng, n) for _ in range(2)]
    quad = [rherm(rng, n) for _ in range(3)]
    on = rherm(rng, n)
    with_on, with_quad = rbool(rng), rbool(rng)
    real = rbool(rng, 0.25)
    # with another multiplicity of the last block the rotation is no symmetry
    mults = [mult] * order
    unequal = rbool(rng, 0.2)
    if unequal:
        mults[-1] = 3 - mult
    offs = np.concatenate([[0], np.cumsum(np.array(mults) * n)]).astype(int)
    mats = {}

    def add(key, i, m):
        tot = offs[-1]
        b = np.zeros((tot, tot), complex)
        sl = slice(offs[i], offs[i + 1])
        b[sl, sl] = np.kron(np.eye(mults[i]), m)
        mats[key] = mats.get(key, 0) + b
    broken = rbool(rng, 0.3)
    for i in range(order):
        Ri = np.linalg.matrix_power(R, i)      # block i is H(R^-i k) with flags applied i times
        sg = (-1) ** (i * (anti + conj) % 2)   # linear terms change sign under conjugation and antisymmetry
        sg0 = (-1) ** (i * anti % 2)
        c = (lambda x: x.conj()) if (i * conj) % 2 else (lambda x: x)
        V = runitary(rng, n) if not real else rorth(rng, n)
        if real:
            c2 = lambda x: np.real(c(x)).astype(complex)
        else:
            c2 = c
        tr = lambda x: V @ c2(x) @ V.conj().T
        A = Ri @ np.eye(2)                      # R orthogonal: (R^-i k)_a = sum_b R_ba k_b
        for b in range(2):
            m = sum(A[b, a] * lin[a] for a in range(2)) * sg
            add(ks[b], i, tr(m) * (1.3 if broken and i == order - 1 else 1))
        if with_quad:
            Q = np.array([[quad[0], quad[1]], [quad[1], quad[2]]])
            QR = np.einsum('ab,cd,bdij->acij', A, A, Q) * sg0
            add(ks[0] ** 2, i, tr(QR[0, 0]))
            add(ks[0] * ks[1], i, tr(QR[0, 1] + QR[1, 0]))
            add(ks[1] ** 2, i, tr(QR[1, 1]))
        if with_on:
            add(sympy.Symbol('m'), i, tr(on * sg0))
    tot = offs[-1]
    W = runitary(rng, tot) if not real else rorth(rng, tot)
    if rbool(rng, 0.3):
        W = np.eye(tot)
    data = {k: W @ m @ W.conj().T for k, m in mats.items()}
    if real:
        data = {k: np.real(m) for k, m in data.items()}
    model = Model(data, momenta=names).eliminate_zeros()
    if not model.data:
        raise Skip('zero')
    note('order', order, 'conj', conj, 'anti', anti, 'n', n, 'mult', mults, 'real', real, 'broken', broken,
         describe_model(model))
    g = PGE(R if order != 3 else R, conj, anti, None)
    gens = {g}
    if rbool(rng, 0.4):
        gens.add(qg.time_reversal(2))
    elif rbool(rng, 0.3):
        gens.add(PGE(np.diag([1, -1]), False, False, None) if order != 3 else PGE(np.diag([1., -1.]), False, False, None))
    cand = qg.generate_group(gens)
    gen = rbool(rng, 0.25)
    found, _ = qsymm.symmetries(model, candidates=cand, generators=gen)
    exp = check_result(list(found), cand, model, rng, gen)
    if not broken and not real and not unequal:
        require(any(same_op(g, h) for h in exp), 'harness: the planted symmetry is absent')


@case('C09', 25)
def sparse_bloch(rng, note):
    d = choice(rng, [1, 2])
    terms = pauli_terms(rng, int(rng.integers(1, 3)), TRIG1 if d == 1 else TRIG2)
    N = terms[0][1].shape[0]
    terms = conj_terms(terms, runitary(rng, N) if rbool(rng) else np.eye(N))
    model = build(terms, ('k_x', 'k_y')[:d])
    if not model.data:
        raise Skip('zero')
    model = BlochModel(model)
    sp = model.tocsr() if rbool(rng) else model
    note(describe_model(model), sp.format.__name__)
    cand = candidates(rng, d)
    try:
        with exact_eigsh():
            found, _ = qsymm.symmetries(sp, candidates=cand, sparse_linalg=True)
    except ValueError as e:
        if 'dimensional null space' in str(e):
            raise Skip('documented limit of the sparse solver')
        raise
    check_result(list(found), cand, model, rng)


@case('C09', 6)
def rejects(rng, note):
    m = Model({'k_x': np.diag([1., -1]).astype(complex)}, momenta=('k_x',))
    lo = Model({'k_x': sla.aslinearoperator(np.eye(2))}, momenta=('k_x',))
    g = qg.time_reversal(1)
    note('rejects')
    expect_raises(lambda: qsymm.symmetries(lo), ValueError, 'LinearOperator models must be rejected')
    expect_raises(lambda: qs.discrete_symmetries(m, {PGE(g.R, True, False, np.eye(2))}), Exception,
                  'candidates with a unitary part must be rejected')


@case('C09', 30)
def partial_rotations(rng, note):
    """Anisotropic terms invariant only under some powers of the candidate rotation."""
    n, m = choice(rng, [(6, 2), (6, 3), (8, 2), (8, 4), (9, 3), (9, 3), (10, 2), (10, 5), (12, 3), (12, 4), (12, 4),
                        (12, 6), (12, 2)])
    names = choice(rng, [('k_x', 'k_y'), ('p', 'q')])
    x, y = [sympy.Symbol(s) for s in names]
    z = sympy.Poly(sympy.expand((x + sympy.I * y) ** m), x, y)
    re = {x ** a * y ** b: float(sympy.re(c)) for (a, b), c in z.terms()}
    im = {x ** a * y ** b: float(sympy.im(c)) for (a, b), c in z.terms()}
    kind = choice(rng, ['scalar', 'scalar', 'matrix', 'pair'])
    N = 1 if kind == 'scalar' else 2
    A, B = (np.eye(1), np.eye(1)) if N == 1 else (S[3], S[3]) if kind == 'matrix' else (S[1], S[2])
    t = rng.uniform(0, 2 * np.pi)
    W = runitary(rng, N)
    data = {}
    for d, M in ((re, np.cos(t) * A), (im, np.sin(t) * B)):
        for k, c in d.items():
            data[k] = data.get(k, 0) + c * W @ M @ W.conj().T
    if rbool(rng):
        for k in (x ** 2, y ** 2):
            data[k] = data.get(k, 0) + 0.7 * np.eye(N)
    if rbool(rng, 0.3):
        data[sympy.Symbol('m')] = W @ S[3][:N, :N] @ W.conj().T
    model = Model({k: np.asarray(v, complex) for k, v in data.items()}, momenta=names).eliminate_zeros()
    gens = {qg.rotation(1 / n)}
    if rbool(rng, 0.3):
        gens = {PGE(qg.rotation(1 / n).R, rbool(rng), n % 2 == 0 and rbool(rng), None)}
    if rbool(rng, 0.3):
        gens.add(choice(rng, [qg.time_reversal(2), qg.particle_hole(2), qg.mirror([1., 0.])]))
        gens = {PGE(g.R, g.conjugate, g.antisymmetry, None) for g in gens}
    cand = qg.generate_group({PGE(g.R, g.conjugate, g.antisymmetry, None) for g in gens})
    if len(cand) > 50:
        raise Skip('large')
    gen = rbool(rng, 0.25)
    note(kind, n, m, 'candidates', len(cand), 'generators', gen, describe_model(model))
    found, _ = qsymm.symmetries(model, candidates=set(cand), generators=gen)
    check_result(list(found), cand, model, rng, gen)
