"""C02: applying a symmetry transforms the Hamiltonian by the documented formula."""
from .common import *

P = 'C02'


def check_frame(m, r, msg):
    require(r.shape == m.shape, msg + ': shape {} -> {}', m.shape, r.shape)
    require(tuple(r.momenta) == tuple(m.momenta), msg + ': momenta {} -> {}', m.momenta, r.momenta)
    require(type(r) is type(m), msg + ': type {} -> {}', type(m), type(r))


def check_discrete(rng, g, m, n_env=2):
    r = g.apply(m)
    check_frame(m, r, 'apply')
    for env in envs(rng, [m, r], n_env):
        require_close(evm(r, env), pge_action(g, m, env), 'action differs from the documented formula at {}', env)


@case(P, 90)
def discrete_polynomial(rng, note):
    d, n = int(rng.integers(0, 4)), int(rng.integers(1, 4))
    g, _, kind = rand_pge(rng, d, n if rbool(rng, 0.85) else None)
    m = rand_poly_model(rng, rand_momenta(rng, d), n, terms=int(rng.integers(1, 4)), deg=3,
                        fmt=choice(rng, ['dense', 'dense', 'csr', 'csc']))
    note(describe_pge(g), describe_model(m))
    check_discrete(rng, g, m)


@case(P, 50)
def discrete_bloch(rng, note):
    d, n = int(rng.integers(1, 4)), int(rng.integers(1, 4))
    g, _, kind = rand_pge(rng, d, n if rbool(rng, 0.85) else None)
    m = rand_bloch_model(rng, rand_momenta(rng, d), n, terms=int(rng.integers(1, 4)),
                         kind=choice(rng, ['int', 'half', 'float']), fmt=choice(rng, ['dense', 'dense', 'csr']))
    note(describe_pge(g), describe_model(m))
    check_discrete(rng, g, m)


@case(P, 40)
def discrete_symbolic_periodic(rng, note):
    """Model (not BlochModel) with exponentials and trigonometric functions, exact rotations."""
    d, n = int(rng.integers(1, 3)), int(rng.integers(1, 3))
    names = rand_momenta(rng, d, default=rbool(rng))
    g, _, kind = rand_pge(rng, d, n if rbool(rng, 0.8) else None, kind=choice(rng, ['int', 'uni', 'sympy']))
    terms = {}
    for _ in range(2):
        hop = [int(rng.integers(-2, 3)) for _ in range(d)]
        arg = sum(sympy.Symbol(k) * h for k, h in zip(names, hop))
        kk = sympy.Symbol(choice(rng, names))
        key = choice(rng, [qm.e ** (sympy.I * arg), qm.e ** (sympy.I * arg) * kk,
                           sympy.Symbol('m_1') * qm.e ** (sympy.I * arg), kk ** 2])
        terms[key] = nice_mat(rng, n)
    m = Model(terms, momenta=names, normalize=True)
    if not m.data:
        raise Skip
    note(describe_pge(g), describe_model(m))
    check_discrete(rng, g, m)


@case(P, 30)
def discrete_from_string(rng, note):
    exprs = ['sin(k_x) * sigma_x + k_y * sigma_y', 'cos(k_x) * sigma_z + m_1 * sin(k_y) * sigma_y',
             'exp(I * k_x) * (sigma_x + I * sigma_y) + exp(-I * k_x) * (sigma_x - I * sigma_y)',
             'k_x * k_y * sigma_x + alpha * (k_x**2 - k_y**2) * sigma_y', 'm_1 * sigma_0 + k_x**3 * sigma_x',
             '(1 + I) * k_x * sigma_x + 3 * I * k_y * (sigma_y + I * sigma_z)']
    s = choice(rng, exprs)
    m = Model(s, momenta=('k_x', 'k_y'))
    g, _, kind = rand_pge(rng, 2, 2 if rbool(rng, 0.85) else None, kind=choice(rng, ['int', 'uni', 'sympy']))
    note(describe_pge(g), s)
    check_discrete(rng, g, m)
    bm = None
    if 'k_y *' not in s and '**' not in s and 'k_x *' not in s:
        bm = BlochModel(m)
        check_discrete(rng, g, bm)


def derivative(m, env, R):
    """sum_ij dH/dk_i R_ij k_j by high order central differences."""
    k = kvec(env, m.momenta)
    v = np.asarray(R) @ k
    h = 1e-3
    def at(t):
        return evm(m, with_momenta(env, m.momenta, k + t * np.real(v))) if np.any(np.real(v)) else 0 * evm(m, env)
    # v is in general complex; use linearity in the direction
    def d(direction):
        def f(t):
            return evm(m, with_momenta(env, m.momenta, k + t * direction))
        return (8 * (f(h) - f(-h)) - (f(2 * h) - f(-2 * h))) / (12 * h)
    return d(np.real(v)) + 1j * d(np.imag(v))


@case(P, 70)
def continuous(rng, note):
    n = int(rng.integers(1, 4))
    d = int(rng.integers(0, 4))
    names = rand_momenta(rng, d)
    fmt = choice(rng, ['dense', 'dense', 'csr'])
    m = rand_poly_model(rng, names, n, terms=3, deg=3, fmt=fmt)
    R = U = None
    if d >= 2 and rbool(rng, 0.7):
        a = rng.standard_normal((d, d)) if rbool(rng) else rng.integers(-2, 3, (d, d)).astype(float)
        R = 1j * (a - a.T)
    if rbool(rng, 0.7):
        U = rherm(rng, n)
    if rbool(rng, 0.15) and d:
        R = np.zeros((d, d))
    g = CGG(R, U)
    note(describe_model(m), 'R', None if R is None else fmt_mat(R), 'U', None if U is None else fmt_mat(U))
    r = g.apply(m)
    check_frame(m, r, 'continuous apply')
    for env in envs(rng, [m, r], 2):
        H = evm(m, env)
        ref = np.zeros_like(H)
        if U is not None:
            ref = ref + 1j * (H @ U - U @ H)
        if R is not None and np.any(R):
            ref = ref + 1j * derivative(m, env, R)
        require_close(evm(r, env), ref, 'continuous action differs from the documented formula', tol=1e-6)


@case(P, 30)
def continuous_bloch_onsite(rng, note):
    n, d = int(rng.integers(1, 4)), int(rng.integers(1, 4))
    m = rand_bloch_model(rng, rand_momenta(rng, d), n, kind=choice(rng, ['int', 'float']))
    U = rherm(rng, n)
    g = CGG(choice(rng, [None, np.zeros((d, d))]), U)
    note(describe_model(m), fmt_mat(U))
    r = g.apply(m)
    check_frame(m, r, 'continuous apply')
    for env in envs(rng, [m, r], 2):
        H = evm(m, env)
        require_close(evm(r, env), 1j * (H @ U - U @ H), 'continuous action differs from the documented formula')


@case(P, 20)
def generator_validation(rng, note):
    """Only Hermitian antisymmetric R and Hermitian U define a continuous symmetry."""
    d, n = int(rng.integers(2, 4)), int(rng.integers(1, 4))
    a = rng.standard_normal((d, d))
    good = 1j * (a - a.T)
    CGG(good, rherm(rng, n))
    CGG(None, rherm(rng, n)); CGG(good, None); CGG()
    bad = choice(rng, ['realanti', 'realsym', 'generic', 'U'])
    note(bad, fmt_mat(a))
    if bad == 'realanti':
        expect_raises(lambda: CGG(a - a.T), ValueError, 'real antisymmetric (not Hermitian) R accepted')
    elif bad == 'realsym':
        expect_raises(lambda: CGG(a + a.T + np.eye(d)), ValueError, 'symmetric R accepted')
    elif bad == 'generic':
        expect_raises(lambda: CGG(a), ValueError, 'generic R accepted')
    else:
        expect_raises(lambda: CGG(None, rmat(rng, n + 1)), ValueError, 'non-Hermitian U accepted')


@case(P, 20)
def rotation_of_models(rng, note):
    """rotate_momenta(R) evaluates the Hamiltonian at R k."""
    d, n = int(rng.integers(1, 4)), 2
    names = rand_momenta(rng, d)
    R = choice(rng, [unimodular(rng, d), rorth(rng, d), rng.integers(-2, 3, (d, d))])
    if abs(la.det(R)) < 0.5:
        raise Skip
    if rbool(rng):
        m = rand_poly_model(rng, names, n, deg=3)
    else:
        m = rand_bloch_model(rng, names, n, kind=choice(rng, ['int', 'float']))
    note(describe_model(m), fmt_mat(R))
    r = m.rotate_momenta(R)
    for env in envs(rng, [m, r], 2):
        require_close(evm(r, env), evm(m, with_momenta(env, m.momenta, np.asarray(R) @ kvec(env, m.momenta))),
                      'rotating the momenta does not evaluate at R k')
