"""C20: building, substituting and evaluating a model preserves the expression."""
import inspect
from .common import *
from qsymm import kwant_continuum

P = 'C20'
S = sympy.Symbol
sig = [np.eye(2), np.array([[0, 1], [1, 0]]), np.array([[0, -1j], [1j, 0]]), np.diag([1, -1])]
NS = dict(sigma_0=sig[0], sigma_x=sig[1], sigma_y=sig[2], sigma_z=sig[3], kron=np.kron, eye=np.eye, identity=np.eye,
          I=1j, sin=np.sin, cos=np.cos, exp=np.exp, e=np.e, sqrt=np.emath.sqrt, pi=np.pi)
K3 = ['k_x', 'k_y', 'k_z']
PAR = ['a', 'b', 'm_1', 'Delta', 'alpha', 'beta', 'gamma', 'x', 'y', 'N', 'mu', 't_1']


def scalar_str(rng, deg=3):
    """String of a random scalar expression."""
    def atom():
        return choice(rng, K3 + PAR + ['2', '3', '0.5', 'I', '(1 + I)', 'sqrt(2)', 'pi', '(2 - 3 * I)'])

    def fac():
        r = rng.random()
        if r < 0.6:
            return atom()
        if r < 0.7:
            return choice(rng, K3 + PAR) + '**' + choice(rng, ['2', '3', '4'])
        if r < 0.8:
            return 'sin({})'.format(choice(rng, K3 + ['k_x + k_y', '2 * k_x', 'a * k_y', 'k_z - alpha']))
        if r < 0.9:
            return 'cos({})'.format(choice(rng, K3 + ['k_x - k_y', 'k_x / 2', 'k_y + pi / 3']))
        return 'exp({})'.format(choice(rng, ['I * k_x', '-I * k_y', 'I * (k_x + k_y)', 'a', 'I * a * k_z', '2 * I']))

    def term():
        return ' * '.join(fac() for _ in range(int(rng.integers(1, deg + 1))))
    s = term()
    for _ in range(int(rng.integers(0, 3))):
        s += choice(rng, [' + ', ' - ']) + term()
    if rbool(rng, 0.3):
        s = '({}) * ({})'.format(s, choice(rng, K3 + PAR) + choice(rng, [' + ', ' - ']) + choice(rng, K3 + PAR))
    return s


def mat_str(rng, n):
    """(string, evaluation function) of a random matrix expression"""
    if n == 2 and rbool(rng, 0.7):
        t = ['({}) * {}'.format(scalar_str(rng, 2), choice(rng, ['sigma_0', 'sigma_x', 'sigma_y', 'sigma_z',
                                                                 'eye(2)', 'identity(2)', 'sigma_x * sigma_y']))
             for _ in range(int(rng.integers(1, 4)))]
        return ' + '.join(t)
    if n == 4:
        t = ['({}) * kron({}, {})'.format(scalar_str(rng, 2), choice(rng, ['sigma_0', 'sigma_x', 'sigma_y', 'sigma_z']),
                                          choice(rng, ['sigma_0', 'sigma_x', 'sigma_y', 'sigma_z', 'eye(2)']))
             for _ in range(int(rng.integers(1, 3)))]
        return ' + '.join(t)
    return '[' + ', '.join('[' + ', '.join(scalar_str(rng, 2) if rbool(rng, 0.7) else '0' for _ in range(n)) + ']'
                           for _ in range(n)) + ']'


def full_env(rng):
    return {x: float(rng.uniform(0.2, 1.3)) for x in K3 + PAR}


def value(s, env):
    s = s.replace('^', '**').replace('sigma_x * sigma_y', '(sigma_x @ sigma_y)')
    return np.array(eval(s, {}, dict(NS, **env)), dtype=complex)


def call(f, env):
    return f(**{x: env[x] for x in inspect.signature(f).parameters})


def check_all(rng, m, want, n_env=2, matrix=True, extra=lambda env: env):
    """m and everything derived from it evaluates to want(env)."""
    e1 = [full_env(rng) for _ in range(n_env)]
    for env in e1:
        require_close(evm(m, env, shape=np.shape(want(env))), want(env), 'value of the model')
    for k, v in m.data.items():
        require(isinstance(k, sympy.Basic), 'key {!r} is not symbolic', k)
    if not m.data:
        return
    f, sm = m.lambdify(), m.tosympy()
    require(list(inspect.signature(f).parameters) == sorted(inspect.signature(f).parameters), 'argument order of lambdify')
    for env in e1:
        require_close(np.asarray(call(f, env), dtype=complex).reshape(np.shape(want(env))), want(env), 'lambdify')
        v = np.array([ev(x, env) for x in (sm if hasattr(sm, 'shape') else [sm])]).reshape(np.shape(want(env)))
        require_close(v, want(env), 'tosympy')
    m2 = Model(m.data, momenta=m.momenta, normalize=True)
    m3 = Model(m.tosympy(nsimplify=False), momenta=m.momenta)
    for env in e1:
        require_close(evm(m2, env, shape=m.shape), want(env), 'normalized model')
        require_close(evm(m3, env, shape=m.shape), want(env), 'model of tosympy')


@case(P, 150, timeout=120)
def from_string(rng, note):
    n = choice(rng, [1, 2, 2, 3, 4])
    s = mat_str(rng, n) if n > 1 else scalar_str(rng)
    note(s)
    m = Model(s, momenta=K3)
    if not m.data:
        raise Skip

    def want(env):
        v = value(s, env)
        return v.reshape(1, 1) if n == 1 else v
    require(m.shape == (n, n), 'shape {}', m.shape)
    check_all(rng, m, want)
    # sympy expression input
    sy = kwant_continuum.sympify(s)
    m2 = Model(sy, momenta=K3)
    for env in [full_env(rng)]:
        require_close(evm(m2, env, shape=(n, n)), want(env), 'model of the parsed expression')


@case(P, 60)
def with_locals(rng, note):
    M = nice_mat(rng, 2)
    loc = {'k': 'k_x + I * k_y', 'A': sympy.Matrix([[0, 2], [0, 0]]), 'M': M, 'c': choice(rng, ['a + b', '2 * a', 'x**2']),
           'sigma_plus': [[0, 2], [0, 0]], 'q': S('alpha')}
    s = choice(rng, ['k * sigma_x + c * sigma_z', 'k**2 * A + c * sigma_0', 'M * k + c * sigma_y',
                     'q * sigma_plus + k * sigma_z', 'c * (k_x * sigma_x + M)', 'c * A * M * k'])
    note(s, loc)
    m = Model(s, locals=loc, momenta=K3)
    if not m.data:
        raise Skip
    for env in [full_env(rng) for _ in range(2)]:
        kx, ky = env['k_x'], env['k_y']
        ns = dict(NS, **env)
        ns.update(k=kx + 1j * ky, A=np.array([[0, 2], [0, 0]]), M=M, c=eval(loc['c'], {}, dict(env)),
                  sigma_plus=np.array([[0, 2], [0, 0]]), q=env['alpha'])
        ss = s.replace('A * M', '(A @ M)')
        require_close(evm(m, env), np.array(eval(ss, {}, ns), dtype=complex), 'value of the model with locals')
    require(isinstance(loc['c'], str) and loc['M'] is M and loc['sigma_plus'] == [[0, 2], [0, 0]] and len(loc) == 6,
            'locals were modified')


@case(P, 150)
def from_dict(rng, note):
    """dictionary of symbolic expressions, with sums and numerical factors (normalize)"""
    n = int(rng.integers(1, 4))
    fmt = choice(rng, ['dense', 'dense', 'csr', 'scalar'])
    norm = rbool(rng, 0.7)
    d = {}
    for _ in range(int(rng.integers(1, 5))):
        if norm:
            key = qm.substitute_exponents(kwant_continuum.make_commutative(
                kwant_continuum.sympify(scalar_str(rng, 2)), *[S(x) for x in K3 + PAR]))
            if key == 0:
                continue
        else:
            key = rand_poly_key(rng, K3)
            if rbool(rng, 0.3):
                key = key * qm.e ** (sympy.I * (S('k_x') + 2 * S('k_y')))
            if rbool(rng, 0.3):
                key = str(key)   # (names that clash with sympy functions are not among these)
        d[key] = to_format(nice_mat(rng, n), fmt)
    if not d:
        raise Skip
    note(d)
    m = Model(d, momenta=K3, normalize=norm)

    def want(env):
        r = 0
        for k, v in d.items():
            k = sympy.sympify(k, locals={'e': qm.e}) if not isinstance(k, sympy.Basic) else k
            r = r + ev(k, env) * dense(v)
        return r
    if m.data:
        require(m.shape == (() if fmt == 'scalar' else (n, n)), 'shape {}', m.shape)
    for env in [full_env(rng) for _ in range(2)]:
        require_close(evm(m, env, shape=np.shape(want(env))), want(env), 'value of the model')
    # access with string keys
    for k, v in list(m.data.items())[:2]:
        if {x.name for x in k.atoms(sympy.Symbol)} & {'beta', 'gamma', 'N', 'zeta'}:
            continue
        require_close(dense(m[str(k)]), dense(v), 'access by the string key {}', k)
    require_close(dense(m['zz * k_x**7']), np.zeros(m.shape) if m.data else 0, 'missing keys are zero') if m.data else None
    if fmt == 'scalar' and m.data:
        f = m.lambdify()
        env = full_env(rng)
        require_close(call(f, env), want(env), 'lambdify of a scalar model')


@case(P, 60)
def from_matrix(rng, note):
    n, m_ = int(rng.integers(1, 4)), int(rng.integers(1, 4))
    syms = [S(x) for x in K3 + PAR]
    ent = [[sum((complex(*rng.integers(-2, 3, 2)) if rbool(rng) else int(rng.integers(1, 4))) * choice(rng, syms) * choice(rng, syms + [1])
                for _ in range(2)) for _ in range(m_)] for _ in range(n)]
    M = choice(rng, [sympy.Matrix, sympy.ImmutableMatrix])(ent)
    note(M)
    m = Model(M, momenta=K3)
    for env in [full_env(rng) for _ in range(2)]:
        want = np.array([[ev(sympy.sympify(x), env) for x in row] for row in ent])
        require_close(evm(m, env, shape=(n, m_)), want, 'model of a symbolic matrix')


@case(P, 80)
def filters(rng, note):
    """keep: restricted to the kept symbols"""
    s = ' + '.join('{} * {} * {}'.format(complex(*rng.integers(1, 3, 2)).real, choice(rng, K3 + ['1', 'k_x * k_y', 'k_x**2']),
                                         choice(rng, ['sigma_x', 'a * sigma_y', 'b**2 * sigma_z'])) for _ in range(4))
    full = Model(s, momenta=K3)
    keys = list(full.data)
    keep = [k for k in keys if rbool(rng, 0.6)] + [S('zz')]
    ks = [choice(rng, [k, str(k)]) for k in keep]
    note(s, keep)
    m = Model(full.data, momenta=K3, keep=ks, shape=full.shape, format=full.format)
    for env in [dict(full_env(rng), zz=1.0) for _ in range(2)]:
        want = sum((ev(k, env) * full.data[k] for k in keys if k in keep), np.zeros((2, 2), complex))
        require_close(evm(m, env), want, 'filtered model')
    require(m.keep == set(keep), 'keep {}', m.keep)


@case(P, 150, timeout=120)
def substitution(rng, note):
    n = choice(rng, [1, 2, 2])
    s = mat_str(rng, n) if n > 1 else scalar_str(rng)
    m = Model(s, momenta=K3)
    if not m.data:
        raise Skip
    mom = [S(k) for k in K3]
    k = choice(rng, mom)
    form = choice(rng, ['pair', 'list', 'dict'])
    kind = choice(rng, ['param number', 'param symbol', 'param expr', 'momentum number', 'momentum rename', 'momentum affine',
                        'momentum param', 'several', 'strings'])
    p = choice(rng, [S(x) for x in PAR])
    num = choice(rng, [0.7, 2, sympy.Rational(1, 3), sympy.sqrt(2), 0, np.float64(0.3), sympy.pi])
    expect = None
    if kind == 'param number':
        pairs, expect = [(p, num)], mom
    elif kind == 'param symbol':
        pairs, expect = [(p, S('new'))], mom
    elif kind == 'param expr':
        pairs, expect = [(p, S('new') ** 2 + choice(rng, [1, S('other'), k]))], mom
    elif kind == 'momentum number':
        pairs, expect = [(k, num)], [x for x in mom if x != k]
    elif kind == 'momentum rename':
        pairs, expect = [(k, S('new'))], [S('new') if x == k else x for x in mom]
    elif kind == 'momentum affine':
        pairs, expect = [(k, choice(rng, [2 * k + 1, k + S('new'), -k]))], mom
    elif kind == 'momentum param':
        pairs, expect = [(k, S('new') + 1)], [x for x in mom if x != k]
    elif kind == 'several':
        pairs = [(k, num), (p, S('new') * 2), (S('other'), 3)]
        expect = [x for x in mom if x != k]
    else:
        pairs, expect = [(str(k), 'new')], [S('new') if x == k else x for x in mom]
    if form == 'pair' and len(pairs) > 1:
        form = 'list'
    args = pairs[0] if form == 'pair' else (pairs,) if form == 'list' else (dict(pairs),)
    note(s, kind, form, args)
    r = m.subs(*args)
    require(tuple(r.momenta) == tuple(expect), 'momenta after substitution: {} instead of {}', r.momenta, tuple(expect))
    for _ in range(2):
        env = dict(full_env(rng), new=float(rng.uniform(0.2, 1)), other=float(rng.uniform(0.2, 1)))
        inner = dict(env)
        for old, new in reversed(pairs):
            name = old if isinstance(old, str) else old.name
            inner[name] = ev(sympy.sympify(new), env)
        require_close(evm(r, env, shape=m.shape), evm(m, inner), 'substituted model')
    require(evm(m, full_env(rng)).shape == m.shape, 'shape')


@case(P, 80)
def evaluation(rng, note):
    s = ' + '.join('{} * {} * {}'.format(choice(rng, K3 + ['1', 'k_x * k_y', 'k_x**2']), choice(rng, ['a', 'b**2', '2']),
                                         choice(rng, ['sigma_x', 'sigma_y', 'I * sigma_z'])) for _ in range(3))
    m = Model(s, momenta=K3)
    note(s)
    env = full_env(rng)
    subs = {choice(rng, [S(k), k]): v for k, v in env.items()}
    if m.data:
        require_close(m.evalf(subs=subs), value(s, env), 'evalf')
        require_close(m.evalf(subs=dict(subs, a=0.3 - 0.7j)) if 'a' in subs else m.evalf(subs={**subs, S('a'): 0.3 - 0.7j}),
                      value(s, dict(env, a=0.3 - 0.7j)), 'evalf with complex values')
    t = m.transform_symbolic(lambda key: sympy.diff(key, S('k_x')))
    h = 1e-4
    d = (value(s, dict(env, k_x=env['k_x'] + h)) - value(s, dict(env, k_x=env['k_x'] - h))) / (2 * h)
    require_close(evm(t, env, shape=(2, 2)), d, 'derivative by transform_symbolic', tol=1e-5)
    if m.data:
        f, g = m.lambdify(onsite=True), m.lambdify(hopping=True)
        a = list(inspect.signature(f).parameters)
        require(a[0] == 'site' and list(inspect.signature(g).parameters)[:2] == ['site1', 'site2'], 'kwant arguments {}', a)
        require_close(f('s', **{x: env[x] for x in a[1:]}), value(s, env), 'lambdify(onsite)')
        require_close(g('s', 't', **{x: env[x] for x in a[1:]}), value(s, env), 'lambdify(hopping)')
        expect_raises(lambda: m.lambdify(onsite=True, hopping=True), ValueError, 'onsite and hopping accepted together')
        r = m.lambdify(nsimplify=True)
        require_close(call(r, env), value(s, env), 'lambdify(nsimplify)')


@case(P, 60)
def evaluation_of_periodic_models(rng, note):
    """evalf of models with phase factors, as Model and as BlochModel."""
    s = ' + '.join('{} * {} * {}'.format(choice(rng, ['1', 'cos(k_x)', 'sin(k_y)', 'exp(I * k_z)', 'e**(-I * k_x)', 'cos(k_x) * cos(k_y)']),
                                         choice(rng, ['a', 'b**2', '2', 'I * a * b']), choice(rng, ['sigma_x', 'sigma_y', 'I * sigma_z'])) for _ in range(3))
    note(s)
    m = Model(s, momenta=K3)
    env = full_env(rng)
    if rng.random() < 0.5:
        env['b'] = complex(env['b'], rng.uniform(-1, 1))
    subs = {choice(rng, [S(k), k]): v for k, v in env.items()}
    want = evm(m, env)
    if m.data:
        require_close(m.evalf(subs=subs), want, 'evalf of a model with phases')
        require_close(BlochModel(m).evalf(subs=subs), want, 'evalf of a BlochModel')


@case(P, 80)
def monomials_and_parsing(rng, note):
    s = scalar_str(rng, 3)
    note(s)
    ex = kwant_continuum.sympify(s)
    ex = qm.substitute_exponents(ex)
    ex = kwant_continuum.make_commutative(ex, *[S(x) for x in K3 + PAR])
    gens = [S(x) for x in K3] if rbool(rng) else None
    mons = kwant_continuum.monomials(ex, gens)
    g = {S(x) for x in K3} if gens else ex.atoms(sympy.Symbol)
    env = full_env(rng)
    tot = 0
    for k, v in mons.items():
        tot += ev(k, env) * ev(sympy.sympify(v), env)
        require(gens is None or all(f.as_base_exp()[0] in g for f in k.as_ordered_factors() if k != 1),
                'key {} is not a monomial in the generators', k)
    require_close(tot, complex(value(s, env)), 'sum of monomials')
    e2 = kwant_continuum.sympify(s)
    for x in e2.atoms(sympy.Symbol):
        want = x.name not in ('k_x', 'k_y', 'k_z', 'x', 'y', 'z')
        require(x.is_commutative is want, 'commutativity of {} is {}', x, x.is_commutative)
    e3 = kwant_continuum.make_commutative(e2, *e2.atoms(sympy.Symbol))
    require(all(x.is_commutative for x in e3.atoms(sympy.Symbol)), 'make_commutative leaves a symbol')
    if not e2.atoms(sympy.core.function.AppliedUndef, sympy.Function):
        f = kwant_continuum.lambdify(s)
        require_close(call(f, env), complex(value(s, env)), 'lambdify of an expression')
    # parsing is free of side effects
    from sympy.core.sympify import converter
    require(sympy.sympify([1, 2]) == [1, 2] and list not in converter, 'converter table changed by parsing')


@case(P, 40)
def momenta_names(rng, note):
    names = rand_momenta(rng, int(rng.integers(1, 4)))
    m = Model({names[0]: np.eye(2)}, momenta=names)
    note(names)
    require(tuple(m.momenta) == tuple(S(x) for x in names), 'momenta {}', m.momenta)
    require(all(x.is_commutative for x in m.momenta), 'noncommuting momenta')
    m = Model({names[0]: np.eye(2)}, momenta=[S(x) for x in names])
    require(tuple(m.momenta) == tuple(S(x) for x in names), 'momenta {}', m.momenta)
    m = Model({names[0]: np.eye(2)}, momenta=[S(x, commutative=False) for x in names])
    require(tuple(m.momenta) == tuple(S(x) for x in names), 'momenta {}', m.momenta)
    expect_raises(lambda: Model({'a': np.eye(2)}, momenta=[0, 1]), TypeError, 'integer momenta accepted')
    m = Model('{0} * sigma_x'.format(names[0]), momenta=names)
    require(set(m.data) == {S(names[0])}, 'keys {}', list(m.data))


@case(P, 80)
def substitutions_that_interact(rng, note):
    """pairs whose replacements contain symbols that are replaced by other pairs: sympy's own substitution of the
    written-out expression is the reference, in the order of the list, or as chosen by sympy for a dictionary"""
    names = ['k_x', 'k_y', 'k_z'][:int(rng.integers(2, 4))]
    ks = [S(x) for x in names]
    a, b = ks[0], ks[1]
    if rbool(rng):
        a, b = b, a
    p, q = S('a'), S('b')
    s = ' + '.join('{} * {}'.format(choice(rng, ['a * k_x', 'b * k_y**2', 'k_x * k_y', 'a * b', 'cos(k_x)', 'a * sin(k_x - k_y)',
                                                 'exp(I * k_y)', 'b * k_x**2']),
                                    choice(rng, ['sigma_x', 'sigma_y', 'sigma_z'])) for _ in range(int(rng.integers(1, 4))))
    m = Model(s, momenta=names)
    kind = choice(rng, ['swap momenta', 'chain momenta', 'merge momenta', 'through a parameter', 'swap parameters',
                        'chain parameters', 'momentum into parameter'])
    pairs, simultaneous, expect = {
        'swap momenta': ([(a, b), (b, a)], True, [b if x == a else a if x == b else x for x in ks]),
        'chain momenta': ([(a, S('c')), (S('c'), S('q_new'))], False, [S('q_new') if x == a else x for x in ks]),
        'merge momenta': ([(a, b)], False, [x for x in ks if x != a]),
        'through a parameter': ([(a, S('c') + 1), (S('c'), 2)], False, [x for x in ks if x != a]),
        'swap parameters': ([(p, q), (q, p)], True, ks),
        'chain parameters': ([(p, q + 1), (q, 2)], False, ks),
        'momentum into parameter': ([(p, S('c') * 2), (S('c'), a), (S('t_1'), 3)], False, ks),
    }[kind]
    form = choice(rng, ['list', 'dict']) if kind in ('swap parameters', 'chain parameters', 'swap momenta') else 'list'
    arg = pairs if form == 'list' else dict(pairs if rbool(rng) else pairs[::-1])
    kw = dict(simultaneous=True) if simultaneous else {}
    if kind == 'merge momenta':  # in order of first appearance
        expect = [b if x == a else x for x in ks]
        expect = [x for i, x in enumerate(expect) if x not in expect[:i]]
    note(s, kind, arg, kw)
    if not m.data:
        raise Skip
    r = m.subs(arg, **kw)
    require(tuple(r.momenta) == tuple(expect), 'momenta after substitution: {} instead of {}', r.momenta, tuple(expect))
    want = m.tosympy(nsimplify=False).subs(arg, **kw)
    for _ in range(2):
        env = dict(full_env(rng), c=0.37, q_new=0.81)
        v = np.array([ev(x, env) for x in want]).reshape(m.shape)
        require_close(evm(r, env, shape=m.shape), v, 'substituted model')


@case(P, 40)
def filters_of_expressions(rng, note):
    """keep applied to a model built from an expression: exactly the listed terms remain"""
    names = ['k_x', 'k_y']
    terms = {'k_x': 'sigma_x', 'a * k_y': 'sigma_y', 'k_x * k_y': 'sigma_z', 'a': 'sigma_0', 'k_y**2': 'sigma_x', 'b': 'sigma_z'}
    chosen = [k for k in terms if rbool(rng, 0.7)] or ['k_x', 'a']
    kept = [k for k in terms if rbool(rng, 0.5)] or ['a']
    s = ' + '.join('{} * {}'.format(k, terms[k]) for k in chosen)
    keep = [k if rbool(rng) else sympy.sympify(k) for k in kept]
    note(s, keep)
    m = Model(s, momenta=names, keep=keep)
    left = [k for k in chosen if k in kept]
    require({sympy.sympify(k) for k in left} == set(m.data), 'terms {} instead of {}', list(m.data), left)
    for k in left:
        require_close(m[sympy.sympify(k)], NS[terms[k]], 'value of the kept term ' + k)
