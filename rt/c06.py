"""C06: periodic (hopping) and symbolic forms describe the same function."""
from .common import *

P = 'C06'
e, I = qm.e, sympy.I
S = sympy.Symbol


def hop_key(rng, names, hop=None, style=None):
    """A valid hopping term: product of exponentials with numeric hopping vector, momentum-free factors."""
    ks = [S(x) for x in names]
    pool = [sympy.Integer(1), sympy.Integer(2), sympy.Rational(1, 2), -1, sympy.Rational(3, 2), -2,
            sympy.sqrt(3) / 2, sympy.Float(0.731), -sympy.sqrt(2), 0]
    hop = [choice(rng, pool) for _ in names] if hop is None else hop
    style = style or choice(rng, ['sum', 'product', 'pair', 'half'])
    if style == 'sum':
        x = e ** (I * sum(h * k for h, k in zip(hop, ks)))
    elif style == 'product':
        x = sympy.Mul(*[e ** (I * h * k) for h, k in zip(hop, ks)])
    elif style == 'pair':
        x = e ** (I * sum(h * k for h, k in zip(hop, ks)) / 2) * e ** (sum(I * h * k / 2 for h, k in zip(hop, ks)))
    else:
        x = e ** (2 * I * sum(h * k / 2 for h, k in zip(hop, ks))) * e ** (I * ks[0]) * e ** (-I * ks[0])
    facs = [sympy.Integer(1), S('a'), S('b') ** 2, sympy.sqrt(S('m_1')), e ** (2 * S('a')), e ** (I * S('alpha')),
            e ** (-I * S('alpha') + S('b')), 1 / S('m_1'), S('a') * S('b'), sympy.sqrt(5), sympy.Integer(3)]
    f = sympy.Mul(*[choice(rng, facs) for _ in range(int(rng.integers(0, 3)))])
    return x * f


ENVPOS = {'m_1', 'a', 'b'}


def penv(rng, names):
    return {n: float(rng.uniform(0.2, 1.3) if n in ENVPOS else rng.uniform(-1.3, 1.3)) for n in sorted(names)}


ALLP = ['a', 'b', 'm_1', 'alpha', 'Delta']


@case(P, 200)
def accept_hoppings(rng, note):
    names = rand_momenta(rng, int(rng.integers(1, 4)))
    key = hop_key(rng, names)
    note(key, names)
    ks = tuple(S(x) for x in names)
    bc = internal(qm, '_to_bloch_coeff')(key, ks)
    require(isinstance(bc, BlochCoeff) and np.asarray(bc[0]).shape == (len(ks),), 'not a hopping coefficient: {!r}', bc)
    require(not (bc[1].atoms(sympy.Symbol) & set(ks)), 'momentum left in the coefficient {}', bc)
    M = nice_mat(rng, 2)
    bm = BlochModel({key: M}, momenta=names)
    m = Model({key: M}, momenta=names, normalize=True)
    bm2 = BlochModel(m)
    back = bm2.tomodel()
    for _ in range(2):
        env = penv(rng, list(names) + ALLP)
        want = ev(key, env)
        require_close(ev_key(bc, ks, env), want, 'hopping coefficient {} has a different value', bc)
        require_close(ev(bc.tosympy(ks), env), want, 'tosympy of the hopping coefficient')
        require_close(ev(bc.tosympy(ks, nsimplify=True), env), want, 'tosympy(nsimplify) of the hopping coefficient')
        for x, msg in ((bm, 'BlochModel from dict'), (m, 'Model'), (bm2, 'BlochModel from Model'), (back, 'tomodel')):
            require_close(evm(x, env), want * M, msg)


@case(P, 200)
def reject_others(rng, note):
    names = rand_momenta(rng, int(rng.integers(1, 4)))
    ks = tuple(S(x) for x in names)
    k, k2 = choice(rng, ks), choice(rng, ks)
    good = hop_key(rng, names) if rbool(rng, 0.6) else sympy.Integer(1)
    g = e ** (I * k)
    f = sympy.Function('f')
    bad = choice(rng, ['k', 'k^2', 'exp k', 'exp k2', 'exp ak', 'exp k*k', 'other base', 'f(k)', 'sqrt', 'exp complex',
                       '1/k', 'exp sin', 'mixed', 'sin', 'exp(f)'])
    x = {'k': k, 'k^2': k ** 2 * S('a'), 'exp k': e ** k, 'exp k2': e ** (I * k ** 2), 'exp ak': e ** (I * S('a') * k),
         'exp k*k': e ** (I * k * k2), 'other base': S('a') ** (I * k), 'f(k)': f(k), 'sqrt': sympy.sqrt(k),
         'exp complex': e ** ((1 + 2 * I) * k), '1/k': 1 / k, 'exp sin': e ** (I * f(k)),
         'mixed': g * k2, 'sin': sympy.sin(k), 'exp(f)': e ** (I * k + I * f(k2))}[bad]
    if bad == 'exp k' and good != 1 and rbool(rng):
        x = e ** (sympy.Rational(1, 2) * k)
    key = good * x
    if not (key.atoms(sympy.Symbol) & set(ks)):
        raise Skip
    note(bad, key, names)
    try:
        r = internal(qm, '_to_bloch_coeff')(key, ks)
    except Exception:
        pass
    else:
        # the product may have become a valid hopping term by cancellation
        for _ in range(3):
            env = penv(rng, list(names) + ALLP)
            require_close(ev_key(r, ks, env), ev(key, env), 'a term that is not a hopping was converted to {}', r)
        require(not (r[1].atoms(sympy.Symbol) & set(ks)), 'momentum left in the coefficient {}', r)
        if bad not in ('exp k', 'exp complex', 'sqrt', 'k', '1/k', 'k^2'):
            require(bad == 'mixed', 'a term that is not a hopping was accepted: {}', r)
        raise Skip
    expect_raises(lambda: BlochModel({key: np.eye(2)}, momenta=names), Exception, 'BlochModel accepts a non-hopping key')
    expect_raises(lambda: BlochModel(Model({key: np.eye(2)}, momenta=names)), Exception,
                  'BlochModel accepts a model with a non-hopping key')
    other = hop_key(rng, names)
    expect_raises(lambda: BlochModel({other: np.eye(2), key: np.eye(2)}, momenta=names), Exception,
                  'BlochModel accepts a non-hopping key among others')


def both(rng, names, n, terms=None, fmt='dense'):
    d = {}
    for _ in range(int(rng.integers(1, 4)) if terms is None else terms):
        d[hop_key(rng, names)] = nice_mat(rng, n)
    m = Model(d, momenta=names, normalize=True)
    if not m.data:
        raise Skip
    if fmt != 'dense':
        m = m.tocsr()
    return m, BlochModel(m)


@case(P, 200)
def algebra_in_both_forms(rng, note):
    names = rand_momenta(rng, int(rng.integers(1, 4)))
    n = int(rng.integers(1, 4))
    fmt = choice(rng, ['dense', 'dense', 'csr'])
    m1, b1 = both(rng, names, n, fmt=fmt)
    m2, b2 = both(rng, names, n, fmt=fmt)
    note(describe_model(m1), describe_model(m2))
    R = np.array(unimodular(rng, len(names))) if rbool(rng) else rorth(rng, len(names))
    c = complex(*rng.integers(-3, 4, 2))
    ops = [('identity', lambda a, b: a), ('+', lambda a, b: a + b), ('-', lambda a, b: a - b), ('@', lambda a, b: a @ b),
           ('neg', lambda a, b: -a), ('number', lambda a, b: a * c), ('conj', lambda a, b: a.conj()),
           ('T', lambda a, b: a.T()), ('dagger', lambda a, b: a.T().conj()), ('symbol', lambda a, b: a * S('Delta')),
           ('rotate', lambda a, b: a.rotate_momenta(R)), ('trace', lambda a, b: a.trace()), ('copy', lambda a, b: a.copy()),
           ('rotate then add', lambda a, b: a.rotate_momenta(R) + b), ('conj of product', lambda a, b: (a @ b).conj())]
    if fmt == 'dense':
        ops += [('*', lambda a, b: a * b), ('matrix', lambda a, b: np.diag(np.arange(1, n + 1)) @ a)]
    for name, op in ops:
        rm, rb = op(m1, m2), op(b1, b2)
        require(type(rb) is BlochModel and type(rm) is Model, name + ': type of the result')
        require(tuple(rm.momenta) == tuple(rb.momenta), name + ': momenta')
        env = penv(rng, list(names) + ALLP)
        vm, vb = evm(rm, env), evm(rb, env)
        require_close(vm, vb, name + ' differs between the symbolic and the periodic form')
        back = rb.tomodel()
        require(tuple(back.momenta) == tuple(rb.momenta) and back.shape == rb.shape, name + ': tomodel frame')
        require_close(evm(back, env), vb, name + ': tomodel changes the value')


@case(P, 120)
def substitution_in_both_forms(rng, note):
    names = rand_momenta(rng, int(rng.integers(1, 4)))
    ks = [S(x) for x in names]
    n = int(rng.integers(1, 3))
    m, b = both(rng, names, n)
    what = choice(rng, ['param', 'momentum number', 'momentum symbol', 'affine', 'two'])
    k = choice(rng, ks)
    if what == 'param':
        pairs = [(S('a'), choice(rng, [0.7, sympy.Rational(1, 2), S('b') + 0, 2 * S('Delta')]))]
    elif what == 'momentum number':
        pairs = [(k, choice(rng, [0, 0.3, sympy.pi / 2, 1]))]
    elif what == 'momentum symbol':
        pairs = [(k, S('q_new'))]
    elif what == 'affine':
        pairs = [(k, choice(rng, [2 * k + 1, k + sympy.Rational(1, 2), -k, k + S('alpha'), k - sympy.pi]))]
    else:
        pairs = [(k, S('q_new')), (S('a'), 0.4)]
    note(describe_model(m), pairs)
    rm, rb = m.subs(pairs), b.subs(pairs)
    require(type(rb) is BlochModel, 'BlochModel.subs returns {}', type(rb))
    require(tuple(rm.momenta) == tuple(rb.momenta), 'momenta after substitution {} {}', rm.momenta, rb.momenta)
    env = penv(rng, list(names) + ALLP + ['q_new'])
    inner = dict(env)
    for old, new in reversed(pairs):
        inner[old.name] = ev(sympy.sympify(new), env if old not in ks or what != 'affine' else env)
    want = evm(m, inner)
    require_close(evm(rm, env), want, 'Model.subs')
    require_close(evm(rb, env), want, 'BlochModel.subs')


@case(P, 100)
def from_strings(rng, note):
    names = ('k_x', 'k_y')
    terms = ['sin(k_x) * sigma_x', 'cos(k_y) * sigma_y', '(1 - cos(k_x) - cos(k_y)) * sigma_z', 't * exp(I * k_x) * sigma_0',
             'alpha * sin(k_x + k_y) * sigma_y', 'e^(I * k_x / 2) * sigma_x', 'cos(k_x / 2 - k_y) * sigma_x',
             'sin(k_x) * cos(k_y) * sigma_z', 'm_1 * sigma_0', 'exp(-I * k_y) * sigma_y', 'cos(2 * k_x) * sigma_0',
             'sin(k_x)**2 * sigma_z', 'exp(I * (k_x + phi)) * sigma_x', 'sqrt(3) * cos(k_x + sqrt(3) * k_y) * sigma_y']
    s = ' + '.join(choice(rng, terms) for _ in range(int(rng.integers(1, 4))))
    note(s)
    m, b = Model(s, momenta=names), BlochModel(s, momenta=names)
    for k in b.data:
        require(isinstance(k, BlochCoeff), 'key {!r}', k)
    sx = [np.eye(2), np.array([[0, 1], [1, 0]]), np.array([[0, -1j], [1j, 0]]), np.diag([1, -1])]
    for _ in range(2):
        env = rand_env(rng, ['k_x', 'k_y', 't', 'alpha', 'm_1', 'phi'])
        ns = dict(env, sin=np.sin, cos=np.cos, exp=np.exp, e=np.e, I=1j, sqrt=np.sqrt,
                  sigma_0=sx[0], sigma_x=sx[1], sigma_y=sx[2], sigma_z=sx[3])
        want = eval(s.replace('^', '**'), {}, ns)
        require_close(evm(m, env), want, 'Model from string')
        require_close(evm(b, env), want, 'BlochModel from string')
        require_close(evm(b.tomodel(), env), want, 'tomodel')
        require_close(evm(BlochModel(m), env), want, 'BlochModel(Model)')
        f = b.lambdify()
        import inspect
        names_ = list(inspect.signature(f).parameters)
        require_close(f(**{x: env[x] for x in names_}), want, 'lambdify of the periodic form')
        require_close(m.lambdify()(**{x: env[x] for x in inspect.signature(m.lambdify()).parameters}), want, 'lambdify')


@case(P, 80)
def hopping_dict(rng, note):
    """from hopping coefficients to symbolic form and back"""
    names = rand_momenta(rng, int(rng.integers(1, 4)))
    fmt = choice(rng, ['dense', 'csr', 'lo', 'scalar'])
    kind = choice(rng, ['int', 'half', 'float'])
    hops = {}
    for _ in range(int(rng.integers(1, 5))):
        hops[BlochCoeff(rand_hop(rng, len(names), kind), choice(rng, [S('a'), sympy.Integer(1), S('b') ** 2]))] = nice_mat(rng, 2)
    d = {k: to_format(v, fmt) for k, v in hops.items()}
    b = BlochModel(d, momenta=names)
    note(describe_model(b), fmt)
    env = penv(rng, list(names) + ALLP)
    want = sum(ev_key(k, b.momenta, env) * dense(v) for k, v in d.items())
    m = b.tomodel()
    require_close(evm(b, env), want, 'BlochModel')
    require_close(evm(m, env), want, 'tomodel')
    require(m.format is b.format and m.shape == b.shape and m.momenta == b.momenta, 'tomodel: frame')
    if fmt != 'lo':
        b2 = BlochModel(m)
        require_close(evm(b2, env), want, 'BlochModel(tomodel)')
        require(len(b2.data) == len(b.data), 'number of hoppings changed {} {}', len(b2.data), len(b.data))
        for k in b.data:
            require_close(dense(b2[k]), dense(b[k]), 'hopping {} changed', k)
    # lookup with symbolic keys
    for k in b.data:
        require_close(dense(b[k.tosympy(b.momenta)]), dense(b.data[k]), 'lookup of {} by its symbolic form', k)
    if fmt in ('dense',):
        sm = b.tosympy()
        v = np.array([[ev(sm[i, j], env) for j in range(2)] for i in range(2)])
        require_close(v, want, 'tosympy')
        sm = b.tosympy(nsimplify=True)
        v = np.array([[ev(sm[i, j], env) for j in range(2)] for i in range(2)])
        require_close(v, want, 'tosympy(nsimplify)')


@case(P, 40)
def filters(rng, note):
    """keep of a BlochModel built from symbolic input: exactly the listed hopping coefficients remain"""
    names = ('k_x', 'k_y')
    sx = [np.eye(2), np.array([[0, 1], [1, 0]]), np.array([[0, -1j], [1j, 0]]), np.diag([1, -1])]
    bc = [BlochCoeff(np.array([1, 0]), sympy.Integer(1)), BlochCoeff(np.array([-1, 0]), sympy.Integer(1)),
          BlochCoeff(np.array([0, 1]), S('a')), BlochCoeff(np.array([0, 0]), S('b')), BlochCoeff(np.array([1, -1]), S('a'))]
    vals = [choice(rng, sx) * (i + 1) for i in range(len(bc))]
    chosen = [i for i in range(len(bc)) if rbool(rng, 0.7)] or [0]
    kept = [i for i in range(len(bc)) if rbool(rng, 0.5)] or [0, 3]
    ks = tuple(S(x) for x in names)
    d = {bc[i].tosympy(ks): vals[i] for i in chosen}
    how = choice(rng, ['dictionary', 'expression', 'hoppings'])
    keep = [bc[i] if how == 'hoppings' or rbool(rng) else bc[i].tosympy(ks) for i in kept]
    note(how, d, keep)
    if how == 'dictionary':
        b = BlochModel(d, momenta=names, keep=keep)
    elif how == 'hoppings':
        b = BlochModel({bc[i]: vals[i] for i in chosen}, momenta=names, keep=keep)
    else:
        x = sympy.zeros(2)
        for k, v in d.items():
            x += k * sympy.Matrix(v)
        b = BlochModel(x, momenta=names, keep=keep)
    left = [i for i in chosen if i in kept]
    require(len(b.data) == len(left) and all(bc[i] in b.data for i in left), 'terms {} instead of {}', list(b.data),
            [bc[i] for i in left])
    for i in left:
        require_close(dense(b.data[bc[i]]), vals[i], 'value of a kept term')
