"""C05: arithmetic of Hamiltonian models is pointwise arithmetic of their values."""
from .common import *

P = 'C05'
FMTS = ['dense', 'dense', 'csr', 'csc', 'lo', 'scalar']
FORMAT_OF = {'dense': np.ndarray, 'csr': scipy.sparse.csr_matrix, 'csc': scipy.sparse.csc_matrix,
             'lo': sla.LinearOperator, 'scalar': np.complex128}


def rmodel(rng, mom, n, m=None, fmt='dense', bloch=None, terms=None):
    terms = int(choice(rng, [1, 2, 3, 3, 6])) if terms is None else terms
    bloch = rbool(rng, 0.4) if bloch is None else bloch
    if bloch:
        if fmt == 'scalar':
            d = {}
            for _ in range(terms):
                c = sympy.Symbol(choice(rng, PARAMS)) if rbool(rng) else sympy.Integer(1)
                d[BlochCoeff(rand_hop(rng, len(mom)), c)] = complex(*rng.integers(-2, 3, 2))
            return BlochModel(d, momenta=mom)
        return rand_bloch_model(rng, mom, n, m, terms=terms, fmt=fmt)
    return rand_poly_model(rng, mom, n, m, terms=terms, fmt=fmt)


def frame(r, ref, msg, shape=None, fmt=None):
    require(type(r) is type(ref), msg + ': result is {} instead of {}', type(r), type(ref))
    require(tuple(r.momenta) == tuple(ref.momenta), msg + ': momenta {}', r.momenta)
    shape = ref.shape if shape is None else shape
    fmt = ref.format if fmt is None else fmt
    require(tuple(r.shape) == tuple(shape), msg + ': shape {} instead of {}', r.shape, shape)
    require(r.format is fmt or (isinstance(r.format, type) and issubclass(r.format, fmt) and fmt in (np.ndarray, sla.LinearOperator)),
            msg + ': format {} instead of {}', r.format, fmt)
    for k, v in r.data.items():
        if fmt is np.complex128:
            require(isinstance(v, Number_), msg + ': value of type {} in a scalar model', type(v))
        else:
            require(isinstance(v, r.format) and tuple(v.shape) == tuple(shape),
                    msg + ': entry {} of type {} shape {}', k, type(v), getattr(v, 'shape', None))
        if type(r) is Model:
            require(isinstance(k, sympy.Basic), msg + ': key {!r} is not symbolic', k)
        else:
            require(isinstance(k, BlochCoeff), msg + ': key {!r} is not a BlochCoeff', k)


Number_ = (int, float, complex, np.number)


def same(r, f, models, rng, msg, n=2):
    for env in envs(rng, list(models) + [r], n):
        want = np.asarray(f(env), dtype=complex)
        require_close(evm(r, env, shape=want.shape), want, msg + ' at ' + str(env))


def mom(rng):
    return rand_momenta(rng, int(rng.integers(1, 4)))


@case(P, 250)
def add_sub_neg(rng, note):
    mm, n, m = mom(rng), int(rng.integers(1, 4)), int(rng.integers(1, 4))
    fmt, bl = choice(rng, FMTS), rbool(rng, 0.4)
    a, b = (rmodel(rng, mm, n, m, fmt, bl) for _ in range(2))
    if rbool(rng, 0.3):   # overlapping keys
        ks = list(a.data)[:1]
        b = b + type(b)({k: a.data[k] for k in ks}, momenta=mm)
    note(describe_model(a), describe_model(b))
    for r, f, msg in ((a + b, lambda e: evm(a, e) + evm(b, e), 'a + b'),
                      (a - b, lambda e: evm(a, e) - evm(b, e), 'a - b'),
                      (-a, lambda e: -evm(a, e), '-a'), (a + 0, lambda e: evm(a, e), 'a + 0'),
                      (0 + a, lambda e: evm(a, e), '0 + a'),
                      (sum([a, b, a]), lambda e: 2 * evm(a, e) + evm(b, e), 'sum([a, b, a])')):
        frame(r, a, msg)
        same(r, f, [a, b], rng, msg)
    zero = a - a
    for env in envs(rng, [a], 1):
        require_close(evm(zero, env), np.zeros(a.shape), 'a - a')


@case(P, 150)
def add_constant(rng, note):
    mm, n = mom(rng), int(rng.integers(1, 4))
    fmt = choice(rng, ['dense', 'dense', 'csr', 'csc', 'scalar'])
    a = rmodel(rng, mm, n, None, fmt)
    c = to_format(nice_mat(rng, n), fmt)
    if fmt == 'scalar':
        c = choice(rng, [complex(c), float(c.real) + 1.5, int(rng.integers(1, 4))])
    note(describe_model(a), fmt_mat(c))
    rs = [(a + c, 'model + constant')]
    if fmt in ('dense', 'scalar'):
        rs.append((c + a, 'constant + model'))
    for r, msg in rs:
        frame(r, a, msg)
        same(r, lambda e: evm(a, e) + dense(c), [a], rng, msg)
    r = rs[0][0]
    # the result is a working model
    same(r + r, lambda e: 2 * (evm(a, e) + dense(c)), [a], rng, '2 * (model + constant)')
    same(r.conj(), lambda e: (evm(a, e) + dense(c)).conj(), [a], rng, '(model + constant).conj()')
    g = np.array(unimodular(rng, len(mm)))
    same(r.rotate_momenta(g), lambda e: evm(a, with_momenta(e, a.momenta, g @ kvec(e, a.momenta))) + dense(c),
         [a], rng, '(model + constant) rotated')
    require(r == a + c, 'equal models compare unequal')
    same((r - c), lambda e: evm(a, e), [a], rng, 'model + c - c')


@case(P, 200)
def scalar_multiples(rng, note):
    mm, n, m = mom(rng), int(rng.integers(1, 4)), int(rng.integers(1, 4))
    a = rmodel(rng, mm, n, m, choice(rng, FMTS))
    c = choice(rng, [2, -1, 0.5, 1j, 2 - 1j, np.float64(1.5), np.complex128(1 + 2j), 0, 3,
                     sympy.Integer(3), sympy.Rational(2, 3), sympy.Float(1.25)])
    s = choice(rng, [sympy.Symbol('zeta'), sympy.Symbol('a'), sympy.Symbol(str(a.momenta[0])), sympy.Symbol('m_1') ** 2])
    if isinstance(a, BlochModel) and s in a.momenta:
        s = sympy.Symbol('a')
    note(describe_model(a), c, s)
    for r, msg in ((a * c, 'a * c'), (c * a, 'c * a')):
        frame(r, a, msg)
        same(r, lambda e: complex(c) * evm(a, e), [a], rng, msg)
    if c != 0:
        r = a / c
        frame(r, a, 'a / c')
        same(r, lambda e: evm(a, e) / complex(c), [a], rng, 'a / c')
    for r, msg in ((a * s, 'a * symbol'), (s * a, 'symbol * a')):
        frame(r, a, msg)
        for env in [rand_env(rng, set(model_names(a, r)) | {x.name for x in s.atoms(sympy.Symbol)}) for _ in range(2)]:
            require_close(evm(r, env), ev(s, env) * evm(a, env), msg)


@case(P, 200)
def matrix_products(rng, note):
    mm = mom(rng)
    n, m, l = (int(rng.integers(1, 4)) for _ in range(3))
    fmt = choice(rng, ['dense', 'dense', 'csr', 'csc', 'lo'])
    bl = rbool(rng, 0.4)
    a, b = rmodel(rng, mm, n, m, fmt, bl), rmodel(rng, mm, m, l, fmt, bl)
    note(describe_model(a), describe_model(b))
    r = a @ b
    frame(r, a, 'a @ b', shape=(n, l))
    same(r, lambda e: evm(a, e) @ evm(b, e), [a, b], rng, 'a @ b')
    M = nice_mat(rng, m, l)
    r = a @ M
    require(r.shape == (n, l) and r.format is np.ndarray and r.momenta == a.momenta, 'a @ matrix: shape or format')
    same(r, lambda e: evm(a, e) @ M, [a], rng, 'a @ matrix')
    if fmt == 'dense':
        L = nice_mat(rng, l, n)
        r = L @ a
        frame(r, a, 'matrix @ a', shape=(l, m))
        same(r, lambda e: L @ evm(a, e), [a], rng, 'matrix @ a')
        v = nice_mat(rng, m, 1)[:, 0]
        r = a @ v
        require(tuple(r.shape) == (n,), 'a @ vector: shape {}', r.shape)
        same(r, lambda e: evm(a, e) @ v, [a], rng, 'a @ vector')
    if fmt in ('csr', 'csc'):
        S = to_format(M, fmt)
        r = a @ S
        require(tuple(r.shape) == (n, l), 'a @ sparse: shape')
        same(r, lambda e: evm(a, e) @ M, [a], rng, 'a @ sparse')


@case(P, 150)
def elementwise_products(rng, note):
    mm = mom(rng)
    n, m = (int(rng.integers(1, 4)) for _ in range(2))
    bl = rbool(rng, 0.4)
    kind = choice(rng, ['dd', 'sd', 'ds', 'ss', 'array', 'scsr', 'scm'])
    A = lambda f: rmodel(rng, mm, n, m, f, bl)
    if kind in ('dd', 'sd', 'ds', 'ss'):
        f = {'d': 'dense', 's': 'scalar'}
        a, b = A(f[kind[0]]), A(f[kind[1]])
        note(describe_model(a), describe_model(b))
        r = a * b
        shape = () if kind == 'ss' else (n, m)
        frame(r, a, 'a * b', shape=shape, fmt=np.complex128 if kind == 'ss' else np.ndarray)
        same(r, lambda e: evm(a, e) * evm(b, e), [a, b], rng, 'elementwise a * b')
    elif kind == 'array':
        a, M = A('dense'), nice_mat(rng, n, m)
        note(describe_model(a), fmt_mat(M))
        for r, msg in ((a * M, 'a * matrix'), (M * a, 'matrix * a')):
            frame(r, a, msg)
            same(r, lambda e: evm(a, e) * M, [a], rng, msg)
    else:
        a, M = A('scalar'), nice_mat(rng, n, m)
        Mx = to_format(M, 'csr') if kind == 'scsr' else M
        note(describe_model(a), kind, fmt_mat(M))
        r = a * Mx
        require(tuple(r.shape) == (n, m), 'scalar model * matrix: shape {}', r.shape)
        same(r, lambda e: evm(a, e) * M, [a], rng, 'scalar model * matrix')
        if kind == 'scm':
            r = Mx * a
            require(tuple(r.shape) == (n, m), 'matrix * scalar model: shape {}', r.shape)
            same(r, lambda e: evm(a, e) * M, [a], rng, 'matrix * scalar model')


@case(P, 200)
def maps(rng, note):
    mm = mom(rng)
    n, m = (int(rng.integers(1, 4)) for _ in range(2))
    fmt = choice(rng, FMTS)
    a = rmodel(rng, mm, n, m, fmt)
    note(describe_model(a))
    r = a.copy()
    frame(r, a, 'copy')
    same(r, lambda e: evm(a, e), [a], rng, 'copy')
    z = a.zeros_like()
    frame(z, a, 'zeros_like')
    require(not z.data, 'zeros_like is not empty')
    if fmt != 'scalar':
        r = a.T()
        frame(r, a, 'T', shape=(m, n))
        same(r, lambda e: evm(a, e).T, [a], rng, 'T')
        r = a.toarray()
        frame(r, a, 'toarray', fmt=np.ndarray)
        same(r, lambda e: evm(a, e), [a], rng, 'toarray')
        r = a.tocsr()
        frame(r, a, 'tocsr', fmt=scipy.sparse.csr_matrix)
        same(r, lambda e: evm(a, e), [a], rng, 'tocsr')
    if fmt != 'lo':
        r = a.conj()
        frame(r, a, 'conj')
        same(r, lambda e: evm(a, e).conj(), [a], rng, 'conj')
    if fmt == 'dense':
        sh = choice(rng, [(n * m,), (m, n), (1, n * m), (n, m, 1)])
        r = a.reshape(sh)
        require(tuple(r.shape) == sh, 'reshape: shape')
        same(r, lambda e: evm(a, e).reshape(sh), [a], rng, 'reshape')
        r = a.reshape(-1)
        require(tuple(r.shape) == (n * m,), 'reshape(-1): shape {}', r.shape)
        same(r, lambda e: evm(a, e).reshape(-1), [a], rng, 'reshape(-1)')
    if fmt in ('dense', 'csr', 'csc') and n == m:
        r = a.trace()
        require(r.shape == () and r.format is np.complex128 and r.momenta == a.momenta, 'trace: frame')
        same(r, lambda e: np.trace(evm(a, e)), [a], rng, 'trace')


@case(P, 120)
def rounding_and_small_terms(rng, note):
    mm, n = mom(rng), int(rng.integers(1, 4))
    fmt = choice(rng, ['dense', 'csr', 'csc'])
    a = rmodel(rng, mm, n, n, 'dense')
    dec = int(rng.integers(1, 6))
    d = {}
    for k, v in a.data.items():
        scale = choice(rng, [1, 1, 1, 1e-7, 1e-4, 1e-9, 100])
        d[k] = scale * (v + rmat(rng, n) * choice(rng, [0, 1, 0.01]))
    a = type(a)({k: to_format(v, fmt) for k, v in d.items()}, momenta=mm)
    note(describe_model(a), dec, [float(np.abs(v).max()) for v in d.values()])
    r = a.around(dec)
    frame(r, a, 'around')
    for k, v in d.items():
        require_close(dense(r[k]), np.around(v, dec), 'around({}): term {}', dec, k, tol=1e-7)
    require(set(r.data) <= set(a.data), 'around adds terms')
    for k, v in r.data.items():
        require(np.any(np.abs(dense(v)) > 1e-9), 'around keeps a vanishing term {}', k)
    rtol, atol = choice(rng, [(1e-5, 1e-8), (1e-3, 1e-8), (1e-9, 1e-3), (0.3, 1e-8)])
    r = a.eliminate_zeros(rtol, atol)
    frame(r, a, 'eliminate_zeros')
    norms = {k: np.sqrt(np.sum(np.abs(v) ** 2)) for k, v in d.items()}
    tol = max(atol, rtol * max(norms.values()))
    for k, v in d.items():
        if norms[k] > 1.0001 * tol:
            require(k in r.data, 'eliminate_zeros removed the large term {}', k)
            require_close(dense(r.data[k]), v, 'eliminate_zeros changed the term {}', k)
        elif norms[k] < 0.9999 * tol:
            require(k not in r.data, 'eliminate_zeros kept the small term {}', k)


def perturb(rng, model, size):
    """copy with one entry of one term changed by size"""
    d = {k: dense(v).copy() for k, v in model.data.items()}
    k = choice(rng, list(d))
    i = tuple(int(rng.integers(s)) for s in d[k].shape)
    d[k] = d[k] + 0
    d[k][i] += size
    return d


@case(P, 250)
def equality(rng, note):
    """equal exactly when all coefficients agree within tolerance, missing terms counting as zero"""
    mm, n = mom(rng), int(rng.integers(1, 4))
    fmt = choice(rng, ['dense', 'csr', 'csc', 'lo', 'scalar'])
    a = rmodel(rng, mm, n, n, fmt)
    d0 = {k: dense(v) for k, v in a.data.items()}
    mk = lambda d: type(a)({k: to_format(v, fmt) for k, v in d.items()}, momenta=mm)
    what = choice(rng, ['same', 'close', 'entry', 'missing', 'zero term', 'reorder', 'missing tiny'])
    note(what, describe_model(a))
    d = dict(d0)
    if what == 'close':
        d, want = {k: v * (1 + 1e-9) for k, v in d0.items()}, True
    elif what == 'entry':
        k = choice(rng, list(d0))
        i = tuple(int(rng.integers(s)) for s in d0[k].shape)
        d[k] = d0[k].copy()
        d[k][i] += choice(rng, [1e-3, 0.5, 1j]) * max(1, np.abs(d0[k]).max())
        want = False
    elif what == 'missing':
        k = choice(rng, list(d0))
        want = not np.any(d0[k])
        del d[k]
    elif what == 'zero term':
        k = list(d0)[0]
        kz = (k * sympy.Symbol('zeta'))
        d[kz] = np.zeros_like(d0[k])
        want = True
    elif what == 'missing tiny':
        k = list(d0)[0]
        kz = (k * sympy.Symbol('zeta'))
        d[kz] = np.ones_like(d0[k]) * 1e-10
        want = True
    elif what == 'reorder':
        d, want = dict(reversed(list(d0.items()))), True
    else:
        want = True
    if not d:
        raise Skip
    b = mk(d)
    require((a == b) is want or (a == b) == want, '{}: a == b is {}', what, a == b)
    require((b == a) == want, '{}: b == a is {}', what, b == a)
    require(a.allclose(b) == want and b.allclose(a) == want, '{}: allclose', what)
    if rbool(rng, 0.3):
        nz = any(np.any(v) for v in d0.values())
        require((a == {}) == (not nz) and (a == 0) == (not nz), 'comparison with zero')
        za = a - a
        require(za == 0 and za == {}, 'a - a == 0 fails')
        require((a == za) == (not nz) and (za == a) == (not nz), 'comparison with a - a')


@case(P, 120)
def rejection(rng, note):
    """operands that do not fit are rejected"""
    mm, n = rand_momenta(rng, 2, default=True), int(rng.integers(1, 4))
    fmt = choice(rng, ['dense', 'csr', 'lo'])
    bl = rbool(rng, 0.4)
    a = rmodel(rng, mm, n, n, fmt, bl)
    what = choice(rng, ['shape', 'format', 'momenta add', 'momenta mul', 'momenta matmul', 'const shape', 'type',
                        'set', 'divide', 'init shape', 'init format', 'inner'])
    note(what, describe_model(a))
    other_mm = choice(rng, [('k_y', 'k_x'), ('k_x', 'k_z'), ('k_x',), ('k_x', 'k_y', 'k_z')])
    b = None
    if what == 'shape':
        b = rmodel(rng, mm, n + 1, n, fmt, bl)
        expect_raises(lambda: a + b, ValueError, 'sum of models with different shapes accepted')
        expect_raises(lambda: a - b, ValueError, 'difference of models with different shapes accepted')
    elif what == 'format':
        b = rmodel(rng, mm, n, n, 'csc', bl)
        expect_raises(lambda: a + b, ValueError, 'sum of models with different formats accepted')
    elif what == 'momenta add':
        b = rmodel(rng, other_mm, n, n, fmt, bl)
        expect_raises(lambda: a + b, ValueError, 'sum of models with different momenta accepted')
    elif what == 'momenta mul':
        a = rmodel(rng, mm, n, n, 'dense', bl)
        b = rmodel(rng, other_mm, n, n, 'dense', bl)
        expect_raises(lambda: a * b, ValueError, 'product of models with different momenta accepted')
    elif what == 'momenta matmul':
        b = rmodel(rng, other_mm, n, n, fmt, bl)
        expect_raises(lambda: a @ b, ValueError, 'matrix product of models with different momenta accepted')
    elif what == 'const shape':
        c = to_format(nice_mat(rng, n + 1, n), 'dense' if fmt == 'lo' else fmt)
        expect_raises(lambda: a + c, (ValueError, NotImplementedError, TypeError), 'sum with a constant of wrong shape accepted')
        expect_raises(lambda: a + 1.5, (ValueError, NotImplementedError, TypeError), 'matrix model + number accepted')
    elif what == 'type':
        expect_raises(lambda: a + 'x', (ValueError, NotImplementedError, TypeError), 'model + str accepted')
    elif what == 'set':
        def f():
            a[sympy.Symbol('zeta')] = np.zeros((n + 1, n), complex)
        expect_raises(f, ValueError, 'assignment of an entry with wrong shape accepted')
        def f():
            a[sympy.Symbol('zeta')] = 1.0
        expect_raises(f, ValueError, 'assignment of a number in a matrix model accepted')
    elif what == 'divide':
        expect_raises(lambda: a / nice_mat(rng, n), TypeError, 'division by a matrix accepted')
    elif what == 'init shape':
        expect_raises(lambda: Model({'a': np.eye(2), 'b': np.eye(3)}), ValueError, 'entries of different shape accepted')
    elif what == 'init format':
        expect_raises(lambda: Model({'a': np.eye(2), 'b': scipy.sparse.csr_matrix(np.eye(2))}), ValueError,
                      'entries of different format accepted')
    elif what == 'inner':
        b = rmodel(rng, mm, n + 1, n, fmt, bl)
        expect_raises(lambda: a @ b, Exception, 'matrix product with mismatched inner dimension accepted')


@case(P, 150)
def keep_filter(rng, note):
    """products with a filter keep exactly the kept symbols"""
    mm, n = rand_momenta(rng, 2), int(rng.integers(1, 3))
    bl = rbool(rng, 0.4)
    a, b = rmodel(rng, mm, n, n, 'dense', bl, terms=3), rmodel(rng, mm, n, n, 'dense', bl, terms=3)
    prods = [k1 * k2 for k1 in a.data for k2 in b.data]
    pool = list(a.data) + list(b.data) + prods
    keep = [choice(rng, pool) for _ in range(int(rng.integers(2, 6)))]
    keepa = keep + (list(a.data) if rbool(rng) else [])
    kw = dict(momenta=mm, shape=(n, n), format=np.ndarray)
    fa = type(a)(a.data, keep=keepa, **kw)
    keepb = choice(rng, [keep, [choice(rng, pool) for _ in range(int(rng.integers(1, 6)))] + list(b.data)])
    fb = type(b)(b.data, keep=keepb, **kw) if rbool(rng, 0.7) else b
    note('keep', keepa, keepb, describe_model(a), describe_model(b))
    require(set(fa.data) == {k for k in a.data if k in set(keepa)}, 'filter at construction')
    for k in fa.data:
        require_close(fa.data[k], a.data[k], 'filtered term changed')
    allk = set(fa.keep) | set(fb.keep)
    for op, r in (('@', fa @ fb), ('*', fa * fb)):
        def f(env):
            s = np.zeros((n, n), complex)
            for k1, v1 in fa.data.items():
                for k2, v2 in fb.data.items():
                    if k1 * k2 in allk:
                        s = s + ev_key(k1, fa.momenta, env) * ev_key(k2, fa.momenta, env) * (v1 @ v2 if op == '@' else v1 * v2)
            return s
        same(r, f, [fa, fb], rng, 'filtered product ' + op)
        require(set(r.data) <= allk, 'product contains terms outside the filter')
        if r.data:
            require(set(r.keep) == allk, 'filter of the product')
        require(tuple(r.shape) == (n, n) and r.format is np.ndarray, 'frame of the filtered product')
    s = sympy.Symbol('a')
    r = fa * s
    same(r, lambda env: sum((ev_key(k, fa.momenta, env) * env['a'] * v for k, v in fa.data.items()
                             if k * s in fa.keep), np.zeros((n, n), complex)),
         [fa, Model({'a': np.eye(1)}, momenta=mm)], rng, 'filtered product with a symbol')
    for r, msg in ((fa.copy(), 'copy'), (-fa, '-a'), (fa * 2, '2 a'), (fa.T(), 'T'), (fa.conj() if not bl else fa.copy(), 'conj'),
                   (fa.zeros_like(), 'zeros_like'), (fa.toarray(), 'toarray'), (fa + fa, 'a + a')):
        if r.data or msg == 'zeros_like':
            require(set(r.keep) == set(fa.keep), msg + ' changes the filter')


@case(P, 80)
def bloch_coefficients(rng, note):
    d = int(rng.integers(1, 4))
    syms = [sympy.Symbol(s) for s in 'ab'] + [sympy.Integer(1)]
    mk = lambda: BlochCoeff(rand_hop(rng, d, choice(rng, ['int', 'half', 'float'])), choice(rng, syms))
    x, y = mk(), mk()
    mom_ = [sympy.Symbol(s) for s in rand_momenta(rng, d)]
    note(x, y)
    for env in [rand_env(rng, {s.name for s in mom_} | {'a', 'b'}) for _ in range(2)]:
        require_close(ev_key(x * y, mom_, env), ev_key(x, mom_, env) * ev_key(y, mom_, env), 'product of coefficients')
        require_close(ev_key(x * syms[0], mom_, env), ev_key(x, mom_, env) * env['a'], 'coefficient * symbol')
        require_close(ev(x.tosympy(mom_), env), ev_key(x, mom_, env), 'tosympy')
    same_ = bool(np.allclose(x[0], y[0])) and x[1] == y[1]
    require((x == y) == same_, 'x == y is {}', x == y)
    z = BlochCoeff(x[0] * (1 + 1e-9), x[1])
    require(x == z and z == x and hash(x) == hash(z), 'nearly equal hopping vectors differ')
    # hoppings that differ by rounding noise only, also where a decimal rounding would separate them
    h = x[0] + choice(rng, [0.5, 0.25, 1 / 3, 0]) * 10.0 ** -int(rng.integers(0, 13))
    noise = 10.0 ** -int(rng.integers(12, 15)) * rng.choice([-1, 1], d)
    p, q = BlochCoeff(h + noise, x[1]), BlochCoeff(h - noise, x[1])
    require(p == q and q == p and hash(p) == hash(q), 'hopping vectors {} that differ by {} are different keys', h, noise)
    require(q in BlochModel({p: np.eye(1)}, momenta=mom_).data, 'lookup of a hopping with rounding noise')
    w = BlochCoeff(x[0] + np.eye(d)[int(rng.integers(d))] * 0.01, x[1])
    require(not (x == w), 'different hopping vectors compare equal')
    require(not (x == BlochCoeff(x[0], x[1] * sympy.Symbol('zeta'))), 'different coefficients compare equal')
    require(x.copy() == x and x.copy()[0] is not x[0], 'copy')
    one = BlochCoeff(np.zeros(d), sympy.Integer(1))
    require(one == 1 and (x == 1) == (not np.any(x[0]) and x[1] == 1), 'comparison with 1')
    m = BlochModel({x: np.eye(2)}, momenta=mom_)
    require(z in m.data and (y in m.data) == same_, 'lookup of coefficients')
    expect_raises(lambda: BlochCoeff(x[0], syms[0] + syms[1]), ValueError, 'sum accepted as a coefficient')
    expect_raises(lambda: BlochCoeff(list(x[0]), syms[0]), ValueError, 'list accepted as hopping')
