"""C01: products, inverses and powers of symmetry operations compose their actions."""
from .common import *

P = 'C01'
EXACT = ['int', 'uni', 'sympy']
FLOAT = ['int', 'float', 'floatint', 'skew']


def pges(rng, note, count, with_U=True, d=None, n=None, cls=None):
    d = int(rng.integers(0, 4)) if d is None else d
    n = int(rng.integers(1, 4)) if n is None else n
    cls = cls or choice(rng, [EXACT, FLOAT])
    gs = [rand_pge(rng, d, n if with_U else None, kind=choice(rng, cls))[0] for _ in range(count)]
    for g in gs:
        note(describe_pge(g))
    return d, n, gs


def check_parts(g, R, c, a, U, msg):
    require_close(Rf(g), R, msg + ': spatial part')
    require(g.conjugate == c, msg + ': antiunitary flag')
    require(g.antisymmetry == a, msg + ': antisymmetry flag')
    if U is None:
        require(g.U is None, msg + ': unexpected unitary part')
    else:
        require(g.U is not None, msg + ': missing unitary part')
        require_close(g.U, U, msg + ': unitary part')


def mul_U(g1, g2):
    if g1.U is None or g2.U is None:
        return None
    return g1.U @ (g2.U.conj() if g1.conjugate else g2.U)


@case(P, 60)
def product_parts(rng, note):
    with_U = rbool(rng, 0.8)
    d, n, (g1, g2) = pges(rng, note, 2, with_U)
    check_parts(g1 * g2, Rf(g1) @ Rf(g2), g1.conjugate ^ g2.conjugate, g1.antisymmetry ^ g2.antisymmetry,
                mul_U(g1, g2), 'product')


@case(P, 60)
def inverse_parts(rng, note):
    with_U = rbool(rng, 0.8)
    d, n, (g,) = pges(rng, note, 1, with_U)
    gi = g.inv()
    U = None if g.U is None else (g.U.T if g.conjugate else g.U.conj().T)
    check_parts(gi, la.inv(Rf(g)) if d else Rf(g), g.conjugate, g.antisymmetry, U, 'inverse')
    eye = None if g.U is None else np.eye(n)
    check_parts(g * gi, np.eye(d), False, False, eye, 'g * g.inv()')
    check_parts(gi * g, np.eye(d), False, False, eye, 'g.inv() * g')
    check_parts(g.identity(), np.eye(d), False, False, eye, 'identity')
    check_parts(qsymm.identity(d, None if g.U is None else n), np.eye(d), False, False, eye, 'identity factory')


@case(P, 50)
def power_parts(rng, note):
    with_U = rbool(rng, 0.8)
    d, n, (g,) = pges(rng, note, 1, with_U)
    e = int(rng.integers(-5, 7))
    note('power', e)
    base = g if e >= 0 else g.inv()
    R, c, a = np.eye(d), False, False
    U = None if g.U is None else np.eye(n)
    for _ in range(abs(e)):
        R = R @ Rf(base)
        U = None if U is None else U @ (base.U.conj() if c else base.U)
        c ^= base.conjugate
        a ^= base.antisymmetry
    check_parts(g ** e, R, c, a, U, 'power {}'.format(e))


@case(P, 30)
def associativity(rng, note):
    d, n, (a, b, c) = pges(rng, note, 3, rbool(rng, 0.8))
    x, y = (a * b) * c, a * (b * c)
    check_parts(x, Rf(y), y.conjugate, y.antisymmetry, y.U, 'associativity')
    z = (a * b).inv()
    w = b.inv() * a.inv()
    check_parts(z, Rf(w), w.conjugate, w.antisymmetry, w.U, 'inverse of product')


def _model(rng, note, d, n, exact, bloch=None):
    names = rand_momenta(rng, d)
    if bloch is None:
        bloch = d > 0 and rbool(rng, 0.4)
    if bloch:
        m = rand_bloch_model(rng, names, n, kind=choice(rng, ['int', 'half', 'float']), terms=2)
    else:
        m = rand_poly_model(rng, names, n, terms=3, fmt=choice(rng, ['dense', 'dense', 'csr']))
    note(describe_model(m))
    return m


def check_eq(rng, a, b, msg):
    compare_models(a, b, rng, msg, tol=1e-6, n=2)


@case(P, 40)
def product_action(rng, note):
    cls = choice(rng, [EXACT, FLOAT])
    d, n, (g1, g2) = pges(rng, note, 2, True, cls=cls)
    m = _model(rng, note, d, n, cls is EXACT)
    check_eq(rng, (g1 * g2).apply(m), g1.apply(g2.apply(m)), 'acting with a product differs from acting one after the other')


@case(P, 30)
def inverse_action(rng, note):
    cls = choice(rng, [EXACT, FLOAT])
    d, n, (g,) = pges(rng, note, 1, rbool(rng, 0.8), cls=cls)
    m = _model(rng, note, d, n, cls is EXACT)
    check_eq(rng, g.inv().apply(g.apply(m)), m, 'inverse does not undo the action (left)')
    check_eq(rng, g.apply(g.inv().apply(m)), m, 'inverse does not undo the action (right)')
    check_eq(rng, g.identity().apply(m), m, 'identity changes the Hamiltonian')


@case(P, 20)
def power_action(rng, note):
    cls = choice(rng, [EXACT, FLOAT])
    d, n, (g,) = pges(rng, note, 1, rbool(rng, 0.8), cls=cls)
    m = _model(rng, note, d, n, cls is EXACT)
    e = int(rng.integers(-3, 4))
    note('power', e)
    r = m
    gi = g.inv()
    for _ in range(abs(e)):
        r = (g if e > 0 else gi).apply(r)
    check_eq(rng, (g ** e).apply(m), r, 'n-th power differs from acting n times')


@case(P, 20)
def factories_commute_with_products(rng, note):
    """Products of factory operations follow the same law (antiunitary ones with complex U)."""
    d = int(rng.integers(1, 4)); n = int(rng.integers(1, 4))
    U1, U2 = runitary(rng, n), runitary(rng, n)
    f1 = choice(rng, [qsymm.time_reversal, qsymm.particle_hole, qsymm.chiral, qsymm.inversion])
    f2 = choice(rng, [qsymm.time_reversal, qsymm.particle_hole, qsymm.chiral, qsymm.inversion])
    g1, g2 = f1(d, U1), f2(d, U2)
    note(describe_pge(g1), describe_pge(g2))
    check_parts(g1 * g2, Rf(g1) @ Rf(g2), g1.conjugate ^ g2.conjugate, g1.antisymmetry ^ g2.antisymmetry,
                mul_U(g1, g2), 'product')
