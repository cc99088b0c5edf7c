"""C03: equality, hashing and ordering of symmetry operations are coherent."""
from .common import *

P = 'C03'


def phase_equal(U1, U2):
    A = U1.conj().T @ U2
    c = np.trace(A) / len(A)
    return abs(abs(c) - 1) < 1e-6 and close(A, c * np.eye(len(A)), 1e-6)


def ref_eq(a, b):
    if not close(Rf(a), Rf(b), 1e-7) or (a.conjugate, a.antisymmetry) != (b.conjugate, b.antisymmetry):
        return False
    if a._strict_eq or b._strict_eq:
        if a.U is None and b.U is None:
            return True
        if a.U is None or b.U is None:
            return False
        return phase_equal(a.U, b.U)
    return True


def small_pool(rng, d, n, size, kinds, strict=None):
    """Elements drawn from few spatial parts, flags and unitary parts, so that equal pairs are common."""
    Rs = [rand_R(rng, d, choice(rng, kinds)) for _ in range(2)]
    # the same spatial part in a different accepted form, and with floating point noise
    Us = [runitary(rng, n), runitary(rng, n), np.eye(n)[::-1]] if n else [None]
    pool = []
    for _ in range(size):
        R, f, kind = choice(rng, Rs)
        if kind in ('float', 'skew') and rbool(rng):
            R = np.array(f) * (1 + 1e-14 * rng.standard_normal(f.shape))
        elif kind in ('int', 'uni', 'floatint') and rbool(rng):
            R = choice(rng, [np.array(f), np.array(f) + 1e-14 * rng.standard_normal(f.shape), sympy.Matrix(f.astype(int).tolist()),
                             ta.array(f.astype(int).tolist()) if d else np.array(f)])
        U = choice(rng, Us)
        if U is not None:
            U = U * np.exp(1j * rng.uniform(0, 6)) if rbool(rng, 0.7) else U
            if rbool(rng, 0.1):
                U = None
        pool.append(PGE(R, rbool(rng, 0.3), rbool(rng, 0.3), U,
                        _strict_eq=rbool(rng) if strict is None else strict))
    return pool


def same_rep(a, b):
    return type(a.R) is type(b.R)


@case(P, 60)
def equality(rng, note):
    d, n = int(rng.integers(0, 4)), choice(rng, [0, 1, 2, 3])
    kinds = choice(rng, [['int', 'uni', 'sympy'], ['int', 'float', 'floatint', 'skew']])
    pool = small_pool(rng, d, n, 6, kinds)
    note(*[describe_pge(g) for g in pool])
    for a, b in it.product(pool, repeat=2):
        require(bool(a == b) == ref_eq(a, b), 'equality is {} but should be {} for {} and {}', bool(a == b), ref_eq(a, b), describe_pge(a), describe_pge(b))
        require(bool(a != b) == (not ref_eq(a, b)), 'inequality wrong for {} and {}', describe_pge(a), describe_pge(b))
        if a == b and same_rep(a, b):
            require(hash(a) == hash(b), 'equal operations hash differently: {} {}', describe_pge(a), describe_pge(b))


@case(P, 40)
def equality_float_vs_exact(rng, note):
    """Exact and floating representation of the same spatial part compare equal."""
    d = int(rng.integers(2, 4))
    m = exact_rot(rng, d)
    f = np.array(m.tolist(), dtype=float)
    c, a = rbool(rng), rbool(rng)
    g, h = PGE(sympy.ImmutableMatrix(m), c, a), PGE(f, c, a)
    g2 = PGE(sympy.ImmutableMatrix(exact_rot(rng, d)), c, a)
    note(describe_pge(g), describe_pge(g2))
    require(g == h and h == g, 'exact and floating forms of the same operation differ')
    require((g2 == h) == ref_eq(g2, h), 'equality across representations wrong')


@case(P, 40)
def equivalence_laws(rng, note):
    d, n = int(rng.integers(1, 4)), choice(rng, [0, 1, 2])
    kinds = choice(rng, [['int', 'uni', 'sympy'], ['int', 'float', 'floatint', 'skew']])
    pool = small_pool(rng, d, n, 6, kinds, strict=rbool(rng))
    note(*[describe_pge(g) for g in pool])
    for a in pool:
        require(a == a, 'equality not reflexive')
    for a, b in it.product(pool, repeat=2):
        require((a == b) == (b == a), 'equality not symmetric')
    for a, b, c in it.product(pool, repeat=3):
        require(not (a == b and b == c) or a == c, 'equality not transitive')
    if all(same_rep(a, b) for a in pool for b in pool):
        classes = []
        for g in pool:
            if not any(ref_eq(g, h) for h in classes):
                classes.append(g)
        require(len(set(pool)) == len(classes), 'set of operations has {} elements, {} are distinct', len(set(pool)), len(classes))


def order_key(g):
    f = Rf(g)
    return (g.conjugate, g.antisymmetry, not np.array_equal(f, np.eye(len(f))), f.ravel().tolist())


@case(P, 60)
def ordering(rng, note):
    d = int(rng.integers(1, 4))
    kinds = choice(rng, [['int', 'uni', 'sympy'], ['int', 'float', 'floatint', 'skew']])
    pool = [rand_pge(rng, d, None, kind=choice(rng, kinds))[0] for _ in range(5)]
    pool += [PGE(np.eye(d, dtype=int), rbool(rng), rbool(rng)), PGE(-np.eye(d, dtype=int), rbool(rng), rbool(rng)), pool[0]]
    note(*[describe_pge(g) for g in pool])
    for a, b in it.product(pool, repeat=2):
        require(bool(a < b) == (order_key(a) < order_key(b)), 'order of {} and {} is wrong', describe_pge(a), describe_pge(b))
    s = sorted(pool)
    require([order_key(g) for g in s] == sorted(order_key(g) for g in pool), 'sorting is not by the documented order')


@case(P, 30)
def proportional_to_identity(rng, note):
    n = int(rng.integers(1, 5))
    c = complex(*rng.standard_normal(2))
    kind = choice(rng, ['id', 'zero', 'diag', 'generic', 'nearly', 'traceless'])
    A = {'id': c * np.eye(n), 'zero': np.zeros((n, n)), 'diag': np.diag(rng.standard_normal(n)),
         'generic': rmat(rng, n), 'nearly': c * np.eye(n) + 0.01 * rmat(rng, n),
         'traceless': np.array([[0, 1], [1, 0]]) * c}[kind]
    note(kind, fmt_mat(A))
    prop, coeff = ql.prop_to_id(A)
    expected = close(A, A[0, 0] * np.eye(len(A)), 1e-9)
    require(bool(prop) == expected, 'proportionality to identity decided as {} for {}', prop, fmt_mat(A))
    if prop:
        require_close(coeff, A[0, 0], 'wrong proportionality factor')


@case(P, 20)
def tolerance_comparison(rng, note):
    """allclose compares with tolerance relative to the largest entry."""
    n = int(rng.integers(1, 4))
    a = rmat(rng, n) * 10 ** rng.uniform(-3, 3)
    big = np.max(np.abs(a))
    i, j = rng.integers(n, size=2)
    b1, b2 = a.copy(), a.copy()
    b1[i, j] += 0.1 * (1e-8 + 1e-5 * big)
    b2[i, j] += 10 * (1e-8 + 1e-5 * big)
    note(fmt_mat(a), i, j)
    F = choice(rng, [lambda x: x, scipy.sparse.csr_matrix, sla.aslinearoperator, lambda x: x.tolist()])
    require(bool(ql.allclose(F(a), F(b1))), 'values within tolerance reported different')
    require(not ql.allclose(F(a), F(b2)), 'values outside tolerance reported equal')
    require(bool(ql.allclose(F(b1), F(a))), 'comparison not symmetric')
    require(not ql.allclose(F(b2), F(a)), 'comparison not symmetric')
