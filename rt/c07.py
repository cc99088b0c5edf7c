"""C07: operations leave their inputs alone and results do not depend on history."""
from .common import *

OPS = {}


def op(kind='value', heavy=False):
    def deco(fn):
        OPS[fn.__name__] = (fn, kind, heavy)
        return fn
    return deco


# --- builders return (inputs dict, thunk).  The thunk uses only objects in the inputs dict. ---

def _real(rng, m):
    """Sometimes the values have a real type."""
    if rbool(rng, 0.3) and all(np.any(dense(v).real) for v in m.data.values()):
        return type(m)({k: v.real for k, v in m.data.items()}, momenta=m.momenta)
    return m


def _pm(rng, n=2, fmt=None, d=2, herm=False):
    fmt = fmt or choice(rng, ['dense', 'dense', 'csr'])
    return _real(rng, rand_poly_model(rng, ('k_x', 'k_y', 'k_z')[:d], n, fmt=fmt, herm=herm))


def _bm(rng, n=2, d=2, herm=False, fmt='dense'):
    return _real(rng, rand_bloch_model(rng, ('k_x', 'k_y', 'k_z')[:d], n, kind=choice(rng, ['int', 'half', 'float']),
                                       herm=herm, fmt=fmt))


def _m(rng, n=2, d=2):
    return _bm(rng, n, d) if rbool(rng, 0.4) else _pm(rng, n, d=d)


def _same_type_pair(rng, n=2):
    if rbool(rng, 0.4):
        return _bm(rng, n), _bm(rng, n)
    fmt = choice(rng, ['dense', 'csr'])
    a, b = _pm(rng, n, fmt), _pm(rng, n, fmt)
    if rbool(rng, 0.3):
        # share the keys, and sometimes the matrices, of the two models
        b = Model({k: v for k, v in a.data.items()}, momenta=a.momenta)
    return a, b


@op('model')
def add(rng):
    a, b = _same_type_pair(rng)
    return dict(a=a, b=b), lambda x: x['a'] + x['b']


@op('model')
def sub(rng):
    a, b = _same_type_pair(rng)
    return dict(a=a, b=b), lambda x: x['a'] - x['b']


@op('model')
def add_constant(rng):
    a = _pm(rng, 2, 'dense')
    c = nice_mat(rng, 2)
    return dict(a=a, c=c), (lambda x: x['a'] + x['c'])


@op('model')
def sum_models(rng):
    a, b = _same_type_pair(rng)
    return dict(a=[a, b, a]), lambda x: sum(x['a'])


@op('model')
def sum_empty(rng):
    a, b = _same_type_pair(rng)
    e = a.zeros_like()
    if rbool(rng):
        return dict(a=a, e=e), lambda x: x['a'] + x['e']
    return dict(a=a, e=e), lambda x: x['e'] + x['a']


@op('model')
def neg(rng):
    return dict(a=_m(rng)), lambda x: -x['a']


@op('model')
def mul_number(rng):
    c = choice(rng, [2, 1, 1.0, 2.5, 1j, -1])
    if rbool(rng):
        return dict(a=_m(rng), c=c), lambda x: x['a'] * x['c']
    return dict(a=_m(rng), c=c), lambda x: x['c'] * x['a']


@op('model')
def mul_symbol(rng):
    s = choice(rng, [sympy.Symbol('a'), sympy.Symbol('k_x'), sympy.Integer(1)])
    a = _pm(rng)
    return dict(a=a, s=s), lambda x: x['a'] * x['s']


@op('model')
def mul_model(rng):
    a, b = _pm(rng, 2, 'dense'), _pm(rng, 2, 'dense')
    return dict(a=a, b=b), lambda x: x['a'] * x['b']


@op('model')
def matmul_model(rng):
    a, b = _same_type_pair(rng)
    return dict(a=a, b=b), lambda x: x['a'] @ x['b']


@op('model')
def matmul_array(rng):
    a = _m(rng)
    if scipy.sparse.issparse(next(iter(a.data.values()))):
        a = a.toarray()
    c = choice(rng, [np.eye(2), nice_mat(rng, 2)])
    return dict(a=a, c=c), choice(rng, [lambda x: x['a'] @ x['c'], lambda x: x['c'] @ x['a']])


@op('model')
def div(rng):
    return dict(a=_m(rng)), lambda x: x['a'] / 1


@op('model')
def transpose(rng):
    return dict(a=_m(rng)), lambda x: x['a'].T()


@op('model')
def conj(rng):
    return dict(a=_m(rng)), lambda x: x['a'].conj()


@op('model')
def adjoint(rng):
    return dict(a=_m(rng)), lambda x: x['a'].T().conj()


@op('model')
def trace(rng):
    return dict(a=_m(rng)), lambda x: x['a'].trace()


@op('model')
def reshape(rng):
    a = _m(rng)
    if scipy.sparse.issparse(next(iter(a.data.values()))):
        a = a.toarray()
    return dict(a=a), lambda x: x['a'].reshape(-1)


@op('model')
def around(rng):
    return dict(a=_m(rng)), lambda x: x['a'].around(2)


@op('model')
def eliminate_zeros(rng):
    return dict(a=_m(rng)), lambda x: x['a'].eliminate_zeros()


@op('model')
def subs(rng):
    a = _m(rng)
    arg = choice(rng, [{'a': 2}, {'a': 2.0}, {sympy.Symbol('a'): sympy.Symbol('b')}, {'k_x': 'q'},
                       [('a', 1), ('b', 3)], {'k_x': 0.5}, {'m_1': 'a*b'}])
    return dict(a=a, arg=arg), lambda x: x['a'].subs(x['arg'])


@op('model')
def rotate(rng):
    a = _m(rng)
    R = choice(rng, [np.array([[0, -1], [1, 0]]), rorth(rng, 2), np.eye(2)])
    return dict(a=a, R=R), lambda x: x['a'].rotate_momenta(x['R'])


@op('value')
def lookups(rng):
    a = _m(rng)
    keys = ['k_x', 'k_y**2', 'zz', '1', 1, sympy.Symbol('nope')]
    k = choice(rng, keys)
    if isinstance(a, BlochModel):
        k = choice(rng, list(a.data) + [BlochCoeff(np.array([7., 7.]), sympy.Symbol('nope'))])
    return dict(a=a), lambda x: dense(x['a'][k]) * 1


@op('value')
def equality(rng):
    a, b = _same_type_pair(rng)
    return dict(a=a, b=b), lambda x: [bool(x['a'] == x['b']), bool(x['a'] == x['a']), bool(x['a'] == 0)]


@op('str')
def tosympy(rng):
    return dict(a=_m(rng)), lambda x: sorted(map(str, sympy.Matrix(x['a'].tosympy()).atoms(sympy.Symbol)))


@op('value')
def lambdify(rng):
    a = _pm(rng, 2, 'dense')
    def run(x):
        f = x['a'].lambdify()
        import inspect
        names = list(inspect.signature(f).parameters)
        return np.array(f(*[0.3 + 0.1 * i for i in range(len(names))]), dtype=complex)
    return dict(a=a), run


@op('model')
def toarray(rng):
    return dict(a=_m(rng)), lambda x: x['a'].toarray()


@op('model')
def tocsr(rng):
    return dict(a=_m(rng)), lambda x: x['a'].tocsr()


@op('model')
def tomodel(rng):
    return dict(a=_bm(rng)), lambda x: x['a'].tomodel()


@op('model')
def tobloch(rng):
    b = _bm(rng)
    a = choice(rng, [b, b.tomodel()])
    return dict(a=a), lambda x: BlochModel(x['a'])


@op('model')
def construct(rng):
    d = {choice(rng, ['1', 1, 'k_x', sympy.Symbol('k_x')]): nice_mat(rng, 2),
         choice(rng, ['2*k_y', 'k_y', 'k_y + a', 'sqrt(2)*k_y*a']): nice_mat(rng, 2)}
    return dict(d=d), lambda x: Model(x['d'], momenta=('k_x', 'k_y'), normalize=True)


@op('model')
def construct_plain(rng):
    a = nice_mat(rng, 2)
    d = {sympy.Integer(1): a, sympy.Symbol('k_x'): choice(rng, [a, nice_mat(rng, 2)])}
    return dict(d=d), lambda x: Model(x['d'], momenta=('k_x', 'k_y'))


@op('model')
def construct_string(rng):
    loc = {'w': 'k_x + I*k_y', 'M': [[1, 2], [0, 1]]}
    s = choice(rng, ['w * sigma_x + a*sigma_0', 'k_x * M + M', '[[k_x, w], [a, 1.5]]', 'k_x*sigma_z + 2*sigma_0',
                     '2.0*k_x*sigma_z'])
    return dict(loc=loc), lambda x: Model(s, locals=x['loc'], momenta=('k_x', 'k_y'))


@op('model')
def copy_model(rng):
    return dict(a=_m(rng)), lambda x: x['a'].copy()


@op('model')
def construct_from_model(rng):
    a = _pm(rng)
    return dict(a=a), lambda x: Model(x['a'], momenta=('k_x', 'k_y'))


@op('model')
def apply_pge(rng):
    a = _m(rng, 2)
    if scipy.sparse.issparse(next(iter(a.data.values()))):
        a = a.toarray()
    exact = isinstance(a, BlochModel)
    g, _, _ = rand_pge(rng, 2, choice(rng, [None, 2]), kind=choice(rng, ['int', 'sympy', 'float']))
    if rbool(rng, 0.2):
        g = qg.identity(2)
    return dict(a=a, g=g), lambda x: x['g'].apply(x['a'])


@op('model')
def apply_cgg(rng):
    a = _pm(rng, 2, 'dense')
    R = choice(rng, [None, np.array([[0, -1j], [1j, 0]])])
    U = rherm(rng, 2) if R is None or rbool(rng) else None
    g = CGG(R, U)
    return dict(a=a, g=g), lambda x: x['g'].apply(x['a'])


@op('pge')
def pge_product(rng):
    k = choice(rng, ['int', 'sympy', 'float'])
    a, _, _ = rand_pge(rng, 2, 2, kind=k)
    b, _, _ = rand_pge(rng, 2, 2, kind=k)
    return dict(a=a, b=b), lambda x: x['a'] * x['b']


@op('pge')
def pge_inverse(rng):
    a, _, _ = rand_pge(rng, choice(rng, [1, 2, 3]), 2)
    return dict(a=a), lambda x: x['a'].inv()


@op('pge')
def pge_power(rng):
    a, _, _ = rand_pge(rng, 2, 2, kind=choice(rng, ['int', 'sympy', 'float']))
    n = int(rng.integers(-3, 4))
    return dict(a=a), lambda x: x['a'] ** n


@op('value')
def pge_compare(rng):
    k = choice(rng, ['int', 'sympy', 'float'])
    a, _, _ = rand_pge(rng, 2, 2, kind=k)
    b, _, _ = rand_pge(rng, 2, 2, kind=k)
    return dict(a=a, b=b), lambda x: [bool(x['a'] == x['b']), bool(x['a'] < x['b']), bool(x['b'] < x['a'])]


def _gens(rng, U=True):
    n = 2 if U else None
    t = qg.time_reversal(2, U=np.array([[0, 1], [-1, 0]]) if U else None)
    r = PGE(np.array([[0, -1], [1, 0]]), False, False, np.diag([1, 1j]) if U else None)
    m = PGE(np.diag([1, -1]), False, False, np.array([[0, 1], [1, 0]]) if U else None)
    h = PGE(sympy.ImmutableMatrix([[sympy.Rational(1, 2), -sympy.sqrt(3) / 2],
                                   [sympy.sqrt(3) / 2, sympy.Rational(1, 2)]]), False, False,
            np.eye(2) if U else None)
    hf = PGE(np.array([[.5, -np.sqrt(3) / 2], [np.sqrt(3) / 2, .5]]), False, False, np.eye(2) if U else None)
    return choice(rng, [[t, r], [m], [r, m], [t, h], [hf], [m, t]])


@op('pgeset')
def gen_group(rng):
    g = _gens(rng, rbool(rng))
    return dict(g=choice(rng, [set, list, frozenset])(g) if False else set(g)), lambda x: qg.generate_group(x['g'])


@op('pgeset')
def setmul(rng):
    g = _gens(rng, True)
    return dict(g=set(g), h={g[0]}), lambda x: qg.set_multiply(x['g'], x['h'])


@op('value')
def subgroups(rng):
    g = qg.generate_group(set(choice(rng, [_gens(rng, False)[:1], [qg.time_reversal(1), qg.particle_hole(1)]])))
    return dict(g=g), lambda x: sorted(len(s) for s in qg.generate_subgroups(x['g']))


@op('str')
def printing(rng):
    d = choice(rng, [1, 2, 3])
    g, _, _ = rand_pge(rng, d, choice(rng, [None, 2]), kind=choice(rng, ['int', 'sympy', 'float']))
    full, latex = rbool(rng), rbool(rng)
    return dict(g=g), lambda x: qg.pretty_print_pge(x['g'], full=full, latex=latex)


@op('str')
def printing_cgg(rng):
    g = CGG(choice(rng, [None, np.array([[0, -1j], [1j, 0]])]), rherm(rng, 2))
    return dict(g=g), lambda x: qg.pretty_print_cgg(x['g'], latex=False) + str(x['g']) + repr(x['g'])


@op('value')
def sym_from_perm(rng):
    R = np.diag([1, -1])
    perm, norbs = {'A': 'B', 'B': 'A'}, {'A': 1, 'B': 1}
    act = {'A': np.eye(1), 'B': np.eye(1) * 1j}
    return (dict(R=R, perm=perm, norbs=list(norbs.items()), act=act),
            lambda x: qg.symmetry_from_permutation(x['R'], x['perm'], x['norbs'], x['act']).U)


@op('basis')
def nullspace(rng):
    A = rmat(rng, 3, 5)
    if rbool(rng):
        A = np.vstack([A, A[:1]])
    return dict(A=A), lambda x: ql.nullspace(x['A'])


@op('basis')
def solve_eqn(rng):
    W = runitary(rng, 3)
    H = [W @ np.diag(rng.standard_normal(3)) @ W.conj().T for _ in range(2)]
    herm, tr = rbool(rng), rbool(rng)
    return dict(H=H), lambda x: ql.solve_mat_eqn(x['H'], hermitian=herm, traceless=tr)


@op('projectors')
def simult(rng):
    W = runitary(rng, 4)
    mats = np.array([W @ np.diag(rng.integers(0, 3, 4).astype(float)) @ W.conj().T for _ in range(3)])
    return dict(m=mats), lambda x: ql.simult_diag(x['m'])


@op('value')
def rref_op(rng):
    m = nice_mat(rng, 3, 5)
    return dict(m=m), lambda x: ql.rref(x['m'])


@op('value')
def sparse_basis(rng):
    m = nice_mat(rng, 2, 6)
    return dict(m=m), lambda x: ql.sparse_basis(x['m'], num_digits=3, reals=True)


@op('value')
def vectors(rng):
    f = [_pm(rng, 2, 'dense') for _ in range(2)]
    return dict(f=f), lambda x: np.array(ql.family_to_vectors(x['f'])).shape[0]


@op('value')
def lattice(rng):
    b = rng.standard_normal((2, 2)) + 2 * np.eye(2)
    v = rng.standard_normal(2)
    return dict(b=b, v=v), lambda x: np.sort(np.linalg.norm(np.array(x['v']) - qlll.cvp(x['v'], qlll.lll(x['b'])[0], n=2) @ qlll.lll(x['b'])[0], axis=1))


@op('value')
def voronoi(rng):
    b = qlll.lll(rng.standard_normal((2, 2)) + 2 * np.eye(2))[0]
    return dict(b=b), lambda x: np.sort(np.linalg.norm(qlll.voronoi(x['b'], reduced=True) @ x['b'], axis=1))


@op('pgeset')
def bravais(rng):
    p = choice(rng, [np.eye(2), np.array([[1, 0], [.5, np.sqrt(3) / 2]]), np.array([[1., 0], [0.3, 1.2]]), np.diag([1, 2, 3.])])
    return dict(p=p), lambda x: qsymm.bravais_point_group(x['p'], tr=True)


# ---- families

def _cont_syms(rng):
    t = qg.time_reversal(2, U=np.array([[0, 1], [-1, 0]]))
    m = qg.mirror([1, 0], U=np.array([[0, 1j], [1j, 0]]))
    c = PGE(np.array([[0, -1], [1, 0]]), False, False, np.diag([np.exp(1j * np.pi / 4), np.exp(-1j * np.pi / 4)]))
    z = CGG(None, np.diag([1, -1]))
    z2 = CGG(np.array([[0, -1j], [1j, 0]]), np.diag([.5, -.5]))
    return choice(rng, [[t, m], [c], [t], [t, z], [z2], [m, t, c]])


@op('family', True)
def continuum(rng):
    s = _cont_syms(rng)
    mom = choice(rng, [('k_x', 'k_y'), [0, 1], ['q', 'p']])
    powers = choice(rng, [2, [0, 1], [1]])
    allp = choice(rng, [None, [1, [0, 1]], [2, 1]])
    kw = dict(sparse_linalg=False, prettify=rbool(rng))
    return (dict(s=s, mom=mom, powers=powers, allp=allp),
            lambda x: qsymm.continuum_hamiltonian(x['s'], 2, x['powers'], all_powers=x['allp'], momenta=x['mom'], **kw))


@op('family', True)
def pairing(rng):
    s = [qg.time_reversal(2, U=np.array([[0, 1], [-1, 0]]))]
    ph = choice(rng, [1, -1])
    phases = choice(rng, [[1], [-1]])
    return (dict(s=s, phases=phases),
            lambda x: qsymm.continuum_pairing(x['s'], 2, 1, momenta=('k_x', 'k_y'), phases=x['phases'], ph_square=ph))


@op('family', True)
def blochfam(rng):
    norbs = [('A', 2)]
    hops = [('A', 'A', np.array([1, 0])), ('A', 'A', [0, 1])][:int(rng.integers(1, 3))]
    c4 = PGE(np.array([[0, -1], [1, 0]]), False, False, np.diag([1, 1j]))
    t = qg.time_reversal(2, U=np.eye(2))
    syms = choice(rng, [[c4], [t], [c4, t]])
    bm = rbool(rng)
    return (dict(h=hops, s=syms, n=norbs),
            lambda x: qsymm.bloch_family(x['h'], x['s'], x['n'], bloch_model=bm, prettify=False))


def _family(rng):
    t = qg.time_reversal(2, U=np.eye(2))
    return qsymm.continuum_hamiltonian([t], 2, 1, momenta=('k_x', 'k_y'), prettify=False)


@op('family', True)
def constrain(rng):
    f = _family(rng)
    s = _cont_syms(rng)
    return dict(f=f, s=s), lambda x: qh.constrain_family(x['s'], x['f'])


@op('family', True)
def pretty(rng):
    f = _family(rng)
    return dict(f=f), lambda x: qh.make_basis_pretty(x['f'], num_digits=3)


@op('family', True)
def dedup(rng):
    f = _family(rng)
    f = list(f) + [f[0] + f[1], f[0]]
    return dict(f=f), lambda x: qh.remove_duplicates(x['f'])


@op('family', True)
def subtract(rng):
    f = list(_family(rng))
    g = f[:2]
    pr = rbool(rng)
    return dict(f=f, g=g), lambda x: qh.subtract_family(x['f'], x['g'], prettify=pr)


@op('family', True)
def rounding(rng):
    f = _family(rng)
    return dict(f=f), lambda x: qh.round_family(x['f'], 2)


@op('model', True)
def from_family(rng):
    f = _family(rng)
    c = [sympy.Symbol('c_%d' % i) for i in range(len(f))] if rbool(rng) else None
    return dict(f=f, c=c), lambda x: qh.hamiltonian_from_family(x['f'], x['c'], tosympy=False)


@op('none', True)
def check_sym(rng):
    f = _family(rng)
    s = [qg.time_reversal(2, U=np.eye(2))]
    return dict(f=f, s=s), lambda x: qh.check_symmetry(x['f'], x['s'])


@op('model', True)
def symmetrize(rng):
    m = _bm(rng, 2) if rbool(rng) else _pm(rng, 2, 'dense')
    s = qg.generate_group(set(_gens(rng, True)[:1]))
    return dict(m=m, s=s), lambda x: qh.symmetrize_monomial(x['m'], x['s'])


@op('value')
def variables(rng):
    mom = choice(rng, [('k_x', 'k_y'), ['q', 'p'], [0, 1]])
    ap = choice(rng, [None, [[0, 1], [0, 1, 2]], [1, 2]])
    tp = choice(rng, [2, [1, 2]])
    return dict(mom=mom, ap=ap, tp=tp), lambda x: sorted(map(str, qh.continuum_variables(2, x['tp'], x['ap'], x['mom'])))


# ---- symmetry finder

@op('pgeset', True)
def find_symmetries(rng):
    m = rand_poly_model(rng, ('k_x', 'k_y'), 2, herm=True) if rbool(rng) else _bm(rng, 2, herm=True)
    cand = choice(rng, [set, list])(qg.square(generators=False, ph=rbool(rng))) if False else \
        choice(rng, [set, list])(qg.generate_group({qg.time_reversal(2), PGE(np.array([[0, -1], [1, 0]]), False, False, None)}))
    return dict(m=m, c=cand), lambda x: set(qsymm.symmetries(x['m'], candidates=x['c'])[0])


@op('cgglist', True)
def find_continuous(rng):
    s = [np.array([[0, 1], [1, 0]]), np.array([[0, -1j], [1j, 0]]), np.diag([1, -1])]
    m = Model({'k_x': np.kron(s[0], np.eye(2)), 'k_y': np.kron(s[1], np.eye(2))}, momenta=('k_x', 'k_y'))
    pr = rbool(rng)
    if rbool(rng):
        m = m.tocsr()
    return dict(m=m), lambda x: qsymm.symmetries(x['m'], candidates=[], continuous_rotations=True, prettify=pr)[1]


@op('pgeset', True)
def find_discrete(rng):
    m = rand_poly_model(rng, ('k_x',), 2, herm=True)
    cand = {qg.time_reversal(1), qg.particle_hole(1), qg.chiral(1), qg.identity(1)}
    Ps = internal(qs, '_reduce_hamiltonian')(np.array(list(m.values())))
    return dict(m=m, c=cand, Ps=Ps), lambda x: qs.discrete_symmetries(x['m'], x['c'], Ps=x['Ps'])[0]


@op('cgglist', True)
def conserved(rng):
    m = [np.kron(rherm(rng, 2), np.eye(2)) for _ in range(2)]
    Ps = internal(qs, '_reduce_hamiltonian')(np.array(m))
    return dict(Ps=Ps), lambda x: qs.conserved_quantities(x['Ps'])


@op()
def spins(rng):
    s = float(choice(rng, [1/2, 1, 3/2])) if rbool(rng) else choice(rng, [1, 2])
    zero = rbool(rng)
    return dict(s=s, zero=zero), lambda x: internal(qg, 'spin_matrices')(x['s'], x['zero'])


@op()
def orbitals(rng):
    l, d = int(rng.integers(1, 3)), 3
    return dict(l=l), lambda x: internal(qg, 'L_matrices')(l=x['l']) if rbool(np.random.default_rng(x['l'])) else internal(qg, 'L_matrices')(d=d)


@op()
def spin_rot(rng):
    n = choice(rng, [np.array([0, 0, np.pi / 2]), np.array([1., 0, 0])])
    s = float(choice(rng, [1/2, 1, 3/2]))
    return dict(n=n, s=s), lambda x: internal(qg, 'spin_rotation')(x['n'], x['s'])


@op('pge')
def factory(rng):
    kind = choice(rng, ['tr', 'rot', 'mir'])
    s = float(choice(rng, [1/2, 1]))
    f = dict(tr=lambda x: qg.time_reversal(3, spin=x['s']), rot=lambda x: qg.rotation(1/4, [0, 0, 1], spin=x['s']),
             mir=lambda x: qg.mirror([0, 0, 1], spin=x['s']))[kind]
    return dict(s=s), f


@op('pgeset')
def predefined(rng):
    kind = choice(rng, ['square', 'hexagonal', 'cubic'])
    gen = kind == 'cubic' or rbool(rng)
    return dict(), lambda x: getattr(qg, kind)(generators=gen)


# ------------------------------------------------------------------ comparison of results

def same(kind, a, b, rng):
    if kind == 'none':
        return
    if kind == 'model':
        require(type(a) is type(b), 'type of the result changed')
        require(a.momenta == b.momenta, 'momenta of the result changed')
        require(a.format is b.format, 'format of the result changed: {} {}', a.format, b.format)
        compare_models(a, b, rng, 'result changed')
    elif kind == 'family':
        require(len(a) == len(b), 'length of the family changed')
        for x, y in zip(a, b):
            require(x.momenta == y.momenta, 'momenta of the family changed')
        if len(a):
            pts = [rand_env(rng, model_names(*a, *b), -1.5, 1.5) for _ in range(12)]
            require(same_span(family_vectors(list(a), a[0].momenta, rng, pts=pts),
                              family_vectors(list(b), a[0].momenta, rng, pts=pts)), 'span of the family changed')
    elif kind == 'pge':
        require(np.allclose(Rf(a), Rf(b)) and (a.conjugate, a.antisymmetry, a._strict_eq) ==
                (b.conjugate, b.antisymmetry, b._strict_eq), 'operation changed')
        require((a.U is None) == (b.U is None), 'unitary part changed')
        if a.U is not None:
            require_close(a.U, b.U, 'unitary part changed')
    elif kind == 'pgeset':
        require(len(a) == len(b), 'number of elements changed: {} {}', len(a), len(b))
        for x in a:
            require(any(np.allclose(Rf(x), Rf(y)) and (x.conjugate, x.antisymmetry) == (y.conjugate, y.antisymmetry)
                        for y in b), 'set of operations changed')
    elif kind == 'basis':
        require(len(a) == len(b), 'number of basis elements changed')
        if len(a):
            require(same_span(np.reshape(a, (len(a), -1)), np.reshape(b, (len(b), -1))), 'span changed')
    elif kind == 'projectors':
        require(len(a) == len(b), 'number of subspaces changed')
        pa = sorted([np.round(P @ P.conj().T, 6).ravel().tolist() for P in a], key=str)
        for P in a:
            require(any(close(P @ P.conj().T, Q @ Q.conj().T) for Q in b), 'subspaces changed')
    elif kind == 'cgglist':
        require(len(a) == len(b), 'number of generators changed')
        if len(a):
            def vec(g, d, n):
                R = np.zeros((d, d)) if g.R is None else np.asarray(g.R)
                return np.concatenate([R.ravel(), np.asarray(g.U).ravel()])
            d = max([0 if g.R is None else np.shape(g.R)[0] for g in list(a) + list(b)])
            require(same_span([vec(g, d, 0) for g in a], [vec(g, d, 0) for g in b]), 'span of generators changed')
    elif kind == 'str':
        require(a == b, 'text changed: {!r} {!r}', a, b)
    else:
        if isinstance(a, (list, tuple)) and a and isinstance(a[0], str):
            require(a == b, 'result changed: {} {}', a, b)
        else:
            require_close(a, b, 'result changed')


def execute(name, rng_seed):
    rng = np.random.default_rng(rng_seed)
    inputs, thunk = OPS[name][0](rng)
    return inputs, thunk


def pick(rng, heavy=None):
    names = sorted(n for n, (f, k, h) in OPS.items() if heavy is None or h == heavy)
    return choice(rng, names)


LIGHT = [n for n in OPS if not OPS[n][2]]
HEAVY = [n for n in OPS if OPS[n][2]]


def frame_of(name, rng, note):
    seed = int(rng.integers(2 ** 31))
    inputs, thunk = execute(name, seed)
    note(name, seed, ', '.join('{}={}'.format(k, describe_model(v) if isinstance(v, Model) else describe_pge(v)
                                             if isinstance(v, PGE) else str(v)[:80]) for k, v in inputs.items()))
    before = {k: snapshot(v) for k, v in inputs.items()}
    first = thunk(inputs)
    for k, v in inputs.items():
        require(snapshot(v) == before[k], '{} changed its argument {}', name, k)
    return inputs, thunk, first, before, seed


@case('C07', 660)
def frame(rng, note):
    """Every catalogued operation: arguments unchanged, repeated call on the same objects agrees."""
    name = pick(rng, heavy=False)
    inputs, thunk, first, before, _ = frame_of(name, rng, note)
    second = thunk(inputs)
    same(OPS[name][1], first, second, rng)
    for k, v in inputs.items():
        require(snapshot(v) == before[k], '{} changed its argument {} when repeated', name, k)


@case('C07', 200)
def frame_heavy(rng, note):
    name = pick(rng, heavy=True)
    inputs, thunk, first, before, _ = frame_of(name, rng, note)
    second = thunk(inputs)
    same(OPS[name][1], first, second, rng)
    for k, v in inputs.items():
        require(snapshot(v) == before[k], '{} changed its argument {} when repeated', name, k)


def disturb(model, rng):
    """Change a returned model in place in every way its interface allows."""
    for key in list(model.data):
        val = model.data[key]
        if isinstance(val, np.ndarray) and val.dtype.kind in 'fci':
            val *= 3
            val += 1
        elif scipy.sparse.issparse(val):
            val.data *= 5
            val *= 3
        elif isinstance(val, np.generic):
            model[key] = val + 1
    key = next(iter(model.data), None)
    if key is not None:
        model[key] = model[key] * 7
        del model.data[key]
    if isinstance(model, BlochModel):
        model.keep.add(BlochCoeff(np.zeros(len(model.momenta)), sympy.Symbol('zzz')))
    else:
        model.keep.add(sympy.Symbol('zzz'))


@case('C07', 300)
def no_sharing(rng, note):
    """Later changes of a returned model do not reach its arguments (nor another result)."""
    names = sorted(n for n, (f, k, h) in OPS.items() if k == 'model' and not h)
    name = choice(rng, names)
    inputs, thunk, first, before, _ = frame_of(name, rng, note)
    second = thunk(inputs)
    snap = snapshot(second)
    disturb(first, rng)
    for k, v in inputs.items():
        require(snapshot(v) == before[k], 'changing the result of {} changed its argument {}', name, k)
    require(snapshot(second) == snap, 'results of repeated {} share data', name)
    third = thunk(inputs)
    same('model', second, third, rng)


@case('C07', 80)
def no_sharing_families(rng, note):
    name = choice(rng, ['continuum', 'blochfam', 'constrain', 'pretty', 'subtract', 'from_family', 'symmetrize',
                        'pairing', 'rounding'])
    inputs, thunk, first, before, _ = frame_of(name, rng, note)
    for m in ([first] if isinstance(first, Model) else list(first)):
        disturb(m, rng)
    for k, v in inputs.items():
        require(snapshot(v) == before[k], 'changing the result of {} changed its argument {}', name, k)


@case('C07', 240)
def history(rng, note):
    """The result of a call is the same in a fresh process state and after other calls."""
    heavy = rbool(rng, 0.15)
    name = pick(rng, heavy=heavy)
    seed = int(rng.integers(2 ** 31))
    clear_caches()
    inputs, thunk = execute(name, seed)
    ref = thunk(inputs)
    clear_caches()
    trace = []
    for _ in range(int(rng.integers(3, 9))):
        other = name if rbool(rng, 0.3) else pick(rng, heavy=False)
        s = int(rng.integers(2 ** 31))
        trace.append((other, s))
        i2, t2 = execute(other, s)
        r2 = t2(i2)
        if isinstance(r2, Model):
            disturb(r2, rng)
    note(name, seed, 'after', trace)
    inputs2, thunk2 = execute(name, seed)
    res = thunk2(inputs2)
    same(OPS[name][1], ref, res, rng)


def arrays_of(r):
    if isinstance(r, np.ndarray):
        return [r] if r.dtype.kind in 'fciO' and r.dtype.kind != 'O' else []
    if isinstance(r, (list, tuple, set)):
        return [a for x in r for a in arrays_of(x)]
    if isinstance(r, PGE):
        return arrays_of(r.U)
    return []


@case('C07', 200)
def results_changed_by_the_caller(rng, note):
    """What the caller does with a returned array, list or set does not change the results of later calls."""
    names = sorted(n for n, (f, k, h) in OPS.items() if k in ('value', 'basis', 'pge', 'pgeset', 'projectors') and not h)
    name = choice(rng, names)
    kind = OPS[name][1]
    inputs, thunk, first, before, seed = frame_of(name, rng, note)
    mine = [a for v in inputs.values() for a in arrays_of(v)]
    if any(np.may_share_memory(a, b) for a in arrays_of(first) for b in mine):
        raise Skip()
    import copy
    want = copy.deepcopy(first) if kind != 'pgeset' else set(first)
    for a in arrays_of(first) if kind != 'pgeset' else []:
        if a.flags.writeable:
            a *= 3
            a += 1
    if isinstance(first, (list, set)) and not any(first is v for v in inputs.values()):
        first.clear()
    inputs2, thunk2 = execute(name, seed)
    same(kind, want, thunk2(inputs2), rng)
    for k, v in inputs.items():
        require(snapshot(v) == before[k], 'changing the result of {} changed its argument {}', name, k)


VARIANTS = [
    ('1', 1, 1.0, sympy.Integer(1), sympy.Float(1.0), 1 + 0j),
    ('2*k_x', sympy.Integer(2) * sympy.Symbol('k_x'), 2.0 * sympy.Symbol('k_x'), '2.0*k_x'),
    ('k_x**2', sympy.Symbol('k_x') ** 2, sympy.Symbol('k_x') ** 2.0, 'k_x*k_x'),
    ('a/2', sympy.Symbol('a') / 2, 0.5 * sympy.Symbol('a'), '0.5*a'),
    ('e**(I*k_x)', qm.e ** (sympy.I * sympy.Symbol('k_x')), 'e**(1.0*I*k_x)'),
    ('k_x', sympy.Symbol('k_x'), sympy.Symbol('k_x', real=True), sympy.Symbol('k_x', commutative=True)),
]


@case('C07', 160)
def number_types(rng, note):
    """The same term written with different number types, in any order of use."""
    group = choice(rng, VARIANTS)
    mats = [nice_mat(rng, 2) for _ in group]
    idx = list(rng.permutation(len(group)))
    note('variants', [group[i] for i in idx])

    def build(i):
        return Model({group[i]: mats[i]}, momenta=('k_x',), normalize=True)
    clear_caches()
    fresh = []
    for i in idx:
        clear_caches()
        fresh.append(build(i))
    clear_caches()
    for _ in range(2):
        for j, i in enumerate(idx):
            m = build(i)
            a, b = m, fresh[j]
            for k1, k2 in zip(sorted(map(sympy.srepr, a.data)), sorted(map(sympy.srepr, b.data))):
                require(k1 == k2, 'term of the model depends on earlier calls: {} {}', k1, k2)
            require(len(a.data) == len(b.data), 'number of terms depends on earlier calls')
            env = {'k_x': 0.37, 'a': 1.7}
            ea = sum(ev(k, env) * v for k, v in a.data.items())
            want = ev(sympy.sympify(group[i], locals={'e': qm.e}), env) * mats[i]
            require_close(ea, want, 'value of the model is wrong')


@case('C07', 120)
def momenta_names(rng, note):
    """Names of momenta as strings and symbols, in any order of use and in either representation."""
    names = choice(rng, [('k_x', 'k_y'), ('q', 'k_x'), ('p', 'q')])
    forms = [tuple(names), tuple(sympy.Symbol(n) for n in names), list(names), [sympy.Symbol(n) for n in names],
             tuple(sympy.Symbol(n, commutative=True) for n in names)]
    note(names)
    M = nice_mat(rng, 2)
    ref = None
    for i in rng.permutation(len(forms)):
        key = choice(rng, [names[0], sympy.Symbol(names[0])])
        m = Model({key: M}, momenta=forms[int(i)])
        require([s.name for s in m.momenta] == list(names), 'momenta')
        if ref is None:
            ref = m
        require(ref.momenta == m.momenta, 'momenta representations differ')
        require(ref == m, 'models differ by the form of their momenta')
        b = BlochModel({sympy.Integer(1): M}, momenta=forms[int(i)])
        require(b.momenta == m.momenta, 'momenta of the periodic model differ')


@case('C07', 120)
def shared_objects(rng, note):
    """Long random sequences of calls on one pool of objects; the pool never changes."""
    pool = [_pm(rng, 2, 'dense') for _ in range(2)] + [_pm(rng, 2, 'csr')] + [_bm(rng, 2) for _ in range(2)]
    M = nice_mat(rng, 2)
    shared = [Model({'k_x': M, '1': M}, momenta=('k_x', 'k_y')), Model({'k_y': M}, momenta=('k_x', 'k_y'))]
    pool += shared
    gs = [rand_pge(rng, 2, 2, kind='int')[0] for _ in range(2)]
    note('pool', [describe_model(m) for m in pool])
    snaps = [snapshot(x) for x in pool + gs + [M]]
    values = []
    trace = []
    unary = {
        'neg': lambda m: -m, 'T': lambda m: m.T(), 'conj': lambda m: m.conj(), 'copy': lambda m: m.copy(),
        'toarray': lambda m: m.toarray(), 'tocsr': lambda m: m.tocsr(), 'mul': lambda m: m * 2,
        'around': lambda m: m.around(3), 'elim': lambda m: m.eliminate_zeros(), 'plus0': lambda m: m + 0,
        'rotate': lambda m: m.rotate_momenta(np.array([[0, 1], [-1, 0]])), 'subs': lambda m: m.subs({'a': 2}),
        'apply': lambda m: gs[0].apply(m), 'identity': lambda m: qg.identity(2).apply(m),
    }
    for _ in range(12):
        i = int(rng.integers(len(pool)))
        m = pool[i]
        if rbool(rng, 0.35):
            cands = [x for x in pool if type(x) is type(m) and x.format is m.format]
            j = cands[int(rng.integers(len(cands)))]
            o = choice(rng, ['add', 'sub', 'matmul'])
            r = m + j if o == 'add' else m - j if o == 'sub' else m @ j
        else:
            o = choice(rng, sorted(unary))
            r = unary[o](m)
        trace.append((o, i))
        if rbool(rng, 0.6):
            disturb(r, rng)
        for k, (x, s) in enumerate(zip(pool + gs + [M], snaps)):
            require(snapshot(x) == s, 'object {} of the pool changed after {}', k, trace)
