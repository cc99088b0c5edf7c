"""C12: generated continuum families are exactly the symmetric Hamiltonians allowed."""
from .common import *
from .fam import *

P = 'C12'


def problem(rng, note, dims=(0, 1, 2, 2, 3), kinds=None, exact=None, frame=None, maxdeg=3):
    dim = int(choice(rng, dims))
    N = int(choice(rng, [1, 2, 2, 3])) if dim < 3 else int(choice(rng, [1, 2, 2]))
    V = rand_frame(rng, N) if frame is None else np.eye(N)
    syms = [rand_sym(rng, dim, N, V, exact, kinds) for _ in range(int(rng.integers(1, 4)))]
    maxdeg = min(maxdeg, 2 if dim == 3 or N == 3 else maxdeg)
    if rbool(rng):
        total = int(rng.integers(0, maxdeg + 1))
        degrees = range(total + 1)
    else:
        total = sorted(set(int(x) for x in rng.integers(0, maxdeg + 1, 2)))
        degrees = total
    arg, sets = allowed_powers(rng, dim, maxdeg)
    marg, names = momenta_arg(rng, dim)
    note('dim', dim, 'N', N, 'total_power', total, 'all_powers', arg, 'momenta', marg,
         [describe_sym(s) for s in syms])
    return dim, N, syms, total, degrees, arg, sets, marg, names


def reference(rng, dim, N, syms, degrees, sets):
    basis = [Term(p, m) for d in degrees for p in monomials(dim, d, sets) for m in herm_basis(N)]
    pts = points(rng, dim, 6 + len(set(t.p for t in basis)))
    conds = [lambda t, k, s=s: defect(s, t, k) for s in syms]
    return basis, solve_invariant(basis, conds, pts), pts


def check(rng, fam, dim, N, names, basis, coeffs, pts, tol=1e-6):
    for m in fam:
        require(tuple(str(x) for x in m.momenta) == tuple(names), 'momenta of the family are {}', m.momenta)
        require(m.shape == (N, N), 'shape of family members')
        for key, val in m.data.items():
            free = {s.name for s in key.atoms(sympy.Symbol)}
            require(free <= set(names) or np.max(np.abs(val)) < 1e-9, 'unexpected symbols in {}', key)
        for k in pts[:2]:
            H = evm(m, dict(zip(names, k)), (N, N))
            require_close(H, H.conj().T, 'family member is Hermitian', tol=tol)
    require_family(fam, names, basis, coeffs, pts, (N, N), tol)


@case(P, 130)
def continuum_family(rng, note):
    dim, N, syms, total, degrees, arg, sets, marg, names = problem(rng, note)
    kw = {} if marg is None else dict(momenta=marg)
    if arg is not None:
        kw['all_powers'] = arg
    container = choice(rng, [list, tuple, iter])
    basis, coeffs, pts = reference(rng, dim, N, syms, degrees, sets)
    fam = qh.continuum_hamiltonian(container(syms), dim, total, **kw)
    check(rng, fam, dim, N, names, basis, coeffs, pts)


@case(P, 50)
def continuum_family_pretty(rng, note):
    dim, N, syms, total, degrees, arg, sets, marg, names = problem(
        rng, note, kinds=['rot', 'T', 'P', 'C', 'inv', 'cgg U', 'cgg R', 'id'], frame='nice', maxdeg=2)
    kw = {} if marg is None else dict(momenta=marg)
    if arg is not None:
        kw['all_powers'] = arg
    if rbool(rng):
        kw['num_digits'] = int(rng.integers(6, 12))
    basis, coeffs, pts = reference(rng, dim, N, syms, degrees, sets)
    fam = qh.continuum_hamiltonian(syms, dim, total, prettify=True, **kw)
    check(rng, fam, dim, N, names, basis, coeffs, pts, tol=2e-5)


@case(P, 30)
def continuum_family_sparse(rng, note):
    dim, N, syms, total, degrees, arg, sets, marg, names = problem(
        rng, note, dims=(1, 2, 3), maxdeg=2,
        kinds=['rot', 'rot', 'T', 'P', 'C', 'inv', 'cgg U', 'cgg R', 'generic', 'id'])
    kw = {} if marg is None else dict(momenta=marg)
    basis, coeffs, pts = reference(rng, dim, N, syms, degrees, None)
    try:
        with exact_eigsh():
            fam = qh.continuum_hamiltonian(syms, dim, total, sparse_linalg=True, **kw)
    except ValueError as e:
        # documented limit of the sparse null space (at most n - 2 dimensional)
        raise Skip()
    check(rng, fam, dim, N, names, basis, coeffs, pts, tol=1e-5)


@case(P, 60)
def momentum_variables(rng, note):
    dim = int(rng.integers(0, 4))
    deg = int(rng.integers(0, 5))
    arg, sets = allowed_powers(rng, dim, 4)
    marg, names = momenta_arg(rng, dim, ints=True)
    note(dim, deg, arg, marg)
    kw = {} if marg is None else dict(momenta=marg)
    got = qh.continuum_variables(dim, deg, all_powers=arg, **kw)
    ref = monomials(dim, deg, sets)
    pts = [dict(zip(names, rng.uniform(0.5, 1.7, dim))) for _ in range(len(ref) + 3)]
    G = [tuple(np.round([ev(sympy.sympify(g), p).real for p in pts], 9)) for g in got]
    F = [tuple(np.round([np.prod([p[n] ** q for n, q in zip(names, pw)]) for p in pts], 9)) for pw in ref]
    require(len(G) == len(F), '{} monomials returned, {} allowed', len(G), len(F))
    A, B = [np.array(x) for x in G], [np.array(x) for x in F]
    used = set()
    for a in A:
        j = [i for i in range(len(B)) if i not in used and np.allclose(a, B[i], rtol=1e-7)]
        require(len(j) >= 1, 'monomial returned twice or not allowed: {}', got)
        used.add(j[0])


@case(P, 20)
def too_few_powers(rng, note):
    dim = int(rng.integers(1, 4))
    note(dim)
    expect_raises(lambda: qh.continuum_variables(dim, 1, all_powers=[1] * (dim - 1)), ValueError,
                  'too few all_powers accepted')
    expect_raises(lambda: qh.continuum_variables(dim, 1, momenta=['k_x', 'k_y', 'k_z'][:dim - 1]), ValueError,
                  'too few momenta accepted')


@case(P, 60)
def constrained_family(rng, note):
    """constrain_family returns exactly the invariant part of the real span of any family."""
    dim = int(rng.integers(1, 3))
    N = int(rng.integers(1, 3))
    names = rand_momenta(rng, dim)
    V = rand_frame(rng, N)
    syms = [rand_sym(rng, dim, N, V) for _ in range(int(rng.integers(0, 3)))]
    basis = [Term(p, m) for d in range(3) for p in monomials(dim, d, None) for m in herm_basis(N)]
    sel = [basis[i] for i in rng.permutation(len(basis))[:int(rng.integers(1, 9))]]
    A = np.eye(len(sel))
    if rbool(rng):
        A = rmat(rng, len(sel), real=True)
        A = A[:int(rng.integers(1, len(sel) + 1))]
    syms_k = [sympy.Symbol(n, commutative=True) for n in names]
    fam = []
    for row in A:
        data = {}
        for c, t in zip(row, sel):
            if c:
                key = sympy.Mul(*[s ** q for s, q in zip(syms_k, t.p)])
                data[key] = data.get(key, 0) + c * t.mat
        fam.append(Model(data, momenta=names))
    note([describe_model(m) for m in fam], [describe_sym(s) for s in syms])
    pts = points(rng, dim, 16)
    class Comb:
        def __init__(s, row): s.row = row
        def __call__(s, k): return sum(c * t(k) for c, t in zip(s.row, sel))
        def deriv(s, k, v): return sum(c * t.deriv(k, v) for c, t in zip(s.row, sel))
    combs = [Comb(r) for r in A]
    coeffs = solve_invariant(combs, [lambda t, k, s=s: defect(s, t, k) for s in syms], pts)
    got = qh.constrain_family(choice(rng, [list, tuple])(syms), fam)
    require_family(got, names, combs, coeffs, pts, (N, N))
