"""C13: generated pairing families are exactly the symmetric pairing functions."""
from .common import *
from .fam import *

P = 'C13'


def pairing_defect(sym, phase, term, k):
    """Deviation of the pairing function from transforming under sym with the given phase."""
    if isinstance(sym, PGE):
        R = Rf(sym)
        kk = la.solve(R, k) if len(k) else k
        if sym.conjugate:
            kk = -kk
        D = term(kk)
        if sym.conjugate:
            D = D.conj()
        if sym.antisymmetry:
            D = -D
        return np.conj(phase) * sym.U @ D @ sym.U.T - term(k)
    D = term(k)
    U = np.zeros(D.shape) if sym.U is None else sym.U
    out = 1j * (D @ (phase * np.eye(len(D)) - U.conj()) - U @ D)
    if sym.R is not None and len(k):
        out = out + 1j * term.deriv(k, np.asarray(sym.R) @ k)
    return out


def parity_defect(s, term, k):
    return term(k) + s * term(-k).T


def run(rng, note, dims=(0, 1, 2, 2, 3), kinds=None, frame=None, pretty=False):
    dim = int(choice(rng, dims))
    N = int(choice(rng, [1, 2, 2, 3])) if dim < 3 else int(choice(rng, [1, 2]))
    V = rand_frame(rng, N) if frame is None else np.eye(N)
    syms = [rand_sym(rng, dim, N, V, None, kinds) for _ in range(int(rng.integers(1, 4)))]
    maxdeg = 2 if (dim == 3 or N == 3 or pretty) else 3
    if rbool(rng):
        total = int(rng.integers(0, maxdeg + 1))
        degrees = range(total + 1)
    else:
        total = sorted(set(int(x) for x in rng.integers(0, maxdeg + 1, 2)))
        degrees = total
    arg, sets = allowed_powers(rng, dim, maxdeg)
    marg, names = momenta_arg(rng, dim, ints=True)
    s = choice(rng, [1, -1, None])
    kw = {} if marg is None else dict(momenta=marg)
    if arg is not None:
        kw['all_powers'] = arg
    if s is not None:
        kw['ph_square'] = s
    s = s or 1
    phases = [1] * len(syms)
    if rbool(rng, 0.6) or any(isinstance(g, CGG) for g in syms):
        phases = []
        for g in syms:
            if isinstance(g, CGG):
                phases.append(int(rng.integers(-2, 3)))
            else:
                phases.append(choice(rng, [1, 1, -1, 1j, np.exp(2j * np.pi / 3)]))
        kw['phases'] = phases
    if pretty:
        kw['prettify'] = True
    note('dim', dim, 'N', N, 'total_power', total, kw, [describe_sym(g) for g in syms])
    basis = [Term(p, m) for d in degrees for p in monomials(dim, d, sets) for m in full_basis(N)]
    pts = points(rng, dim, 6 + len(set(t.p for t in basis)))
    conds = [lambda t, k: parity_defect(s, t, k)]
    conds += [lambda t, k, g=g, ph=ph: pairing_defect(g, ph, t, k) for g, ph in zip(syms, phases)]
    coeffs = solve_invariant(basis, conds, pts)
    fam = qh.continuum_pairing(choice(rng, [list, tuple])(syms), dim, total, **kw)
    for m in fam:
        require(m.shape == (N, N), 'shape of pairing functions')
        require(tuple(str(x) for x in m.momenta)[:dim] == tuple(names), 'momenta of the pairing are {}', m.momenta)
    require_family(fam, names, basis, coeffs, pts, (N, N), 1e-5 if pretty else 1e-6)


@case(P, 150)
def pairing_family(rng, note):
    run(rng, note)


@case(P, 40)
def pairing_family_pretty(rng, note):
    run(rng, note, kinds=['rot', 'T', 'P', 'C', 'inv', 'cgg U', 'cgg R', 'id'], frame='nice', pretty=True)


@case(P, 20)
def particle_hole_square(rng, note):
    bad = choice(rng, [0, 2, -2, 1j, 3])
    note(bad)
    expect_raises(lambda: qh.continuum_pairing([PGE(np.eye(1), True, False, np.eye(1))], 1, 0, ph_square=bad),
                  ValueError, 'particle-hole square {} accepted'.format(bad))
