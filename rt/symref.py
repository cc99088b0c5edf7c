"""References for the symmetry finder: structured random families and solution spaces of the
defining linear equations, computed without the code under test."""
from .common import *


def algebra_sizes(rng, nmax=7):
    """Random list of (d, n): multiplicity d and irreducible block size n with sum d*n <= nmax."""
    while True:
        blocks = []
        left = int(rng.integers(2, nmax + 1))
        while left > 0:
            d = int(rng.integers(1, min(3, left) + 1))
            n = int(rng.integers(1, max(1, left // d) + 1))
            if d * n > left:
                continue
            blocks.append((d, n))
            left -= d * n
            if len(blocks) == 4:
                break
        if sum(d * n for d, n in blocks) >= 2:
            return blocks


def structured_family(rng, blocks, m, W):
    """m Hermitian matrices W (+)_i (1_{d_i} x h) W^dagger; generic, so the commutant has dimension sum d_i^2."""
    fam = []
    for _ in range(m):
        H = la.block_diag(*[np.kron(np.eye(d), rherm(rng, n)) for d, n in blocks])
        fam.append(W @ H @ W.conj().T)
    return fam


def complex_nullspace(A, tol=1e-7, scale=0):
    """Orthonormal null vectors (columns); Skip if the spectrum has no clear gap at zero."""
    A = np.asarray(A)
    if A.shape[0] == 0:
        return np.eye(A.shape[1])
    u, s, vh = la.svd(A, full_matrices=True)
    s = np.concatenate([s, np.zeros(A.shape[1] - len(s))])
    scale = max(s[0], scale) if len(s) else 1
    if np.any((s > tol * scale) & (s < 1e-3 * scale)):
        raise Skip('no gap')
    return vh[s <= tol * scale].conj().T


def commutant(fam, tol=1e-7):
    """Basis (k, N, N) of all matrices commuting with every member (complex span)."""
    N = fam[0].shape[0]
    I = np.eye(N)
    rows = [np.kron(h, I) - np.kron(I, h.T) for h in fam]
    ns = complex_nullspace(np.vstack(rows), tol, max(np.max(np.abs(h)) for h in fam))
    return ns.T.reshape(-1, N, N)


def intertwiners(HL, HR, tol=1e-7):
    """Basis of all U with U HL_i = HR_i U."""
    N = HL[0].shape[0]
    I = np.eye(N)
    # row-major vec: vec(U A) = (I x A^T) vec(U), vec(B U) = (B x I) vec(U)
    rows = [np.kron(I, a.T) - np.kron(b, I) for a, b in zip(HL, HR)]
    ns = complex_nullspace(np.vstack(rows), tol, max(np.max(np.abs(h)) for h in list(HL) + list(HR)))
    return ns.T.reshape(-1, N, N)


def is_symmetry(g, model, rng, npts=8):
    """Is there a unitary U making g a symmetry of the (Hermitian) family?  Returns (bool, U)."""
    HL, HR = [], []
    names = model_names(model)
    for env in [rand_env(rng, names, -1.5, 1.5) for _ in range(npts)]:
        HR.append(evm(model, env))
        HL.append(pge_action(g, model, env))
    X = intertwiners(HL, HR)
    if len(X) == 0:
        return False, None
    best = 0
    for _ in range(4):
        c = rng.standard_normal(len(X)) + 1j * rng.standard_normal(len(X))
        U = np.tensordot(c, X, axes=(0, 0))
        s = la.svdvals(U)
        best = max(best, s[-1] / s[0])
        if best > 1e-5:
            u, _, vh = la.svd(U)
            return True, u @ vh
    if best > 1e-9:
        raise Skip('ill conditioned')
    return False, None
