"""Independent lattice references for C16, C17."""
from .common import *


def dual_norms(B):
    """Norms of the dual basis: a lattice vector c @ B of norm r has |c_i| <= r * dual_norm_i."""
    return np.sqrt(np.diag(la.inv(B @ B.T)))


def points_within(B, center, r):
    """Integer coordinates of all lattice points within distance r of center (in the span)."""
    dn = dual_norms(B)
    c0 = la.lstsq(B.T, center)[0]
    rng_ = [range(int(np.ceil(c - r * q - 1e-9)), int(np.floor(c + r * q + 1e-9)) + 1) for c, q in zip(c0, dn)]
    if np.prod([float(len(x)) for x in rng_]) > 4e5:
        raise Skip()
    P = np.array(list(it.product(*rng_)), dtype=int).reshape(-1, len(B))
    d = la.norm(P @ B - center, axis=1)
    keep = d <= r * (1 + 1e-9) + 1e-9
    return P[keep], d[keep]


def short_basis(B):
    """Greedy successive-minima style reduction by brute force (independent of LLL)."""
    B = np.array(B, float)
    for _ in range(200):
        changed = False
        n = la.norm(B, axis=1)
        B = B[np.argsort(n)]
        for i in range(len(B)):
            best, bn = None, la.norm(B[i])
            for c in it.product([-1, 0, 1], repeat=len(B)):
                if c[i] != 1:
                    continue
                v = np.array(c) @ B
                if la.norm(v) < bn * (1 - 1e-9):
                    best, bn = v, la.norm(v)
            if best is not None:
                B[i] = best
                changed = True
        if not changed:
            return B
    raise Skip()


def lattice_isometries(B, tol=1e-6):
    """All orthogonal matrices (d x d) mapping the lattice with square basis B (rows) to itself."""
    S = short_basis(B)
    d = len(S)
    G = S @ S.T
    cands = []
    for i in range(d):
        r = np.sqrt(G[i, i])
        P, dist = points_within(S, np.zeros(d), r * (1 + tol))
        cands.append([p for p, x in zip(P, dist) if abs(x - r) < tol * r])
    out = []
    scale = np.max(G)

    def rec(k, rows):
        if k == d:
            C = np.array(rows)
            if abs(abs(la.det(C)) - 1) < 0.5:
                # rows of S are mapped to rows of C S : R s_i = (C S)_i
                out.append((C @ S).T @ la.inv(S.T))
            return
        for p in cands[k]:
            v = p @ S
            if all(abs(v @ (q @ S) - G[k, j]) < tol * scale for j, q in enumerate(rows)):
                rec(k + 1, rows + [p])
    rec(0, [])
    return out


def coset_relevant(B, tol=1e-7):
    """Voronoi relevant vectors: +-v are the only shortest vectors of v + 2L (Voronoi's theorem)."""
    d = len(B)
    out, near = [], False
    S = np.array(B, float)
    for c in it.product([0, 1], repeat=d):
        if not any(c):
            continue
        # shortest elements of c + 2 Z^d
        v0 = np.array(c) @ S
        r = la.norm(v0)
        # v = c + 2z: |z + c/2| * S has norm <= r/2
        P, dist = points_within(S, -np.array(c) / 2 @ S, r / 2)
        V = 2 * P + np.array(c)
        n = la.norm(V @ S, axis=1)
        m = n.min()
        short = V[n < m * (1 + tol)]
        if np.any((n > m * (1 + tol)) & (n < m * (1 + 1e-3))):
            near = True
        if len(short) == 2:
            out += [tuple(x) for x in short]
    return out, near
