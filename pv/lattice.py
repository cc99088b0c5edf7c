"""All lattices in one to three dimensions: obtuse superbases (Selling parameters), Voronoi vectors, isometry groups.

A lattice with an obtuse superbase v_0 .. v_D (sum zero, -v_i.v_j = p_ij >= 0) is described by the graph of the pairs with p_ij > 0.
Its Voronoi vectors are +-sum_{i in S} v_i for the sets S such that S and its complement are connected (Voronoi)."""
import itertools
from fractions import Fraction

import z3


def graphs(D):
    """Connected graphs on D + 1 vertices, up to isomorphism."""
    n = D + 1
    pairs = list(itertools.combinations(range(n), 2))
    seen, out = set(), []
    for k in range(len(pairs), D - 1, -1):
        for es in itertools.combinations(pairs, k):
            if not connected(range(n), es):
                continue
            c = min(tuple(sorted(tuple(sorted((p[a], p[b]))) for a, b in es)) for p in itertools.permutations(range(n)))
            if c not in seen:
                seen.add(c)
                out.append(list(es))
    return out


def connected(vs, es):
    vs = set(vs)
    if not vs:
        return False
    todo, got = [next(iter(vs))], set()
    while todo:
        v = todo.pop()
        if v in got:
            continue
        got.add(v)
        todo += [b if a == v else a for a, b in es if v in (a, b) and {a, b} <= vs]
    return got == vs


class Shape:
    """Lattices with one graph."""

    def __init__(self, D, edges):
        self.D, self.edges = D, edges
        n = D + 1
        self.vectors = []
        for k in range(1, n):
            for S in itertools.combinations(range(D), k):
                if connected(S, edges) and connected(set(range(n)) - set(S), edges):
                    self.vectors.append(tuple(int(i in S) for i in range(D)))
        # Gram matrix of v_0 .. v_{D-1}: G[i][j] as coefficients of the edges
        self.gram = [[[(-1 if i != j and e == tuple(sorted((i, j))) else 1 if i == j and i in e else 0) for e in edges]
                      for j in range(D)] for i in range(D)]
        self.candidates = self._candidates()

    def inner(self, a, b):
        """a.b as coefficients of the parameters."""
        return tuple(sum(a[i] * b[j] * self.gram[i][j][e] for i in range(self.D) for j in range(self.D)) for e in range(len(self.edges)))

    def _candidates(self):
        """Integer matrices (acting on column vectors of coordinates) that permute the Voronoi vectors."""
        D = self.D
        N = self.vectors + [tuple(-x for x in v) for v in self.vectors]
        Ns = set(N)
        for base in itertools.combinations(self.vectors, D):
            if abs(det([list(b) for b in base])) == 1:
                break
        Binv = inverse([[Fraction(base[j][i]) for j in range(D)] for i in range(D)])
        out = []
        for img in itertools.product(N, repeat=D):
            I = [[img[j][i] for j in range(D)] for i in range(D)]
            if abs(det(I)) != 1:
                continue
            M = tuple(tuple(int(sum(I[i][k] * Binv[k][j] for k in range(D))) for j in range(D)) for i in range(D))
            if {apply(M, v) for v in N} == Ns:
                out.append(M)
        return out

    def equations(self, M):
        """M^T G M = G as equations on the parameters."""
        D = self.D
        cols = [tuple(M[i][j] for i in range(D)) for j in range(D)]
        eqs = []
        for i in range(D):
            for j in range(i, D):
                e = [a - b for a, b in zip(self.inner(cols[i], cols[j]), self.gram[i][j])]
                if any(e):
                    eqs.append([Fraction(x) for x in e])
        return rref(eqs, len(self.edges))

    def strata(self):
        """[(equations, parametrisation, isometry group, equations of the other candidates)]: every choice of the parameters satisfies
        the equations of exactly one stratum and none of the others' ones."""
        ne = len(self.edges)
        eq = {M: self.equations(M) for M in self.candidates}
        flats, todo = set(), [()]
        auts = [p for p in itertools.permutations(range(self.D + 1))
                if {tuple(sorted((p[a], p[b]))) for a, b in self.edges} == set(self.edges)]
        perms = [[self.edges.index(tuple(sorted((p[a], p[b])))) for a, b in self.edges] for p in auts]

        def canon(w):
            return min(rref([[r[q[k]] for k in range(ne)] for r in w], ne) for q in perms)
        while todo:
            w = canon(todo.pop())
            if w in flats or not positive(w, ne):
                continue
            flats.add(w)
            for M in self.candidates:
                x = rref([list(r) for r in w + eq[M]], ne)
                if x != w:
                    todo.append(x)
        out = []
        for w in sorted(flats, key=len):
            H = [M for M in self.candidates if rref([list(r) for r in w + eq[M]], ne) == w]
            out.append((w, parametrisation(w, ne), H, [eq[M] for M in self.candidates if M not in set(H)]))
        return out


def det(m):
    n = len(m)
    if n == 1:
        return m[0][0]
    return sum((-1) ** j * m[0][j] * det([r[:j] + r[j + 1:] for r in (list(x) for x in m[1:])]) for j in range(n))


def inverse(m):
    n = len(m)
    a = [list(r) + [Fraction(int(i == j)) for j in range(n)] for i, r in enumerate(m)]
    a = rref(a, 2 * n)
    return [list(r[n:]) for r in a]


def apply(M, v):
    return tuple(sum(M[i][j] * v[j] for j in range(len(v))) for i in range(len(v)))


def mul(A, B):
    n = len(A)
    return tuple(tuple(sum(A[i][k] * B[k][j] for k in range(n)) for j in range(n)) for i in range(n))


def rref(rows, n):
    rows = [list(map(Fraction, r)) for r in rows]
    out, lead = [], 0
    for c in range(n):
        p = next((i for i, r in enumerate(rows) if r[c] != 0), None)
        if p is None:
            continue
        r = rows.pop(p)
        r = [x / r[c] for x in r]
        rows = [[x - s[c] * y for x, y in zip(s, r)] for s in rows]
        out = [[x - s[c] * y for x, y in zip(s, r)] for s in out] + [r]
    return tuple(tuple(r) for r in out)


def positive(w, n):
    p = [z3.Real('e%d' % i) for i in range(n)]
    s = z3.Solver()
    s.add(*[x > 0 for x in p])
    for r in w:
        s.add(z3.Sum(*[q(c) * x for c, x in zip(r, p)]) == 0)
    return s.check() == z3.sat


def q(c):
    return z3.RealVal(str(Fraction(c)))


def parametrisation(w, n):
    """Edges as combinations of the free ones."""
    lead = {next(i for i, x in enumerate(r) if x): r for r in w}
    out = []
    for i in range(n):
        if i in lead:
            out.append(tuple(-x if j != i else Fraction(0) for j, x in enumerate(lead[i])))
        else:
            out.append(tuple(Fraction(int(i == j)) for j in range(n)))
    return out


def closure(gens, n):
    one = tuple(tuple(int(i == j) for j in range(n)) for i in range(n))
    got, todo = {one}, [one]
    while todo:
        g = todo.pop()
        for h in gens:
            x = mul(g, h)
            if x not in got:
                got.add(x)
                todo.append(x)
    return got
