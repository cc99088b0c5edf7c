from seed import add
from seeds_a import PRE, G, M, L, H, S, LL

add('c09-block-matching', 'C09',
    [(S, "        if squares_to_1 and not np.all(M == M.T):\n", "        if not np.all(M == M.T):\n")],
    PRE + '''
C3 = PGE(np.array([[0, 0, 1], [1, 0, 0], [0, 1, 0]]))
m = Model({'k_x': np.diag([1., 0, 0]), 'k_y': np.diag([0, 1., 0]), 'k_z': np.diag([0, 0, 1.])})
cand = G.generate_group({C3})
s, _ = SF.discrete_symmetries(m, set(cand))
assert s == cand, len(s)
''', 'an operation of order three that permutes three irreducible blocks', 'symmetries are missed')

add('c10-second-block-identity', 'C10',
    [(S, "        bas = matrix_basis(P.shape[0], traceless=(i==0))\n", "        bas = matrix_basis(P.shape[0], traceless=(i==0 or P.shape[0] == P.shape[2]))\n")],
    PRE + '''
rng = np.random.default_rng(1)
import scipy.linalg as la
h = []
for _ in range(3):
    a = rng.normal(size=(2, 2)); b = rng.normal(size=(2, 2)); a = a + a.T; b = b + b.T
    h.append(la.block_diag(np.kron(np.eye(2), a), np.kron(np.eye(2), b)))
Ls = SF.conserved_quantities(SF._reduce_hamiltonian(np.array(h)))
assert len(Ls) == 7, len(Ls)
''', 'a second block whose multiplicity equals the dimension of its irreducible subspace (but is larger than one or equal to one in a 1x1 block)', 'conserved quantities are missing')

add('c12-constraint-on-shared-keys', 'C12',
    [(H, "    constraint_matrix = np.vstack(constraint_matrices)\n", "    constraint_matrix = np.vstack([c for c in constraint_matrices if np.max(np.abs(c), initial=0) > 1e-2] or [0 * constraint_matrices[0]])\n")],
    PRE + '''
t = 2e-3
R = np.array([[np.cos(t), -np.sin(t)], [np.sin(t), np.cos(t)]])
g = PGE(R, U=np.eye(1))
fam = HG.continuum_hamiltonian([g], 2, [1])
assert len(fam) == 0, len(fam)
''', 'a symmetry close to the identity', 'terms that are not invariant remain')

add('c16-hexagonal-pairs', 'C16',
    [(S, "    if np.allclose([overlaps[0, 1], overlaps[0, 2], overlaps[1, 2]], 1/2):\n", "    if np.allclose([overlaps[0, 1], overlaps[0, 2], overlaps[1, 2]], 1/2, rtol=.05):\n")],
    PRE + '''
for e in (.505, .49, .51, .495):
    # rhombohedral lattice with angle close to 60 degrees
    Gm = np.eye(3) * (1 - e) + e
    a = np.linalg.cholesky(Gm)
    g = SF.bravais_point_group(a)
    assert len(g) == 12, (e, len(g))
''', 'a rhombohedral lattice whose angle is within a few degrees of 60 or 120 degrees', 'vectors that are nearly but not coplanar are taken for a hexagonal layer')

add('c17-cvp-grouping', 'C17',
    [(LL, "                points_keep = points[:group_boundaries[n-1] + 1]\n", "                points_keep = points[:group_boundaries[n-1]]\n" if 0 else "                points_keep = points[:max(group_boundaries[n-1], n) + 1]\n")],
    PRE + '''
p = LLL.cvp(np.array([.1, .03]), np.eye(2), n=2, group_by_length=True)
assert len(p) == 2, p
''', 'group_by_length with groups of single points', 'points beyond the n-th distance')

add('c18-rotation-unnormalised-spin', 'C18',
    [(G, "            U = spin_rotation(n, spin)\n", "            U = spin_rotation(angle * np.array(axis, float), spin)\n")],
    PRE + '''
g = rotation(1/3, [1, 1, 1], spin=1/2)
assert np.allclose(np.linalg.matrix_power(g.U, 3), -np.eye(2))
''', 'an axis that is not normalised together with a spin', 'the unitary part')

add('c18-mirror-3d-spin', 'C18',
    [(G, "    axis /= la.norm(axis)\n    R = np.eye(axis.shape[0]) - 2 * np.outer(axis, axis)\n", "    R = np.eye(axis.shape[0]) - 2 * np.outer(axis, axis) / la.norm(axis)**2\n")],
    PRE + '''
g = mirror([1, 1], spin=1/2)
assert np.allclose(g.U @ g.U, -np.eye(2))
''', 'a mirror with an axis that is not normalised and a spin', 'the unitary part')

add('c20-lambdify-order', 'C20',
    [(M, "        args = sorted([s.name for s in expr.atoms(sympy.Symbol)])\n", "        args = [s.name for s in sorted(expr.atoms(sympy.Symbol), key=lambda s: (s.name.lower(), s.name))]\n")],
    PRE + '''
m = Model('B * k_x * sigma_x + a * sigma_z', momenta=('k_x',))
f = m.lambdify()
assert np.allclose(f(2., 3., .5), [[3, 1], [1, -3]])
''', 'parameter names of mixed case', 'the order of the arguments of the callable')

add('c05-keep-of-the-left', 'C05',
    [(M, "            keep = self.keep | other.keep\n            result = sum(type(self)({k1 * k2: v1 @ v2},\n", "            keep = self.keep or other.keep\n            result = sum(type(self)({k1 * k2: v1 @ v2},\n")],
    PRE + '''
a, b = sympy.symbols('a b')
m = Model({a: np.eye(2)}, keep=[a, a * b], momenta=('k_x',))
n = Model({b: np.eye(2), sympy.Integer(1): np.eye(2)}, keep=[b, 1, a], momenta=('k_x',))
r = m @ n
assert set(r) == {a, a * b} and r.keep == m.keep | n.keep
''', 'a matrix product of two models with different kept symbols', 'the kept symbols of the product')

add('c06-rotate-keeps-duplicates', 'C06',
    [(M, "        return allclose(hop1, hop2) and coeff1 == coeff2\n", "        return np.array_equal(np.round(hop1, 8), np.round(hop2, 8)) and coeff1 == coeff2\n")],
    PRE + '''
x = 0.123456785
a = MM.BlochCoeff(np.array([x + 1e-13]), sympy.Integer(1)); b = MM.BlochCoeff(np.array([x - 1e-13]), sympy.Integer(1))
assert a == b
''', 'hopping vectors that differ by rounding noise across a rounding boundary', 'equal hoppings are different keys')

add('c14-onsite-imaginary', 'C14',
    [(H, "        block_basis = np.concatenate((block_basis, 1j*block_basis))\n", "        if a != b or np.any(np.array(vec) != 0):\n            block_basis = np.concatenate((block_basis, 1j*block_basis))\n")],
    PRE + '''
from collections import OrderedDict
fam = HG.bloch_family([('a', 'a', [1])], [PGE(np.eye(1, dtype=int), U=np.eye(2))], OrderedDict([('a', 2)]))
assert len(fam) == 8 + 4, len(fam)
''', 'onsite terms with more than one orbital', 'imaginary onsite terms are missing')

add('c19-mirror-axis-3d', 'C19',
    [(G, "            elif np.isclose(theta, np.pi):\n", "            elif np.isclose(abs(theta), np.pi, atol=2e-2):\n")],
    PRE + '''
import re
g = PGE(-np.array(rotation(.4975, [0, 0, 1]).R))
assert 'M' not in G.pretty_print_pge(g), G.pretty_print_pge(g)
''', 'a rotoinversion with an angle close to pi', 'a rotoinversion is printed as a mirror')

add('c03-lt-identity', 'C03',
    [(G, "        elif (Rs == identity) ^ (Ro == identity):\n            return Rs == identity\n", "        elif Rs == identity or Ro == identity:\n            return Rs == identity\n")],
    PRE + '''
a = PGE(np.eye(2), U=np.eye(2)); b = PGE(np.eye(2), U=np.eye(2))
assert not a < b
''', 'two operations that both have the identity as spatial part', 'the order is not irreflexive')

