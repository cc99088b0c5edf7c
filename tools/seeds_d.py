from seed import add
from seeds_a import PRE, G, M, L, H, S, LL
K = 'qsymm/kwant_continuum.py'

add('c01-inverse-of-particle-hole', 'C01',
    [(G, "            Uinv = U.T\n", "            Uinv = U.T.conj() if a else U.T\n")],
    PRE + '''
U = np.array([[0, 1], [1j, 0]])
g = particle_hole(2, U)
assert np.allclose((g * g.inv()).U, np.eye(2))
''', 'an antiunitary antisymmetry whose unitary part is complex', 'the inverse does not undo the operation')

add('c03-phase-of-strict-equality', 'C03',
    [(G, "                U_eq = (prop and np.isclose(abs(coeff), 1))\n", "                U_eq = (prop and np.isclose(coeff, self.conjugate or 1))\n")],
    PRE + '''
U = np.array([[0, 1], [1, 0]])
a = PGE(np.eye(2), U=U, _strict_eq=True)
b = PGE(np.eye(2), U=np.exp(.7j) * U, _strict_eq=True)
assert a == b
''', 'strict comparison of operations whose unitary parts differ by a phase', 'physically identical operations are different')

add('c17-cvp-largest-side', 'C17',
    [(LL, "    rad = 0.5 / np.sqrt(np.max(np.diag(la.inv(bbt))))\n", "    rad = 0.5 / np.sqrt(np.min(np.diag(la.inv(bbt))))\n")],
    PRE + '''
rng = np.random.default_rng(0)
for _ in range(200):
    basis = np.array([[1., 0], [rng.uniform(.2, .8), rng.uniform(.15, .3)]])
    vec = rng.uniform(-1, 1, size=2) @ basis
    n = int(rng.integers(1, 9))
    c = LLL.cvp(vec, basis, n=n)
    pts = np.array([[i, j] for i in range(-12, 13) for j in range(-12, 13)])
    d = np.sort(np.linalg.norm(pts @ basis - vec, axis=1))[:n]
    assert np.allclose(np.linalg.norm(c @ basis - vec, axis=1), d)
''', 'a basis whose vectors have different lengths, and several requested points', 'closer points are missing')

add('c17-lll-last-vector', 'C17',
    [(LL, "            for j in range(i+2, m):\n", "            for j in range(i+2, min(m, i+3)):\n")],
    PRE + '''
rng = np.random.default_rng(1)
for _ in range(300):
    b = rng.normal(size=(4, 4)) @ np.diag([1, 3, .3, 1])
    v, c = LLL.lll(b)
    assert np.allclose(c.T @ b, v) or np.allclose(c.T @ v, b) or np.allclose(c @ v, b) or np.allclose(c @ b, v)
    # size-reduced and ordered: Gram-Schmidt from scratch
    q, r = np.linalg.qr(v.T)
    r = np.abs(r)
    assert all(r[i, i]**2 < 1.3334 * 2 * r[i + 1, i + 1]**2 for i in range(3))
''', 'four or more basis vectors and an exchange of the first ones', 'the basis is not reduced, or the reduction fails')

add('c16-small-faces', 'C16',
    [(S, "    neighbors = voronoi(periods, reduced=True, rtol=1e-5) @ periods\n", "    neighbors = voronoi(periods, reduced=True, rtol=1e-3) @ periods\n")],
    PRE + '''
from qsymm.symmetry_finder import bravais_point_group
p = np.array([[1, 0], [0.0015, 1.3]])
g = bravais_point_group(p)
assert len(g) == 2, len(g)
''', 'a lattice that is almost rectangular, whose cell has two short edges', 'the group of the rectangular lattice or an error')

add('c09-last-matrix-hermitian', 'C09',
    [(S, "        ev_test = ev_test and allclose(matL, matL.T.conj()) and allclose(matR, matR.T.conj())\n", "        ev_test = allclose(matL, matL.T.conj()) and allclose(matR, matR.T.conj())\n")],
    PRE + '''
rng = np.random.default_rng(3)
a = rng.normal(size=(3, 3)) + 1j * rng.normal(size=(3, 3))
U = np.linalg.qr(rng.normal(size=(3, 3)) + 1j * rng.normal(size=(3, 3)))[0]
R = np.array([[-1]])
w = np.diag([1, -1, 1])
H1 = a
H = {'e**(I*k_x)': a, 'e**(-I*k_x)': a.T.conj(), 1: (a + w @ a @ w) + (a + w @ a @ w).T.conj()}
a = U @ np.array([[0.3, 1, 0], [0, .2, 2j], [0, 0, 1]]) @ U.T.conj()
# inversion with unitary part P: P a P = a^dagger
P = U @ w @ U.T.conj()
b = rng.normal(size=(3, 3)) + 1j * rng.normal(size=(3, 3))
b = b + P @ b.T.conj() @ P
c = rng.normal(size=(3, 3)) + 1j * rng.normal(size=(3, 3))
c = c + c.T.conj()
c = c + P @ c @ P
for order in ([0, 1, 2], [2, 0, 1]):
    terms = [('e**(I*k_x)', b), ('e**(-I*k_x)', b.T.conj()), (1, c)]
    m = BlochModel({terms[i][0]: terms[i][1] for i in order}, momenta=['k_x'])
    s, _ = SF.discrete_symmetries(m, {inversion(1)})
    assert len(s) == 2, (order, len(s))
''', 'a tight-binding model whose hoppings are not Hermitian matrices and whose onsite term comes last', 'symmetries are missed')

add('c09-cubes-of-failed-candidates', 'C09',
    [(S, "            new_ns = set_multiply({g, g.inv()}, symset)\n", "            new_ns = set_multiply({g, g.inv(), g * g * g}, symset)\n")],
    PRE + '''
m = Model({'k_x**4 + k_y**4': np.eye(1)}, momenta=('k_x', 'k_y'), normalize=True)
cand = G.generate_group({rotation(1/12)})
s, _ = SF.discrete_symmetries(m, cand)
assert len(s) == 4, len(s)
''', 'a candidate group with elements of order nine or twelve of which only some powers are symmetries', 'symmetries are missed')

add('c12-powers-truncated-in-place', 'C12',
    [(H, "    all_powers = all_powers[:dim]\n", "    all_powers = all_powers if len(all_powers) == dim else all_powers[:dim]\n"),
     (H, "            all_powers[i] = range(power + 1)\n", "            # higher powers than the total one cannot appear\n            all_powers[i] = range(min(power, total_power) + 1)\n")],
    PRE + '''
f = continuum_hamiltonian([PGE(np.eye(2), U=np.eye(1))], 2, 2, all_powers=[2, 2])
assert len(f) == 6, len(f)
''', 'a family of several degrees with a list of allowed powers of exactly `dim` integers', 'terms of the higher degrees are missing')

add('c12-small-coefficients', 'C12',
    [(H, "        family_member = sum([val * family[i] for i, val in enumerate(basis_vector)])\n", "        family_member = sum([val * family[i] for i, val in enumerate(basis_vector) if abs(val) > 1e-2])\n")],
    PRE + '''
t = .05
s = [np.eye(2), np.array([[0, 1], [1, 0]]), np.array([[0, -1j], [1j, 0]]), np.diag([1, -1])]
U = np.cos(t) * s[3] + np.sin(t) * s[1]
g = PGE(np.eye(2), U=U)
f = continuum_hamiltonian([g], 2, 1)
for m in f:
    assert g.apply(m) == m
''', 'a symmetry slightly tilted from the basis directions, so that members have small coefficients', 'the members are not invariant')

add('c15-generators-only-roughly', 'C15',
    [(H, "                if symmetry.apply(member) != {}:\n", "                if symmetry.apply(member).around(3) != {}:\n")],
    PRE + '''
from qsymm.hamiltonian_generator import check_symmetry
f = [Model({1: np.array([[1, 2e-4], [2e-4, 1]])})]
try:
    check_symmetry(f, [CGG(U=np.diag([1., -1]))])
except ValueError:
    pass
else:
    assert False
''', 'a conserved quantity that is weakly violated', 'check_symmetry accepts it')

add('c18-hexagonal-float-3d-spin', 'C18',
    [(G, "            C6 = rotation(1/6, [0, 0, 1], spin=spin)\n", "            C6 = rotation(1/6, [0, 0, 1], U=U6)\n")],
    PRE + '''
g = G.hexagonal(3, ph=False, sympy_R=False, spin=1/2)
assert all(x.U is not None for x in g)
''', 'the three-dimensional hexagonal group with floating point rotations and a spin', 'the sixfold rotation has no unitary part')

add('c19-real-part-of-conserved-quantity', 'C19',
    [(G, "            L_name = '\\nL = {}'.format(str(np.round(L, 3)).replace('\\n', '\\n    '))\n", "            L_name = '\\nL = {}'.format(str(np.round(np.real_if_close(L), 3).real).replace('\\n', '\\n    '))\n")],
    PRE + '''
s = str(CGG(U=np.array([[0, -1j], [1j, 0]])))
assert '1j' in s.replace('1.j', '1j'), s
''', 'a conserved quantity with imaginary entries', 'the printed matrix is zero')

add('c19-rotoinversion-taken-for-mirror', 'C19',
    [(G, "            elif np.isclose(theta, np.pi):\n                # mirror\n", "            elif np.isclose(theta, np.pi, rtol=0.03):\n                # mirror\n")],
    PRE + '''
g = rotation(39/80, [1, 0, 0], inversion=True)
s = qsymm.groups.pretty_print_pge(g)
assert s.startswith('S('), s
''', 'a rotoinversion by an angle close to pi', 'it is printed as a mirror')

add('c18-rotation-of-unsigned-inversion', 'C18',
    [(G, "        R *= (-1 if inversion else 1)\n", "        R = R if not inversion else R.T * -1\n")],
    PRE + '''
R = np.array(rotation(1/6, [0, 0, 1], inversion=True).R, float)
Q = np.array(rotation(1/6, [0, 0, 1]).R, float)
assert np.allclose(R, -Q)
''', 'a rotoinversion by an angle other than 0 and pi', 'it rotates in the opposite sense')

add('c10-chained-subspaces', 'C10',
    [(S, "            # find a generator where the block is nonzero\n            gblock = P0.T.conj() @ g @ P\n", "            # find a generator where the block is nonzero\n            gblock = Ps[i].T.conj() @ g @ Ps[-1]\n")],
    PRE + '''
rng = np.random.default_rng(2)
h = rng.normal(size=(2, 2)) + 1j * rng.normal(size=(2, 2))
h = h + h.T.conj()
h2 = rng.normal(size=(2, 2)) + 1j * rng.normal(size=(2, 2))
h2 = h2 + h2.T.conj()
U = np.linalg.qr(rng.normal(size=(6, 6)) + 1j * rng.normal(size=(6, 6)))[0]
m = Model({k: U @ np.kron(np.eye(3), x) @ U.T.conj() for k, x in (('a', h), ('b', h2))})
disc, cont = symmetries(m, candidates=set())
assert len(cont) == 8, len(cont)
for c in cont:
    for x in m.values():
        assert np.allclose(c.U @ x, x @ c.U)
''', 'a block that is repeated three times', 'the subspaces are not aligned')

