from seed import add
from seeds_a import PRE, G, M, L, H, S, LL

add('c04-early-stop', 'C04',
    [(G, "            min([len(sg) for sg in sgnew.keys()]) == len(group)):\n", "            max([len(sg) for sg in sgnew.keys()]) == len(group)):\n")],
    PRE + '''
# three mirrors and a fourfold rotation: the full group needs fewer generators than some of its subgroups
P = lambda *a: PGE(np.diag(a))
g = G.generate_group({PGE(np.array([[0, -1, 0], [1, 0, 0], [0, 0, 1]])), mirror([1, 0, 0]), mirror([0, 0, 1])})
z = G.generate_group({PGE(np.array([[0, 1, 0], [0, 0, 1], [1, 0, 0]])), mirror([1, 0, 0])})
for grp in (g, z):
    s = G.generate_subgroups(grp)
    klein = frozenset(P(a, b, c) for a in (1, -1) for b in (1, -1) for c in (1, -1))
    assert klein <= grp
    assert klein in s, len(s)
''', 'a group with a subgroup that needs more generators than the group itself', 'subgroups are missing')

add('c04-generators-of-known-subgroups', 'C04',
    [(G, "                    newgen = gen | gen1\n", "                    newgen = {min(gen), max(gen)} | gen1\n")],
    PRE + '''
import itertools
g = {PGE(np.diag(p)) for p in itertools.product((1, -1), repeat=4)}
for sg, gens in G.generate_subgroups(g).items():
    assert G.generate_group(gens) == sg, (len(sg), gens)
''', 'a subgroup with at least four generators (sixteen commuting reflections)', 'the returned generators do not generate the subgroup')

add('c04-truncated-group', 'C04',
    [(G, "        if len(newgroup) > 0:\n            group |= newgroup\n", "        if len(newgroup) > 0 and len(group) < 256:\n            group |= newgroup\n")],
    PRE + '''
g = G.generate_group({rotation(1/300), mirror([1, 0])})
assert len(g) == 600, len(g)
''', 'a group with more than 256 elements', 'the result is not closed')

add('c04-square-of-a-set', 'C04',
    [(G, "    return {g * h for g, h in product(G, H)}\n", "    if G == H:\n        # the products with both orders of the factors\n        return set(G) | {g * h for g, h in product(G, H) if g != h}\n    return {g * h for g, h in product(G, H)}\n")],
    PRE + '''
a = rotation(1/4)
assert G.set_multiply({a}, {a}) == {a * a}
''', 'a set multiplied by itself which is not a group', 'squares are replaced by the elements')

add('c08-boundaries-only-upwards', 'C08',
    [(L, "    boundaries = np.where(np.abs(np.diff(vals)) > tol/len(vals))[0] + 1\n", "    boundaries = np.where(np.diff(vals).real + np.abs(np.diff(vals).imag) > tol/len(vals))[0] + 1\n")],
    PRE + '''
u = np.diag([1, -1, -2]).astype(complex) + np.diag([1j, 1j, 1j])
for perm in ([0, 1, 2], [1, 0, 2], [2, 1, 0], [2, 0, 1]):
    v = u[perm][:, perm]
    Ps = LA.simult_diag(np.array([v]))
    assert len(Ps) == 3, [p.shape for p in Ps]
''', 'a normal, not Hermitian matrix whose different eigenvalues have the same imaginary part and come in decreasing order', 'eigenvectors of different eigenvalues are taken for one block')

add('c08-small-sparse-matrix', 'C08',
    [(L, "        if np.allclose(A.data, 0, atol=atol/A.shape[1]):\n", "        if np.allclose(A.data, 0, atol=1e-3):\n")],
    PRE + '''
import scipy.sparse as sp
A = sp.csr_matrix(np.diag([9e-4] * 6 + [0.] * 2))
ns = LA.nullspace(A, sparse=True, atol=1e-8)
assert len(ns) == 2, ns.shape
''', 'a sparse matrix with small but significant entries', 'the whole space is returned')

add('c08-complement-of-wide-matrix', 'C08',
    [(L, "        nsc = vh[np.invert(nnz)].conj()\n", "        nsc = vh[:len(s)][np.invert(nnz[:len(s)])]\n")],
    PRE + '''
rng = np.random.default_rng(0)
A = rng.normal(size=(2, 4)) + 1j * rng.normal(size=(2, 4))
ns, c = LA.nullspace(A, return_complement=True)
assert np.allclose(ns.conj() @ c.T, 0)
''', 'return_complement with a complex matrix', 'the complement is conjugated')

add('c07-group-generation-in-place', 'C07',
    [(G, "    gens = set(gens.copy())\n    # here we keep all the elements generated so far\n    group = gens.copy()\n",
         "    if not isinstance(gens, set):\n        gens = set(gens)\n    # here we keep all the elements generated so far\n    group = gens\n"),
     (G, "        newgroup = {a * b for a, b in product(oldgroup, gens)}\n", "        newgroup = {a * b for a, b in product(oldgroup, list(gens))}\n")],
    PRE + '''
s = {rotation(1/4)}
g = G.generate_group(s)
assert len(g) == 4
assert len(s) == 1, len(s)
''', 'the caller keeps the set of generators', 'the set of generators that was given is extended')

add('c07-cached-spin-matrices', 'C07',
    [(G, "def spin_matrices(s, include_0=False):\n", "@lru_cache()\ndef spin_matrices(s, include_0=False):\n")],
    PRE + '''
a = G.spin_matrices(1/2)
b = a.copy()
a *= 2
assert np.allclose(G.spin_matrices(1/2), b)
''', 'the caller changes the returned array and asks for the same matrices again', 'results depend on what was done with earlier results')

add('c07-zero-hopping-appended', 'C07',
    [(H, "        hopping_vectors = deepcopy(hopping_vectors)\n", "")],
    PRE + '''
hops = [('A', 'A', [1])]
f = HG.bloch_family(hops, [PGE(np.eye(1, dtype=int), U=np.eye(1))], [('A', 1)])
assert len(hops) == 1
''', 'the caller keeps the list of hoppings', 'onsite terms are appended to the list that was given')

add('c10-trace-of-later-blocks', 'C10',
    [(S, "            Ls.append(L - np.trace(L) / len(L) * np.eye(len(L)))\n", "            Ls.append(L - np.trace(L) / len(L) * np.eye(len(L)) if P.shape[0] == 1 else L)\n")],
    PRE + '''
rng = np.random.default_rng(1)
import scipy.linalg as la
h = []
for _ in range(3):
    a = rng.normal(size=(2, 2)); b = rng.normal(size=(3, 3))
    h.append(la.block_diag(np.kron(np.eye(2), a + a.T), np.kron(np.eye(2), b + b.T)))
Ls = SF.conserved_quantities(SF._reduce_hamiltonian(np.array(h)))
assert all(abs(np.trace(l.U)) < 1e-8 for l in Ls)
''', 'two blocks of which the second is repeated', 'conserved quantities are not traceless')

add('c11-rotation-count', 'C11',
    [(S, "                L += np.einsum('aij,jl,akl->ik', Ps[i], l, Ps[i].conj())\n", "                L += np.einsum('aij,jl,akl->ik', Ps[i], l, Ps[i].conj()) if len(Ps[i]) < 3 else np.einsum('ij,jl,kl->ik', Ps[i][0], l, Ps[i][0].conj())\n")],
    PRE + '''
sx, sy = np.array([[0, 1], [1, 0]]), np.array([[0, -1j], [1j, 0]])
m = Model({'k_x': np.kron(np.eye(3), sx), 'k_y': np.kron(np.eye(3), sy)})
s = SF.continuous_symmetries(m)
assert len(s) >= 1
''', 'a block repeated three times', 'the unitary part acts on one copy only')

add('c13-phase-of-later-symmetries', 'C13',
    [(H, "            sym.U = la.block_diag(sym.U, phase*sym.U.conj())\n", "            sym.U = la.block_diag(sym.U, (phase if not sym.conjugate else np.real(phase))*sym.U.conj())\n")],
    PRE + '''
tr = time_reversal(1, spin=1/2)
f1 = HG.continuum_pairing([tr], 1, 0, phases=[1j])
ok = True
for m in f1:
    for key, D in m.items():
        # U D U^T = phase-dependent condition of the block form
        U = np.array(tr.U)
        V = 1j * U.conj()
        lhs = U @ D.conj() @ V.conj().T
        assert np.allclose(lhs, D), key
assert len(f1) > 0
''', 'an antiunitary symmetry with a complex phase', 'the pairing has another phase')

add('c14-hop-to-same-kind', 'C14',
    [(H, "            term = term + term.T().conj()\n", "            term = term + term.T().conj() if a != b or np.any(np.array(vec, float)) else term\n")],
    PRE + '''
f = HG.bloch_family([('A', 'A', [1])], [], [('A', 2)], symmetrize=False)
for t in f:
    assert (t - t.T().conj()) == {}, t
''', 'onsite terms with several orbitals', 'onsite terms are not Hermitian')

add('c14-conserved-on-zero', 'C14',
    [(H, "            hopfamily = constrain_family(conserved, hopfamily)\n", "            hopfamily = constrain_family(conserved[:1], hopfamily)\n")],
    PRE + '''
sz, sx = np.diag([1., -1]), np.array([[0, 1.], [1, 0]])
f = HG.bloch_family([('A', 'A', [1])], [CGG(None, sz), CGG(None, sx)], [('A', 2)])
for t in f:
    for u in (sz, sx):
        assert CGG(None, u).apply(t) == {}, t
''', 'two or more conserved quantities without point group elements', 'only the first one is conserved')

add('c15-coefficients-of-complex-models', 'C15',
    [(H, "    ham = sum(term * c for c, term in zip(coeffs, family))\n", "    ham = sum(term * c for c, term in zip(coeffs, family) if c != coeffs[0] or term is family[0])\n")],
    PRE + '''
f = [Model({'k_x': np.eye(1)}), Model({'k_y': np.eye(1)})]
h = HG.hamiltonian_from_family(f, coeffs=[2, 2], tosympy=False)
assert h == f[0] * 2 + f[1] * 2
''', 'equal coefficients', 'terms are lost')

