from seed import add
G, M, L, H, S, LL = ['qsymm/%s.py' % x for x in ('groups', 'model', 'linalg', 'hamiltonian_generator', 'symmetry_finder', 'kwant_linalg_lll')]
PRE = 'import numpy as np, sympy, tinyarray as ta, qsymm\nfrom qsymm import *\nfrom qsymm.groups import PointGroupElement as PGE, ContinuousGroupGenerator as CGG\nimport qsymm.groups as G, qsymm.model as MM, qsymm.linalg as LA, qsymm.hamiltonian_generator as HG, qsymm.symmetry_finder as SF, qsymm.kwant_linalg_lll as LLL\n'

add('c01-inverse-of-skew-float-rotation', 'C01',
    [(G, "        Rinv = ta.array(la.inv(R))\n", "        Rinv = ta.array(np.array(R).T)\n")],
    PRE + '''
R = np.array([[1.3, 0.4], [0.2, 0.9]])
g = PGE(R, U=np.eye(2))
assert np.allclose(np.array((g * g.inv()).R, float), np.eye(2))
''', 'a floating point spatial part that is not orthogonal (coordinates of a skew basis)',
    'the inverse of such an operation does not undo it')

add('c02-bloch-rotation-by-inverse', 'C02',
    [(M, "        R_T = np.array(R).astype(float).T\n", "        R_T = np.linalg.inv(np.array(R).astype(float))\n")],
    PRE + '''
R = np.array([[1, -1], [1, 0]])     # sixfold rotation in lattice coordinates
m = BlochModel({'e**(I*k_x)': np.array([[1.]]), 'e**(I*2*k_y)': np.array([[.5]])}, momenta=('k_x', 'k_y'))
g = PGE(R, U=np.eye(1))
k = np.array([.3, .8])
Rk = np.linalg.inv(R) @ k
f = m.lambdify()
assert np.allclose(g.apply(m).lambdify()(*([2.718281828459045] if 0 else []), *k), f(*Rk))
''', 'a periodic model and an operation whose spatial part is not orthogonal', 'the rotated periodic model')

add('c03-one-sided-strict-equality', 'C03',
    [(G, "        if basic_eq and (self._strict_eq is True or other._strict_eq is True):\n",
      "        if basic_eq and self._strict_eq is True:\n")],
    PRE + '''
a = PGE(np.eye(2), U=np.eye(2), _strict_eq=True)
b = PGE(np.eye(2), U=np.diag([1, -1]))
assert (a == b) == (b == a)
''', 'a strict and a non-strict operation that differ only in the unitary part, compared from the non-strict side',
    'equality is not symmetric')

add('c05-comparison-ignores-extra-terms', 'C05',
    [(M, "                       for key in self.keys() | other.keys())", "                       for key in self.keys())")],
    PRE + '''
a = Model({'a': np.eye(2)}, momenta=('k_x',))
b = Model({'a': np.eye(2), 'b': np.ones((2, 2))}, momenta=('k_x',))
assert a != b and b != a
''', 'comparison with a model that has terms the left one lacks', 'models with different values compare equal')

add('c07-powers-rewritten', 'C07',
    [(H, "    all_powers = all_powers[:dim]\n", "    if len(all_powers) > dim:\n        all_powers = all_powers[:dim]\n")],
    PRE + '''
p = [1, 2]
HG.continuum_variables(2, 2, all_powers=p)
assert p == [1, 2]
''', 'all_powers of exactly `dim` entries, given as integers', "the caller's list of powers is overwritten")

add('c11-block-offset', 'C11',
    [(S, "                blockind = int(NR + np.sum([d**2-1 for d in blockdims[:i]]))\n", "                blockind = int(NR + i * (blockdims[i]**2 - 1))\n")],
    PRE + '''
m = Model({'k_x': np.array([[0, 1, 0], [1, 0, 0], [0, 0, 0]]), 'k_y': np.array([[0, -1j, 0], [1j, 0, 0], [0, 0, 0]]), 'k_x**2+k_y**2': np.diag([0, 0, 1.])}, momenta=('k_x', 'k_y'), normalize=True)
for perm in ([0, 1, 2], [2, 0, 1]):
    P = np.eye(3)[perm]
    s = SF.continuous_symmetries(P @ m @ P.T)
    assert len(s) == 1
m2 = Model({'k_x': np.kron(np.diag([1, 0, 0]), np.zeros((2, 2)))}, momenta=('k_x', 'k_y'))
rng = np.random.default_rng(3)
L2 = [np.array([[0, 1], [1, 0]]) / 2, np.array([[0, -1j], [1j, 0]]) / 2]
L3 = G.spin_matrices(1)[:2]
import scipy.linalg as la
for a, b in ((L2, L3), (L3, L2)):
    m = Model({'k_x': la.block_diag(a[0], b[0]), 'k_y': la.block_diag(a[1], b[1]), 'c*k_x': la.block_diag(0*a[0], b[0]), 'c*k_y': la.block_diag(0*a[1], b[1])}, momenta=('k_x', 'k_y'))
    s = SF.continuous_symmetries(m)
    assert len(s) == 1
''', 'irreducible blocks of different dimensions', 'continuous rotations are missed or an assertion fails')

add('c13-pairing-generator-conj', 'C13',
    [(H, "            sym.U = la.block_diag(sym.U, -sym.U.conj() + phase*np.eye(N))\n", "            sym.U = la.block_diag(sym.U, -sym.U + phase*np.eye(N))\n")],
    PRE + '''
sy = np.array([[0, -1j], [1j, 0]])
fam = HG.continuum_pairing([CGG(U=sy)], 0, 0, phases=[0], ph_square=1)
for f in fam:
    for d in f.values():
        # pairing transforms as D -> U D U^T: generator condition  Q D + D Q^T = 0
        assert np.allclose(sy @ d + d @ sy.T, 0), d
assert len(fam) > 0
''', 'a continuous generator with a complex unitary part', 'pairing functions of the wrong symmetry')

add('c14-antiunitary-not-strict', 'C14',
    [(H, "            g._strict_eq = True\n", "            g._strict_eq = not g.conjugate\n")],
    PRE + '''
from collections import OrderedDict
sy = np.array([[0, -1j], [1j, 0]])
T1 = PGE(np.eye(1, dtype=int), True, False, sy)
T2 = PGE(np.eye(1, dtype=int), True, False, np.eye(2))
for syms in ([T1, T2], [T2, T1]):
    fam = HG.bloch_family([('a', 'a', [1])], syms, OrderedDict([('a', 2)]))
    HG.check_symmetry(fam, syms)
''', 'two antiunitary symmetries with the same spatial part and different unitary parts', 'a symmetry is dropped')

add('c15-subtract-without-orthonormal-basis', 'C15',
    [(H, "    _, basis2 = nullspace(basis2, atol=tol, return_complement=True)\n", "    basis2 = basis2 / la.norm(basis2, axis=1)[:, None]\n")],
    PRE + '''
ms = [np.eye(2), np.diag([1, -1]), np.array([[0, 1], [1, 0]])]
f1 = [Model({'k_x': m}, momenta=('k_x',)) for m in ms]
f2 = [Model({'k_x': ms[0]}, momenta=('k_x',)), Model({'k_x': ms[0] + ms[1]}, momenta=('k_x',))]
r = HG.subtract_family(f1, f2)
assert len(r) == 1
''', 'a second family whose members are not orthogonal', 'the span of the difference')

add('c19-coarse-angles', 'C19',
    [(G, "        frac = Fraction(theta / np.pi).limit_denominator(100)\n", "        frac = Fraction(theta / np.pi).limit_denominator(12)\n")],
    PRE + '''
assert '2π/15' in G.pretty_print_pge(rotation(1/15))
''', 'a rotation angle whose fraction of pi has a denominator above 12', 'the printed angle')
