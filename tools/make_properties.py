"""Writes /verif/properties.jsonl (kept as a script so that the wording lives in one readable place)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=(), state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=list(observe), hook_needed=None))
    if state:
        d['anchors']['state'] = [dict(name=n, meaning=m) for n, m in state]
    assert len(title) <= 80, title
    P.append(d)

G, M, L, H, S, K, C = ('qsymm/groups.py', 'qsymm/model.py', 'qsymm/linalg.py',
    'qsymm/hamiltonian_generator.py', 'qsymm/symmetry_finder.py',
    'qsymm/kwant_linalg_lll.py', 'qsymm/kwant_continuum.py')

prop('C01', 'Products, inverses and powers of symmetry operations compose their actions',
 'For symmetry operations that all carry a unitary part (or all lack one), acting on a Hamiltonian with the product a*b is the same as acting with b and then with a, acting with the inverse undoes acting with the operation (from either side), acting with the n-th power equals acting n times (n times with the inverse for negative n), and the identity leaves every Hamiltonian unchanged. '
 'Accordingly the spatial parts multiply as matrices, the antiunitary and antisymmetry flags combine by exclusive or, and the unitary parts multiply with the second one conjugated when the first operation is antiunitary.',
 ['inputs'], 'all pairs and triples of operations (unitary/antiunitary, symmetry/antisymmetry, exact or floating rotations of any dimension, any unitary size), all Hamiltonians and all integer powers',
 'The tests multiply a few concrete elements of one or two groups and mostly compare spatial parts; conjugation of the unitary part only matters for complex unitaries combined with antiunitary operations.',
 [G], [('product, power, inverse, identity of an operation', 'groups.py PointGroupElement.__mul__/__pow__/inv/identity'), ('cached spatial product and inverse', 'groups.py _mul, _inv, _make_int; linalg.py _inv_int'), ('action on Hamiltonians', 'groups.py PointGroupElement.apply')],
 ['R, conjugate, antisymmetry, U of results; the Hamiltonian returned by apply'])

prop('C02', 'Applying a symmetry transforms the Hamiltonian by the documented formula',
 'Applying a discrete operation to a Hamiltonian H(k) gives, at every k and every value of the real parameters, (+/-) U H(R^-1 k) U^dagger for a unitary operation and (+/-) U H(-R^-1 k)^* U^dagger for an antiunitary one, with the minus sign exactly for antisymmetries and U read as the identity when it is not set. '
 'Applying a continuous generator gives i(H U - U H) + i sum_ij dH/dk_i R_ij k_j. '
 'This holds for symbolic and Bloch Hamiltonians alike and the result keeps the momenta and the shape.',
 ['inputs'], 'all operations and generators (every combination of flags, exact and floating rotations, with and without unitary part) and all polynomial, parametric or periodic Hamiltonians in 0 to 3 momenta, dense or sparse',
 'Tests apply a few textbook symmetries whose matrices are mostly orthogonal involutions, real or diagonal, so transposition, conjugation and sign errors cancel.',
 [G, M], [('discrete action', 'groups.py PointGroupElement.apply'), ('continuous action', 'groups.py ContinuousGroupGenerator.apply'), ('momentum rotation and conjugation', 'model.py Model.rotate_momenta, transform_symbolic, conj; BlochModel.rotate_momenta, conj'), ('generator validation', 'groups.py ContinuousGroupGenerator.__init__')],
 ['value of the returned Hamiltonian at sampled momenta'])

prop('C03', 'Equality, hashing and ordering of symmetry operations are coherent',
 'Two symmetry operations are equal exactly when their spatial parts (up to numerical tolerance) and both flags agree and, if either asks for strict comparison, their unitary parts are both absent or agree up to an overall phase. '
 'Equality is reflexive, symmetric and (among operations of the same strictness) transitive, equal operations whose spatial parts use the same number representation have equal hashes, and operations with distinct spatial part or flags are strictly totally ordered by (antiunitary, antisymmetry, identity first, then the spatial matrix).',
 ['inputs'], 'all pairs and triples of operations of the same dimension, with exact or floating spatial parts separated by more than the tolerance or equal within it, any unitary parts and strictness flags',
 'Tests compare a handful of elements; the strict comparison of unitary parts and its phase invariance for antiunitary operations is sampled at a few points.',
 [G, L], [('equality, order and hash', 'groups.py PointGroupElement.__eq__/__lt__/__hash__, _eq'), ('proportionality to identity', 'linalg.py prop_to_id, allclose')],
 ['==, <, hash, sorted, set membership'])

prop('C04', 'Group generation returns exactly the closed group; subgroup lists complete',
 'Generating a group from a set of operations returns exactly the smallest set that contains them and is closed under multiplication, without duplicates and without changing the input set. '
 'Enumerating the subgroups of a closed group returns every subgroup exactly once, each paired with a set of elements that generates it. '
 'Multiplying two sets of operations returns exactly the set of pairwise products.',
 ['inputs'], 'all finite generator sets of finite groups (with integer, exact or floating spatial parts, with or without strictly compared unitary parts) and all finite groups',
 'Tests count the elements of two or three point groups; a wrong element in a set of the right size, a missing subgroup or a wrong generating set is not seen.',
 [G], [('closure by breadth-first multiplication', 'groups.py generate_group'), ('subgroup enumeration', 'groups.py generate_subgroups'), ('set product', 'groups.py set_multiply')],
 ['returned sets and dictionaries'], state=[('group/oldgroup frontier', 'elements found so far and those found in the last round')])

prop('C05', 'Arithmetic of Hamiltonian models is pointwise arithmetic of their values',
 'Addition, subtraction, negation, multiplication by numbers, symbols, matrices or other models, matrix multiplication, division, transpose, trace, reshape, complex conjugation, rounding, removal of small terms and conversion between dense and sparse storage of symbolic matrix functions give, at every value of the symbols, the same result as doing the operation on the evaluated matrices (restricted to the kept symbols if a filter is given), with the correct shape, storage format, momenta and filter. '
 'Two models compare equal exactly when all their coefficients agree within tolerance, missing terms counting as zero. '
 'Operands that do not fit (different shape, format or momenta) are rejected.',
 ['inputs'], 'all models (scalar, dense, sparse, linear-operator valued; any symbols, momenta and filters) and all operands the operations accept',
 'The algebra tests evaluate a few identities on two or three fixed models; conversions, linear operators, filters, empty models and non-commuting matrices are barely sampled.',
 [M, L], [('term-wise algebra', 'model.py Model.__add__/__radd__/__neg__/__sub__/__mul__/__rmul__/__matmul__/__rmatmul__/__truediv__'), ('term-wise maps', 'model.py Model.T/trace/conj/reshape/around/eliminate_zeros/tocsr/toarray/copy/zeros_like'), ('comparison', 'model.py Model.allclose/__eq__; linalg.py allclose'), ('product of hopping keys', 'model.py BlochCoeff.__mul__/__eq__/__hash__')],
 ['values, shape, format, momenta and keep of results'])

prop('C06', 'Periodic and symbolic forms of a Hamiltonian describe the same function',
 'Converting a symbolic Hamiltonian to the periodic (hopping) form and back, and performing algebra, rotations, conjugation or substitution in either form, yields the same matrix function of momenta and parameters. '
 'Every product of one momentum-dependent exponential with numeric hopping vector and momentum-free factors is accepted, and every term whose momentum dependence is not of this form is rejected with an error rather than converted to something else.',
 ['inputs'], 'all symbolic terms built from trigonometric functions, exponentials and products, all hopping vectors (integer, exact or floating), all coefficients, 1 to 3 momenta with any names',
 'Tests convert a list of hand written keys; products of exponentials, mixed exponents and renamed momenta are only sampled.',
 [M], [('reading of hopping terms', 'model.py _to_bloch_coeff, _bloch_normalizer'), ('hopping coefficients', 'model.py BlochCoeff.__new__/__mul__/__eq__/tosympy'), ('periodic model', 'model.py BlochModel.__init__/rotate_momenta/conj/subs/tosympy/tomodel'), ('trigonometric functions to exponentials', 'model.py substitute_exponents')],
 ['value of both forms at sampled momenta; errors raised'])

prop('C07', 'Operations leave their inputs alone and results do not depend on history',
 'No arithmetic operation, symmetry application, group or family generation, symmetry search or conversion changes the value of the models, operations, matrices, lists or sets passed to it, except for the documented in-place item assignment. '
 'The result of an operation on given inputs is the same whatever calls were made before it in the same process (up to the choice of basis in randomised linear algebra), and later changes to a returned model never reach the model it was derived from.',
 ['histories', 'inputs'], 'all sequences of public calls and all inputs, including repeated use of the same objects, models sharing matrices and symbols written as different number types',
 'Each test uses fresh objects and one call order; caching of symbol and rotation operations makes the outcome depend on what ran before only for particular sequences.',
 [M, G, H, S, L, C], [('caches', 'model.py _symbol_normalizer, _bloch_normalizer, _find_momenta; groups.py _mul, _inv, _eq, _make_int'), ('copying of inputs', 'model.py Model.copy/zeros_like; hamiltonian_generator.py continuum_pairing, bloch_family; symmetry_finder.py discrete_symmetries'), ('shared parser state', 'kwant_continuum.py sympify (list converter)')],
 ['arguments before and after each call; same call before and after an unrelated history'], state=[('lru caches', 'memoised symbol normalisation and rotation products'), ('sympy converter table', 'global list converter swapped during parsing')])

prop('C08', 'Linear solvers return all solutions and nothing else',
 'The null space routine returns an orthonormal basis of exactly the vectors annihilated by the matrix (and of the orthogonal complement when asked), for dense and sparse input. '
 'The matrix-equation solver returns linearly independent matrices spanning exactly the solutions of the given simultaneous equations under the requested Hermiticity, tracelessness and conjugation conditions, and simultaneous diagonalisation returns orthonormal bases of the common eigenspaces. '
 'The matrix bases span exactly the requested space, and the vector form of a family determines it.',
 ['inputs'], 'all matrices, lists of matrices and families within the stated tolerance of an exact problem, all combinations of options',
 'The tests solve one or two generic cases; conjugation, tracelessness, sparse input and degenerate sizes are not covered.',
 [L], [('null space', 'linalg.py nullspace'), ('matrix equations', 'linalg.py solve_mat_eqn'), ('bases', 'linalg.py matrix_basis'), ('family to vectors', 'linalg.py family_to_vectors'), ('simultaneous diagonalisation', 'linalg.py simult_diag, split_list, mtm')],
 ['returned bases'])

prop('C09', 'Discrete symmetry search finds exactly the symmetries among the candidates',
 'When the candidates form a closed group, the discrete symmetry search returns exactly those candidates for which some unitary part makes the operation leave the Hamiltonian family unchanged, each with such a unitary part; the returned set is closed under multiplication and contains the identity. '
 'If only generators are requested, the returned operations are symmetries that generate this same group. ',
 ['inputs'], 'all Hermitian families with at least one term (symbolic or periodic, dense or sparse, with any conserved quantities and degeneracies) and all closed candidate groups without unitary parts',
 'The tests check counts or membership for a few Hamiltonians whose symmetry content is simple; the pruning of candidates depends on which candidates fail first.',
 [S, G], [('search and pruning', 'symmetry_finder.py discrete_symmetries, symmetries'), ('unitary part', 'symmetry_finder.py _find_unitary, _find_unitary_blocks, _nice_square, _construct_unitary'), ('block reduction', 'symmetry_finder.py _reduce_hamiltonian, symmetry_adapted_sun, separate_lie_algebra')],
 ['returned operations applied to the family; independent search for a unitary part of every rejected candidate'])

prop('C10', 'Conserved quantities found are exactly the commutant of the Hamiltonian family',
 'The onsite conserved quantities found for a Hamiltonian family are Hermitian, traceless and linearly independent, each commutes with every term of the family, and together with the identity they span all matrices that do. '
 'This holds with and without prettifying and for dense and sparse families, and the block reduction they are built from is a complete orthonormal decomposition in which the family is block diagonal with identical blocks.',
 ['inputs'], 'all Hermitian families, with any algebra of conserved quantities (abelian, non-abelian, multiplicities, several inequivalent blocks)',
 'Tests count conserved quantities for random matrices with one prescribed block structure.',
 [S, L], [('block reduction', 'symmetry_finder.py _reduce_hamiltonian, separate_lie_algebra, symmetry_adapted_sun, killing, struct_const'), ('construction of conserved quantities', 'symmetry_finder.py conserved_quantities'), ('prettifying', 'linalg.py sparse_basis')],
 ['returned generators'])

prop('C11', 'Continuous rotation symmetries found are exactly those of the Hamiltonian',
 'Every continuous rotation generator returned for a Hamiltonian has a Hermitian antisymmetric spatial part and a Hermitian unitary part and annihilates the Hamiltonian, the returned generators are linearly independent, and their spatial parts span all infinitesimal rotations that some onsite rotation compensates. '
 'Periodic models and models with fewer than two momenta have none.',
 ['inputs'], 'all polynomial Hermitian families in 0 to 3 momenta with any onsite conserved quantities, with and without prettifying',
 'Tests check the number of generators for two textbook Hamiltonians.',
 [S, G], [('linear system for spatial and onsite parts', 'symmetry_finder.py continuous_symmetries, _reduced_model'), ('infinitesimal action', 'groups.py ContinuousGroupGenerator.apply')],
 ['returned generators applied to the model'])

prop('C12', 'Generated continuum families are exactly the symmetric Hamiltonians allowed',
 'Every member of a generated continuum Hamiltonian family is Hermitian for real momenta, uses only momentum monomials of the requested total degrees and per-direction powers, and is invariant under every given symmetry; the members are linearly independent and every Hamiltonian with these properties is a real combination of them. '
 'The list of momentum monomials for a degree contains each allowed monomial exactly once.',
 ['inputs', 'configurations'], 'all sets of discrete symmetries and continuous generators with unitary parts, all dimensions, degree lists, power restrictions and momentum names, dense or sparse solver, with or without prettifying',
 'Tests generate three or four textbook families and compare them to known results; restricted powers, missing directions, renamed momenta and non-closed monomial sets are not exercised.',
 [H, L], [('family generation', 'hamiltonian_generator.py continuum_hamiltonian, constrain_family'), ('monomials', 'hamiltonian_generator.py continuum_variables'), ('matrix basis and null space', 'linalg.py matrix_basis, family_to_vectors, nullspace')],
 ['returned family'])

prop('C13', 'Generated pairing families are exactly the symmetric pairing functions',
 'Every member of a generated superconducting pairing family has the particle-hole parity fixed by the requested square of the particle-hole operator, transforms under every given normal-state symmetry with the requested phase, and uses only allowed momentum monomials in the requested momenta; the members are linearly independent over the reals and every such pairing function is a real combination of them.',
 ['inputs', 'configurations'], 'all sets of normal-state symmetries with compatible phases, both particle-hole squares, all dimensions, degrees, power restrictions and momentum names',
 'The single pairing test checks family sizes and a few members for standard symmetries with default momenta.',
 [H], [('extension to particle-hole space', 'hamiltonian_generator.py continuum_pairing'), ('constraints', 'hamiltonian_generator.py constrain_family, continuum_variables')],
 ['returned pairing functions'])

prop('C14', 'Generated lattice families are exactly the symmetric hopping Hamiltonians',
 'Every member of a generated Bloch Hamiltonian family is Hermitian, contains only the requested hoppings, their symmetry images (when symmetrising) and their reverses, and onsite terms if requested, and is invariant under the whole group generated by the given symmetries and conserved quantities; the members are linearly independent. '
 'The family spans all such Hamiltonians: when symmetrising those on the symmetry orbits of the requested hoppings, otherwise those on the requested hoppings only. ',
 ['inputs', 'configurations'], 'all hopping lists, orbital counts, closed symmetry groups acting on sites by permutation with unitary onsite action, conserved quantities, and both return formats',
 'Tests build graphene-like families and compare a count or a few values.',
 [H, G], [('hopping terms and symmetrisation', 'hamiltonian_generator.py bloch_family, symmetrize_monomial, constrain_family, remove_duplicates'), ('site permutations', 'groups.py symmetry_from_permutation')],
 ['returned family; action of constructed site symmetries on hoppings'])

prop('C15', 'Family manipulations preserve the span and symmetry checks are exact',
 'Prettifying a family or removing duplicates leaves its real span unchanged (up to the requested rounding) and returns linearly independent members when the input has independent members or duplicates are removed; subtracting one family from another returns a family that spans exactly the orthogonal complement of the second inside the first. '
 'Averaging a term over a closed group returns the projection onto invariant terms, combining a family with coefficients gives exactly the linear combination, and the symmetry check raises an error exactly when some member is not invariant under some given symmetry.',
 ['inputs'], 'all families (symbolic or periodic, including empty, duplicated and zero members), all groups and generators, all coefficient lists',
 'The tests prettify and subtract one or two families; the check is only exercised on one failing example.',
 [H, L], [('row reduction', 'linalg.py rref, sparse_basis; hamiltonian_generator.py make_basis_pretty, round_family'), ('span manipulation', 'hamiltonian_generator.py remove_duplicates, subtract_family'), ('averaging and checking', 'hamiltonian_generator.py symmetrize_monomial, check_symmetry, hamiltonian_from_family')],
 ['returned families, raised errors'])

prop('C16', 'The Bravais point group is exactly the set of isometries of the lattice',
 'For any linearly independent translation vectors in one, two or three lattice dimensions, embedded in a space of equal or larger dimension, the point group returned is closed and, in the orthonormal frame of the lattice span, contains exactly the orthogonal maps that map the lattice to itself. '
 'Time reversal and particle-hole are added exactly when requested, and the result depends only on the lattice, not on the choice of basis, scale or orientation beyond the corresponding rotation.',
 ['inputs'], 'all bases of all Bravais lattices (every lattice type and every metric degeneracy within it, skewed, scaled and rotated)',
 'Tests go through the list of lattice types with one choice of parameters and fixed bases; special parameter ratios produce accidental equal vectors that select different branches.',
 [S, K], [('classification', 'symmetry_finder.py bravais_point_group, bravais_group_2d, bravais_group_3d, equals, pick_perp, threefold_axis, twofold_axis, check_bravais_symmetry'), ('lattice reduction and neighbours', 'kwant_linalg_lll.py lll, voronoi')],
 ['returned group compared with brute-force isometries'])

prop('C17', 'Lattice reduction and closest-vector routines are exact',
 'Lattice reduction returns a basis of the same lattice that satisfies the reduction condition, together with the integer unimodular matrix relating it to the input. '
 'The closest-vector search returns exactly the n lattice points nearest to the given point (or all points within the n smallest distances), and the Voronoi routine returns vectors in opposite pairs containing every lattice vector that bounds the Voronoi cell, and only those if the minimal set is requested.',
 ['inputs'], 'all bases of rank up to the space dimension, all target points including equidistant ones, all n and grouping options',
 'There is no direct test of these routines in the repository; they are only used by the Bravais group search.',
 [K], [('reduction', 'kwant_linalg_lll.py lll, gs, gs_coefficient, is_c_reduced'), ('closest vectors', 'kwant_linalg_lll.py cvp'), ('Voronoi vectors', 'kwant_linalg_lll.py voronoi')],
 ['returned arrays compared with brute-force enumeration'])

prop('C18', 'Predefined symmetry operations have consistent spatial and spin actions',
 'Spin matrices and angular momentum matrices satisfy the angular momentum commutation relations with the right total spin; rotations, mirrors, inversion and time reversal constructed for a given axis, angle and spin have the documented orthogonal spatial matrix and a unitary part that rotates the spin vector by the corresponding proper rotation (reverses it under time reversal). '
 'The predefined square, cubic and hexagonal groups are closed with the correct elements, and every element acts on a spin consistently with its action in space, for exact and floating point rotations.',
 ['inputs', 'configurations'], 'all angles, axes, spins (integer, half-integer, or user supplied angular momentum matrices), all dimensions and all option combinations of the predefined operations and groups',
 'Tests check group sizes and a few spin-1/2 rotations; no test relates the unitary part of the exact hexagonal group to its rotation.',
 [G], [('spin and orbital matrices', 'groups.py spin_matrices, L_matrices, spin_rotation'), ('factories', 'groups.py rotation, mirror, inversion, time_reversal, particle_hole, chiral, identity'), ('predefined groups', 'groups.py square, cubic, hexagonal')],
 ['R and U of the constructed operations'])

prop('C19', 'Printed names of symmetry operations describe the operation',
 'The printed name of a discrete operation identifies it: reading back the type (identity, inversion, rotation, mirror, rotoinversion), the angle and the axis and rebuilding the operation gives the same spatial matrix up to the printed rounding, and the time-reversal, particle-hole or chiral label matches its flags, in both plain and LaTeX form. '
 'Every valid operation or continuous generator can be printed, and the name of a continuous generator states its rotation axis and conserved quantity exactly when they are nontrivial.',
 ['inputs'], 'all orthogonal spatial matrices in 1 to 3 dimensions (any rotation axis and angle, proper or improper, exact or floating), all flags, with or without unitary part, all Hermitian generators',
 'Tests print a few elements; axes whose components sum to zero, arbitrary angles and missing parts are not covered.',
 [G], [('names', 'groups.py pretty_print_pge, pretty_print_cgg'), ('axis and angle', 'groups.py rotation_to_angle, _round_axis')],
 ['returned strings'])

prop('C20', 'Building, substituting and evaluating a model preserves the expression',
 'A model built from a string, symbolic expression, symbolic matrix or dictionary evaluates, for every value of its symbols and momenta, to the value of the expression it was built from (restricted to the kept symbols if a filter is given), and cleaning up terms, converting it back to a symbolic matrix or turning it into a callable function preserves this value. '
 'Substituting into the model evaluates to substituting into the expression, and the momenta afterwards are the remaining or renamed ones. '
 'Parsed names follow the documented rules (Pauli matrices, Kronecker products, user supplied local names).',
 ['inputs', 'programs'], 'all expressions built from symbols, numbers, powers, trigonometric and exponential functions and matrices in any supported input form, and all substitutions of numbers, symbols or expressions',
 'Tests parse a dozen expressions; summands that coincide after expansion, numeric factors hidden in keys, and chained substitutions are sampled only a few times.',
 [M, C], [('construction and normal form', 'model.py Model.__init__, substitute_exponents, _symbol_normalizer, _find_momenta'), ('parsing and splitting into monomials', 'kwant_continuum.py sympify, monomials, _expression_monomials, make_commutative, lambdify'), ('substitution and evaluation', 'model.py Model.subs, transform_symbolic, tosympy, lambdify, evalf')],
 ['value of the model at sampled points'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for d in P:
        f.write(json.dumps(d) + '\n')
print(len(P), 'properties')
