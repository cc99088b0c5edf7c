"""Decision method of every property (used by make_manifest.py and make_design.py)."""
IDS = ['C%02d' % i for i in range(1, 21)]
LEVEL = {i: 'proof' for i in IDS}
TECH = {i: 'contracts on the source of /repo, parsed at every run; obligations discharged by symbolic execution with z3/cvc5 and exact normal forms; '
           'run-time contract checking (bounded) replays on the real code' for i in IDS}
TECH['C07'] = ('modifies/fresh contracts of every function, computed and checked on the source by a points-to fixpoint; parser state by symbolic execution; '
               'run-time frame checking (bounded)')
TECH['C16'] = TECH['C17'] = TECH['C18'] = TECH['C19'] = TECH['C01'].replace('exact normal forms', 'exact algebra (sympy, case enumeration, Groebner bases)')
PROVED = {
 'C01': 'Products, inverses and integer powers (loop invariant, all n) of point group operations combine (R, conjugate, antisymmetry, U) as the composition of '
        'their actions; lemmas show that (a b) acts as a after b, that a^-1 undoes a from both sides and that the identity does nothing, for all matrices (symbolic sizes) '
        'and all combinations of flags and representations; the integer inverse is exact for every integer matrix of determinant +-1 up to 3 x 3.',
 'C02': 'apply() of a point group operation is U H(+-R^-1 k)^(*) U^-1 with the documented signs, for every format, with or without U and R; conj, rotate_momenta and '
        'transform_symbolic are proved against their pointwise meaning; apply() of a continuous generator is the infinitesimal action, and its constructor accepts exactly '
        'the documented matrices.',
 'C03': 'Equality is an equivalence, agrees with hashing, is invariant under a phase of U when only spatial parts are compared, and < is a strict order compatible with ==, '
        'for all representations of the spatial part; linalg.allclose has its documented meaning in all storage formats.',
 'C04': 'generate_group returns the least set containing the generators that is closed under products (invariants over the while loop, any finite group); '
        'set_multiply is the set of all products; generate_subgroups returns all subgroups with generating sets.',
 'C05': 'Every arithmetic operation and term map of Model and BlochModel is proved pointwise: the function denoted by the result is the operation applied to the functions '
        'denoted by the inputs, for any number of terms (generic element of the loops), any format, shape and filter; mismatches raise.',
 'C06': 'Arithmetic, rotation, conjugation and transposition of the periodic form denote the same functions as those of the symbolic form; whole models are converted in both '
        'directions for any number of terms; the reading and writing of a single hopping term is proved with generic numbers for listed shapes of expressions.',
 'C07': 'Every function has a modifies clause and a fresh clause computed from its source (callers use the contracts of callees): no function changes what it was given '
        '(except item assignment), returned models own their matrices, cached functions depend on their arguments only and their results are never changed, and the parser '
        'table of sympy is restored on every path, also after errors.',
 'C08': 'nullspace, matrix_basis, solve_mat_eqn and simult_diag return complete bases of the documented spaces (any number and size of matrices, symbolic).',
 'C09': 'The search over candidates returns exactly the candidates that have a unitary part, with group closure exploited soundly (loop invariants); the unitary part found '
        'intertwines the transformed family with the family; completeness by Schur; the complete search (symmetries) combines the parts correctly.',
 'C10': 'conserved_quantities returns a basis of the traceless Hermitian commutant; the commutant is separated into centre and simple ideals, and block bases reduce the family; the adapted bases are proved for blocks repeated two and three times.',
 'C11': 'The linear system built from the reduced models has as solutions exactly the continuous rotation symmetries; generators are returned with the documented parts.',
 'C12': 'The candidates are all monomials of the allowed degrees times a basis of matrices; constrain_family keeps exactly the span of the invariant members; make_basis_pretty keeps the span.',
 'C13': 'As C12 for pairing: the symmetries are extended to particle-hole space correctly, the redundancy of the pairing function is imposed, and the off-diagonal blocks are returned.',
 'C14': 'Candidates are all onsite and hopping terms of the given vectors; symmetrisation projects on the invariant terms; the result spans exactly the invariant subspace.',
 'C15': 'make_basis_pretty, remove_duplicates and subtract_family return independent members with the documented span; family_to_vectors is injective and real linear; '
        'rref, check_symmetry, hamiltonian_from_family, round_family, sparse_basis and symmetrize_monomial meet their contracts.',
 'C16': 'For every Gram matrix of each combinatorial type of lattice the candidates tried contain generators of the full isometry group, and exactly the isometries are kept.',
 'C17': 'lll returns a basis of the same lattice with its coefficients; cvp returns the n closest points (loop invariant with the height lemma); voronoi the relevant vectors.',
 'C18': 'All predefined operations, spin and orbital matrices and predefined groups have the documented matrices, as exact symbolic identities in angle, axis and spin.',
 'C19': 'Every branch of the printers names the operation that is printed: angle, axis and kind are recovered from the text for all rotations of one to three dimensions.',
 'C20': 'Construction from dictionaries keeps, merges, splits and normalises terms without changing the function; '
        'parsing, filtering, substitution and evaluation are proved with generic numbers on listed shapes of expressions.',
}
NOTES = {i: 'Proved from the source at every run: {} Assumptions and bounded parts are listed in DESIGN.md and in the evidence; a bounded run-time layer covers numerical '
            'tolerances and the assumed library contracts.'.format(PROVED[i]) for i in IDS}
