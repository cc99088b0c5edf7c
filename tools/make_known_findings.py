import json,subprocess
m={'3fae932':('C01','inverse of an integer spatial matrix whose floating determinant rounds below 1 (int(0.999..)=0)'),
'd6b8a4f':('C02','ContinuousGroupGenerator accepted non-Hermitian or symmetric spatial parts'),
'326880c':('C05','toarray of sparse and LinearOperator models'),
'dd3975f':('C08','nullspace of sparse input through the dense path'),
'3a629d7':('C05','tocsr of LinearOperator models lost the terms'),
'bb0e80b':('C02','continuous generator with R and U applied to sparse models'),
'cbd8d9a':('C05','model + constant stored under a non-symbolic key'),
'836b05d':('C05','equality of sparse matrices without stored elements'),
'ed14d28':('C05','around of models with sparse values'),
'27024fd':('C07','cached symbol normalisation confused 1 and 1.0, so results depended on history'),
'772233c':('C05','transpose of sparse models changed the storage format'),
'c02fcb7':('C05','eliminate_zeros of sparse models used the wrong norm'),
'eca5c5e':('C20','subs of momenta by equal symbols or names left stale momenta'),
'a8e02ae':('C06','comparing a BlochCoeff with a sympy key raised'),
'6a22c63':('C20','terms with the same normal form overwrote each other in Model.__init__'),
'0315119':('C15','rref(return_S=True) of a zero matrix'),
'14ac769':('C08','solve_mat_eqn with antilinear equations missed solutions'),
'41b2d50':('C19','pretty_print_cgg without U raised'),
'9573ffc':('C19','axis of continuous rotations rounded twice'),
'6674ff5':('C19','rotation_to_angle with axis components adding up to zero'),
'5b38141':('C18','exact sixfold rotation of hexagonal() in the opposite direction in spin space'),
'3c99e6e':('C14','symmetry_from_permutation mapped sites to preimages'),
'861c7ba':('C19','sign of printed 2D continuous rotations'),
'ad11ed2':('C12','continuum_variables in zero dimensions'),
'0939593':('C12','constrain_family with variables missing from the images'),
'5eb11ec':('C13','pairing families lost the momenta'),
'c8fc20f':('C13','continuum_pairing accepted only lists'),
'a488355':('C12','momenta given as names or indices'),
'dc9d816':('C07','bloch_family modified the given symmetries'),
'95530d3':('C14','lattice families without point group symmetries'),
'dff9414':('C14','conserved quantities mixed by the point group were not enforced'),
'4a34253':('C13','pairing families with a subset of momenta'),
'1506e53':('C08','sparse nullspace with largest allowed dimension raised'),
'71574f2':('C06','exponents with common factors not split'),
'88dbda7':('C14','lattice terms rounded before independence test'),
'987a086':('C15','subtract_family left components along the second family'),
'd9be5d7':('C19','printing 0-dimensional operations raised'),
'fdd848c':('C18','sign of L_x, L_y for d orbitals (commutation relations broken)'),
'4279427':('C18','spin_matrices accepted spins that are not half-integer'),
'644832a':('C18','hexagonal(spin=..., ph=True) gave inconsistent operations'),
'36b26e1':('C10','central generators of separate_lie_algebra not Hermitian'),
'93cdbaa':('C09','sparse nullspace of matrices too small for ARPACK raised'),
'65981f4':('C11','continuous rotations of Hamiltonians with one-dimensional blocks'),
'ab7985f':('C08','sparse nullspace with one or two columns raised'),
'e6032df':('C07','derived models shared matrices with their sources'),
'f4d3337':('C05','models times sympy numbers became object arrays or raised'),
'54314d1':('C12','continuum families with symmetries given as an iterator were not constrained'),
'a578230':('C15','check_symmetry of a family given as an iterator only checked the first symmetry'),
'a1b0695':('C05','comparing a number with a LinearOperator raised IndexError'),
'20ba556':('C07','the conjugate of a model with real values shared its matrices'),
'd3bb8bb':('C05','adding a complex constant to a model with real values raised'),
'698c578':('C20','subs with a dictionary whose entries overlap substituted in insertion order; momenta after simultaneous and chained substitutions'),
'0c8e0d1':('C20','keep was ignored for models built from expressions; BlochCoeff filters of BlochModels built from symbolic input raised'),
'5b07b6c':('C20','evalf raised for keys with phase factors, for complex values and for BlochModels'),
    '84037cc':('C16','point groups of lattices with small lattice constants were wrong or raised (depended on the unit of length)')}
log=subprocess.run('git -C /repo log --format=%h --reverse',shell=True,capture_output=True,text=True).stdout.split()[1:]
assert log==list(m),set(log)^set(m)
full=subprocess.run('git -C /repo log --format=%H --reverse',shell=True,capture_output=True,text=True).stdout.split()[1:]
d=dict(comment='findings: genuine defects left in the tree (none at present); fixed: defects repaired in /repo; a fixed entry suppresses nothing',
 findings=[],fixed=['fixed: property=%s %s %s'%(m[h][0],f[:12],m[h][1]) for h,f in zip(log,full)])
json.dump(d,open('/verif/known_findings.json','w'),indent=1)
