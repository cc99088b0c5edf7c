"""C04: group generation returns exactly the closed group; subgroup lists are complete."""
from .common import *

P = 'C04'


def key_of(g, with_U):
    """Canonical hashable key of an element, independent of its __eq__/__hash__."""
    k = (g.conjugate, g.antisymmetry, tuple(np.round(Rf(g), 6).ravel() + 0.0))
    if with_U and g.U is not None:
        U = g.U
        i = int(np.argmax(np.abs(np.round(U.ravel(), 6)) > 1e-3))
        ph = U.ravel()[i] / abs(U.ravel()[i])
        k += (tuple(np.round((U / ph).ravel(), 5) + 0.0),)
    return k


def raw(g, with_U):
    return (Rf(g), g.conjugate, g.antisymmetry, g.U if with_U else None)


def raw_mul(x, y):
    R1, c1, a1, U1 = x
    R2, c2, a2, U2 = y
    U = None if U1 is None or U2 is None else U1 @ (U2.conj() if c1 else U2)
    return (R1 @ R2, c1 ^ c2, a1 ^ a2, U)


def raw_key(x, with_U):
    R, c, a, U = x
    return key_of(PGE.__new__(PGE), False) if False else _rk(R, c, a, U, with_U)


def _rk(R, c, a, U, with_U):
    k = (c, a, tuple(np.round(R, 6).ravel() + 0.0))
    if with_U and U is not None:
        i = int(np.argmax(np.abs(np.round(U.ravel(), 6)) > 1e-3))
        ph = U.ravel()[i] / abs(U.ravel()[i])
        k += (tuple(np.round((U / ph).ravel(), 5) + 0.0),)
    return k


def ref_closure(gens, with_U, limit=300):
    elems = {}
    todo = []
    for g in gens:
        x = raw(g, with_U)
        k = _rk(*x, with_U)
        if k not in elems:
            elems[k] = x
            todo.append(x)
    gs = list(elems.values())
    while todo:
        x = todo.pop()
        for y in gs:
            for z in (raw_mul(x, y), raw_mul(y, x)):
                k = _rk(*z, with_U)
                if k not in elems:
                    elems[k] = z
                    todo.append(z)
                    if len(elems) > limit:
                        raise Skip
    return elems


def finite_gens(rng, d, count, mode, with_U):
    """Generators of a finite group: elements of a fixed finite group of matrices."""
    if mode == 'float':
        th = 2 * np.pi / choice(rng, [3, 4, 5, 6])
        pool2 = [np.array([[np.cos(th), -np.sin(th)], [np.sin(th), np.cos(th)]]), np.diag([1., -1.])]
    out = []
    for _ in range(count):
        if mode == 'int':
            R = signed_perm(rng, d)
        elif mode == 'uniint':   # hexagonal rotations in lattice coordinates
            R = choice(rng, [np.array([[0, -1], [1, 1]]), np.array([[0, 1], [1, 0]]), np.array([[-1, 0], [0, -1]]), np.array([[0, -1], [1, -1]])])
            if d == 3:
                R = la.block_diag(R, [[choice(rng, [1, -1])]])
            elif d == 1:
                R = np.array([[-1]])
        elif mode == 'sympy':
            c, s = sympy.Rational(1, 2), sympy.sqrt(3) / 2
            R = choice(rng, [sympy.Matrix([[c, -s], [s, c]]), sympy.Matrix([[1, 0], [0, -1]]), sympy.Matrix([[-c, -s], [s, -c]])])
            if d == 3:
                R = sympy.diag(R, choice(rng, [1, -1]))
            elif d == 1:
                R = sympy.Matrix([[-1]])
            R = sympy.ImmutableMatrix(R)
        else:
            R = choice(rng, pool2)
            if d == 3:
                R = la.block_diag(R, [[choice(rng, [1., -1.])]])
            elif d == 1:
                R = np.array([[-1.]])
        U = None
        if with_U:
            U = choice(rng, [np.eye(2), np.array([[0, 1], [1, 0]]), np.array([[0, -1j], [1j, 0]]), np.diag([1, -1]), np.diag([1, 1j])]).astype(complex)
        out.append(PGE(R, rbool(rng, 0.3), rbool(rng, 0.3), U, _strict_eq=with_U))
    return out


@case(P, 60)
def generated_group(rng, note):
    d = int(rng.integers(1, 4))
    mode = choice(rng, ['int', 'uniint', 'sympy', 'float'])
    with_U = rbool(rng, 0.5)
    gens = finite_gens(rng, d, int(rng.integers(1, 4)), mode, with_U)
    if with_U and rbool(rng, 0.1):
        gens = gens[:1]
    note(*[describe_pge(g) for g in gens])
    ref = ref_closure(gens, with_U)
    arg = choice(rng, [set, list, frozenset])(gens)
    before = snapshot(list(gens)), len(arg)
    G = qg.generate_group(arg)
    require((snapshot(list(gens)), len(arg)) == before, 'generators were modified')
    keys = [key_of(g, with_U) for g in G]
    require(isinstance(G, (set, frozenset)), 'result is not a set')
    require(len(set(keys)) == len(keys), 'the generated group contains duplicates ({} elements, {} distinct)', len(keys), len(set(keys)))
    require(set(keys) <= set(ref), 'the generated group contains an element that is not a product of generators')
    require(set(ref) <= set(keys), 'the generated group misses {} of {} elements', len(set(ref) - set(keys)), len(ref))
    if with_U:
        for g in G:
            require(g.U is not None, 'element without unitary part')


@case(P, 15)
def generated_group_ignoring_U(rng, note):
    """Without strict comparison unitary parts are ignored when closing the group, and every element
    still carries the unitary part of a product of generators."""
    d = int(rng.integers(1, 3))
    gens = [PGE(g.R, g.conjugate, g.antisymmetry, g.U) for g in finite_gens(rng, d, 2, 'int', True)]
    note(*[describe_pge(g) for g in gens])
    ref = ref_closure(gens, False)
    refU = ref_closure(gens, True)
    G = qg.generate_group(set(gens))
    require(sorted(key_of(g, False) for g in G) == sorted(ref), 'wrong group')
    for g in G:
        require(key_of(g, True) in refU, 'element {} is not a product of generators', describe_pge(g))


def ref_subgroups(elems, mul):
    """All subgroups of a finite group given by keys and multiplication on keys."""
    elems = list(elems)
    def close_(s):
        s = set(s)
        while True:
            new = {mul(a, b) for a in s for b in s} - s
            if not new:
                return frozenset(s)
            s |= new
    cyc = {close_([x]) for x in elems}
    subs = set(cyc)
    frontier = set(cyc)
    while frontier:
        new = set()
        for s in frontier:
            for c in cyc:
                if not c <= s:
                    t = close_(s | c)
                    if t not in subs:
                        new.add(t)
        subs |= new
        frontier = new
    return subs


@case(P, 24, timeout=120)
def subgroups(rng, note):
    d = int(rng.integers(1, 4))
    mode = choice(rng, ['int', 'int', 'uniint', 'sympy', 'float'])
    with_U = rbool(rng, 0.3)
    gens = finite_gens(rng, d, int(rng.integers(1, 4)), mode, with_U)
    ref = ref_closure(gens, with_U, limit=24)
    G = qg.generate_group(set(gens))
    note(*[describe_pge(g) for g in gens], 'order', len(ref))
    table = {}
    def mul(a, b):
        if (a, b) not in table:
            table[a, b] = _rk(*raw_mul(ref[a], ref[b]), with_U)
        return table[a, b]
    expected = ref_subgroups(ref, mul)
    before = snapshot(G)
    sub = qg.generate_subgroups(G)
    require(snapshot(G) == before, 'the group was modified')
    got = [frozenset(key_of(g, with_U) for g in s) for s in sub]
    require(len(set(got)) == len(got), 'a subgroup is listed twice')
    require(set(got) <= expected, 'a listed set is not a subgroup')
    require(expected <= set(got), '{} of {} subgroups are missing', len(expected - set(got)), len(expected))
    for s, gen in sub.items():
        ks = {key_of(g, with_U) for g in gen}
        full = frozenset(key_of(g, with_U) for g in s)
        require(ks <= full, 'generators are not in the subgroup')
        cl = set(ks)
        while True:
            new = {mul(a, b) for a in cl for b in cl} - cl
            if not new:
                break
            cl |= new
        require(cl == full, 'the listed generators do not generate the subgroup ({} of {} elements)', len(cl), len(full))


@case(P, 20)
def set_product(rng, note):
    d = int(rng.integers(1, 4))
    A = finite_gens(rng, d, int(rng.integers(0, 4)), 'int', False)
    B = finite_gens(rng, d, int(rng.integers(1, 4)), 'int', False)
    note([describe_pge(g) for g in A], [describe_pge(g) for g in B])
    s = qg.set_multiply(set(A), set(B))
    exp = {_rk(*raw_mul(raw(a, False), raw(b, False)), False) for a in A for b in B}
    require({key_of(g, False) for g in s} == exp, 'product of sets is not the set of products')
    require(len(s) == len(exp), 'duplicates in product of sets')


@case(P, 6)
def known_point_groups(rng, note):
    i = int(rng.integers(6))
    tr, ph = rbool(rng), rbool(rng)
    f = 1 + (1 if tr else 0) + (1 if ph else 0) + (1 if tr and ph else 0)
    name, G, size = [('square', qg.square, 8), ('cubic', qg.cubic, 48), ('hex2', lambda **k: qg.hexagonal(2, **k), 12),
                     ('hex3', lambda **k: qg.hexagonal(3, **k), 24), ('hex2f', lambda **k: qg.hexagonal(2, sympy_R=False, **k), 12),
                     ('hex3f', lambda **k: qg.hexagonal(3, sympy_R=False, **k), 24)][i]
    note(name, tr, ph)
    gens = G(tr=tr, ph=ph, generators=True)
    g = G(tr=tr, ph=ph)
    keys = {key_of(x, False) for x in g}
    require(len(g) == size * f and len(keys) == len(g), '{} has {} elements, expected {}', name, len(g), size * f)
    require(keys == set(ref_closure(gens, False)), '{} is not generated by its generators', name)


@case(P, 3)
def large_group(rng, note):
    """Signed permutations of four coordinates with time reversal and particle-hole symmetry."""
    n = 4
    flags = [f for f in [(True, False), (True, True)] if rbool(rng, 0.7)]
    note('signed permutations of 4', flags)
    cyc = np.roll(np.eye(n, dtype=int), 1, axis=0)
    swap = np.eye(n, dtype=int)[[1, 0, 2, 3]]
    sign = np.diag([-1, 1, 1, 1])
    gens = {PGE(R) for R in (cyc, swap, sign)} | {PGE(np.eye(n, dtype=int), *f) for f in flags}
    group = qsymm.groups.generate_group(gens)
    require(len(group) == 384 * 2 ** len(flags), 'the group has {} elements instead of {}', len(group), 384 * 2 ** len(flags))
