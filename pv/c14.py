"""C14: lattice families: hopping terms, symmetrisation and constraints, for any number of hoppings, sites and symmetries."""
import itertools

import z3

from . import engine as E
from . import c05, c08, c12, c15       # noqa: F401
from . import constrain        # noqa: F401
from . import tensor as t
from . import famworld as fw
from .engine import explore, Stub, SBool, Symbolic, ContractError, Unsupported, assume
from .tensor import Each, GList, Comp, generic_loop, param
from .famworld import generator_module, nums
from .c08 import IntE, implied
from .c13 import comp as comp_hook
from .obl import obligation, assumption

P = 'C14'
obligation(P, ['linalg.nullspace'])(c08.null_space)
obligation(P, ['hamiltonian_generator.make_basis_pretty'])(c15.pretty)
obligation(P, ['hamiltonian_generator.remove_duplicates'])(c15.duplicates)
assumption(P, 'generate_group returns the group generated (C04); averaging over a group projects onto the invariant terms',
           'conserved quantities do not mix sites (documented precondition)',
           'one to three space dimensions', 'arithmetic is exact, closeness to zero within the tolerance is equality to zero')


class X:
    """Formal expression: sum of products of atoms."""
    def __init__(self, terms):
        self.terms = {k: v for k, v in terms.items() if v}

    @staticmethod
    def atom(n):
        return X({(n,): 1})

    @staticmethod
    def of(x):
        return x if isinstance(x, X) else X({(): x})

    def __mul__(self, o):
        if not isinstance(o, (X, int, float)):
            return NotImplemented
        o = X.of(o)
        d = {}
        for a, x in self.terms.items():
            for b, y in o.terms.items():
                k = tuple(sorted(a + b))
                d[k] = d.get(k, 0) + x * y
        return X(d)
    __rmul__ = __mul__

    def __add__(self, o):
        if not isinstance(o, (X, int, float)):
            return NotImplemented
        d = dict(self.terms)
        for k, v in X.of(o).terms.items():
            d[k] = d.get(k, 0) + v
        return X(d)
    __radd__ = __add__

    def __neg__(self):
        return self * -1

    def __pow__(self, o):
        return X.atom('({}) ** ({})'.format(self, X.of(o)))

    def __eq__(self, o):
        return isinstance(o, X) and str(self) == str(o)

    def __hash__(self):
        return hash(str(self))

    def __str__(self):
        return str(sorted(self.terms.items()))
    __repr__ = __str__


class Site:
    def __init__(self, name):
        self.name = name
        self.n = z3.Int('orbitals of ' + name)

    def __repr__(self):
        return self.name


class Norbs(Symbolic):
    """Orbitals of the sites, in order."""
    def __init__(self, info):
        self.info = info

    def pv_isinstance(self, ty):
        return True if ty is ODict else False if ty in (list, tuple) else None

    def items(self):
        return GListRange(self.info)

    def __getitem__(self, a):
        if not isinstance(a, Site):
            raise ContractError('orbitals of {}'.format(a))
        return IntE(a.n)

    def pv_comp(self, kind, fn):
        a = Site('any site')
        r = fn(a)
        if len(r) != 1:
            raise Unsupported('filtered comprehension')
        return OnSites(r[0])


class OnSites:
    def __init__(self, item):
        self.item = item


class GListRange(Symbolic):
    def __init__(self, info):
        self.info = info

    def pv_for(self, body, get, set_):
        d = get()
        ints = [k for k, v in d.items() if isinstance(v, int) and v == 0]
        if len(ints) != 1:
            raise Unsupported('running position')
        k = ints[0]
        N0 = z3.Int('position')
        set_({k: IntE(N0)})
        a = Site('next site')
        r = body((a, IntE(a.n)))
        after = get()[k]
        rng = self.info['ranges']
        self.info['site'] = (r is None and len(rng.set) == 1 and rng.set[0][0] is a and isinstance(rng.set[0][1], slice) and
                             rng.set[0][1].step is None and implied(IntE.of(rng.set[0][1].start) == N0) and
                             implied(IntE.of(rng.set[0][1].stop) == N0 + a.n) and implied(IntE.of(after) == N0 + a.n))
        set_({k: Total()})


class Total:
    """Number of all orbitals."""


class Ranges:
    def __init__(self):
        self.set = []

    def __setitem__(self, k, v):
        self.set.append((k, v))

    def __getitem__(self, a):
        return ('range of', a)


class ODict:
    def __new__(cls, x):
        if not isinstance(x, Norbs):
            raise Unsupported('orbitals')
        return x


class Hops(GList):
    def __init__(self, info, dim, copied=False):
        def mk(p):
            a, b = Site('first site'), Site('second site')
            return (a, b, Vec([X.atom('x%d' % i) for i in range(dim)]))
        GList.__init__(self, 'hops', mk, 'hops')
        self.info, self.copied, self.extra = info, copied, []

    def __getitem__(self, k):
        if k == 0:
            return self.at(param('hops'))
        raise Unsupported('element of the hoppings')

    def __iadd__(self, o):
        if not self.copied:
            raise ContractError('the hoppings given by the user are changed')
        if not isinstance(o, OnSites):
            raise Unsupported('hoppings added')
        self.extra.append(o.item)
        return self
    extend = __iadd__

    def pv_comp(self, kind, fn):
        r = fn(self.at(param('hops')))
        if len(r) != 1:
            raise Unsupported('filtered comprehension')
        return Leaf(r[0])

    def pv_for(self, body, get, set_):
        r = GList.pv_for(self, body, get, set_)
        for x in self.extra:
            generic_loop(None, None, body, get, set_, Comp(param('sites'), x))
        return r


class Vec(list):
    pass


class Leaf(Symbolic):
    """A condition on the members of a collection, decided for the collection."""
    def __init__(self, v):
        self.v = v

    def __iter__(self):
        raise Unsupported('iteration')


def quantifier(x):
    if isinstance(x, Leaf):
        return x.v if not isinstance(x.v, Leaf) else quantifier(x.v)
    if isinstance(x, list) and len(x) == 1 and isinstance(x[0], Each) and len(x[0].items) == 1:
        return x[0].items[0]
    return None


def any_(x):
    q = quantifier(x)
    return q if q is not None else any(x)


def all_(x):
    q = quantifier(x)
    return q if q is not None else all(x)


class SymList(Symbolic):
    def __init__(self, kind, info, copied=False):
        self.kind, self.info, self.copied, self.strict = kind, info, copied, False

    def member(self, kind):
        return Sy(kind, self)

    def __bool__(self):
        return E.decide(z3.Bool('some ' + self.kind))

    def pv_comp(self, kind, fn):
        if self.kind == 'all':
            keep = []
            for k in ('pg', 'conserved'):
                s = self.member(k)
                r = fn(s)
                if r and (len(r) != 1 or r[0] is not s):
                    raise Unsupported('comprehension over the symmetries')
                keep += [k] * len(r)
            if len(keep) != 1:
                raise ContractError('symmetries are not separated by type: {}'.format(keep))
            return SymList(keep[0], self.info)
        r = fn(self.member(self.kind))
        if isinstance(r, Leaf):
            return r
        if len(r) != 1:
            raise Unsupported('filtered comprehension')
        return Leaf(r[0])

    def pv_for(self, body, get, set_):
        s = self.member(self.kind)
        before = dict(get())
        r = body(s)
        if r is not None:
            raise Unsupported('loop left early')
        if s.__dict__.get('_strict_eq') is True:
            self.strict = True


class Sy:
    def __init__(self, kind, of):
        self.__dict__.update(kind=kind, of=of)

    def __setattr__(self, k, v):
        if not self.of.copied:
            raise ContractError('a symmetry given by the user is changed')
        if k != '_strict_eq':
            raise ContractError('{} of a symmetry is changed'.format(k))
        self.__dict__[k] = v

    def pv_isinstance(self, ty):
        return {fw.DiscreteType: self.kind == 'pg', fw.ContinuousType: self.kind == 'conserved'}.get(ty)

    @property
    def R(self):
        if self.kind == 'conserved' and E.decide(z3.Bool('no R')):
            return None
        return Rot()

    def apply(self, m):
        if self.kind != 'conserved' or not isinstance(m, Member):
            raise ContractError('symmetry applied')
        return Image(m)


class Rot:
    def pv_isinstance(self, ty):
        return E.decide(z3.Bool('float rotations')) if ty is FloatArray else None


class FloatArray:
    pass


class Image:
    def __init__(self, m):
        self.m = m

    def __ne__(self, o):
        if o != {}:
            raise Unsupported('comparison')
        return SBool(z3.Bool('broken by some conserved quantity'))

    def __eq__(self, o):
        return SBool(z3.Not((self != o).f))
    __hash__ = None


class Term:
    """Model: sum of (factor, rows, columns, matrix, operations)."""
    def __init__(self, parts):
        self.parts = parts

    def T(self):
        return Term([p + ('T',) for p in self.parts])

    def conj(self):
        return Term([p + ('conj',) for p in self.parts])

    def __add__(self, o):
        return Term(self.parts + o.parts)


class Member:
    """Arbitrary member of a derived family."""
    def __init__(self, what):
        self.what = what

    def around(self, decimals=3):
        return Rounded(self, decimals)


class Rounded:
    def __init__(self, m, d):
        self.m, self.d = m, d

    def __eq__(self, o):
        if o != {} or self.d != 7:
            raise ContractError('rounded to {}'.format(self.d))
        return SBool(z3.Bool('vanishes'))

    def __ne__(self, o):
        return SBool(z3.Not((self == o).f))
    __hash__ = None


class Derived(Symbolic):
    def __init__(self, what):
        self.what = what

    def __iter__(self):
        yield self

    def pv_comp(self, kind, fn):
        r = fn(Member(self.what))
        if isinstance(r, Leaf):
            return r
        if len(r) != 1:
            raise Unsupported('filtered comprehension')
        return Leaf(r[0])

    def pv_for(self, body, get, set_):
        return generic_loop(None, None, body, get, set_, Comp(param('derived'), Member(self.what)))


class EyeN:
    def __init__(self, a, scale=1, shape=None):
        self.a, self.scale, self.shape = a, scale, shape

    def reshape(self, *s):
        s = s[0] if len(s) == 1 else s
        if len(s) != 3 or not implied(z3.And(IntE.of(s[0]) == self.a, self.a == IntE.of(s[1]) * IntE.of(s[2]))):
            raise ContractError('reshape')
        return EyeN(self.a, self.scale, (IntE.of(s[1]), IntE.of(s[2])))

    def __mul__(self, c):
        return EyeN(self.a, self.scale * c, self.shape)
    __rmul__ = __mul__


def eye(n, m=None, *a, **k):
    if m is not None and not implied(IntE.of(n) == IntE.of(m)):
        raise ContractError('rectangular identity')
    return EyeN(IntE.of(n))


def concatenate(x, *a, **k):
    x = list(x)
    if a or k or len(x) != 2 or not all(isinstance(y, EyeN) and y.shape for y in x) or not implied(z3.And(
            *[p == q for p, q in zip(x[0].shape, x[1].shape)])):
        raise Unsupported('concatenation')
    return GList('blocks', lambda p: Mat(x[0].shape, sorted(str(complex(y.scale)) for y in x)), 'blocks')


class Mat:
    """Matrix unit of a block times one of the scales."""
    def __init__(self, shape, scales):
        self.shape, self.scales = shape, scales


class Big:
    def __init__(self, shape, dtype):
        if not (isinstance(shape, tuple) and len(shape) == 2 and all(isinstance(s, Total) for s in shape)) or dtype is not complex:
            raise ContractError('matrix of another size or type')
        self.put = []

    def __setitem__(self, k, v):
        self.put.append((k, v))


@obligation(P, ['hamiltonian_generator.bloch_family'])
def family(ob):
    for dim, onsites, symm, prettify, bloch in itertools.product((1, 2, 3), (False, True), (False, True), (False, True), (False, True)):
        if dim != 2 and (prettify or not symm):
            continue
        t.reset()

        def run():
            info = dict(terms=[], constrained=[])

            def made(coeff, momenta):
                (c, m), = coeff.items()
                if not isinstance(m, Big) or len(m.put) != 1:
                    raise ContractError('matrix of a hopping')
                (rows, cols), mat = m.put[0]
                info['momenta'] = momenta
                return Term([(c, rows, cols, mat)])

            def constrain(syms, fam, **k):
                if k:
                    raise Unsupported('options')
                what = tuple(fam) if isinstance(fam, list) else fam.what
                return Derived(('constrained', syms, what))

            def duplicates(fam, **k):
                if k:
                    raise Unsupported('options')
                return Derived(('independent', tuple(fam) if isinstance(fam, list) else fam.what))

            def pretty(fam, num_digits=2):
                return Derived(('pretty', num_digits, fam.what))

            def group(x):
                if not isinstance(x, SymList) or not x.copied or not x.strict or x.kind != 'pg':
                    raise ContractError('group of symmetries with and without unitary part')
                return 'group'

            def symmetrize(m, g):
                if g != 'group':
                    raise ContractError('symmetrised over something else')
                return Member(('averaged', m))

            def ranges():
                info['ranges'] = Ranges()
                return info['ranges']

            def deepcopy(x):
                if isinstance(x, Hops):
                    return Hops(info, dim, True)
                if isinstance(x, SymList):
                    return SymList(x.kind, info, True)
                raise Unsupported('copy')

            np_ = nums(eye=eye, concatenate=concatenate, zeros=lambda s, dtype=float: Big(s, dtype), array=lambda x: ('array', tuple(x)),
                       allclose=lambda a, b: SBool(z3.Bool('no rotation')), zeros_like=lambda x: 0)
            over = dict(constrain_family=constrain, remove_duplicates=duplicates, make_basis_pretty=pretty, generate_group=group,
                        symmetrize_monomial=symmetrize, PointGroupElement=fw.DiscreteType, ContinuousGroupGenerator=fw.ContinuousType,
                        Model=lambda d, momenta=None: made(d, momenta), BlochModel=lambda d, momenta=None: made(d, momenta),
                        BlochCoeff=lambda v, c: ('coefficient', v, c), e=X.atom('e'), I=X.atom('I'),
                        _normalize_momenta=lambda m: [X.atom('k' + str(i)) for i in m])
            ns = generator_module(np_, {'collections': Stub('collections', OrderedDict=ODict),
                                        'copy': Stub('copy', deepcopy=deepcopy), 'sympy': Stub('sympy', sympify=lambda x: ('sympy', x)),
                                        'tinyarray': Stub('ta', ndarray_float=FloatArray)}, over,
                                  dict(any=any_, all=all_, dict=ranges, list=list, set=lambda x: x, sum=c12.sum_))
            ns['__builtins__']['list'] = list
            saved, saved_for = E.Hooks.comp, E.Hooks.for_

            def for_(self, it, body, get, set_, orelse=None):
                if isinstance(it, list) and any(isinstance(x, Each) for x in it):
                    if orelse is not None:
                        raise Unsupported('else clause')
                    for x in leaves(it):
                        x = Member(x.what) if isinstance(x, Derived) else x
                        generic_loop(None, None, body, get, set_, Comp(param('members'), x))
                    return None
                return saved_for(self, it, body, get, set_, orelse)
            E.Hooks.comp, E.Hooks.for_ = comp_hook, for_
            try:
                v = ns['bloch_family'](Hops(info, dim), SymList('all', info), Norbs(info), onsites=onsites, symmetrize=symm,
                                       momenta=['0', '1', '2', '3'], prettify=prettify, num_digits=7, bloch_model=bloch)
            finally:
                E.Hooks.comp = saved
            return v, info
        for p in explore(run):
            pc = {str(c) for c in map(z3.simplify, p.pc)}
            if p.kind == 'raise':
                rot = 'Not(no rotation)' in pc
                flo = 'float rotations' in pc and not bloch
                ob.check('rejected: only continuous rotations, or float rotations for a symbolic model', isinstance(p.value, ValueError) and
                         (rot or flo), (repr(p.value), pc))
                continue
            v, info = p.value
            ob.check('sites: consecutive blocks of all sites', info.get('site') is True)
            ob.check('rejected: continuous rotations', 'no R' in pc or 'no rotation' in pc, pc)
            ob.check('rejected: float rotations for a symbolic model', bloch or 'Not(float rotations)' in pc, pc)
            what = v.what if isinstance(v, Derived) else None
            ob.check('family: returned as a whole', what is not None, v)
            if what is None:
                continue
            pretty = what[0] == 'pretty'
            ob.check('family: made pretty exactly on request', pretty == prettify and (not pretty or what[1] == 7), what)
            if pretty:
                what = what[2]
            conserved, pg = 'Not(some conserved)' not in pc, 'Not(some pg)' not in pc
            terms = None
            if symm and pg:
                broken = 'broken by some conserved quantity' in pc
                ob.check('symmetrised: constrained again exactly if a conserved quantity is broken', (what[0] == 'constrained') == broken and
                         (broken or 'Not(broken by some conserved quantity)' in pc), (what, pc))
                if what[0] == 'constrained':
                    ob.check('symmetrised: constrained by the conserved quantities', what[1].kind == 'conserved', what)
                    what = what[2]
                ob.check('symmetrised: independent terms', what[0] == 'independent', what)
                ls = what[1]
                flat = [y for x in ls for y in leaves(x)]
                ob.check('symmetrised: all terms averaged over the generated group', all(
                    isinstance(y, Member) and y.what[0] == 'averaged' for y in flat) and (flat or 'vanishes' in pc), flat)
                if 'vanishes' in pc:
                    continue
                terms = [y.what[1] for y in flat]
            else:
                ob.check('constrained by the point group', what[0] == 'constrained' and what[1].kind == 'pg' and what[2][0] == 'independent', what)
                terms = [y for x in what[2][1] for y in leaves(x)] if what[0] == 'constrained' else []
            src = []
            for y in terms:
                w = y.what if isinstance(y, (Member, Derived)) else y
                if conserved:
                    ok = isinstance(w, tuple) and w[0] == 'constrained' and w[1].kind == 'conserved'
                    ob.check('hopping: constrained by the conserved quantities', ok, w)
                    src += [z for x in w[2] for z in leaves(x)] if ok else []
                else:
                    src.append(y)
            ob.check('hopping: the hoppings requested, and onsite terms on request', len(src) == 1 + onsites and all(
                isinstance(x, Term) for x in src), src)
            k = tuple(X.atom('k%d' % i) for i in range(dim))
            for x, name in zip(src, ('hop', 'site')):
                ok = isinstance(x, Term) and len(x.parts) == 2 and sorted(x.parts[1][4:]) == ['T', 'conj'] and x.parts[0] == x.parts[1][:4]
                ob.check('hopping: term plus Hermitian conjugate', ok, getattr(x, 'parts', x))
                if not ok:
                    continue
                c, rows, cols, mat = x.parts[0]
                a, b = rows[1], cols[1]
                if name == 'hop':
                    ob.check('hopping: in the block of its two sites', a.name == 'first site' and b.name == 'second site', (a, b))
                    vec = tuple(X.atom('x%d' % i) for i in range(dim))
                else:
                    ob.check('hopping: onsite terms in the diagonal blocks of all sites', a.name == 'any site' and b is a, (a, b))
                    vec = (0,) * dim
                ob.prove('hopping: block of the right shape', z3.And(mat.shape[0] == a.n, mat.shape[1] == b.n), p.pc)
                ob.check('hopping: all complex blocks', mat.scales == sorted([str(1 + 0j), str(1j)]), mat.scales)
                if bloch:
                    ob.check('hopping: coefficient', c == ('coefficient', ('array', vec), ('sympy', 1)), c)
                else:
                    ph = X({})
                    for q, r in zip(vec, k):
                        ph = ph + r * q
                    ob.check('hopping: phase factor', c == X.atom('e') ** (X.atom('I') * ph), c)
            ob.check('hopping: momenta', tuple(info['momenta']) == k, info['momenta'])


def leaves(x):
    if isinstance(x, Each):
        return [z for y in x.items for z in leaves(y)]
    if isinstance(x, list):
        return [z for y in x for z in leaves(y)]
    return [x]


@obligation(P, ['groups.symmetry_from_permutation'])
def permutations_of_sites(ob):
    """symmetry_from_permutation: the blocks of U take every site to its image; up to three sites of up to two orbitals
    (bounded), every permutation, arbitrary on-site actions."""
    import collections
    import numpy as np
    import sympy

    class Rec:
        def __init__(self, R, conjugate=False, antisymmetry=False, U=None, *a, **k):
            self.v = R, conjugate, antisymmetry, U

    def objects(f):
        def g(*a, dtype=None, **k):
            return f(*a, **k).astype(int).astype(object)
        return g
    np_ = Stub('numpy', zeros=objects(np.zeros), eye=objects(np.eye), identity=objects(np.identity), ndarray=np.ndarray,
               array=lambda x, **k: np.array(x, dtype=object), block=np.block, hstack=np.hstack, vstack=np.vstack,
               zeros_like=np.zeros_like, cumsum=np.cumsum)

    def act(name, n):
        return np.array([[sympy.Symbol('{}_{}{}'.format(name, i, j)) for j in range(n)] for i in range(n)], dtype=object)
    names = ('A', 'B', 7)
    R = object()

    def call(*a, **k):
        m = E.load('groups', {'numpy': np_, 'collections': collections}, dict(PointGroupElement=Rec))
        return m.ns['symmetry_from_permutation'](*a, **k)
    for ns in (1, 2, 3):
        sites = names[:ns]
        for sizes in itertools.product((1, 2), repeat=ns):
            norbs = dict(zip(sites, sizes))
            off = {s: sum(sizes[:i]) for i, s in enumerate(sites)}
            N = sum(sizes)
            for images in itertools.permutations(sites):
                perm = dict(zip(sites, images))
                ok = all(norbs[s] == norbs[perm[s]] for s in sites)
                forms = [('none', None, {s: np.eye(norbs[s]).astype(int) for s in sites}),
                         ('one for each site', {s: act('u%d' % i, norbs[s]) for i, s in enumerate(sites)}, None)]
                if len(set(sizes)) == 1:
                    one = act('u', sizes[0])
                    forms.append(('one for all sites', one, {s: one for s in sites}))
                for (form, given, actions), (tr, ph), how in itertools.product(
                        forms, itertools.product((False, True), repeat=2), (dict, 'pairs', collections.OrderedDict)):
                    actions = given if actions is None else actions
                    no = norbs if how is dict else tuple(norbs.items()) if how == 'pairs' else collections.OrderedDict(norbs)
                    what = '{} sites of {} orbitals, {} -> {}, on-site action: {}'.format(ns, sizes, sites, images, form)
                    for p in explore(lambda: call(R, dict(perm), no, given, tr, ph)):
                        if not ok:
                            ob.check('sites of different size are refused', p.kind == 'raise' and isinstance(p.value, ValueError), (what, p.value))
                            continue
                        if p.kind == 'raise':
                            ob.check('returns', False, (what, repr(p.value)))
                            continue
                        want = np.zeros((N, N), dtype=object)
                        for s in sites:
                            for i, j in itertools.product(range(norbs[s]), repeat=2):
                                want[off[perm[s]] + i, off[s] + j] = actions[s][i, j]
                        r, c, a, U = p.value.v
                        ob.check('rotation and antiunitary, antisymmetry', r is R and c is tr and a is ph, (what, r, c, a))
                        same = U.shape == (N, N) and all(sympy.sympify(U[i, j]) == want[i, j] for i in range(N) for j in range(N))
                        ob.check('every site is taken to its image by its on-site action', same, (what, U))
    norbs = {'A': 1, 'B': 1, 'C': 1}
    for perm in ({'A': 'B', 'B': 'A'}, {'A': 'A', 'B': 'B', 'C': 'A'}, {'A': 'B', 'B': 'C', 'C': 'D'}, {'A': 'A', 'B': 'B', 'C': 'C', 'D': 'D'}):
        for p in explore(lambda: call(R, perm, norbs)):
            ob.check('other maps are refused', p.kind == 'raise' and isinstance(p.value, ValueError), (perm, p.value))
