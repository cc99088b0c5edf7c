"""C12: continuum families: candidates, degrees and constraints, for any number of symmetries, matrices and powers."""
import itertools

import z3

from . import engine as E
from . import c05, c08, c11, c15
from . import constrain        # noqa: F401
from . import tensor as t
from . import famworld as fw
from .engine import explore, Stub, SBool, Symbolic, ContractError, Unsupported, assume
from .tensor import Each, GList, Comp, DIM, param
from .famworld import generator_module, nums
from .c08 import IntE
from .obl import obligation, assumption

P = 'C12'
obligation(P, ['linalg.matrix_basis'])(c08.basis_of_matrices)
obligation(P, ['linalg.nullspace'])(c08.null_space)
obligation(P, ['hamiltonian_generator.make_basis_pretty'])(c15.pretty)
assumption(P, 'a linear change of the momenta keeps the degree of a homogeneous polynomial, so degrees may be constrained separately',
           'monomials times basis matrices are linearly independent; monomials of real momenta are real (C05)',
           'momenta: up to four named momenta; powers: any integers or collections of integers',
           'arithmetic is exact, closeness to zero within the tolerance is equality to zero')


# ---------------------------------------------------------------- monomials

class Powers(Symbolic):
    """All tuples of powers, one arbitrary tuple being looked at."""
    def __init__(self, ranges, info):
        self.ranges, self.info = ranges, info

    def pv_comp(self, kind, fn):
        x = []
        for r in self.ranges:
            q = z3.Int('power%d' % len(x))
            if isinstance(r, Range):
                assume(z3.And(q >= IntE.of(r.lo), q < IntE.of(r.hi)))
            elif isinstance(r, Given):
                assume(z3.Bool('%s contains %s' % (r.name, q)))
            else:
                raise Unsupported('powers {}'.format(r))
            x.append(IntE(q))
        self.info['tuples'] = self.info.get('tuples', 0) + 1
        self.info['ranges'] = self.ranges
        return One(fn(tuple(x)))


class One(Symbolic):
    """What one arbitrary tuple contributes."""
    def __init__(self, items):
        self.items = items

    def pv_comp(self, kind, fn):
        return One([y for x in self.items for y in fn(x)])


class Range(Symbolic):
    def __init__(self, *a):
        if len(a) > 2:
            raise Unsupported('range with a step')
        self.lo, self.hi = (0, a[0]) if len(a) == 1 else a


class Given(Symbolic):
    """Powers listed by the user."""
    def __init__(self, name):
        self.name = name


def range_(*a):
    return Range(*a) if any(isinstance(x, IntE) for x in a) else range(*a)


@obligation([P, 'C13'], ['hamiltonian_generator.continuum_variables'])
def monomials(ob):
    for dim in range(5):
        for kind in ['none'] + list(itertools.product(('int', 'list'), repeat=dim)):
            def run():
                info = {}
                total = z3.Int('total')
                assume(total >= 0)
                given = None
                if kind != 'none':
                    given = [IntE(z3.Int('max%d' % i)) if k == 'int' else Given('list%d' % i) for i, k in enumerate(kind)]
                    for g in given:
                        if isinstance(g, IntE):
                            assume(g.t >= 0)
                    given.append(Given('unused'))
                info['given'], info['copy'] = given, list(given) if given is not None else None
                names = tuple('momentum %d' % i for i in range(dim + 1))

                def mul(*a):
                    return ('Mul',) + a
                sy = Stub('sympy', Mul=mul, Pow=lambda k, p: ('Pow', k, p))
                ns = generator_module(nums(), {'sympy': sy, 'itertools': Stub('itertools', product=lambda *r: Powers(r, info)),
                                               '.': Stub('.', kwant_continuum=Stub('kc', sympify=lambda x: ('Mul',) if x == 1 else Stub('?')))},
                                      dict(_find_momenta=lambda m: tuple('var ' + k for k in m)),
                                      dict(range=range_, list=list, sum=lambda x: sum_(x)))
                kw = {} if given is None else dict(all_powers=given)
                v = ns['continuum_variables'](dim, IntE(total), momenta=names, **kw)
                return v, info, total
            for p in explore(run):
                if p.kind == 'raise':
                    ob.check('monomials are returned', False, repr(p.value))
                    continue
                v, info, total = p.value
                ob.check('monomials: the powers given are not changed', info['given'] is None or len(info['given']) == len(info['copy']) and
                         all(a is b for a, b in zip(info['given'], info['copy'])))
                if dim == 0:
                    ok = isinstance(v, list) and v in ([], [('Mul',)])
                    ob.check('monomials: only the constant without momenta', ok, v)
                    if ok:
                        ob.prove('monomials: the constant has degree zero', (total == 0) == z3.BoolVal(v != []), p.pc)
                    continue
                q = z3.Ints(' '.join('power%d' % i for i in range(dim))) if dim > 1 else [z3.Int('power0')]
                ok = isinstance(v, One) and len(v.items) <= 1 and info.get('tuples') == 1 and len(info['ranges']) == dim
                ob.check('monomials: every tuple of powers is considered once', ok, v)
                if not ok:
                    continue
                for i, r in enumerate(info['ranges']):
                    k = 'none' if kind == 'none' else kind[i]
                    if k == 'list':
                        ob.check('monomials: exactly the powers listed', isinstance(r, Given) and r.name == 'list%d' % i, r)
                    else:
                        ob.check('monomials: powers up to the maximum', isinstance(r, Range))
                        top = total if k == 'none' else z3.Int('max%d' % i)
                        if isinstance(r, Range):
                            ob.prove('monomials: powers from zero to the maximum', z3.And(IntE.of(r.lo) == 0, IntE.of(r.hi) == top + 1), p.pc)
                s = z3.Sum(*q) if dim > 1 else q[0]
                ob.prove('monomials: kept exactly if the total degree is the one requested', (s == total) == z3.BoolVal(len(v.items) == 1), p.pc)
                if v.items:
                    m = v.items[0]
                    ok = isinstance(m, tuple) and m[0] == 'Mul' and len(m) == dim + 1 and all(
                        f[0] == 'Pow' and f[1] == 'var momentum %d' % i and isinstance(f[2], IntE) and z3.eq(f[2].t, q[i])
                        for i, f in enumerate(m[1:]))
                    ob.check('monomials: product of the powers of the momenta', ok, m)
    # too short lists are rejected
    for powers, names in ((['x'], ('a', 'b')), ([1, 1], ('a',))):
        def run():
            ns = generator_module(nums(), {}, dict(_find_momenta=lambda m: tuple(m)), dict(list=list))
            return ns['continuum_variables'](2, 1, all_powers=powers, momenta=names)
        for p in explore(run):
            ob.check('monomials: too few powers or momenta are rejected', p.kind == 'raise' and isinstance(p.value, ValueError), p.value)


def sum_(x):
    r = 0
    for y in x:
        r = r + y
    return r


@obligation([P, 'C13', 'C14'], ['hamiltonian_generator._normalize_momenta', 'model._find_momenta'])
def momentum_names(ob):
    def commutative(x, y):
        if x != y:
            raise ContractError('another symbol')
        return ('commutative', x)
    kc = Stub('kc', sympify=lambda s: ('symbol', s), make_commutative=commutative,
              momentum_operators=[('symbol', 'k_' + i) for i in 'xyz'], e='e')
    m = E.load('model', {'numpy': nums(), 'scipy': Stub('scipy'), 'sympy': Stub('sympy'), 'tinyarray': Stub('ta'),
                         '.linalg': Stub('l'), '.': Stub('.', kwant_continuum=kc)})
    std = list(m.ns['_commutative_momenta'])
    ob.check('momenta: three default momenta', len(std) == 3 and [x[1][1] for x in std] == ['k_x', 'k_y', 'k_z'], std)
    ns = generator_module(nums(), {'.model': Stub('.model', _commutative_momenta=std)}, dict(_find_momenta=m.ns['_find_momenta']))
    for n in range(5):
        for names in itertools.product((0, 1, 2, std[0], 'kz name'), repeat=n):
            for p in explore(lambda: ns['_normalize_momenta'](list(names))):
                want = [std[x] if isinstance(x, int) else x for x in names]
                if not all(x in std for x in want):
                    want = [('commutative', ('symbol', x)) for x in want]
                ob.check('momenta: indices and names become commutative symbols, in order', p.kind == 'return' and p.value == tuple(want),
                         (names, p.value))


# ---------------------------------------------------------------- families

class Members(Symbolic):
    """A derived family, as a whole."""
    def __init__(self, what):
        self.what = what

    def __iter__(self):
        yield self

    def pv_len(self):
        return fw.Tok('len %s' % (self.what,))

    def __repr__(self):
        return 'Members({})'.format(self.what)

    def __eq__(self, o):
        return isinstance(o, Members) and o.what == self.what
    __hash__ = None


class Token:
    def __init__(self, what):
        self.what = what


class Product(Symbolic):
    def __init__(self, a, b):
        self.a, self.b = a, b

    def pv_comp(self, kind, fn):
        p, q = param(self.a.dim), param(self.b.dim)
        r = fn((self.a.at(p), self.b.at(q)))
        if len(r) != 1:
            raise Unsupported('filtered comprehension')
        return Grid(p, q, self.a, self.b, r[0])


class Grid(Symbolic):
    """One member for every pair."""
    def __init__(self, p, q, a, b, item):
        self.p, self.q, self.a, self.b, self.item = p, q, a, b, item


class Sy:
    def __init__(self, p=None, n='N'):
        self.p = p
        self.U = Stub('U', shape=(n, n))
        self.R = Stub('R')


def candidate_world(info, matrices):
    """Contracts of the parts of continuum_hamiltonian and continuum_pairing."""
    info.update(deg=[], vars=[])

    def variables(dim, degree, all_powers=None, momenta='default'):
        name = 'monomials %d' % next(fw._n)
        info['vars'].append((dim, degree, all_powers, momenta))
        return GList(name, lambda p: Token(('monomial', degree, p)), name)

    def model(d, momenta=None, **k):
        if k:
            raise Unsupported('options of a model')
        return ('model', tuple(d.items()) if isinstance(d, dict) else d, momenta)

    def constrain(symmetries, family, sparse_linalg=False):
        info.setdefault('constrained', []).append((symmetries, family, sparse_linalg))
        return Members(('constrained', len(info['constrained'])))

    def pretty(family, num_digits=2):
        info['prettied'] = num_digits == 7
        return Members(('pretty', num_digits, family.what))

    return dict(continuum_variables=variables, matrix_basis=matrices, Model=model, constrain_family=constrain,
                make_basis_pretty=pretty, _find_momenta=lambda m: tuple('var ' + k for k in m))


def length(x):
    return fw.length(x)


@obligation(P, ['hamiltonian_generator.continuum_hamiltonian'])
def family(ob):
    for kind, dim, prettify, sparse, powers in itertools.product(('int', 'list'), range(4), (False, True), (False, True), (None, 'powers')):
        t.reset()

        def run():
            info = {}

            def basis(n, *a, **k):
                if n != 'N' or a or any(k.values()):
                    raise ContractError('basis of other matrices')
                return GList('matrices', lambda p: ('matrix', p), 'matrices')

            def rng(*a):
                info['range'] = Range(*a)

                def deg(p):
                    d = IntE(z3.Int('degree %d' % p))
                    info['deg'].append((p, d))
                    return d
                return GList('degrees', deg, 'degrees')
            over = candidate_world(info, basis)
            ns = generator_module(nums(), {'itertools': Stub('itertools', product=Product)}, over, dict(range=rng))
            if kind == 'int':
                total = IntE(z3.Int('total'))
            else:
                def deg(p):
                    d = IntE(z3.Int('degree %d' % p))
                    info['deg'].append((p, d))
                    return d
                total = GList('degrees', deg, 'degrees')
            syms = GList('syms', Sy, 'syms')
            info['syms'] = syms
            kw = {}
            if powers:
                kw['all_powers'] = powers
            if prettify:
                kw.update(prettify=True, num_digits=7)
            if sparse:
                kw['sparse_linalg'] = True
            v = ns['continuum_hamiltonian'](syms, dim, total, momenta=('a', 'b', 'c', 'd'), **kw)
            return v, info
        for p in explore(run):
            if p.kind == 'raise':
                ok = isinstance(p.value, AssertionError) and prettify and any(
                    z3.is_not(c) and '==' in str(c) and 'len' in str(c) for c in map(z3.simplify, p.pc))
                ob.check('family: only a family that shrinks is rejected', ok, (repr(p.value), p.pc))
                continue
            v, info = p.value
            if kind == 'int':
                r = info.get('range')
                ob.prove('family: all degrees up to the maximum', z3.And(IntE.of(r.lo) == 0, IntE.of(r.hi) == z3.Int('total') + 1)
                         if r is not None else z3.BoolVal(False), p.pc)
            ok = isinstance(v, list) and len(v) == 1 and isinstance(v[0], Each) and DIM[v[0].p] == 'degrees' and len(v[0].items) == 1 and isinstance(v[0].items[0], Members)
            ob.check('family: the members of every degree are returned', ok, v)
            cs = info.get('constrained', [])
            ob.check('family: every degree is constrained once', len(cs) == 1 and len(info['vars']) == 1, cs)
            if not ok or len(cs) != 1 or len(info['vars']) != 1:
                continue
            d = [x for q, x in info['deg'] if q == v[0].p]
            d = d[0] if d else None
            what = v[0].items[0].what
            ob.check('family: made pretty exactly on request', what == (('pretty', 7, ('constrained', 1)) if prettify else ('constrained', 1)), what)
            momenta = tuple('var ' + k for k in 'abc'[:dim])
            ob.check('family: monomials of this degree, with the powers and momenta requested', info['vars'][0][0] == dim and
                     info['vars'][0][1] is d and info['vars'][0][2] == powers and info['vars'][0][3] == momenta, info['vars'])
            syms, fam, sp = cs[0]
            ob.check('family: constrained by all symmetries', syms is info['syms'] and bool(sp) == sparse, cs)
            ok = isinstance(fam, Grid) and {fam.a.dim.split()[0], fam.b.dim.split()[0]} == {'monomials', 'matrices'}
            ob.check('family: a candidate for every monomial and every matrix of the basis', ok, fam)
            if ok:
                q = {fam.a.dim.split()[0]: fam.p, fam.b.dim.split()[0]: fam.q}
                it = fam.item
                ob.check('family: candidates are monomial times matrix', it[0] == 'model' and it[2] == momenta and len(it[1]) == 1 and
                         it[1][0][0].what[1] is d and it[1][0][0].what[2] == q['monomials'] and it[1][0][1] == ('matrix', q['matrices']), it)
