"""C09: discrete symmetry search.  The pruning of the candidates by its loop invariant over an arbitrary group
(z3); the unitary part of a candidate by the contracts of the functions it is composed of."""
import itertools

import numpy as np
import z3

from . import engine as E
from . import c04
from .c04 import El, ESet, G, B, MUL, ASSOC, x, y, z, fresh, lift
from .engine import explore, load, Stub, SBool, Symbolic, Unsupported, ContractError, BREAK
from .obl import obligation, assumption
from .algebra import Expr, declare, declare_scalar, DIMS
from .matworld import Dim
from . import c08          # the group for solve_mat_eqn registers itself for C09 too

P = 'C09'
assumption(P, 'the candidates form a group (documented precondition); C03: elements are compared as spatial operations, '
           'C04: generate_group and set_multiply',
           'a matrix that intertwines two irreducible families is unique up to a factor, proportional to a unitary, or '
           'zero (Schur)', 'unitarily equivalent Hermitian matrices have equal sorted eigenvalues')

INV = z3.Function('inv', G, G)
ID = z3.Const('identity', G)
SYM = z3.Function('is_symmetry', G, B)
T = z3.Function('T', G, B)          # an arbitrary set closed under multiplication with the identity
AXIOMS = [ASSOC, z3.ForAll([x], MUL(INV(x), x) == ID), z3.ForAll([x], MUL(x, INV(x)) == ID),
          z3.ForAll([x], MUL(ID, x) == x), z3.ForAll([x], MUL(x, ID) == x)]
SUBGROUP = [SYM(ID), z3.ForAll([x, y], z3.Implies(z3.And(SYM(x), SYM(y)), SYM(MUL(x, y)))),
            z3.ForAll([x], z3.Implies(SYM(x), SYM(INV(x))))]
DERIVED = [z3.ForAll([x], SYM(INV(x)) == SYM(x)),
           z3.ForAll([x, y], z3.Implies(SYM(x), SYM(MUL(x, y)) == SYM(y)), patterns=[MUL(x, y)]),
           z3.ForAll([x, y], z3.Implies(SYM(y), SYM(MUL(x, y)) == SYM(x)), patterns=[MUL(x, y)])]
TCLOSED = [T(ID), z3.ForAll([x, y], z3.Implies(z3.And(T(x), T(y)), T(MUL(x, y))))]


def goal(f, pc):
    """Prove f, first without the closure facts (they make the solver generate products)."""
    few = [h for h in pc if not (z3.is_quantifier(h) and h.num_vars() == 2) or any(h.eq(d) for d in DERIVED)]
    ok, d = E.prove(f, few, 1500)
    return (ok, d) if ok else E.prove(f, pc, 15000)


class UPart:
    pass


class Op(El):
    """A candidate or symmetry."""
    found = False

    def __mul__(self, o):
        return Op(MUL(self.t, o.t)) if isinstance(o, El) else NotImplemented

    def inv(self):
        return Op(INV(self.t))

    def identity(self):
        return Op(ID)

    @property
    def U(self):
        if hasattr(self, '_U'):
            return self._U
        if self.found == 'tested':
            return UPart() if E.decide(SYM(self.t)) else None
        if not E.ctx().feasible(z3.Not(SYM(self.t))):
            return UPart()      # products of symmetries with unitary parts have one (C01)
        raise Unsupported('unitary part of an arbitrary element')

    @U.setter
    def U(self, v):
        self._U = v

    def apply(self, model):
        if self.U is None:
            raise ContractError('an element without unitary part is applied')
        return Applied(self)


class Applied:
    def __init__(self, g):
        self.g = g

    def __eq__(self, o):
        if isinstance(o, TheModel):
            return SBool(SYM(self.g.t))
        return NotImplemented
    __hash__ = None

    def allclose(self, o, *a, **k):
        return self == o


class OSet(ESet):
    element = Op

    def __iter__(self):
        e = fresh(G, 'member')
        E.assume(self.p(e))
        yield Op(e)


def the_min(*a, **k):
    if len(a) == 1 and isinstance(a[0], ESet) and not k:
        return next(iter(OSet(a[0].p)))
    if len(a) == 1 and isinstance(a[0], Sorted):
        return a[0].first()
    return min(*a, **k)


class Sorted:
    def __init__(self, s):
        self.s = s

    def first(self):
        return next(iter(OSet(self.s.p)))

    def __getitem__(self, i):
        if i == 0:
            return self.first()
        raise Unsupported('element of a sorted set')


def sets_builder(items):
    items = list(items)
    if items and all(isinstance(e, Op) for e in items):
        return OSet(lift(items).p)
    return None


E.SET_BUILDERS.insert(0, sets_builder)


class TheModel:
    format = np.ndarray

    def values(self):
        return 'values'


class Shape1:
    shape = (Dim('d'), Dim('N'), Dim('n'))


def generated(gens):
    """contract of generate_group (C04)."""
    gens = gens if isinstance(gens, ESet) else lift(gens)
    f = z3.Function('generated!%d' % next(c04._n), G, B)
    for h in (z3.ForAll([x], z3.Implies(gens.p(x), f(x))), z3.ForAll([x, y], z3.Implies(z3.And(f(x), f(y)), f(MUL(x, y)))),
              f(ID), z3.Implies(z3.ForAll([x], z3.Implies(gens.p(x), SYM(x))), z3.ForAll([x], z3.Implies(f(x), SYM(x)))),
              z3.Implies(z3.ForAll([x], z3.Implies(gens.p(x), T(x))), z3.ForAll([x], z3.Implies(f(x), T(x))))):
        E.assume(h)
    for gn, sn in INSTANCES:
        # the invariant 'the generators generate the symmetries found' for T := the set returned here
        E.assume(z3.Implies(z3.ForAll([x], z3.Implies(gn(x), f(x))), z3.ForAll([x], z3.Implies(sn(x), f(x)))))
    return OSet(lambda t: f(t))


INSTANCES = []      # (generators, generated set) of the loop invariant


def multiply(a, b):
    """contract of set_multiply (C04)."""
    a, b = (s if isinstance(s, ESet) else lift(s) for s in (a, b))
    pa, pb = a.p, b.p
    u, v = fresh(G, 'u'), fresh(G, 'v')
    return OSet(lambda t: z3.Exists([u, v], z3.And(pa(u), pb(v), t == MUL(u, v))))


class NoSet(ESet):
    pass


def new_set(*a):
    if not a:
        return OSet(lambda t: z3.BoolVal(False))
    if isinstance(a[0], ESet):
        return OSet(a[0].p)
    r = E.make_set(list(a[0]))
    return r


class _SetMeta(type):
    def __instancecheck__(cls, v):
        return isinstance(v, set) or hasattr(v, 'pv_is_set')

    def __call__(cls, *a):
        return new_set(*a)


class SetT(metaclass=_SetMeta):
    pass


class Search:
    """Loop rule of the candidate loop."""

    def __init__(self, ob, cands):
        self.ob, self.c0 = ob, cands

    def inv(self, C, S, Gn, N):
        c0 = self.c0
        return [
            ('the symmetries found are symmetries', z3.ForAll([x], z3.Implies(S.p(x), SYM(x)))),
            ('the symmetries found form a group: identity', S.p(ID)),
            ('the symmetries found form a group: products',
             z3.ForAll([x, y], z3.Implies(z3.And(S.p(x), S.p(y)), S.p(MUL(x, y))))),
            ('the generators are among the symmetries found', z3.ForAll([x], z3.Implies(Gn.p(x), S.p(x)))),
            ('the generators are candidates', z3.ForAll([x], z3.Implies(Gn.p(x), c0.p(x)))),
            ('the generators generate the symmetries found', z3.Implies(
                z3.ForAll([x], z3.Implies(Gn.p(x), T(x))), z3.ForAll([x], z3.Implies(S.p(x), T(x))))),
            ('no symmetry is ruled out', z3.ForAll([x], z3.Implies(N.p(x), z3.Not(SYM(x))))),
            ('every candidate is untested, found, or no symmetry', z3.ForAll([x], z3.Implies(
                c0.p(x), z3.Or(C.p(x), S.p(x), z3.Not(SYM(x)))))),
            ('only candidates are tested', z3.ForAll([x], z3.Implies(C.p(x), c0.p(x))))]

    def __call__(self, name, cond, body, get, set_, orelse):
        cells = {}
        for fn in (body, cond):
            for k, c in zip(fn.__code__.co_freevars, fn.__closure__ or ()):
                try:
                    if isinstance(c.cell_contents, ESet):
                        cells[k] = c
                except ValueError:
                    pass
        objs = {k: c.cell_contents for k, c in cells.items() if c.cell_contents is not self.c0}
        base = list(E.ctx().pc)
        saved = {k: o.p for k, o in objs.items()}
        best = None
        for names in itertools.permutations(sorted(objs), 4):
            st = [objs[n] for n in names]
            if not all(E.prove(f, base, 700)[0] for l, f in self.inv(*st)):
                continue
            r = self.attempt(names, cells, objs, saved, base, cond, body, get, set_)
            bad = [l for l, ok, d in r[0] if not ok]
            if best is None or len(bad) < len([1 for l, ok, d in best[0] if not ok]):
                best = r
            if not bad:
                break
        for k, c in cells.items():
            if k in objs:
                c.cell_contents = objs[k]
                objs[k].p = saved[k]
        if best is None:
            self.ob.check('the invariant holds initially', None, list(objs))
            raise Unsupported('no assignment of the sets satisfies the invariant')
        self.ob.check('the invariant holds initially', True, '', 'z3')
        for label, ok, d in best[0]:
            self.ob.check(label, ok, d, 'z3')
        exits = best[1]
        if not exits:
            raise Unsupported('the loop never ends')
        i = 0
        while i < len(exits) - 1 and not E.decide(z3.Bool('exit {}'.format(i))):
            i += 1
        pc, after = exits[i]
        for f in pc:
            E.assume(f)
        for k, p in after.items():
            cells[k].cell_contents = objs[k]
            objs[k].p = p
        return None

    def attempt(self, names, cells, objs, saved, base, cond, body, get, set_):
        obs, exits = [], []
        start = {k: ESet.named('{}!{}'.format(k, next(c04._n))).p for k in objs}
        hyp = [f for l, f in self.inv(*[OSet(start[n]) for n in names])]

        INSTANCES[:] = [(start[names[2]], start[names[1]])]

        def once():
            for k, o in objs.items():
                o.p = start[k]
                cells[k].cell_contents = o
            if not cond():
                return 'exit', state()
            r = body()
            if r is BREAK:
                return 'exit', state()
            if isinstance(r, E._Ret):
                raise Unsupported('return from the search loop')
            return 'next', state()

        def state():
            return {k: cells[k].cell_contents.p for k in objs}
        ps = explore(once, base + hyp)
        INSTANCES.clear()
        for p in ps:
            if p.kind == 'raise':
                obs.append(('no errors', False, repr(p.value)))
                continue
            kind, after = p.value
            if kind == 'exit':
                exits.append((p.pc[len(base):], after))
                continue
            for label, f in self.inv(*[OSet(after[n]) for n in names]):
                ok, d = goal(f, p.pc)
                obs.append(('kept: ' + label, ok, d))
            ok, d = goal(z3.Exists([x], z3.And(start[names[0]](x), z3.Not(after[names[0]](x)))), p.pc)
            obs.append(('progress: fewer candidates remain', ok, d))
        return obs, exits


@obligation(P, ['symmetry_finder.discrete_symmetries'])
def candidate_search(ob):
    a, b = z3.Consts('a b', G)
    ia, ib = INV(a), INV(b)
    iia = INV(ia)
    ground = [MUL(iia, ia) == ID, MUL(ia, a) == ID, MUL(a, ia) == ID, MUL(MUL(iia, ia), a) == MUL(iia, MUL(ia, a)),
              MUL(ID, a) == a, MUL(iia, ID) == iia, SYM(ia) == SYM(ia)]       # instances of the group axioms
    sub = [z3.Implies(SYM(t), SYM(INV(t))) for t in (a, b, ia, ib)]
    mul = lambda u, v: z3.Implies(z3.And(SYM(u), SYM(v)), SYM(MUL(u, v)))
    ob.prove('subgroup lemma: inverses', SYM(ia) == SYM(a), ground + sub)
    ob.prove('subgroup lemma: left factors', z3.Implies(SYM(a), SYM(MUL(a, b)) == SYM(b)),
             sub + [MUL(ia, MUL(a, b)) == MUL(MUL(ia, a), b), MUL(ia, a) == ID, MUL(ID, b) == b, mul(a, b), mul(ia, MUL(a, b))])
    ob.prove('subgroup lemma: right factors', z3.Implies(SYM(b), SYM(MUL(a, b)) == SYM(a)),
             sub + [MUL(MUL(a, b), ib) == MUL(a, MUL(b, ib)), MUL(b, ib) == ID, MUL(a, ID) == a, mul(a, b), mul(MUL(a, b), ib)])
    facts = SUBGROUP + DERIVED + TCLOSED + AXIOMS[3:]
    E.UNKNOWN_IS_FEASIBLE[0] = 300
    try:
        for generators in (False, True):
            cands = OSet(ESet.named('candidates').p)
            cands.frozen = True

            def find(model, Ps, g, sparse=False, checks=False):
                if not isinstance(model, TheModel) or not isinstance(g, Op):
                    raise ContractError('candidate {} of {}'.format(g, model))
                if not (isinstance(Ps, list) and isinstance(Ps[0], Shape1)):
                    raise ContractError('not the reduced blocks')
                r = Op(g.t)
                r.found = 'tested'
                return r

            def reduce_h(h, sparse=False):
                if h not in ('values', ['values']):
                    raise ContractError('reduction of {}'.format(h))
                return [Shape1()]
            m = load('symmetry_finder', {
                'copy': Stub('copy', deepcopy=lambda s: OSet(s.p), copy=lambda s: OSet(s.p)),
                'numpy': Stub('numpy', eye=lambda n, *a: UPart(), identity=lambda n: UPart(), ndarray=np.ndarray),
                'scipy': Stub('scipy', sparse=Stub('scipy.sparse', spmatrix=_SP)), 'scipy.sparse': Stub('scipy.sparse', spmatrix=_SP),
                '.groups': Stub('.groups'), '.linalg': Stub('.linalg'), '.model': Stub('.model')},
                dict(_find_unitary=find, _reduce_hamiltonian=reduce_h, generate_group=generated, set_multiply=multiply),
                dict(min=the_min, sorted=lambda s, **k: Sorted(s) if isinstance(s, ESet) else sorted(s, **k), set=SetT,
                     list=lambda s=(): [s] if isinstance(s, str) else list(s)))
            E.WHILE_RULES['discrete_symmetries'] = Search(ob, cands)

            def run():
                return m.ns['discrete_symmetries'](TheModel(), cands, Ps=[Shape1()], generators=generators)
            for p in explore(run, facts + [z3.Exists([x], cands.p(x))]):
                if p.kind == 'raise':
                    ob.check('returns', False, '{}: {}'.format(type(p.value).__name__, p.value))
                    continue
                r = p.value
                if not (isinstance(r, tuple) and len(r) == 2 and isinstance(r[0], ESet)):
                    ob.check('returns the set', False, r)
                    continue
                s = r[0]
                if generators:
                    ob.prove('generators are symmetries', z3.ForAll([x], z3.Implies(s.p(x), SYM(x))), p.pc)
                    ob.prove('generators generate every candidate that is a symmetry', z3.Implies(
                        z3.ForAll([x], z3.Implies(s.p(x), T(x))),
                        z3.ForAll([x], z3.Implies(z3.And(cands.p(x), SYM(x)), T(x)))), p.pc)
                else:
                    ob.prove('only symmetries are returned', z3.ForAll([x], z3.Implies(s.p(x), SYM(x))), p.pc)
                    ob.prove('every candidate that is a symmetry is returned',
                             z3.ForAll([x], z3.Implies(z3.And(cands.p(x), SYM(x)), s.p(x))), p.pc)
                    ob.prove('contains the identity', s.p(ID), p.pc)
                    ob.prove('closed under multiplication',
                             z3.ForAll([x, y], z3.Implies(z3.And(s.p(x), s.p(y)), s.p(MUL(x, y)))), p.pc)
                    ob.prove('only candidates, if they form a group, are returned', z3.Implies(
                        z3.ForAll([x], z3.Implies(cands.p(x), T(x))), z3.ForAll([x], z3.Implies(s.p(x), T(x)))), p.pc)
    finally:
        E.WHILE_RULES.clear()
        E.UNKNOWN_IS_FEASIBLE[0] = None


class _SP:
    pass


# ---------------------------------------------------------------- the unitary part

class LM:
    """Dense matrix."""
    __array_ufunc__ = None

    def __init__(self, e):
        self.e = e

    def __matmul__(self, o):
        if isinstance(o, list):
            return [self @ m for m in o]
        return LM(self.e @ o.e) if isinstance(o, LM) else NotImplemented

    def __rmatmul__(self, o):
        if isinstance(o, list):
            return [m @ self for m in o]
        return NotImplemented

    def dot(self, o):
        return self @ o

    @property
    def T(self):
        return LM(self.e.T())

    def conj(self):
        return LM(self.e.conj())
    conjugate = conj

    @property
    def shape(self):
        return (Dim(self.e.rows), Dim(self.e.cols))

    def __truediv__(self, o):
        if isinstance(o, Root) and o.c.base.same(self.e):
            n = {'norm': 'U', 'square': 'W'}[o.c.kind] + str(self.e)
            if n not in DIMS:
                declare(n, self.e.rows, self.e.cols, 'unitary')
            ORIGIN[n] = self.e
            return LM(Expr.letter(n))
        raise Unsupported('division of a matrix by {}'.format(type(o).__name__))


ORIGIN = {}


def name_of(e):
    (w,) = [w for (b, sc, w) in e.t]
    return w[0][0]


class Coef:
    """c in  A = c 1."""
    def __init__(self, kind, base):
        self.kind, self.base = kind, base

    def __abs__(self):
        return ('abs', self)

    def __gt__(self, o):
        return True


class Root:
    def __init__(self, c):
        self.c = c


class Num0:
    """A number that is known to vanish / be one."""


class Proj:
    """Projectors of one block of the reduction; [0] is the first one."""
    def __init__(self, i, shape_id=None, conj=0):
        self.i, self.c = i, conj
        for a in (0,):
            declare('P%d' % i, 'N', 'n%d' % i)

    def conj(self):
        return Proj(self.i, conj=self.c ^ 1)
    conjugate = conj

    def __getitem__(self, a):
        if a != 0:
            raise Unsupported('other projectors')
        e = Expr.letter('P%d' % self.i)
        return LM(e.conj() if self.c else e)

    @property
    def shape(self):
        return PShape(self.i)


class PShape:
    def __init__(self, i):
        self.i = i

    def _f(self, o):
        i, j = sorted((self.i, o.i))
        return z3.BoolVal(True) if i == j else z3.Bool('same shape %d %d' % (i, j))

    def __eq__(self, o):
        return SBool(self._f(o))

    def __ne__(self, o):
        return SBool(z3.Not(self._f(o)))
    __hash__ = None

    def __getitem__(self, i):
        return Dim('N')


class Sols:
    def __init__(self, i, j, scaled=False):
        self.i, self.j, self.scaled = i, j, scaled

    @property
    def shape(self):
        return (0, Dim('n'), Dim('n'))

    def __rmul__(self, o):
        return Sols(self.i, self.j, True)
    __mul__ = __rmul__

    def pv_len(self):
        return SolCount(self.i, self.j)

    def __getitem__(self, k):
        if k != 0:
            raise Unsupported('further solutions')
        if not E.decide(z3.Bool('solution %d %d' % (self.i, self.j))):
            raise IndexError
        n = 'X%d%d' % (self.i, self.j)
        if n not in DIMS:
            declare(n, 'n%d' % self.i, 'n%d' % self.j)
        return LM(Expr.letter(n))


class SolCount:
    def __init__(self, i, j):
        self.has, self.many = z3.Bool('solution %d %d' % (i, j)), z3.Bool('several solutions %d %d' % (i, j))

    def __bool__(self):
        return E.decide(self.has)

    def __gt__(self, o):
        if o == 1:
            return SBool(z3.And(self.has, self.many))
        if o == 0:
            return SBool(self.has)
        raise Unsupported('number of solutions')

    def __ge__(self, o):
        return self > o - 1

    def __eq__(self, o):
        if o == 0:
            return SBool(z3.Not(self.has))
        if o == 1:
            return SBool(z3.And(self.has, z3.Not(self.many)))
        raise Unsupported('number of solutions')

    def __ne__(self, o):
        return SBool(z3.Not((self == o).f))

    def __lt__(self, o):
        return SBool(z3.Not((self >= o).f))

    def __le__(self, o):
        return SBool(z3.Not((self > o).f))
    __hash__ = None


@obligation(P, ['symmetry_finder._find_unitary_blocks', 'symmetry_finder._nice_square'])
def unitary_blocks(ob):
    for n, sq, conj, ev in itertools.product((1, 2), (False, True), (False, True), (False, True)):
        what = 'blocks={}, squares_to_1={}, conjugate={}, ev_test={}'.format(n, sq, conj, ev)
        HL, HR = [], []
        for i in range(n):
            for k in 'ab':
                declare('HL%d%s' % (i, k), 'n%d' % i, 'n%d' % i)
                declare('HR%d%s' % (i, k), 'n%d' % i, 'n%d' % i)
            HL.append([LM(Expr.letter('HL%d%s' % (i, k))) for k in 'ab'])
            HR.append([LM(Expr.letter('HR%d%s' % (i, k))) for k in 'ab'])

        def which(lst, fam):
            for i, f in enumerate(fam):
                if len(lst) == len(f) and all(isinstance(a, LM) and a.e.same(b.e) for a, b in zip(lst, f)):
                    return i
            raise ContractError('equations for {}'.format([str(getattr(a, 'e', a)) for a in lst]))

        def run():
            calls = []

            def solve(hl, hr=None, hermitian=False, traceless=False, conjugate=False, sparse=None, k_max=-10):
                if hermitian or traceless or conjugate is not False:
                    raise ContractError('a wrong kind of equation is solved')
                if not (isinstance(k_max, int) and (k_max < 0 or k_max >= 2)):
                    raise ContractError('further solutions are not looked for')
                j, i = which(hl, HL), which(hr, HR)
                calls.append((i, j, sparse))
                return Sols(i, j)

            def allclose(a, b, *r, **k):
                if isinstance(a, list) and isinstance(b, list) and a and isinstance(a[0], tuple):
                    a, b = [LM(t[1]) for t in a], [LM(t[1]) for t in b]
                    try:
                        j, i = which(a, HL), which(b, HR)
                    except ContractError:
                        i, j = which(a, HR), which(b, HL)
                    return SBool(z3.Bool('equal eigenvalues %d %d' % (i, j)))
                if isinstance(a, list) and isinstance(b, list):
                    for u, v in zip(a, b):
                        (lu, ) = [w for (bd, s, w) in u.e.t]
                        (lv, ) = [w for (bd, s, w) in v.e.t]
                        X, h1 = lu
                        h2, X2 = lv
                        if X != X2 or X[0][0] != 'X' or (h1[0][:2], h2[0][:2]) != ('HL', 'HR'):
                            raise ContractError('wrong check of the solution')
                    return True
                raise Unsupported('allclose')

            def prop(a):
                for i in range(n):
                    for j in range(n):
                        for base in [Expr.letter('X%d%d' % (i, j))] if 'X%d%d' % (i, j) in DIMS else []:
                            if a.e.same(base @ base.T().conj()):
                                return True, Coef('norm', base)
                for u in [u for u in ORIGIN if u.startswith('U')]:
                    b = Expr.letter(u)
                    if b.rows == b.cols and a.e.same(b @ b):
                        return True, Coef('square', b)
                    if b.rows == b.cols and a.e.same(b @ b.conj()):
                        return True, Coef('conjugate square', b)
                raise ContractError('normalization by {}'.format(a.e))

            def isclose(v, w, *a, **k):
                if isinstance(v, tuple) and v[0] == 'det':
                    return SBool(z3.Bool('singular ' + name_of(v[1])))
                if isinstance(v, tuple) and v[0] == 'imag':
                    return v[1].kind == 'norm'
                if isinstance(v, tuple) and v[0] == 'abs' and w == 1:
                    return True
                if isinstance(v, Coef) and v.kind == 'conjugate square' and w in (1, -1):
                    s = z3.Bool('squares to +1 ' + str(v.base))
                    return SBool(s if w == 1 else z3.Not(s))
                raise Unsupported('isclose')
            np_ = Stub('numpy', sqrt=lambda c: Root(c) if isinstance(c, Coef) else 'root of the dimension',
                       isclose=isclose, imag=lambda c: ('imag', c), real=lambda c: c, abs=abs)
            la = Stub('scipy.linalg', eigvalsh=lambda h: ('ev', h.e), det=lambda m: ('det', m.e))
            m = load('symmetry_finder', {'numpy': np_, 'scipy.linalg': la, '.linalg': Stub('.linalg'), '.groups': Stub('.groups'),
                                         '.model': Stub('.model'), 'scipy': Stub('scipy')},
                     dict(solve_mat_eqn=solve, allclose=allclose, prop_to_id=prop))
            projs = [Proj(i) for i in range(n)]
            return m.ns['_find_unitary_blocks']([list(h) for h in HL], [list(h) for h in HR], projs, squares_to_1=sq,
                                                conjugate=conj, ev_test=ev, sparse='S'), calls
        for p in explore(run):
            def holds(f):
                return E.prove(f, p.pc)[0]
            keys = [(i, j) for i in range(n) for j in range(n) if not (sq and j > i)]

            def solvable(i, j):
                c = [z3.Bool('solution %d %d' % (i, j))]
                if i != j:
                    c.append(z3.Bool('same shape %d %d' % tuple(sorted((i, j)))))
                if ev:
                    c.append(z3.Bool('equal eigenvalues %d %d' % (i, j)))
                return z3.And(*c)
            if p.kind == 'raise':
                ob.check('errors are ValueErrors', isinstance(p.value, ValueError), (what, repr(p.value)))
                ob.prove('errors only for several or singular intertwiners', z3.Or(*[z3.And(solvable(i, j), z3.Or(
                    z3.Bool('several solutions %d %d' % (i, j)), z3.Bool('singular X%d%d' % (i, j))))
                    for i, j in keys]), p.pc)
                continue
            d, calls = p.value
            ob.check('the storage is passed on', all(c[2] == 'S' for c in calls), (what, calls))
            ob.prove('blocks are found exactly where the equations have a solution', z3.And(*[
                solvable(*((i, j) if (i, j) in keys else (j, i))) if (i, j) in d else
                z3.Not(solvable(*((i, j) if (i, j) in keys else (j, i)))) for i in range(n) for j in range(n)]), p.pc)
            for i, j in itertools.product(range(n), repeat=2):
                a, b = (i, j) if (i, j) in keys else (j, i)
                if (i, j) not in d:
                    continue
                v = d[(i, j)]
                X = 'X%d%d' % (a, b)
                U = Expr.letter('U' + str(Expr.letter(X)))
                if sq and i == j and not conj:
                    W = Expr.letter('W' + str(U))
                    want = W
                elif (i, j) == (a, b):
                    want = U
                else:
                    want = U.T() if conj else U.T().conj()
                ob.check('blocks are normalized solutions, with the square chosen to be 1 if requested',
                         v.e.same(want), (what, (i, j), v.e, want), 'matrix normal form')
            ob.check('nothing else is in the dictionary', set(d) <= set(itertools.product(range(n), repeat=2)), d.keys())


class TProj:
    """Projector tensor (a, i, j) of one block for _construct_unitary; after @ block the last index is that of the block."""
    def __init__(self, i, c=0, block=None):
        self.i, self.c, self.block = i, c, block
        self.shape = (Dim('d%d' % i), Dim('N'), Dim('n%d' % i))

    def conj(self):
        return TProj(self.i, self.c ^ 1, self.block)
    conjugate = conj

    def __matmul__(self, b):
        if self.block is not None:
            raise Unsupported('two blocks')
        return TProj(self.i, self.c, b)


class SAcc:
    """Sum of full operators."""
    def __init__(self, terms=()):
        self.terms = list(terms)

    def __add__(self, o):
        return SAcc(self.terms + o.terms)
    __iadd__ = __add__
    __radd__ = __add__

    @property
    def T(self):
        return self

    def conj(self):
        return self

    def dot(self, o):
        return self
    __matmul__ = dot


@obligation(P, ['symmetry_finder._construct_unitary'])
def assembly_of_the_unitary(ob):
    """For up to three blocks (bounded), every set of available blocks."""
    class Block(str):
        pass
    for n in (1, 2, 3):
        allk = list(itertools.product(range(n), repeat=2))
        for mask in range(2 ** len(allk)):
            keys = [k for b, k in enumerate(allk) if mask >> b & 1]
            for conj, sq in itertools.product((False, True), repeat=2):
                if n == 3 and conj != sq:
                    continue
                def zeros(shape, *a, **k):
                    if all(isinstance(s, int) and not isinstance(s, Dim) for s in shape):
                        return np.zeros(shape)
                    if [getattr(s, 'name', s) for s in shape] != ['N', 'N']:
                        raise ContractError('operator of the wrong shape')
                    return SAcc()

                def tensordot(a, b, axes):
                    if axes not in (((0, 2), (0, 2)), ((2, 0), (2, 0)), [[0, 2], [0, 2]], ([0, 2], [0, 2])):
                        raise ContractError('contraction {}'.format(axes))
                    if a.block is None or b.block is not None:
                        raise ContractError('block missing')
                    return SAcc([(a.i, a.c, a.block, b.i, b.c)])
                np_ = Stub('numpy', zeros=zeros, eye=np.eye, all=np.all, tensordot=tensordot, array_equal=np.array_equal,
                           allclose=np.allclose, identity=np.identity)
                m = load('symmetry_finder', {'numpy': np_, '.linalg': Stub('.linalg'), '.groups': Stub('.groups'),
                                             '.model': Stub('.model'), 'scipy': Stub('scipy')},
                         dict(prop_to_id=lambda S: (True, 1))) if not _mods.get('c') else None
                if m is not None:
                    _mods['c'] = m
                    _mods['z'], _mods['t'] = zeros, tensordot
                m = _mods['c']
                S = m.ns['_construct_unitary']({k: Block('B%d%d' % k) for k in keys}, [TProj(i) for i in range(n)],
                                               conjugate=conj, squares_to_1=sq)
                perms = [pm for pm in itertools.permutations(range(n)) if all((i, pm[i]) in keys for i in range(n))
                         and (not sq or all(pm[pm[i]] == i for i in range(n)))]
                if not perms:
                    ob.check('no operator without a permutation of blocks', S is None, (n, keys, conj, sq, S))
                    continue
                if not isinstance(S, SAcc):
                    ob.check('an operator is found whenever there is a permutation of blocks', False, (n, keys, conj, sq, S))
                    continue
                got = sorted((i, j) for i, ci, b, j, cj in S.terms)
                ok = got in [sorted(enumerate(pm)) for pm in perms]
                ob.check('the operator has one block per row and column', ok, (n, keys, conj, sq, got))
                ob.check('blocks are rebuilt with the right projectors', all(
                    b == 'B%d%d' % (i, j) and ci == 0 and cj == (0 if conj else 1) for i, ci, b, j, cj in S.terms),
                    (n, keys, conj, sq, S.terms))


_mods = {}


class Keys:
    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return SBool(z3.Bool('same keys')) if self.name != o.name else True

    def __ne__(self, o):
        return SBool(z3.Not(z3.Bool('same keys'))) if self.name != o.name else False
    __hash__ = None


class KModel:
    format = np.ndarray

    def __init__(self, name, clean=False):
        self.name, self.clean = name, clean

    def eliminate_zeros(self, *a, **k):
        if a or k:
            raise ContractError('another tolerance')
        return KModel(self.name, True)

    def keys(self):
        if not self.clean:
            raise ContractError('small terms are not removed before the terms are compared')
        return Keys(self.name)

    def _mat(self, k):
        n = self.name + k
        if n not in DIMS:
            declare(n, 'N', 'N')
        return LM(Expr.letter(n))

    def items(self):
        return [(k, self._mat(k)) for k in ('x', 'y')]

    def __getitem__(self, k):
        return self._mat(k)

    def __iter__(self):
        return iter(('x', 'y'))

    def values(self):
        return [self._mat(k) for k in ('x', 'y')]


@obligation(P, ['symmetry_finder._find_unitary'])
def unitary_part(ob):
    """Two blocks and two terms of the family stand for any number of them."""
    for i in range(2):
        declare('P%d' % i, 'N', 'n%d' % i)
    for conj in (False, True):
        class Cand:
            U = None
            R, conjugate, antisymmetry = 'R', conj, 'antisymmetry'

            def apply(self, m):
                if m.name != 'H':
                    raise ContractError('applied to another model')
                return KModel('gH')

            def __mul__(self, o):
                return 'square'

            def __pow__(self, k):
                return 'square' if k == 2 else None

            def identity(self):
                return Ident()

        class Ident:
            def __eq__(self, o):
                if o == 'square':
                    return SBool(z3.Bool('g*g=1'))
                return NotImplemented
            __hash__ = None
        g = Cand()

        def run():
            rec = {}

            def allclose(a, b, *r, **k):
                if b.e.same(a.e.T().conj()):
                    (w,) = [w for (bd, s, w) in a.e.t]
                    return SBool(z3.Bool('Hermitian ' + w[0][0]))
                raise Unsupported('allclose')

            def blocks(HLs, HRs, projectors, squares_to_1=True, conjugate=False, ev_test=True, sparse=False):
                rec.update(HLs=HLs, HRs=HRs, Ps=projectors, sq=squares_to_1, conj=conjugate, ev=ev_test, sparse=sparse)
                return 'blocks'

            def construct(b, projectors, conjugate=False, squares_to_1=True):
                rec.update(b=b, Ps2=projectors, conj2=conjugate, sq2=squares_to_1)
                return 'S'
            m = load('symmetry_finder', {'numpy': Stub('numpy', ndarray=np.ndarray), 'scipy': Stub('scipy', sparse=Stub('s', spmatrix=_SP)),
                                         'scipy.sparse': Stub('s', spmatrix=_SP),
                                         '.linalg': Stub('.linalg'), '.groups': Stub('.groups'), '.model': Stub('.model')},
                     dict(_find_unitary_blocks=blocks, _construct_unitary=construct, allclose=allclose,
                          PointGroupElement=lambda R, conjugate=False, antisymmetry=False, U=None, *a, **k: ('PGE', R, conjugate, antisymmetry, U)))
            rec['projs'] = Ps = [Proj(0), Proj(1)]
            return m.ns['_find_unitary'](KModel('H'), Ps, g, sparse='S'), rec
        for p in explore(run):
            if p.kind == 'raise':
                ob.check('returns', False, repr(p.value))
                continue
            v, r = p.value
            if v is g:
                ob.prove('a candidate is rejected early only if the terms of the transformed family differ',
                         z3.Not(z3.Bool('same keys')), p.pc)
                continue
            ob.prove('a candidate with other terms is not tested', z3.Bool('same keys'), p.pc)
            ob.check('the result is the candidate with the unitary found', v == ('PGE', 'R', conj, 'antisymmetry', 'S'), v)
            Ps = [Expr.letter('P%d' % i) for i in range(2)]
            ok = len(r['HRs']) == len(r['HLs']) == 2
            orders = [('x', 'y'), ('y', 'x')]
            good = False
            for o in orders:
                g1 = ok and all(h.e.same(Ps[i].T().conj() @ Expr.letter('H' + k) @ Ps[i])
                                for i in range(2) for h, k in zip(r['HRs'][i], o))
                PL = [q.conj() if conj else q for q in Ps]
                g2 = ok and all(h.e.same(PL[i].T().conj() @ Expr.letter('gH' + k) @ PL[i])
                                for i in range(2) for h, k in zip(r['HLs'][i], o))
                good = good or (g1 and g2 and all(len(h) == 2 for h in r['HRs'] + r['HLs']))
            ob.check('U (g H) = H U is solved in every block, for all terms in the same order', good,
                     [[str(m.e) for m in h] for h in r['HLs'] + r['HRs']], 'matrix normal form')
            ob.check('the projectors are passed on', r['Ps'] is r['projs'] and r['Ps2'] is r['projs'])
            ob.check('antiunitary candidates are treated as such', r['conj'] == conj and r['conj2'] == conj, r)
            for s in (r['sq'], r['sq2']):
                f = s.f if isinstance(s, SBool) else z3.BoolVal(bool(s))
                ob.prove('the operator is only asked to square to 1 if the candidate does', z3.Implies(f, z3.Bool('g*g=1')), p.pc)
            herm = z3.And(*[z3.Bool('Hermitian ' + q + k) for q in ('H', 'gH') for k in ('x', 'y')])
            f = r['ev'].f if isinstance(r['ev'], SBool) else z3.BoolVal(bool(r['ev']))
            ob.prove('eigenvalues are compared for Hermitian families only', z3.Implies(f, herm), p.pc)
            ob.check('the storage is passed on', r['sparse'] == 'S')


@obligation(['C09', 'C10', 'C11'], ['symmetry_finder.symmetries'])
def the_complete_search(ob):
    """symmetries(model): all parts of the search are about the given model, and their results are returned."""
    class Values(list):
        """The coefficients of the model; two stand for any number."""

    class Momenta(tuple):
        pass

    class M:
        def __init__(self, fmt, dim):
            self.format, self.momenta = fmt, Momenta('k%d' % i for i in range(dim))
            self.v = Values(('h1', 'h2'))

        def values(self):
            return list(self.v)

        def __getattr__(self, n):
            raise Unsupported('model.' + n)

    class Family(tuple):
        pass

    class Blocks:
        pass

    class Cand(str):
        pass
    given = [Cand('a'), Cand('b'), Cand('c')]
    cases = itertools.product((np.ndarray, _SP, complex), (1, 2, 3), (False, True), (False, True),
                              (None, (), list(given), tuple(given), set(given)))
    for fmt, dim, cont, gens, cands in cases:
        model = M(fmt, dim)
        what = 'format={}, {} momenta, continuous_rotations={}, generators={}, candidates={}'.format(
            fmt.__name__, dim, cont, gens, type(cands).__name__)
        before = None if cands is None else type(cands)(cands)
        blocks = Blocks()

        def arr(x, *a, **k):
            return Family(x)

        def reduce_(H, sparse=False):
            if sorted(H) != sorted(model.v):
                raise ContractError('the blocks are those of another family: {}'.format(H))
            return blocks

        def own(m, Ps):
            if m is not model:
                raise ContractError('the search is not about the given model')
            if Ps is not None and Ps is not blocks:
                raise ContractError('blocks of something else')

        def conserved(Ps, prettify=False, num_digits=3):
            own(model, Ps)
            if Ps is None:
                raise ContractError('conserved quantities without blocks')
            return ['Q1', 'Q2']

        def continuous(m, Ps=None, prettify=True, num_digits=8, sparse_linalg=False):
            own(m, Ps)
            return ['R1']

        def group(g):
            if set(g) != {('T', dim), ('P', dim), ('C', dim)} and set(g) != {('T', dim), ('P', dim)} \
                    and set(g) != {('T', dim), ('C', dim)} and set(g) != {('C', dim), ('P', dim)}:
                raise ContractError('candidates generated by {}'.format(g))
            return {Cand('E'), Cand('T'), Cand('P'), Cand('C')}

        def discrete(m, candidates, Ps=None, generators=False, verbose=False, sparse_linalg=False):
            own(m, Ps)
            want = {'E', 'T', 'P', 'C'} if cands is None else set(given) if cands else set()
            if set(candidates) != want:
                raise ContractError('the candidates tested are {} instead of {}'.format(set(candidates), want))
            if not isinstance(candidates, (set, frozenset)):
                raise ContractError('a set of candidates is required')
            return ({Cand('s1'), Cand('s2')} if not generators else {Cand('s1')}) if candidates else set(), Ps

        def run():
            np_ = Stub('numpy', array=arr, asarray=arr, stack=arr, ndarray=np.ndarray)
            sp = Stub('scipy', sparse=Stub('s', spmatrix=_SP))
            m = load('symmetry_finder', {'numpy': np_, 'scipy': sp, 'scipy.sparse': Stub('s', spmatrix=_SP),
                                         '.linalg': Stub('.linalg'), '.model': Stub('.model'),
                                         '.groups': Stub('.groups', generate_group=group, time_reversal=lambda d: ('T', d),
                                                         particle_hole=lambda d: ('P', d), chiral=lambda d: ('C', d),
                                                         PrettyList=list)},
                     dict(_reduce_hamiltonian=reduce_, conserved_quantities=conserved, continuous_symmetries=continuous,
                          discrete_symmetries=discrete))
            return m.ns['symmetries'](model, candidates=cands, continuous_rotations=cont, generators=gens)
        for p in explore(run):
            if fmt is complex:
                ob.check('models without matrix values are refused', p.kind == 'raise' and isinstance(p.value, ValueError), (what, p.value))
                continue
            ob.check('returns', p.kind == 'return', (what, p.value))
            if p.kind != 'return':
                continue
            disc, conts = p.value
            want = set() if cands is not None and not cands else {'s1'} if gens else {'s1', 's2'}
            ob.check('the discrete symmetries found, each once', set(disc) == want and len(list(disc)) == len(want), (what, disc))
            ob.check('the conserved quantities, then the rotations if requested', list(conts) == ['Q1', 'Q2'] + ['R1'] * cont, (what, conts))
            ob.check('the candidates are not changed', cands == before, (what, cands))
