"""C04: group generation, subgroup enumeration, products of sets.

Sets of group elements are sets over an uninterpreted sort with an associative product, and loops are
handled by their invariants; z3 discharges the obligations.  Termination: every round adds an element of the
(finite) generated group or stops, which is proved (`progress`); finiteness is the documented precondition."""
import itertools

import z3

from . import engine as E
from .engine import explore, load, Stub, SBool, Symbolic, Unsupported, ContractError, BREAK
from .obl import obligation, assumption

P = 'C04'
assumption(P, 'the generated group is finite (documented precondition)',
           'equality and hashing of the elements are coherent (C03), so that sets of them are mathematical sets',
           'the product of group elements is associative and invertible (C01)',
           'induction over finite generating sets is a step of the argument outside of the solver')
G = z3.DeclareSort('Element')
B = z3.BoolSort()
MUL = z3.Function('mul', G, G, G)
x, y, z = z3.Consts('x y z', G)
ASSOC = z3.ForAll([x, y, z], MUL(MUL(x, y), z) == MUL(x, MUL(y, z)))
_n = itertools.count()


def fresh(sort, name):
    return z3.Const('{}!{}'.format(name, next(_n)), sort)


class El:
    """A generic group element."""
    def __init__(self, t):
        self.t = t

    def __mul__(self, o):
        if not isinstance(o, El):
            return NotImplemented
        return El(MUL(self.t, o.t))

    def __eq__(self, o):
        return SBool(self.t == o.t) if isinstance(o, El) else NotImplemented

    def __hash__(self):
        raise Unsupported('hash of a generic element')


class ESet(Symbolic):
    """A mutable set of elements: membership is a formula of one variable."""
    pv_is_set = True
    all = []

    def __init__(self, p):
        self.p = p              # function: term -> formula
        self.frozen = False

    @staticmethod
    def named(name):
        f = z3.Function(name, G, B)
        s = ESet(lambda t: f(t))
        s.name = name
        return s

    def has(self, t):
        return self.p(t)

    element = El

    def copy(self):
        return type(self)(self.p)

    def pv_set(self):
        return self.copy()

    def __contains__(self, e):
        return bool(SBool(self.p(e.t)))

    def _op(self, o, f):
        if not isinstance(o, ESet):
            o = lift(o)
        a, b = self.p, o.p
        return type(self)(lambda t: f(a(t), b(t)))

    def __or__(self, o):
        return self._op(o, z3.Or)

    def __and__(self, o):
        return self._op(o, z3.And)

    def __sub__(self, o):
        return self._op(o, lambda a, b: z3.And(a, z3.Not(b)))

    def __xor__(self, o):
        return self._op(o, z3.Xor)

    def _set(self, r):
        if self.frozen:
            raise ContractError('an argument is modified')
        self.p = r.p
        return self

    def __ior__(self, o):
        return self._set(self | o)

    def __iand__(self, o):
        return self._set(self & o)

    def __isub__(self, o):
        return self._set(self - o)
    union, intersection, difference = __or__, __and__, __sub__

    def update(self, *os):
        for o in os:
            self |= o

    def difference_update(self, *os):
        for o in os:
            self -= o

    def add(self, e):
        self |= lift([e])

    def issubset(self, o):
        return self <= o

    def __le__(self, o):
        return SBool(z3.ForAll([x], z3.Implies(self.p(x), o.p(x))))

    def __ge__(self, o):
        return o <= self

    def __lt__(self, o):
        return SBool(z3.And((self <= o).f, z3.Not((o <= self).f)))

    def __eq__(self, o):
        o = o if isinstance(o, ESet) else lift(o)
        return SBool(z3.ForAll([x], self.p(x) == o.p(x)))

    def __ne__(self, o):
        return SBool(z3.Not((self == o).f))

    __hash__ = None

    def empty(self):
        return z3.ForAll([x], z3.Not(self.p(x)))

    def __bool__(self):
        return E.decide(z3.Not(self.empty()))

    def pv_len(self):
        return Card(self)

    def gens(self):
        e = fresh(G, 'e')
        return [([e], self.p(e), self.element(e))]

    def pv_product(self, *sets):
        return Pairs([s if isinstance(s, ESet) else lift(s) for s in sets])

    def pv_comp(self, kind, fn):
        return Comp(kind, self.gens(), fn)

    def pv_for(self, body, get, set_):
        return loop(self.gens(), body, get, set_)


class Card:
    """Cardinality; only comparisons with 0 are meaningful without counting."""
    def __init__(self, s):
        self.s = s

    def __gt__(self, o):
        if o == 0:
            return SBool(z3.Not(self.s.empty()))
        raise Unsupported('cardinality')

    def __ge__(self, o):
        if o == 1:
            return SBool(z3.Not(self.s.empty()))
        raise Unsupported('cardinality')

    def __eq__(self, o):
        if o == 0:
            return SBool(self.s.empty())
        raise Unsupported('cardinality')

    def __ne__(self, o):
        return SBool(z3.Not((self == o).f))

    def __lt__(self, o):
        if o == 1:
            return SBool(self.s.empty())
        raise Unsupported('cardinality')

    def __bool__(self):
        return bool(SBool(z3.Not(self.s.empty())))
    __hash__ = None


def lift(o):
    if isinstance(o, ESet):
        return o
    items = list(o)
    if not all(isinstance(e, El) for e in items):
        raise Unsupported('set of {}'.format([type(e).__name__ for e in items]))
    ts = [e.t for e in items]
    return ESet(lambda t: z3.Or([t == u for u in ts]) if ts else z3.BoolVal(False))


class Pairs(Symbolic):
    """itertools.product of sets."""
    def __init__(self, sets):
        self.sets = sets

    def gens(self):
        vs, fs, items = [], [], []
        for s in self.sets:
            e = fresh(G, 'e')
            vs.append(e)
            fs.append(s.p(e))
            items.append(El(e))
        return [(vs, z3.And(fs), tuple(items))]

    def pv_comp(self, kind, fn):
        return Comp(kind, self.gens(), fn)

    def pv_for(self, body, get, set_):
        return loop(self.gens(), body, get, set_)


def paths_of(fn):
    """Paths of a generic element: (conditions found inside, value)."""
    n = len(E.ctx().pc)
    out = []
    for p in explore(fn, list(E.ctx().pc)):
        if p.kind == 'raise':
            raise p.value
        out.append((z3.And(p.pc[n:]) if len(p.pc) > n else z3.BoolVal(True), p.value))
    return out


def Comp(kind, gens, fn):
    if kind not in ('set', 'gen', 'list'):
        raise Unsupported(kind + ' comprehension over group elements')
    images, truths = [], []
    for vs, guard, item in gens:
        for cond, ys in paths_of(lambda: (E.assume(guard), fn(item))[1]):
            for e in ys:
                if isinstance(e, bool):
                    truths.append(e)
                    continue
                if not isinstance(e, El):
                    raise Unsupported('comprehension element {}'.format(type(e).__name__))
                images.append((vs, z3.And(guard, cond), e.t))
    if truths:
        if images or len(set(truths)) > 1 or kind == 'set':
            raise Unsupported('truth values over a set')
        return [truths[0]]

    def p(t):
        return z3.Or([z3.Exists(vs, z3.And(g, t == e)) for vs, g, e in images])
    return ESet(p)


def loop(gens, body, get, set_):
    """for loop that only adds elements to sets: the union over the generic element."""
    before = get()
    sets = {k: v for k, v in before.items() if isinstance(v, ESet)}
    raise Unsupported('for loop over group elements')


def builder(items):
    items = list(items)
    if items and all(isinstance(e, El) for e in items):
        return lift(items)
    return None


E.SET_BUILDERS.append(builder)


def module(**ov):
    lin = Stub('.linalg', prop_to_id=None, _inv_int=None, allclose=None)
    return load('groups', {'.linalg': lin}, ov, dict(frozenset=FrozenType))


class _Frozen(E._SetMeta):
    def __call__(cls, *a):
        if a and isinstance(a[0], ESet):
            return a[0].copy()
        return frozenset(*a)


class FrozenType(metaclass=_Frozen):
    pass


# ---------------------------------------------------------------- generate_group

class Invariant:
    """Rule for one while loop of generate_group: the roles of the variables are found by trying."""

    def __init__(self, ob, gens, facts):
        self.ob, self.gens, self.facts = ob, gens, facts

    side = 'right'

    def inv(self, group, front):
        S, g0 = z3.Function('S', G, B), self.gens
        mul = MUL if self.side == 'right' else lambda a, b: MUL(b, a)
        return dict([
            ('the generators stay in', z3.ForAll([x], z3.Implies(g0.p(x), group.p(x)))),
            ('the frontier has been found', z3.ForAll([x], z3.Implies(front.p(x), group.p(x)))),
            ('products behind the frontier have been added', z3.ForAll([x, y], z3.Implies(
                z3.And(group.p(x), z3.Not(front.p(x)), g0.p(y)), group.p(mul(x, y))))),
            ('nothing superfluous', z3.ForAll([x], z3.Implies(group.p(x), S(x))))])

    def __call__(self, name, cond, body, get, set_, orelse):
        before = get()
        cand = [k for k, v in before.items() if isinstance(v, ESet)]
        best = None
        for side, (group, front) in itertools.product(('right', 'left'), list(itertools.permutations(cand, 2))):
            self.side = side
            r = self.attempt(before, group, front, cond, body, get, set_)
            if best is None or len([1 for l in r[0] if not l[1]]) < len([1 for l in best[0] if not l[1]]):
                best = r
            if all(ok for label, ok, d in r[0]):
                break
        if best is None:
            raise Unsupported('loop without two sets')
        for label, ok, d in best[0]:
            self.ob.check(label, ok, d, 'z3')
        exits = best[1]
        if not exits:
            raise Unsupported('the loop never ends')
        # continue behind the loop in an arbitrary final state
        i = 0
        while i < len(exits) - 1 and not E.decide(z3.Bool('exit {}'.format(i))):
            i += 1
        pc, after = exits[i]
        for f in pc:
            E.assume(f)
        set_(after)
        return None

    def attempt(self, before, group, front, cond, body, get, set_):
        obs = []
        base = list(E.ctx().pc) + self.facts

        def ob(label, f, pc):
            ok, d = E.prove(f, pc)
            obs.append((label, ok, d))
        for label, f in self.inv(before[group], before[front]).items():
            ob('initially: ' + label, f, base)
        start = {}
        for k, v in before.items():
            start[k] = ESet.named('{}!{}'.format(k, next(_n))) if isinstance(v, ESet) else v
        hyp = list(self.inv(start[group], start[front]).values())
        frozen0 = self.gens.frozen
        exits = []

        def once():
            # mutable values: fresh copies for every path
            st = {k: (v.copy() if isinstance(v, ESet) else v) for k, v in start.items()}
            set_(st)
            if not cond():
                return 'exit', get()
            r = body()
            if r is BREAK:
                return 'exit', get()
            if isinstance(r, E._Ret):
                return 'return', r.value
            return 'next', get()
        for p in explore(once, base + hyp):
            if p.kind == 'raise':
                raise p.value
            kind, after = p.value
            if kind == 'return':
                raise Unsupported('return from the loop')
            if kind == 'exit':
                exits.append((p.pc[len(E.ctx().pc):], after))
                continue
            for label, f in self.inv(after[group], after[front]).items():
                ob('kept: ' + label, f, p.pc)
            ob('progress: the next round starts with more elements',
               z3.Exists([x], z3.And(after[group].p(x), z3.Not(start[group].p(x)))), p.pc)
        set_(before)
        return obs, exits


def closed_superset(gens):
    """S: an arbitrary set that contains the generators and is closed under multiplication."""
    S = z3.Function('S', G, B)
    return [z3.ForAll([x], z3.Implies(gens.p(x), S(x))),
            z3.ForAll([x, y], z3.Implies(z3.And(S(x), S(y)), S(MUL(x, y))))]


@obligation(P, ['groups.generate_group'])
def group_generation(ob):
    g = module()
    gens = ESet.named('gens')
    gens.frozen = True
    S = z3.Function('S', G, B)
    facts = closed_superset(gens)
    E.WHILE_RULES['generate_group'] = Invariant(ob, gens, facts)
    try:
        n = 0
        for p in explore(lambda: g.generate_group(gens), facts):
            if p.kind == 'raise':
                ob.check('returns', False, '{}: {}'.format(type(p.value).__name__, p.value))
                continue
            n += 1
            r = p.value
            if not isinstance(r, ESet):
                ob.check('returns a set', False, type(r))
                continue
            ob.check('returns a set of its own', r is not gens)
            ob.prove('contains the generators', z3.ForAll([x], z3.Implies(gens.p(x), r.p(x))), p.pc)
            right, left = (z3.ForAll([x, y], z3.Implies(z3.And(r.p(x), gens.p(y)), r.p(f(x, y)))) for f in (MUL, lambda a, b: MUL(b, a)))
            ob.prove('products with generators are in', right if E.prove(right, p.pc)[0] else left, p.pc)
            ob.prove('is contained in every closed set that contains the generators',
                     z3.ForAll([x], z3.Implies(r.p(x), S(x))), p.pc)
        ob.check('some path is feasible', n > 0)
    finally:
        E.WHILE_RULES.clear()
    # Lemma.  Let W be the smallest set that contains the generators and is closed under products with generators
    # from the right (from the left: mirrored).  W is contained in the result and in every S, and W is closed
    # under products: T = {t in W: x t in W for all x in W} contains the generators and is closed under products
    # with generators, so that W is contained in T.  Hence the result is W, closed, and the smallest closed set.
    w = z3.Function('W', G, B)
    a, b = z3.Consts('a b', G)
    for mul, side in ((MUL, 'right'), (lambda u, v: MUL(v, u), 'left')):
        T = lambda t: z3.And(w(t), z3.ForAll([x], z3.Implies(w(x), w(mul(x, t)))))
        hyp = [ASSOC, z3.ForAll([x], z3.Implies(gens.p(x), w(x))),
               z3.ForAll([x, y], z3.Implies(z3.And(w(x), gens.p(y)), w(mul(x, y))))]
        ob.prove('closure lemma: generators', z3.ForAll([y], z3.Implies(gens.p(y), T(y))), hyp)
        ob.prove('closure lemma: products', z3.Implies(z3.And(T(a), gens.p(b)), T(mul(a, b))), hyp)


@obligation(P, ['groups.set_multiply'])
def set_product(ob):
    g = module()
    A, H = ESet.named('A'), ESet.named('H')
    A.frozen = H.frozen = True
    for p in explore(lambda: g.set_multiply(A, H)):
        if p.kind == 'raise':
            ob.check('returns', False, p.value)
            continue
        spec = z3.Exists([x, y], z3.And(A.p(x), H.p(y), z == MUL(x, y)))
        ob.prove('exactly the pairwise products', z3.ForAll([z], p.value.p(z) == spec), p.pc)


# ---------------------------------------------------------------- generate_subgroups

SUB, GENS = z3.DeclareSort('Subgroup'), z3.DeclareSort('GeneratingSet')
JOIN = z3.Function('join', SUB, SUB, SUB)
CL = z3.Function('closure', GENS, SUB)
UNION = z3.Function('union', GENS, GENS, GENS)
SINGLE = z3.Function('singleton', G, GENS)
INSIDE = z3.Function('inside', GENS, B)         # all elements lie in the group
INGROUP = z3.Function('in_group', G, B)
TOP = z3.Const('whole_group', SUB)
CARD = z3.Function('order', SUB, z3.IntSort())
k, l, m = z3.Consts('k l m', SUB)
u, v = z3.Consts('u v', GENS)
LATTICE = [
    z3.ForAll([k, l], JOIN(k, l) == JOIN(l, k)),
    # closure of a union = join of the closures (from the contract of generate_group: smallest closed set)
    z3.ForAll([u, v], CL(UNION(u, v)) == JOIN(CL(u), CL(v))),
    z3.ForAll([u, v], INSIDE(UNION(u, v)) == z3.And(INSIDE(u), INSIDE(v))),
    z3.ForAll([x], INSIDE(SINGLE(x)) == INGROUP(x)),
    # the group is closed: subgroups generated inside stay inside
    z3.ForAll([u], z3.Implies(INSIDE(u), JOIN(CL(u), TOP) == TOP)),
    # of two finite sets, one inside of the other, with the same number of elements
    z3.ForAll([k, l], z3.Implies(z3.And(JOIN(k, l) == l, CARD(k) == CARD(l)), k == l)),
    z3.ForAll([k, l], z3.Implies(JOIN(k, l) == l, CARD(k) <= CARD(l)))]


class GS:
    """A set of generators."""
    pv_is_set = True

    def __init__(self, t):
        self.t = t

    def __or__(self, o):
        return GS(UNION(self.t, o.t)) if isinstance(o, GS) else NotImplemented
    union = __or__

    def copy(self):
        return GS(self.t)

    def pv_set(self):
        return self


class SubV:
    """A subgroup as a set."""
    pv_is_set = True

    def __init__(self, t):
        self.t = t

    def __le__(self, o):
        return SBool(JOIN(self.t, o.t) == o.t)
    issubset = __le__

    def __ge__(self, o):
        return SBool(JOIN(self.t, o.t) == self.t)
    issuperset = __ge__

    def __eq__(self, o):
        return SBool(self.t == o.t) if isinstance(o, SubV) else NotImplemented

    def __ne__(self, o):
        return SBool(self.t != o.t)

    def __lt__(self, o):
        return SBool(z3.And(JOIN(self.t, o.t) == o.t, self.t != o.t))
    __hash__ = None

    def pv_set(self):
        return self

    def copy(self):
        return self

    def pv_len(self):
        return Num(CARD(self.t))


class Num:
    def __init__(self, v):
        self.v = v

    def _cmp(self, o, f):
        return SBool(f(self.v, o.v if isinstance(o, Num) else z3.IntVal(o)))

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)
    __hash__ = None


class Group(Symbolic):
    """The closed group given by the user."""
    pv_is_set = True

    def pv_comp(self, kind, fn):
        e = fresh(G, 'g')
        if kind != 'dict':
            raise Unsupported(kind + ' comprehension over the group')
        d = SDict()
        images = []
        for cond, ys in paths_of(lambda: (E.assume(INGROUP(e)), fn(El(e)))[1]):
            for key, val in ys:
                images.append((z3.And(INGROUP(e), cond), key.t, val.t))
        # the value stored for a key is one of those computed for it
        d.keyp = lambda t: z3.Exists([e], z3.Or([z3.And(c, t == kt) for c, kt, vt in images]))
        vf = z3.Function('value!%d' % next(_n), SUB, GENS)
        d.val = lambda t: vf(t)
        E.assume(z3.ForAll([k], z3.Implies(d.keyp(k), z3.Exists([e], z3.Or([z3.And(c, k == kt, vf(k) == vt) for c, kt, vt in images])))))
        return d

    def pv_len(self):
        return Num(CARD(TOP))

    def pv_set(self):
        return self

    def copy(self):
        return self


class SDict(Symbolic):
    """dict from subgroups to generating sets."""
    all = []

    def __init__(self, keyp=None, val=None):
        self.keyp = keyp or (lambda t: z3.BoolVal(False))
        f = z3.Function('value!%d' % next(_n), SUB, GENS)
        self.val = val or (lambda t: f(t))
        SDict.all.append(self)

    def copy(self):
        return SDict(self.keyp, self.val)

    def havoc(self, name):
        K, f = z3.Function('%s keys!%d' % (name, next(_n)), SUB, B), z3.Function('%s!%d' % (name, next(_n)), SUB, GENS)
        self.keyp, self.val = (lambda t: K(t)), (lambda t: f(t))

    def state(self):
        return self.keyp, self.val

    def restore(self, s):
        self.keyp, self.val = s

    def __contains__(self, key):
        return bool(SBool(self.keyp(key.t)))

    def __getitem__(self, key):
        if key not in self:
            raise KeyError(key)
        return GS(self.val(key.t))

    def __setitem__(self, key, value):
        if not isinstance(key, SubV) or not isinstance(value, GS):
            raise ContractError('stored {}: {}'.format(type(key).__name__, type(value).__name__))
        K, V, kt, vt = self.keyp, self.val, key.t, value.t
        self.keyp = lambda t: z3.Or(K(t), t == kt)
        self.val = lambda t: z3.If(t == kt, vt, V(t))

    def items(self):
        return SItems(self, 'items')

    def keys(self):
        return SItems(self, 'keys')

    def pv_for(self, body, get, set_):
        return self.keys().pv_for(body, get, set_)

    def empty(self):
        return z3.ForAll([k], z3.Not(self.keyp(k)))

    def __bool__(self):
        return E.decide(z3.Not(self.empty()))

    def pv_len(self):
        return Card(self)

    def pv_comp(self, kind, fn):
        return self.keys().pv_comp(kind, fn)


class SItems(Symbolic):
    def __init__(self, d, what):
        self.d, self.what = d, what

    def generic(self):
        t = fresh(SUB, 's')
        key = SubV(t)
        return [t], self.d.keyp(t), (key if self.what == 'keys' else (key, GS(self.d.val(t))))

    def pv_product(self, *vs):
        return SPairs(vs)

    def pv_comp(self, kind, fn):
        if self.what != 'keys':
            raise Unsupported('comprehension')
        (t,), guard, item = self.generic()
        ps = paths_of(lambda: (E.assume(guard), fn(item))[1])
        if len(ps) == 1 and len(ps[0][1]) == 1 and isinstance(ps[0][1][0], Num):
            return Orders(t, guard, ps[0][1][0].v)
        raise Unsupported('comprehension')

    def pv_for(self, body, get, set_):
        return SPairs([self]).pv_for(body, get, set_)

    def pv_len(self):
        return Card(self.d)


class Orders(Symbolic):
    """numbers computed for all keys"""
    def __init__(self, t, guard, v):
        self.t, self.guard, self.v = t, guard, v

    def pv_extreme(self, f):
        r = z3.Const('%s!%d' % (f, next(_n)), z3.IntSort())
        E.assume(z3.ForAll([self.t], z3.Implies(self.guard, r <= self.v if f == 'min' else r >= self.v)))
        E.assume(z3.Exists([self.t], z3.And(self.guard, r == self.v)))
        return Num(r)


class SPairs(Symbolic):
    def __init__(self, vs):
        self.vs = [v if isinstance(v, SItems) else v.keys() for v in vs]

    def pv_for(self, body, get, set_):
        h = FOR_RULE[0]
        if h is None:
            raise Unsupported('loop without an invariant')
        return h(self, body, get, set_)


FOR_RULE = [None]


def sym_min(*a):
    return a[0].pv_extreme('min') if len(a) == 1 and isinstance(a[0], Orders) else min(*a)


def sym_max(*a):
    return a[0].pv_extreme('max') if len(a) == 1 and isinstance(a[0], Orders) else max(*a)


def good(d):
    """every key is generated by its value, inside of the group"""
    return z3.ForAll([k], z3.Implies(d.keyp(k), z3.And(CL(d.val(k)) == k, INSIDE(d.val(k)))))


def within(a, b):
    return z3.ForAll([k], z3.Implies(a.keyp(k), b.keyp(k)))


CYC = lambda t: z3.Exists([x], z3.And(INGROUP(x), t == CL(SINGLE(x))))


class Rules:
    def __init__(self, ob):
        self.ob = ob
        self.results = {}

    probing = None

    def record(self, obs):
        for label, ok, d in obs:
            self.ob.check(label, ok, d, 'z3')

    # -- the inner loop: all pairs (subgroup of the last round, cyclic subgroup)
    def for_(self, it, body, get, set_):
        dicts = list(SDict.all)
        state0 = [d.state() for d in dicts]
        before = get()
        base = list(E.ctx().pc)
        done = z3.Function('done!%d' % next(_n), *[SUB] * len(it.vs), B)

        def restore(states):
            for d, s in zip(dicts, states):
                d.restore(s)
        touched = set()

        def probe():
            restore(state0)
            set_(before)
            vs, gs, items = zip(*[w.generic() for w in it.vs])
            for g in gs:
                E.assume(g)
            body(items[0] if len(items) == 1 else tuple(items))
            touched.update(i for i, d in enumerate(dicts) if d.state() != state0[i])
        for p in explore(probe, base):
            if p.kind == 'raise':
                raise p.value
        restore(state0)
        set_(before)
        touched = sorted(touched)
        if self.probing is not None:
            self.probing.update(touched)
        if not touched or self.probing is not None:
            return None
        if any(w.d is dicts[i] for w in it.vs for i in touched):
            raise ContractError('a dictionary is changed while it is iterated over')
        best = None
        for roles in (itertools.permutations(touched, 2) if len(touched) >= 2 else ()):
            subs, new = roles
            s0 = SDict(*state0[subs])

            def inv(done):
                S, N = dicts[subs], dicts[new]
                vs = [fresh(SUB, 'p') for w in it.vs]
                return {'earlier subgroups stay': within(s0, S),
                        'new subgroups are recorded as new': z3.ForAll([k], S.keyp(k) == z3.Or(s0.keyp(k), N.keyp(k))),
                        'nothing known is recorded as new': z3.ForAll([k], z3.Not(z3.And(s0.keyp(k), N.keyp(k)))),
                        'subgroups are generated by their generators': good(S),
                        'new subgroups are generated by their generators': good(N),
                        'all pairs treated so far are there': z3.ForAll(vs, z3.Implies(
                            z3.And(done(*vs), *[w.d.keyp(t) for w, t in zip(it.vs, vs)]), S.keyp(joined(vs))))}
            obs = []

            def prove(label, f, pc):
                ok, d = E.prove(f, pc)
                obs.append((label, ok, d))
            for label, f in inv(lambda *vs: z3.BoolVal(False)).items():
                prove('pairs, initially: ' + label, f, base)
            for i in touched:
                dicts[i].havoc('loop')
            mid = [d.state() for d in dicts]
            hyp = list(inv(done).values())
            carried = {n: E_Unknown() if n in before else None for n in before}

            def once():
                restore(mid)
                set_({n: w for n, w in before.items()})
                vs, gs, items = zip(*[w.generic() for w in it.vs])
                for g in gs:
                    E.assume(g)
                r = body(items[0] if len(items) == 1 else tuple(items))
                if r is not None:
                    raise Unsupported('loop left early')
                return [t for w in vs for t in w], [d.state() for d in dicts]
            for p in explore(once, base + hyp):
                if p.kind == 'raise':
                    raise p.value
                now, after = p.value
                restore(after)
                for label, f in inv(lambda *vs: z3.Or(done(*vs), z3.And([a == b for a, b in zip(vs, now)]))).items():
                    prove('pairs, kept: ' + label, f, p.pc)
            restore(mid)
            final = list(inv(lambda *vs: z3.BoolVal(True)).values())
            score = len([1 for o in obs if not o[1]])
            if best is None or score < best[0]:
                best = (score, obs, mid, final)
            restore(state0)
            if not score:
                break
        if best is None:
            raise Unsupported('loop without the expected dictionaries')
        self.record(best[1])
        restore(best[2])
        set_(before)
        for f in best[3]:
            E.assume(f)
        return None

    # -- the outer loop
    def while_(self, name, cond, body, get, set_, orelse):
        before = get()
        dicts = list(SDict.all)
        state0 = [d.state() for d in dicts]
        base = list(E.ctx().pc)
        names = [n for n, w in before.items() if isinstance(w, SDict)]
        best = None
        self.probing = set()
        n = len(dicts)

        def probe():
            del SDict.all[n:]
            set_(before)
            for d, s in zip(dicts, state0):
                d.restore(s)
            body()
            self.probing.update(i for i, d in enumerate(dicts) if d.state() != state0[i])
        explore(probe, base)
        touched, self.probing = {i for i in self.probing if i < n}, None
        for d, s in zip(dicts, state0):
            d.restore(s)
        del SDict.all[n:]
        set_(before)
        if len(touched) != 1:
            raise Unsupported('loop changes several dictionaries')
        for subs in touched:
            for old in names:
                r = self.attempt(dicts, state0, base, before, subs, old, cond, body, get, set_)
                for d, s in zip(dicts, state0):
                    d.restore(s)
                del SDict.all[len(dicts):]
                score = len([1 for o in r[0] if not o[1]])
                if best is None or score < best[0]:
                    best = (score,) + r
                if not score:
                    break
            if best[0] == 0:
                break
        self.record(best[1])
        exits = best[2]
        if not exits:
            raise Unsupported('the loop never ends')
        i = 0
        while i < len(exits) - 1 and not E.decide(z3.Bool('exit {}'.format(i))):
            i += 1
        pc, after, states = exits[i]
        for f in pc:
            E.assume(f)
        for d, s in zip(dicts, states):
            d.restore(s)
        set_(after)
        return None

    def inv(self, S, O):
        return {'subgroups are generated by their generators': good(S),
                'subgroups of the last round are generated by their generators': good(O),
                'the last round has been recorded': within(O, S),
                'cyclic subgroups are there': z3.ForAll([x], z3.Implies(INGROUP(x), S.keyp(CL(SINGLE(x))))),
                'extensions of earlier subgroups are there': z3.ForAll([k, x], z3.Implies(
                    z3.And(S.keyp(k), z3.Not(O.keyp(k)), INGROUP(x)), S.keyp(JOIN(k, CL(SINGLE(x))))))}

    def attempt(self, dicts, state0, base, before, subs, old, cond, body, get, set_):
        obs, exits = [], []

        def prove(label, f, pc):
            ok, d = E.prove(f, pc)
            obs.append((label, ok, d))
        for label, f in self.inv(dicts[subs], before[old]).items():
            prove('rounds, initially: ' + label, f, base)
        if any(not o[1] for o in obs):
            return obs, exits
        inner = self.ob
        sub = type(inner)(inner.prop, inner.name)
        self.ob = sub
        fixed = [d for i, d in enumerate(dicts) if i != subs and d is not before[old]]
        try:
            dicts[subs].havoc('subgroups')
            mid = [d.state() for d in dicts]
            O = SDict()
            O.havoc('last round')
            ostate = O.state()
            hyp = list(self.inv(dicts[subs], O).values())
            S0 = SDict(*mid[subs])
            ndicts = len(SDict.all)

            def once():
                del SDict.all[ndicts:]
                for d, s in zip(dicts, mid):
                    d.restore(s)
                O.restore(ostate)
                st = dict(before)
                st[old] = O
                set_(st)
                if not cond():
                    return 'exit', get(), [d.state() for d in dicts]
                r = body()
                if r is BREAK:
                    return 'exit', get(), [d.state() for d in dicts]
                if isinstance(r, E._Ret):
                    raise Unsupported('return from the loop')
                return 'next', get(), [d.state() for d in dicts]
            for p in explore(once, base + hyp):
                if p.kind == 'raise':
                    raise p.value
                kind, after, states = p.value
                if kind == 'exit':
                    exits.append((p.pc[len(base):], after, states))
                    continue
                for d, s in zip(dicts, states):
                    d.restore(s)
                for d, s in zip(fixed, [mid[dicts.index(d)] for d in fixed]):
                    if d.state() != s:
                        raise Unsupported('another dictionary changes in the loop')
                for label, f in self.inv(dicts[subs], after[old]).items():
                    prove('rounds, kept: ' + label, f, p.pc)
                prove('rounds: progress', z3.Exists([k], z3.And(dicts[subs].keyp(k), z3.Not(S0.keyp(k)))), p.pc)
        finally:
            self.ob = inner
        for label, it in sub.items.items():
            obs += [(label, not it['bad'] if not it['und'] else None, (it['bad'] or it['und'] or [''])[0])] * it['n']
        return obs, exits


class E_Unknown:
    pass


def joined(vs):
    r = vs[0]
    for t in vs[1:]:
        r = JOIN(r, t)
    return r


@obligation(P, ['groups.generate_subgroups'])
def subgroups(ob):
    """All subgroups, each with a generating set; generate_group by its contract."""
    def contract(gens):
        if not isinstance(gens, GS):
            raise Unsupported('generate_group')
        return SubV(CL(gens.t))

    def singles(items):
        items = list(items)
        if len(items) == 1 and isinstance(items[0], El):
            return GS(SINGLE(items[0].t))
        return None

    def dicts(items):
        return SDict() if not list(items) else None
    lin = Stub('.linalg', prop_to_id=None, _inv_int=None, allclose=None)
    E.SET_BUILDERS.insert(0, singles)
    E.DICT_BUILDERS.insert(0, dicts)
    rules = Rules(ob)

    class Dict(metaclass=type('D', (type,), {'__call__': lambda c, *a, **kw: SDict() if not a and not kw else a[0].copy()})):
        pass
    try:
        g = load('groups', {'.linalg': lin}, dict(generate_group=contract), dict(frozenset=FrozenSub, min=sym_min, max=sym_max, dict=Dict))
        FOR_RULE[0] = rules.for_
        E.UNKNOWN_IS_FEASIBLE[0] = 300
        E.WHILE_RULES['generate_subgroups'] = rules.while_

        def run():
            del SDict.all[:]
            return g.generate_subgroups(Group())
        n = 0
        for p in explore(run, LATTICE):
            if p.kind == 'raise':
                ob.check('returns', False, '{}: {}'.format(type(p.value).__name__, p.value))
                continue
            n += 1
            r = p.value
            ob.prove('every key is generated by its value, inside of the group', good(r), p.pc)
            ob.prove('every cyclic subgroup is there', z3.ForAll([x], z3.Implies(INGROUP(x), r.keyp(CL(SINGLE(x))))), p.pc)
            ob.prove('every extension of a subgroup by an element is there',
                     z3.ForAll([k, x], z3.Implies(z3.And(r.keyp(k), INGROUP(x)), r.keyp(JOIN(k, CL(SINGLE(x)))))), p.pc)
        ob.check('some path is feasible', n > 0)
    finally:
        FOR_RULE[0] = None
        E.UNKNOWN_IS_FEASIBLE[0] = None
        E.WHILE_RULES.clear()
        E.SET_BUILDERS.remove(singles)
        E.DICT_BUILDERS.remove(dicts)


class _FrozenSub(E._SetMeta):
    def __call__(cls, *a):
        if a and isinstance(a[0], SubV):
            return a[0]
        raise Unsupported('frozenset')


class FrozenSub(metaclass=_FrozenSub):
    pass
