"""C15: family manipulations as formal linear algebra over families of any size."""
import itertools

import numpy as np
import z3

from . import engine as E
from . import c08, c11             # noqa: F401  (null space, families_as_vectors)
from . import tensor as t
from . import famworld as fw
from .engine import explore, load, Stub, SBool, Symbolic, Unsupported, ContractError, Infeasible, assume
from .tensor import TT, Each, Comp, GList, Dim, Idx, tensor, param, DIM
from .famworld import Fam, Member, Keys, Sym, as_coefs, generator_module, nums
from .c08 import IntE, implied
from .obl import obligation, assumption, bounded_only

P = 'C15'
obligation(P, ['linalg.nullspace'])(c08.null_space)
assumption(P, 'families are mapped to vectors by an injective real-linear map (proved: families_as_vectors, and the '
           'pointwise arithmetic of models, C05)', 'scipy.linalg.pinv(A) satisfies x pinv(A) A = x for x in the row span of A',
           'rounding is the identity', 'arithmetic is exact, closeness to zero within the tolerance is equality to zero',
           'nonzero combinations of independent members are nonzero; averaging over a group is a projection')


# ---------------------------------------------------------------- row reduction

class RM:
    """Matrix with entries f(i, j); ops: the row operations that were applied to the start."""
    def __init__(self, f, ops, start):
        self.f, self.ops, self.start = f, tuple(ops), start

    @property
    def shape(self):
        return (IntE(ROWS), IntE(COLS))

    def __getitem__(self, k):
        i, j = k
        if isinstance(i, slice):
            if i == slice(None):
                return ColV(self, IntE.of(j), None)
            if i.stop is None and i.step is None:
                return ColV(self, IntE.of(j), IntE.of(i.start))
            raise Unsupported('slice')
        for x, n in ((i, ROWS), (j, COLS)):
            if not implied(z3.And(IntE.of(x) >= 0, IntE.of(x) < n)):
                raise ContractError('entry outside of the matrix')
        return Real(self.f(IntE.of(i), IntE.of(j)))


ROWS, COLS = z3.Ints('rows columns')


class Real:
    def __init__(self, x):
        self.x = x

    def __rtruediv__(self, o):
        if not implied(self.x != 0):
            raise ContractError('division by zero')
        return Real(z3.RealVal(o) / self.x)

    def __abs__(self):
        return Real(z3.If(self.x >= 0, self.x, -self.x))

    def __lt__(self, o):
        return SBool(self.x < o.x)

    def __le__(self, o):
        return SBool(self.x <= o.x)

    def __gt__(self, o):
        return SBool(self.x > o.x)

    def __mul__(self, o):
        return Real(self.x * (o.x if isinstance(o, Real) else z3.RealVal(str(o))))
    __rmul__ = __mul__


class ColV:
    def __init__(self, m, j, lo):
        self.m, self.j, self.lo = m, j, lo

    def __abs__(self):
        return self


class Elem:
    """Row operation: the identity changed in a few columns."""
    def __init__(self, n):
        if not implied(IntE.of(n) == ROWS):
            raise ContractError('row operation of the wrong size')
        self.g = lambda a, b: z3.If(a == b, z3.RealVal(1), z3.RealVal(0))
        self.cols = []

    def __setitem__(self, k, v):
        i, j = k
        old = self.g
        if isinstance(i, slice):
            if i != slice(None) or not isinstance(v, ElemCol) or v.of is not self:
                raise Unsupported('column assignment')
            jj = IntE.of(j)
            if not z3.eq(z3.simplify(jj), z3.simplify(v.j)):
                raise Unsupported('column assignment')
            self.g = lambda a, b: z3.If(b == jj, v.f(a), old(a, b))
        else:
            ii, jj = IntE.of(i), IntE.of(j)
            for x in (ii, jj):
                if not implied(z3.And(x >= 0, x < ROWS)):
                    raise ContractError('entry outside of the operation')
            val = v.x if isinstance(v, Real) else z3.RealVal(v)
            self.g = lambda a, b: z3.If(z3.And(a == ii, b == jj), val, old(a, b))
        self.cols.append(IntE.of(j))

    def __getitem__(self, k):
        i, j = k
        if i == slice(None):
            jj = IntE.of(j)
            old = self.g
            return ElemCol(self, jj, lambda a: old(a, jj))
        raise Unsupported('entry of an operation')

    def times(self, f):
        """(T f)(a, j)"""
        g, cols = self.g, list(self.cols)

        def h(a, j):
            r = f(a, j)
            for q, c in enumerate(cols):
                new_ = z3.And(*[c != d for d in cols[:q]]) if q else z3.BoolVal(True)
                r = r + z3.If(new_, (g(a, c) - z3.If(a == c, z3.RealVal(1), z3.RealVal(0))) * f(c, j), z3.RealVal(0))
            return r
        return h

    def dot(self, o):
        if isinstance(o, RM):
            return RM(self.times(o.f) if o.f is not None else None, (self,) + o.ops, o.start)
        raise Unsupported('product')
    __matmul__ = dot


class ElemCol:
    def __init__(self, of, j, f):
        self.of, self.j, self.f = of, j, f

    def __sub__(self, c):
        if not isinstance(c, ColV) or c.lo is not None:
            raise Unsupported('column operation')
        f, m, j = self.f, c.m, c.j
        return ElemCol(self.of, self.j, lambda a: f(a) - m.f(a, j))
    __isub__ = __sub__


class RowRange(Symbolic):
    def __init__(self, ob):
        self.ob = ob

    def pv_for(self, body, get, set_):
        ob = self.ob
        d = get()
        fam = {k: v for k, v in {**fw.t.cells_of(body), **d}.items() if isinstance(v, (RM, Elem))}
        # the record of the operations starts as the untouched identity
        fam = {k: RM(None, (), '1') if isinstance(v, Elem) and not v.cols else v for k, v in fam.items()}
        S = [k for k, v in fam.items() if isinstance(v, RM) and v.start == '1']
        R = [k for k, v in fam.items() if isinstance(v, RM) and v.start == 'm']
        if len(S) != 1 or len(R) != 1:
            raise Unsupported('matrices of the reduction')
        S, R = S[0], R[0]
        ob.check('row reduction: starts with the matrix and the identity', not fam[S].ops and not fam[R].ops)
        leads = [k for k, v in d.items() if isinstance(v, int) and not isinstance(v, bool)]
        q = next(c08._n)
        before = ('any operations',)
        m0 = z3.Function('m!%d' % q, z3.IntSort(), z3.IntSort(), z3.RealSort())
        st = {S: RM(None, before, '1'), R: RM(m0, before, 'm')}
        for k in leads:
            v = z3.Int('lead {}!{}'.format(k, q))
            assume(v >= 0)
            st[k] = IntE(v)
        set_(st)
        if not E.decide(z3.Bool('another row')):
            return None
        r = z3.Int('r!%d' % q)
        assume(z3.And(r >= 0, r < ROWS))
        out = body(IntE(r))
        after = get()
        s, m = after[S], after[R]
        ob.check('row reduction: the operations on the matrix are recorded', isinstance(s, RM) and isinstance(m, RM) and s.ops == m.ops
                 and s.start == '1' and m.start == 'm', (s.ops, m.ops))
        new_ = s.ops[:len(s.ops) - len(before)]
        for T in new_:
            # T y = 0 only for y = 0, at the columns that differ from the identity and at an arbitrary row
            y = z3.Function('y', z3.IntSort(), z3.IntSort(), z3.RealSort())
            a = z3.Int('a')
            h = T.times(y)
            z = z3.IntVal(0)
            ob.prove('row reduction: every operation is invertible', y(a, z) == 0,
                     E.ctx().pc + [h(x, z) == 0 for x in [a] + T.cols])
        if len(new_) and out is None:
            # an earlier pivot column (c: unit vector of row p) is kept
            a, p, c = z3.Ints('a p c')
            rows = [a, p, r] + [x for T in new_ for x in T.cols]
            ob.prove('row reduction: earlier pivot columns are kept', m.f(a, c) == z3.If(a == p, z3.RealVal(1), z3.RealVal(0)),
                     E.ctx().pc + [p >= 0, p < r, c >= 0] + [c < v.t for k, v in st.items() if k in leads] +
                     [m0(x, c) == z3.If(x == p, z3.RealVal(1), z3.RealVal(0)) for x in rows])
            lead = [k for k in leads if k in after]
            # the pivot column has become a unit vector
            a = z3.Int('a')
            for k in lead:
                ob.prove('row reduction: pivot columns are unit vectors', m.f(a, after[k].t - 1) == z3.If(a == r, z3.RealVal(1), z3.RealVal(0)),
                         E.ctx().pc)
        if out is E.BREAK:
            return None
        raise Infeasible


@obligation(['C12', 'C13', 'C14', 'C15'], ['linalg.rref'])
def row_reduction(ob):
    def search(name, cond, body, get, set_, orelse):
        d = get()
        leads = [k for k, v in d.items() if isinstance(v, IntE) and str(v.t).startswith('lead')]
        if len(leads) != 1:
            raise Unsupported('search for the pivot')
        v = z3.Int('lead!%d' % next(c08._n))
        assume(v >= IntE.of(d[leads[0]]))
        set_({leads[0]: IntE(v)})
        if not cond():
            return orelse() if orelse else None
        r = body()
        if r is E.BREAK:
            return None
        if isinstance(r, E._Ret):
            raise Unsupported('return')
        ob.prove('row reduction: the search for a pivot advances', IntE.of(get()[leads[0]]) == v + 1, E.ctx().pc)
        raise Infeasible

    def argmax(c):
        if not isinstance(c, ColV) or c.lo is None:
            raise ContractError('pivot search over all rows')
        i = z3.Int('i!%d' % next(c08._n))
        assume(z3.And(i >= 0, i < ROWS - c.lo))
        return IntE(i)
    for ret in (True, False):
        def run():
            m0 = z3.Function('m', z3.IntSort(), z3.IntSort(), z3.RealSort())
            tol = z3.Real('tol')
            assume(z3.And(ROWS >= 1, COLS >= 1, tol > 0, z3.Real('rtol') > 0))
            np_ = Stub('numpy', array=lambda x: RM(m0, (), 'm'), eye=lambda n, *a, **k: Elem(n),
                       allclose=lambda a, b: SBool(z3.Bool('zero matrix')), abs=lambda x: abs(x) if isinstance(x, (Real, ColV)) else Real(tol),
                       max=lambda x: x, argmax=argmax)
            m = load('linalg', {'numpy': np_, 'scipy': Stub('scipy')},
                     builtin_overrides={'range': lambda n: RowRange(ob)})
            return m.ns['rref'](RM(m0, (), 'm'), rtol=Real(z3.Real('rtol')), return_S=ret)
        E.WHILE_RULES['rref'] = search
        try:
            ps = explore(lambda: run())
        finally:
            E.WHILE_RULES.clear()
        for p in ps:
            if p.kind == 'raise':
                ob.check('row reduction: returns', False, repr(p.value))
                continue
            v = p.value
            if ret:
                ok = isinstance(v, tuple) and len(v) == 2
                ob.check('row reduction: both matrices are returned', ok, v)
                if ok:
                    a, b = v
                    b_ops = b.ops if isinstance(b, RM) else () if isinstance(b, Elem) and not b.cols else None
                    ob.check('row reduction: the reduced matrix is S m', isinstance(a, RM) and a.start == 'm' and a.ops == b_ops and
                             (not isinstance(b, RM) or b.start == '1'), (a.ops, b_ops))
            else:
                ob.check('row reduction: the reduced matrix is returned', isinstance(v, RM) and v.start == 'm', v)


# ---------------------------------------------------------------- families

def run_family(fn, over=None, np_extra=None, imports=None, rec=None):
    rec = {} if rec is None else rec
    ov = dict(family_to_vectors=fw.to_vectors(rec), round_family=lambda f, n=3: ('rounded', f, n))
    ov.update(over or {})
    ns = generator_module(nums(**(np_extra or {})), imports, ov)
    return fn(ns)


@obligation(P, ['hamiltonian_generator.make_basis_pretty'])
def pretty(ob):
    for digits in (5, 9):
        pretty_case(ob, digits)


def pretty_case(ob, digits):
    t.reset()
    tensor('S', 'F', 'F', real=True)

    def run():
        rec = {}

        def rref(v, rtol=None, return_S=False):
            if not v.same(TT.named('VF')) or not return_S:
                raise ContractError('reduction of another matrix')
            return 'reduced', TT.named('S')
        return run_family(lambda ns: ns['make_basis_pretty'](Fam('F'), num_digits=digits), dict(rref=rref))
    for p in explore(run):
        v = p.value
        if p.kind == 'raise':
            ob.check('prettifying returns', False, repr(v))
            continue
        some = E.prove(z3.Bool('some F'), p.pc)[0]
        if not some:
            ob.check('prettifying: an empty family stays empty', isinstance(v, (Fam, list)) and not (isinstance(v, tuple)), v)
            continue
        ob.check('prettifying: the result is rounded to the digits requested', isinstance(v, tuple) and v[0] == 'rounded' and v[2] == digits, v)
        f = v[1]
        if f == []:
            ob.prove('prettifying: only vanishing members are dropped', z3.Or(*[z3.Not(c.children()[0]) if z3.is_not(c) else z3.BoolVal(False)
                     for c in p.pc]) if False else z3.BoolVal(any(z3.is_not(c) and 'nonzero' in str(c) for c in p.pc)), p.pc)
            continue
        base, c, ops = as_coefs(f)
        ob.check('prettifying: members are the rows of the row operations times the family', base == 'F' and not ops and
                 c.same(TT.named('S')), c, 'tensor normal form')


def complement(rec, known):
    """nullspace(A, return_complement=True): names the complement by A."""
    def nullspace(A, *a, atol=1e-6, return_complement=False, sparse=None, k_max=-10):
        if a or sparse or k_max != -10 or not return_complement:
            raise ContractError('null space with other options')
        rec.setdefault('atol', []).append(atol)
        for name, m in known.items():
            if A.same(m()):
                return TT.named('N' + name), TT.named('Q' + name)
        raise ContractError('null space of {}'.format(A))
    return nullspace


@obligation(P, ['hamiltonian_generator.remove_duplicates'])
def duplicates(ob):
    t.reset()
    tensor('Nt', 'nt', 'F', real=True), tensor('Qt', 'qt', 'F', real=True)

    def run():
        rec = {}
        r = run_family(lambda ns: ns['remove_duplicates'](Fam('F'), tol='tol'),
                       dict(nullspace=complement(rec, {'t': lambda: TT.named('VF').T})))
        return r, rec
    for p in explore(run):
        if p.kind == 'raise':
            ob.check('removing duplicates returns', False, repr(p.value))
            continue
        v, rec = p.value
        if not E.prove(z3.Bool('some F'), p.pc)[0]:
            ob.check('removing duplicates: an empty family stays empty', isinstance(v, (Fam, list)) and not rec, v)
            continue
        base, c, ops = as_coefs(v)
        ob.check('removing duplicates: combinations in the complement of the linear relations', base == 'F' and not ops and
                 c.same(TT.named('Qt')), c, 'tensor normal form')
        ob.check('removing duplicates: the tolerance is used', rec['atol'] == ['tol'], rec)


@obligation(P, ['hamiltonian_generator.subtract_family'])
def subtraction(ob):
    t.reset()
    for n, m in (('1', 'A'), ('2', 'B'), ('X', 'X')):
        tensor('N' + n, 'n' + n, 'entries', real=True), tensor('Q' + n, 'q' + n, 'entries', real=True)
    tensor('pinv', 'entries', 'A', real=True)
    tensor('VA', 'A', 'entries', real=True), tensor('VB', 'B', 'entries', real=True)

    def X():
        V, Q = TT.named('VA'), TT.named('Q2')
        return V - V.dot(Q.T).dot(Q)

    def inside():
        Q = TT.named('Q1')
        return X().dot(Q.T).dot(Q)
    for pretty_ in (False, True):
        def run():
            rec = {}

            def allclose(a, b, **k):
                rec['check'] = (a.same(inside()) and b.same(X())) or (b.same(inside()) and a.same(X()))
                return SBool(z3.Bool('inside'))

            def pinv(a, *r, **k):
                if not a.same(TT.named('VA')):
                    raise ContractError('inverse of another matrix')
                return TT.named('pinv')
            r = run_family(lambda ns: ns['subtract_family'](Fam('A'), Fam('B'), tol='tol', prettify=pretty_), dict(
                nullspace=complement(rec, {'1': lambda: TT.named('VA'), '2': lambda: TT.named('VB'), 'X': X}), allclose=allclose,
                make_basis_pretty=lambda f, num_digits=2: ('pretty', f)),
                dict(log10=lambda x: -8.0), {'scipy.linalg': Stub('la', pinv=pinv)}, rec)
            return r, rec
        for p in explore(run):
            if p.kind == 'raise':
                ob.check('subtraction: only a ValueError is raised', isinstance(p.value, ValueError), repr(p.value))
                ob.prove('subtraction: only if the result is no subspace', z3.Not(z3.Bool('inside')), p.pc)
                continue
            v, rec = p.value
            if not (E.prove(z3.Bool('some A'), p.pc)[0] and E.prove(z3.Bool('some B'), p.pc)[0]):
                ob.check('subtraction: nothing to subtract', isinstance(v, Fam) and v.base == 'A', v)
                continue
            if pretty_:
                ob.check('subtraction: prettified on request', v[0] == 'pretty', v)
                v = v[1]
            ob.prove('subtraction: results that are no subspace are rejected', z3.Bool('inside'), p.pc)
            ob.check('subtraction: the projection is compared with its part inside of the first family', rec.get('check'), rec)
            ob.check('subtraction: all terms of both families are considered', all(
                isinstance(k, Keys) and {('A',), ('B',)} <= k.of for k in rec['keys']), [k.of for k in rec['keys']])
            base, c, ops = as_coefs(v)
            want = TT.named('QX').dot(TT.named('pinv'))
            ob.check('subtraction: basis of the projection onto the complement of the second family', base == 'A' and c.same(want),
                     (c, want), 'tensor normal form')


@obligation(['C14', 'C15'], ['hamiltonian_generator.symmetrize_monomial'])
def averaging(ob):
    def run():
        tensor('VF', 'F', 'entries', real=True)
        group = GList('group', lambda p: Sym(p, 'discrete'), 'group')
        mono = Fam('F').at(param('F'))
        return run_family(lambda ns: ns['symmetrize_monomial'](mono, group), dict())

    class Avg:
        pass
    t.reset()
    old = Dim.__rtruediv__ if hasattr(Dim, '__rtruediv__') else None
    Dim.__rtruediv__ = lambda self, o: TT([(t.G.of(o), ('1/' + str(self.name),), ())], ())
    saved = Member.pv_total
    try:
        Member.pv_total = lambda self, p: Member(self.base, self.coef, tuple(('sum over', DIM[o[1]]) + (o[0],) if o[1] == p else o for o in self.ops))
        for p in explore(run):
            v = p.value
            if p.kind == 'raise':
                ob.check('averaging returns', False, repr(v))
                continue
            ob.check('averaging: the sum of all images divided by the order of the group', isinstance(v, Member) and
                     v.ops == (('sum over', 'group', 'apply'),) and all(s == ('1/group',) and c == t.G(1) for c, s, f in v.coef.terms),
                     v, 'tensor normal form')
    finally:
        Member.pv_total = saved
        del Dim.__rtruediv__


@obligation(P, ['hamiltonian_generator.hamiltonian_from_family'])
def combination(ob):
    t.reset()
    for given, tosympy, nsimplify in itertools.product((False, True), repeat=3):
        class Coef:
            def __init__(self, p):
                self.p = p

            def __mul__(self, o):
                raise ContractError('coefficient times term: sympy multiplies the term incorrectly')

        def run():
            tensor('VF', 'F', 'entries', real=True), tensor('c', 'F')

            def mul(self, c):
                if isinstance(c, Coef):
                    return Member(self.base, self.coef * TT([(t.G(1), (), (('c', 0, (c.p,)),))], ()), self.ops)
                return orig(self, c)
            orig = Member.__mul__
            Member.__mul__ = mul
            try:
                def symbols(s):
                    if not str(s).startswith('c0:'):
                        raise ContractError('names {}'.format(s))
                    return GList('F', Coef, 'coefficients')
                sy = Stub('sympy', symbols=symbols)
                cs = GList('F', Coef, 'coefficients') if given else None
                return run_family(lambda ns: ns['hamiltonian_from_family'](Fam('F'), coeffs=cs, nsimplify=nsimplify, tosympy=tosympy),
                                  imports={'sympy': sy})
            finally:
                Member.__mul__ = orig
        for p in explore(run):
            v = p.value
            if p.kind == 'raise':
                ob.check('the combination is returned', False, repr(v))
                continue
            if tosympy:
                ob.check('conversion to sympy as requested', isinstance(v, tuple) and v[0] == 'sympy' and v[2] == nsimplify, v)
                v = v[1]
            ob.check('the combination: every member times its own coefficient', isinstance(v, Member) and not v.ops and
                     v.coef.same(TT.named('c')), v, 'tensor normal form')


@obligation(P, ['hamiltonian_generator.check_symmetry'])
def symmetry_check(ob):
    t.reset()
    for digits in (None, 4):
        def run():
            tensor('VF', 'F', 'entries', real=True)
            info = {}

            def mk(p):
                info['s'] = p
                return Sym(p)
            fam = Fam('F')

            def at(p):
                info['m'] = p
                return Member('F', fw.delta('F', p))
            fam.at = at
            info['v'] = run_family(lambda ns: ns['check_symmetry'](fam, GList('syms', mk, 'syms'), num_digits=digits),
                                   dict(PointGroupElement=fw.DiscreteType, ContinuousGroupGenerator=fw.ContinuousType))
            return info
        for p in explore(run):
            # the condition for the arbitrary member and symmetry, from the path
            pc = {str(c): c for c in map(z3.simplify, p.pc)}.values()
            eqs = [c for c in pc if 'equals' in str(c) or 'nonzero' in str(c)]
            disc = [c for c in pc if 'discrete' in str(c)]
            ok = len(eqs) == 1 and len(disc) == 1
            ob.check('symmetry check: one comparison for every member and symmetry', ok, p.pc)
            if not ok:
                continue
            d, e = not z3.is_not(disc[0]), not z3.is_not(eqs[0])
            s = str(eqs[0]).replace('\n', ' ')
            if d:
                holds = e
                ob.check('symmetry check: discrete symmetries leave the member invariant', 'equals' in s and s.count("('apply'") == 1
                         and (s.count('round') == 2) == (digits is not None), s)
            else:
                holds = not e
                ob.check('symmetry check: generators annihilate the member', 'nonzero' in s and s.count("('apply'") == 1
                         and 'round' not in s, s)
            if p.kind == 'raise':
                ob.check('symmetry check: raises a ValueError', isinstance(p.value, ValueError), repr(p.value))
                ob.check('symmetry check: raises only for a violation', not holds, p.pc)
            else:
                ob.check('symmetry check: returns only if the arbitrary member is invariant', holds, p.pc)
                ob.check('symmetry check: returns nothing', p.value['v'] is None)


bounded_only(P, 'numerical tolerances of rref')


@obligation(P, ['hamiltonian_generator.round_family'])
def rounding(ob):
    """round_family: every member rounded to the given number of digits (Model.around: C05), any number of members."""
    class Mb:
        def __init__(self, i):
            self.i = i

        def around(self, decimals=3):
            return ('rounded', self.i, decimals)
    for args, digits in (((), 3), ((5,), 5), ((8,), 8)):
        for p in explore(lambda: run_family(lambda ns: generator_module(nums(), None, {})['round_family'](
                GList('members', lambda q: Mb(('member', q)), 'F'), *args))):
            v = p.value
            if p.kind == 'raise':
                ob.check('returns', False, repr(v))
                continue
            if isinstance(v, list) and len(v) == 1 and isinstance(v[0], Each):
                q, items = v[0].p, v[0].items
            elif isinstance(v, Comp):
                q, items = v.p, [v.item]
            else:
                ob.check('one rounded member for every member', False, v)
                continue
            ob.check('one rounded member for every member', items == [('rounded', ('member', q), digits)], (items, digits))


class Cells(Symbolic):
    """Matrix given by blocks of columns; a block is a formal combination of the real and imaginary part of the rows
    (after row operations or not)."""
    def __init__(self, blocks, ops=None, kept=False):
        self.blocks, self.ops, self.kept = [dict(b) for b in blocks], ops, kept

    def pv_len(self):
        return IntE(z3.Int('rows kept' if self.kept else 'rows'))

    def __rmul__(self, c):
        return Cells([{k: c * v for k, v in b.items()} for b in self.blocks], self.ops, self.kept)
    __mul__ = __rmul__

    def __add__(self, o):
        if (self.ops, self.kept, len(self.blocks)) != (o.ops, o.kept, len(o.blocks)):
            raise ContractError('sum of matrices with different rows')
        return Cells([{k: a.get(k, 0) + b.get(k, 0) for k in {*a, *b}} for a, b in zip(self.blocks, o.blocks)], self.ops, self.kept)

    def __sub__(self, o):
        return self + (-1) * o

    @property
    def real(self):
        return part(self, 0)

    @property
    def imag(self):
        return part(self, 1)

    def pv_comp(self, kind, fn):
        """[row for row in m if not zero]"""
        out = fn(Cells(self.blocks, self.ops, 'row'))
        if out == []:
            return KeptRows(self, False)
        if len(out) != 1 or not isinstance(out[0], Cells) or out[0].blocks != self.blocks:
            raise ContractError('rows were changed')
        return KeptRows(self, True)


class KeptRows(Symbolic):
    def __init__(self, m, kept):
        self.m, self.kept = m, kept


def part(m, which):
    if m.ops is not None:
        raise Unsupported('parts of the reduced matrix')
    out = []
    for b in m.blocks:
        # b = c_re * re + c_im * im with real re, im
        out.append({k: ((complex(v).real, complex(v).imag)[which]) for k, v in b.items()})
    return Cells([{k: v for k, v in b.items() if v != 0} for b in out], None, m.kept)


@obligation([P, 'C10', 'C11'], ['linalg.sparse_basis'])
def sparsification(ob):
    """sparse_basis: the nonzero rows of the reduced matrix; with reals=True real combinations of the rows (rref: row
    operations that are real for real matrices)."""
    for reals in (False, True):
        def hstack(ms):
            ms = list(ms)
            return Cells([b for m in ms for b in m.blocks], ms[0].ops, ms[0].kept)

        def split(m, k, axis=0):
            if k != len(m.blocks) or axis not in (1, -1):
                raise ContractError('split into {} along axis {}'.format(k, axis))
            return [Cells([b], m.ops, m.kept) for b in m.blocks]

        def rref(m, rtol=None, return_S=False):
            cx = any(complex(v).imag for b in m.blocks for v in b.values())
            out = Cells(m.blocks, 'complex' if cx else 'real', m.kept)
            return (out, 'S') if return_S else out

        def vstack(rows):
            if not isinstance(rows, KeptRows):
                raise Unsupported('stack of {}'.format(type(rows).__name__))
            if not rows.kept:
                raise Infeasible
            return Cells(rows.m.blocks, rows.m.ops, True)

        def allclose(a, b, *x, **k):
            if not isinstance(a, Cells) or b != 0:
                raise Unsupported('comparison')
            return SBool(z3.Bool('row is zero'))

        def run():
            assume(z3.And(z3.Int('rows') >= 0, z3.Int('rows kept') >= 0, z3.Int('rows kept') <= z3.Int('rows')))
            np_ = Stub('numpy', real=lambda m: m.real, imag=lambda m: m.imag, hstack=hstack, split=split, vstack=vstack, array=vstack,
                       round=lambda m, n=0: m, around=lambda m, n=0: m, allclose=allclose)
            m = load('linalg', {'numpy': np_, 'scipy': Stub('scipy')}, dict(rref=rref),
                     dict(len=lambda x: x.pv_len() if hasattr(x, 'pv_len') else len(x)))
            return m.ns['sparse_basis'](Cells([{'re': 1, 'im': 1j}]), num_digits=4, reals=reals)
        for p in explore(run):
            v = p.value
            if p.kind == 'raise':
                ob.check('returns', False, repr(v))
                continue
            if isinstance(v, Cells) and v.ops is None:
                ob.prove('only an empty list is returned as it is', z3.Int('rows') == 0, p.pc)
                continue
            ok = isinstance(v, Cells) and v.kept is True
            ob.check('the nonzero rows are returned', ok, v)
            if not ok:
                continue
            ob.check('the rows are combinations of the rows', len(v.blocks) == 1 and {k: complex(c) for k, c in v.blocks[0].items() if c} ==
                     {'re': 1, 'im': 1j}, v.blocks)
            ob.check('real combinations if real ones are requested', v.ops == 'real' or not reals, v.ops)
            ob.prove('vanishing rows only are dropped', z3.Not(z3.Bool('row is zero')), p.pc)
