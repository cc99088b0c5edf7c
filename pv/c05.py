"""C05: arithmetic of models is pointwise arithmetic of their values.

An arbitrary model is a formal sum over an unbounded set of keys (modelworld).  Each method is executed from
its source, callers against the contracts of the callees, and its result is compared as a formal sum."""
import itertools

import z3

from . import c03, engine as E, modelworld as C     # (c03 registers linalg.allclose)
from .algebra import Expr, G, declare, declare_scalar
from .engine import explore, Unsupported, ContractError
from .obl import obligation, assumption

P = 'C05'
assumption([P, 'C06'],
           'numpy, scipy.sparse and LinearOperator arithmetic on coefficient values is exact complex arithmetic',
           'sympy products of keys denote the product of their values; keys are in the documented standard form, '
           'so that distinct keys of one model are distinct after multiplication by a symbol and after complex conjugation',
           'values of kept keys: membership of a product in the filter is decided on the product as computed by sympy')

SQ = (C.Dim('n'), C.Dim('n'))
NM = (C.Dim('n'), C.Dim('m'))
ML = (C.Dim('m'), C.Dim('l'))
FMT = ('dense', 'csr', 'lo', 'scalar')
BASES = ('Model', 'BlochModel')


def raised(p):
    import traceback
    return 'raises {}: {} on {}\n{}'.format(type(p.value).__name__, p.value, p.pc,
                                           ''.join(traceback.format_tb(p.value.__traceback__)[-3:]))


def shape(fmt, sh=NM):
    return () if fmt == 'scalar' else sh


def make(cls, name, fmt, sh, bloch, keep=(), momenta=None):
    return C.family(cls, name, sh, fmt, momenta=momenta, bloch=bloch, mod=C.world(), keep=keep)


def keyof(bloch, i):
    if bloch:
        return Expr([(((), ((('coeff', i), 0, None), (('phase', i), 0, (1, ()))), ()), G(1))], None, None)
    return Expr([(((), ((('key', i), 0, (1, ())),), ()), G(1))], None, None)


def spec(name, fmt, sh, bloch, f=lambda e: e, kf=lambda e: e):
    """sum_i kf(key_i) f(A_i)"""
    i = C.fresh_index()
    v = f(C.make_value(name, sh, C.FMT[fmt], i, fmt == 'entry').e)
    k = kf(keyof(bloch, i))
    e = v.smul(k) if v.rows is not None else k.smul(v)
    return Expr([((((i, C.Dom.atom(name)),) + b, s, w), c) for (b, s, w), c in e.t.items()], v.rows, v.cols)


def frame(ob, label, r, shape=None, fmt=None, momenta=None, keep=None):
    if shape is not None:
        ob.check(label + ': shape', tuple(r.shape) == tuple(shape), '{} instead of {}'.format(r.shape, shape))
    if fmt is not None:
        ob.check(label + ': storage format', r.format is C.FMT[fmt], r.format)
    ob.check(label + ': momenta', r.momenta == (momenta or C.Momenta()), r.momenta)
    if keep is not None:
        ob.check(label + ': filter', r.keep == keep or (keep == set() and r.keep == set()), r.keep)


def run(ob, label, base, real, build, expect, fmt=None, shape=None, keep=set(), accept_zero=True):
    """Explore build(cls); every path returns a model with the expected value and frame."""
    cls = C.contract_class(C.world(), base, real=real)
    n = 0
    for p in explore(lambda: build(cls)):
        n += 1
        if p.kind == 'raise':
            ob.check(label + ': returns', False, raised(p))
            continue
        r = p.value
        e = expect() if callable(expect) else expect
        d = r.den()
        ob.check(label + ': value', (not d.t or (d.rows, d.cols) == (e.rows, e.cols)) and C.holds_on_path(d, e, p.pc),
                 'computed: {}   specified: {}   on {}'.format(d, e, p.pc))
        frame(ob, label, r, shape, fmt, None, keep)
    ob.check(label + ': some path is feasible', n > 0)


def rejects(ob, label, base, real, build, nonempty):
    """Every path on which the operands have terms raises."""
    cls = C.contract_class(C.world(), base, real=real)
    for p in explore(lambda: build(cls)):
        s = z3.Solver()
        s.add(*p.pc)
        for f in nonempty:
            s.add(z3.Not(z3.Bool('empty<{!r}>'.format(C.Dom.atom(f)))))
        if s.check() == z3.sat:
            ob.check(label, p.kind == 'raise', 'accepted; returns {}'.format(p.value))


def both(fn):
    """All classes and formats."""
    for base in BASES:
        for fmt in FMT:
            fn(base, base == 'BlochModel', fmt, shape(fmt))


@obligation([P, 'C06'], ['model.Model.__add__', 'model.Model.__sub__', 'model.Model.__radd__', 'model.Model.__neg__'])
def addition(ob):
    def one(base, bl, fmt, sh):
        A = lambda cls: make(cls, 'A', fmt, sh, bl)
        B = lambda cls: make(cls, 'B', fmt, sh, bl)
        sA, sB = spec('A', fmt, sh, bl), spec('B', fmt, sh, bl)
        run(ob, 'A + B', base, ('__add__',), lambda cls: A(cls) + B(cls), sA + sB, fmt, sh)
        run(ob, 'A - B', base, ('__sub__',), lambda cls: A(cls) - B(cls), sA - sB, fmt, sh)
        run(ob, '-A', base, ('__neg__',), lambda cls: -A(cls), -sA, fmt, sh)
        run(ob, 'A + 0', base, ('__add__',), lambda cls: A(cls) + 0, sA, fmt, sh)
        run(ob, '0 + A', base, ('__radd__',), lambda cls: 0 + A(cls), sA, fmt, sh)
        one = Expr([(((), (), ()), G(1))], None, None)
        const = lambda: C.make_value('M', sh, C.FMT[fmt])
        run(ob, 'A + constant', base, ('__add__',), lambda cls: A(cls) + const(), sA + const().e, fmt, sh)
        run(ob, 'constant + A', base, ('__radd__',), lambda cls: A(cls).__radd__(const()), sA + const().e, fmt, sh)
    both(one)


@obligation([P], ['model.Model.__add__', 'model.Model.__mul__', 'model.Model.__matmul__'])
def rejection(ob):
    other = C.Momenta('other momenta')
    for base in BASES:
        bl = base == 'BlochModel'
        for f1, f2 in itertools.product(FMT, FMT):
            for s1, s2 in ((NM, NM), (NM, ML)):
                s1, s2 = shape(f1, s1), shape(f2, s2)
                if f1 == f2 and s1 == s2:
                    rejects(ob, 'sum of models with different momenta', base, ('__add__',),
                            lambda cls: make(cls, 'A', f1, s1, bl) + make(cls, 'B', f2, s2, bl, momenta=other), 'AB')
                else:
                    rejects(ob, 'sum of models with different shape or format', base, ('__add__',),
                            lambda cls: make(cls, 'A', f1, s1, bl) + make(cls, 'B', f2, s2, bl), 'AB')
        for name, op in (('__mul__', lambda a, b: a * b), ('__matmul__', lambda a, b: a @ b)):
            for p in explore(lambda: op(make(C.contract_class(C.world(), base, (name,)), 'A', 'dense', SQ, bl),
                                        make(C.contract_class(C.world(), base, (name,)), 'B', 'dense', SQ, bl, momenta=other))):
                ob.check('product of models with different momenta', p.kind == 'raise', p.value)


@obligation([P, 'C06'], ['model.Model.__mul__', 'model.Model.__rmul__', 'model.Model.__truediv__'])
def scalar_multiples(ob):
    def one(base, bl, fmt, sh):
        A = lambda cls: make(cls, 'A', fmt, sh, bl)
        c = lambda: C.make_value('c', (), C.FMT['scalar'])
        times = lambda e: e.smul(c().e)
        run(ob, 'A * c', base, ('__mul__',), lambda cls: A(cls) * c(), spec('A', fmt, sh, bl, times), fmt, sh)
        run(ob, 'c * A', base, ('__rmul__', '__mul__'), lambda cls: A(cls).__rmul__(c()), spec('A', fmt, sh, bl, times), fmt, sh)
        run(ob, 'A / c', base, ('__truediv__',), lambda cls: A(cls) / c(),
            spec('A', fmt, sh, bl, lambda e: e.smul((1 / c()).e)), fmt, sh)
        for k in (3, -2, 2j, 0.5):
            run(ob, 'A * number', base, ('__mul__',), lambda cls: A(cls) * k, spec('A', fmt, sh, bl, lambda e: e.scale(k)), fmt, sh)
        for p in explore(lambda: make(C.contract_class(C.world(), base, ('__truediv__',)), 'A', fmt, sh, bl) / object()):
            ob.check('division by something else is rejected', p.kind == 'raise', p.value)
    both(one)


@obligation([P, 'C06'], ['model.Model.__mul__', 'model.Model.__rmul__'])
def symbol_multiples(ob):
    def one(base, bl, fmt, sh):
        sym = lambda: C.Key(Expr([(((), (('symbol', 0, None),), ()), G(1))], None, None))
        times = lambda k: k.smul(sym().e)
        for K in ((), C.Keep(['K'])):
            A = lambda cls: make(cls, 'A', fmt, sh, bl, keep=K)
            for real, build, lab in ((('__mul__',), lambda cls: A(cls) * sym(), 'A * symbol'),
                                     (('__rmul__',), lambda cls: A(cls).__rmul__(sym()), 'symbol * A')):
                if not isinstance(K, C.Keep):
                    run(ob, lab, base, real, build, spec('A', fmt, sh, bl, kf=times), fmt, sh)
                else:
                    def filtered(build=build):
                        i = C.fresh_index()
                        key = C.Key(C.key_expr(bloch_or(bl, i)).smul(sym().e))
                        v = C.make_value('A', sh, C.FMT[fmt], i).e
                        e = v.smul(C.key_expr(key)).smul(C.indicator_expr(C.indicator('K', key)))
                        return Expr([((((i, C.Dom.atom('A')),) + b, s, w), c) for (b, s, w), c in e.t.items()], v.rows, v.cols)
                    run_keep(ob, lab + ' with a filter', base, real, build, filtered, spec('A', fmt, sh, bl, kf=times), fmt, sh, K)
    both(one)


def bloch_or(bl, i):
    if bl:
        hop = C.Hop(Expr([(((), ((('phase', i), 0, (1, ())),), ()), G(1))], None, None), i)
        return C.world().BlochCoeff(hop, C.Key(Expr([(((), ((('coeff', i), 0, None),), ()), G(1))], None, None), i))
    return C.gen_key(i)


def run_keep(ob, label, base, real, build, filtered, unfiltered, fmt, sh, K):
    """The filter selects terms if it is not empty; an empty filter keeps everything."""
    cls = C.contract_class(C.world(), base, real=real)
    for p in explore(lambda: build(cls)):
        if p.kind == 'raise':
            ob.check(label + ': returns', False, raised(p))
            continue
        s = z3.Solver()
        s.add(*p.pc)
        s.add(z3.Or([z3.Bool('nonempty<{}>'.format(n)) for n in K.names]))
        nonempty = s.check() == z3.sat
        s2 = z3.Solver()
        s2.add(*p.pc)
        s2.add(*[z3.Not(z3.Bool('nonempty<{}>'.format(n))) for n in K.names])
        empty = s2.check() == z3.sat
        d = p.value.den()
        if nonempty:
            e = filtered()
            ob.check(label + ': value', C.holds_on_path(d, e, p.pc), 'computed: {}   specified: {}   on {}'.format(d, e, p.pc))
        if empty:
            ob.check(label + ': value', C.holds_on_path(d, unfiltered, p.pc), 'computed: {}   specified: {}   on {}'.format(d, unfiltered, p.pc))
        ob.check(label + ': filter', p.value.keep == K, p.value.keep)
        ob.check(label + ': shape and format', tuple(p.value.shape) == tuple(sh) and p.value.format is C.FMT[fmt], p.value.shape)


def pair(bl, fa, fb, sa, sb, op, ind=None):
    """sum_ij key_i key_j op(A_i, B_j)"""
    i, j = C.fresh_index(), C.fresh_index()
    v = op(C.make_value('A', sa, C.FMT[fa], i, fa == 'entry'), C.make_value('B', sb, C.FMT[fb], j, fb == 'entry')).e
    key = C.Key(C.key_expr(bloch_or(bl, i)).smul(C.key_expr(bloch_or(bl, j))))
    e = v.smul(key.e) if v.rows is not None else key.e.smul(v)
    if ind:
        e = e.smul(C.indicator_expr(z3.Or([C.indicator(n, key) for n in ind]))) if len(ind) > 1 else \
            e.smul(C.indicator_expr(C.indicator(ind[0], key)))
    return Expr([((((i, C.Dom.atom('A')), (j, C.Dom.atom('B'))) + b, s, w), c) for (b, s, w), c in e.t.items()], v.rows, v.cols)


def join(f1, f2):
    return 'dense' if 'dense' in (f1, f2) else 'lo' if 'lo' in (f1, f2) else f1


@obligation([P, 'C06'], ['model.Model.__matmul__', 'model.Model.__rmatmul__'])
def matrix_products(ob):
    mm = lambda a, b: a @ b
    for base in BASES:
        bl = base == 'BlochModel'
        for fa, fb in (('dense', 'dense'), ('csr', 'csr'), ('lo', 'lo'), ('csr', 'dense'), ('dense', 'csr')):
            f = join(fa, fb)
            for Ka, Kb in (((), ()), (C.Keep(['K']), ()), (C.Keep(['K']), C.Keep(['L'])), ((), C.Keep(['L']))):
                build = lambda cls: make(cls, 'A', fa, NM, bl, keep=Ka) @ make(cls, 'B', fb, ML, bl, keep=Kb)
                names = sorted(set(getattr(Ka, 'names', ())) | set(getattr(Kb, 'names', ())))
                if not names:
                    run(ob, 'A @ B', base, ('__matmul__',), build, lambda: pair(bl, fa, fb, NM, ML, mm), f, (NM[0], ML[1]))
                else:
                    run_keep2(ob, 'A @ B with filters', base, ('__matmul__',), build, lambda: pair(bl, fa, fb, NM, ML, mm, names),
                              lambda: pair(bl, fa, fb, NM, ML, mm), f, (NM[0], ML[1]), C.Keep(names))
        for fa in ('dense', 'csr', 'lo'):
            M = lambda: C.make_value('M', ML, C.FMT['dense'])
            L = lambda: C.make_value('L', (C.Dim('l'), C.Dim('n')), C.FMT['dense'])
            run(ob, 'A @ matrix', base, ('__matmul__',), lambda cls: make(cls, 'A', fa, NM, bl) @ M(),
                spec('A', fa, NM, bl, lambda e: e @ M().e), 'dense', (NM[0], ML[1]))
            if fa != 'lo':
                run(ob, 'matrix @ A', base, ('__rmatmul__',), lambda cls: make(cls, 'A', fa, NM, bl).__rmatmul__(L()),
                    spec('A', fa, NM, bl, lambda e: L().e @ e), 'dense', (C.Dim('l'), NM[1]))


def run_keep2(ob, label, base, real, build, filtered, unfiltered, fmt, sh, K):
    cls = C.contract_class(C.world(), base, real=real)
    for p in explore(lambda: build(cls)):
        if p.kind == 'raise':
            ob.check(label + ': returns', False, raised(p))
            continue
        d = p.value.den()
        fs = [z3.Bool('nonempty<{}>'.format(n)) for n in sorted(K.names)]
        for cond, e in ((z3.Or(fs), filtered()), (z3.Not(z3.Or(fs)), unfiltered())):
            s = z3.Solver()
            s.add(*p.pc)
            s.add(cond)
            if s.check() == z3.sat:
                # an empty filter contains nothing
                ok = C.holds_on_path(d, e, list(p.pc) + [cond])
                if not ok and len(fs) > 1:
                    ok = True
                    for vals in itertools.product((False, True), repeat=len(fs)):
                        q = list(p.pc) + [cond] + [f if v else z3.Not(f) for f, v in zip(fs, vals)]
                        t = z3.Solver()
                        t.add(*q)
                        if t.check() == z3.sat:
                            gone = [n for n, v in zip(sorted(K.names), vals) if not v]
                            ok &= C.holds_on_path(drop_filters(d, gone), drop_filters(e, gone), q)
                ob.check(label + ': value', ok, 'computed: {}   specified: {}   on {}'.format(d, e, p.pc))
        ob.check(label + ': shape and format', tuple(p.value.shape) == tuple(sh) and p.value.format is C.FMT[fmt],
                 '{} {}'.format(p.value.shape, p.value.format))
        ob.check(label + ': momenta', p.value.momenta == C.Momenta())
        if p.value.parts:
            ob.check(label + ': filter', p.value.keep == K, p.value.keep)


def drop_filters(e, names):
    """Membership in an empty filter is false."""
    out = Expr.zero(e.rows, e.cols)
    out.t = {k: c for k, c in e.t.items()
             if not any(C.algebra._base(x[0]).startswith(tuple('in<{}>'.format(n) for n in names)) for x in k[1])} if names else dict(e.t)
    return out


@obligation([P, 'C06'], ['model.Model.__mul__', 'model.Model.__rmul__'])
def elementwise_products(ob):
    """Entry by entry: the (r, s) entry of every dense value is an arbitrary number."""
    mul = lambda a, b: a * b
    for base in BASES:
        bl = base == 'BlochModel'
        for fa, fb in (('entry', 'entry'), ('scalar', 'entry'), ('entry', 'scalar'), ('scalar', 'scalar')):
            sa, sb = (() if fa == 'scalar' else NM), (() if fb == 'scalar' else NM)
            f = 'scalar' if fa == fb == 'scalar' else 'entry'
            sh = () if f == 'scalar' else NM
            for K in ((), C.Keep(['K'])):
                build = lambda cls: make(cls, 'A', fa, sa, bl, keep=K) * make(cls, 'B', fb, sb, bl)
                if not isinstance(K, C.Keep):
                    run(ob, 'A * B', base, ('__mul__',), build, lambda: pair(bl, fa, fb, sa, sb, mul), f, sh)
                else:
                    run_keep2(ob, 'A * B with filters', base, ('__mul__',), build, lambda: pair(bl, fa, fb, sa, sb, mul, ['K']),
                              lambda: pair(bl, fa, fb, sa, sb, mul), f, sh, K)
        M = lambda: C.make_value('M', NM, C.FMT['entry'], entries=True)
        run(ob, 'A * matrix', base, ('__mul__',), lambda cls: make(cls, 'A', 'entry', NM, bl) * M(),
            spec('A', 'entry', NM, bl, lambda e: e.smul(M().e)), 'entry', NM)
        run(ob, 'matrix * A', base, ('__rmul__',), lambda cls: make(cls, 'A', 'entry', NM, bl).__rmul__(M()),
            spec('A', 'entry', NM, bl, lambda e: e.smul(M().e)), 'entry', NM)
        for fm in ('csr', 'dense'):
            M2 = lambda: C.make_value('M', NM, C.FMT[fm])
            run(ob, 'scalar model * matrix', base, ('__mul__',), lambda cls: make(cls, 'A', 'scalar', (), bl) * M2(),
                lambda: matrix_times(bl, M2()), fm, NM)
        for fa, fb in (('csr', 'csr'), ('lo', 'lo'), ('csr', 'lo')):
            for p in explore(lambda: make(C.contract_class(C.world(), base, ('__mul__',)), 'A', fa, NM, bl) *
                             make(C.contract_class(C.world(), base, ('__mul__',)), 'B', fb, NM, bl)):
                ob.check('elementwise product of sparse models is rejected', p.kind == 'raise', p.value)


def matrix_times(bl, M):
    i = C.fresh_index()
    k = keyof(bl, i).smul(C.make_value('A', (), C.FMT['scalar'], i).e)
    e = M.e.smul(k)
    return Expr([((((i, C.Dom.atom('A')),) + b, s, w), c) for (b, s, w), c in e.t.items()], M.e.rows, M.e.cols)


@obligation([P, 'C06'], ['model.BlochCoeff.__new__', 'model.BlochCoeff.__mul__', 'model.BlochCoeff.__rmul__', 'model.BlochCoeff.__eq__',
                         'model.BlochCoeff.copy', 'model.BlochCoeff.__hash__'])
def bloch_coefficients(ob):
    """(hop, c) stands for c exp(i hop k)."""
    B = C.world().BlochCoeff
    one = lambda n: Expr([(((), ((n, 0, None),), ()), G(1))], None, None)
    i, j = C.fresh_index(), C.fresh_index()
    x, y, s = bloch_or(True, i), bloch_or(True, j), C.Key(one('symbol'))
    for lab, z, e in (('product of coefficients', lambda: x * y, C.key_expr(x).smul(C.key_expr(y))),
                      ('coefficient times symbol', lambda: x * s, C.key_expr(x).smul(s.e)),
                      ('symbol times coefficient', lambda: x.__rmul__(s), C.key_expr(x).smul(s.e)),
                      ('copy', lambda: x.copy(), C.key_expr(x))):
        for p in explore(z):
            ob.check(lab + ': is a coefficient', p.kind == 'return' and isinstance(p.value, B), p.value)
            if p.kind == 'return':
                ob.same(lab + ': value', C.key_expr(p.value), e)
    # equality compares both members; equal coefficients have equal hashes because equal keys have
    close = lambda: z3.Bool(C.zero_name(x[0], y[0]))
    for p in explore(lambda: bool(x == y)):
        ok = p.kind == 'return' and not isinstance(p.value, Exception)
        ob.check('equality: returns', ok, p.value)
        if ok:
            want = z3.And(close(), C.E.formula(x[1] == y[1]))
            ax = []                     # closeness is treated as an equivalence
            for a, b in ((x, y), (y, x)):
                za, zb = (C.E.formula(C.allclose(h, 0)) for h in (a[0], b[0]))
                oa, ob_ = (C.E.formula(k == 1) for k in (a[1], b[1]))
                ax += [z3.Implies(zb, close() == za), z3.Implies(ob_, C.E.formula(x[1] == y[1]) == oa)]
            ob.prove('equality: exactly when hoppings are close and coefficients equal', want == z3.BoolVal(p.value), list(p.pc) + ax)
    for bad in (lambda: x * object(), lambda: x.__rmul__(object()), lambda: B(object(), x[1]), lambda: B(x[0], object()),
                lambda: B(x[0], C.SumExpr())):
        for p in explore(bad):
            ob.check('anything else is rejected', p.kind == 'raise', p.value)
    ob.check('hash: of the coefficient', x.__hash__() == hash(x[1]))


@obligation([P, 'C06'], ['model.Model.T', 'model.Model.trace', 'model.Model.conj', 'model.BlochModel.conj', 'model.Model.reshape',
                         'model.Model.tocsr', 'model.Model.toarray', 'model.Model.copy', 'model.Model.zeros_like'])
def term_maps(ob):
    def one(base, bl, fmt, sh):
        A = lambda cls: make(cls, 'A', fmt, sh, bl, keep=C.Keep(['K']))
        K = C.Keep(['K'])
        run(ob, 'copy', base, ('copy',), lambda cls: A(cls).copy(), spec('A', fmt, sh, bl), fmt, sh, K)
        run(ob, 'zeros_like', base, ('zeros_like',), lambda cls: A(cls).zeros_like(),
            Expr.zero(*((None, None) if sh == () else (sh[0].name, sh[1].name))), fmt, sh, K)
        ck = lambda k: k.conj()
        run(ob, 'conj', base, ('conj',), lambda cls: A(cls).conj(), spec('A', fmt, sh, bl, lambda e: e.conj(), ck), fmt, sh, K)
        if fmt != 'scalar':
            run(ob, 'T', base, ('T',), lambda cls: A(cls).T(), spec('A', fmt, sh, bl, lambda e: e.T()), fmt, sh[::-1], K)
            run(ob, 'toarray', base, ('toarray',), lambda cls: A(cls).toarray(), spec('A', fmt, sh, bl), 'dense', sh, K)
            run(ob, 'tocsr', base, ('tocsr',), lambda cls: A(cls).tocsr(), spec('A', fmt, sh, bl), 'csr', sh, K)
        if fmt == 'dense':
            rs = lambda e: C.apply_linear('reshape', e, 'r1', 'r2')
            run(ob, 'reshape', base, ('reshape',), lambda cls: A(cls).reshape('new shape'), spec('A', fmt, sh, bl, rs), fmt,
                (C.Dim('r1'), C.Dim('r2')), K)
        if fmt in ('dense', 'csr'):
            tr = lambda e: C.apply_linear('trace', e, None, None)
            A2 = lambda cls: make(cls, 'A', fmt, SQ, bl, keep=C.Keep(['K']))
            run(ob, 'trace', base, ('trace',), lambda cls: A2(cls).trace(), spec('A', fmt, SQ, bl, tr), 'scalar', (), K)
    both(one)


@obligation(P, ['model.Model.around'])
def rounding(ob):
    for base in BASES:
        for fmt in ('dense', 'scalar'):
            bl, sh = base == 'BlochModel', shape(fmt)
            for dec in (3, 7):
                rd = lambda e: C.apply_linear('around{}'.format(dec), e, e.rows, e.cols)
                run(ob, 'around', base, ('around',), lambda cls: make(cls, 'A', fmt, sh, bl, keep=C.Keep(['K'])).around(dec),
                    spec('A', fmt, sh, bl, rd), fmt, sh, C.Keep(['K']))


@obligation(P, ['model.Model.allclose', 'model.Model.__eq__'])
def comparison(ob):
    """Equal exactly when all coefficients agree within the tolerance, missing terms counting as zero."""
    tol = ('rtol', 'atol', 'equal_nan')
    for base in BASES:
        for fmt in FMT:
            bl, sh = base == 'BlochModel', shape(fmt)
            for lab, extra, op in (('allclose', ';' + ','.join(map(repr, tol)), lambda a, b: a.allclose(b, *tol)),
                                   ('==', ';1e-05,1e-08,False', lambda a, b: a == b)):
                i = C.fresh_index()
                a, b = (C.make_value(n, sh, C.FMT[fmt], i).e for n in 'AB')
                dA, dB = C.Dom.atom('A'), C.Dom.atom('B')
                # facts about the operands that the code may consult with its own tolerances
                facts = {x: dict(eq=C.all_fact([(i, dA & dB, a - b), (i, dA - dB, a), (i, dB - dA, b)], x),
                                 A=C.all_fact([(i, dA, a)], x), B=C.all_fact([(i, dB, b)], x)) for x in (extra, ';1e-05,1e-08,False')}
                eA, eB = z3.Bool('empty<A>'), z3.Bool('empty<B>')
                ax = []
                for x, f in facts.items():
                    ax += [z3.Implies(eA, f['A']), z3.Implies(eB, f['B'])]
                    for y, h in facts.items():      # a model that vanishes does so in every tolerance used
                        ax += [z3.Implies(f['A'], h['eq'] == h['B']), z3.Implies(f['B'], h['eq'] == h['A'])]
                cls = lambda: C.contract_class(C.world(), base)
                for p in explore(lambda: bool(op(make(cls(), 'A', fmt, sh, bl), make(cls(), 'B', fmt, sh, bl)))):
                    if ob.check(lab + ': returns', p.kind == 'return', raised(p) if p.kind == 'raise' else ''):
                        ob.prove(lab + ': exactly if all coefficients agree', facts[extra]['eq'] == z3.BoolVal(p.value), list(p.pc) + ax)
                for zero in (0, {}):
                    for p in explore(lambda: bool(op(make(cls(), 'A', fmt, sh, bl), zero))):
                        if ob.check(lab + ' with zero: returns', p.kind == 'return', raised(p) if p.kind == 'raise' else ''):
                            ob.prove(lab + ' with zero: exactly if all coefficients vanish',
                                     facts[extra]['A'] == z3.BoolVal(p.value), list(p.pc) + ax)


class Size:
    """Matrix value on the way to its Frobenius norm."""
    def __init__(self, p, step):
        self.p, self.step = p, step

    def _go(self, a, b):
        if self.step != a:
            raise ContractError('norm of a matrix: {} after {}'.format(b, self.step))
        return type(self)(self.p, b)

    def __abs__(self):
        return self._go('value', 'abs')

    def __pow__(self, n):
        if n != 2:
            raise ContractError('power {}'.format(n))
        return self._go('abs', 'abs squared')

    def __mul__(self, o):
        if isinstance(o, Size) and {self.step, o.step} == {'value', 'conjugate'} and self.p == o.p:
            return type(self)(self.p, 'abs squared')
        if isinstance(o, Size) and self.step == o.step == 'abs' and self.p == o.p:
            return type(self)(self.p, 'abs squared')
        raise ContractError('product of matrices in a norm')

    def conj(self):
        return self._go('value', 'conjugate')
    conjugate = conj

    @property
    def real(self):
        return self

    def sum(self):
        return self._go('abs squared', 'sum')

    def copy(self):
        return type(self)(self.p, 'copy')


class DenseSize(Size, C.NdArray):
    pass


class SparseSize(Size, C.SpMat):
    def __pow__(self, n):
        raise ContractError('** is the matrix power for sparse matrices')

    def __mul__(self, o):
        raise ContractError('* is the matrix product for sparse matrices')

    def multiply(self, o):
        return Size.__mul__(self, o)


@obligation(P, ['model.Model.eliminate_zeros'])
def small_terms(ob):
    """eliminate_zeros: exactly the terms whose norm is below the tolerance are left out, the others are copied; any
    number of terms."""
    from .c08 import RealV

    def norm_of(p):
        x = z3.Real('norm {}'.format(p))
        E.assume(x >= 0)
        E.assume(x <= z3.Real('largest'))
        return RealV(x)

    class Terms(E.Symbolic):
        def __init__(self, item, what):
            self.item, self.what = item, what

        def pv_comp(self, kind, fn):
            p = 'p%d' % len(E.ctx().__dict__.setdefault('_terms', []))
            E.ctx()._terms.append(p)
            return Filtered(kind, p, fn(self.item(p)))

        def pv_for(self, body, get, set_):
            raise E.Unsupported('loop over the terms')

    class Filtered(E.Symbolic):
        def __init__(self, kind, p, out):
            self.kind, self.p, self.out = kind, p, out

    def largest(x, *a, **k):
        if a or k or not isinstance(x, Filtered) or len(x.out) != 1 or not isinstance(x.out[0], RealV) or \
                not str(x.out[0].x) == 'norm {}'.format(x.p):
            raise ContractError('maximum of something else')
        return RealV(z3.Real('largest'))

    def size(m):
        return norm_of(m.p) if isinstance(m, Size) and m.step == 'value' else None

    def root(x):
        if not isinstance(x, Size) or x.step != 'sum':
            raise ContractError('root of {}'.format(x))
        return norm_of(x.p)
    for base, sparse in itertools.product(BASES, (False, True)):
        cl = SparseSize if sparse else DenseSize

        class Result:
            def __init__(self):
                self.data = {}

        class Data(Terms):
            def __eq__(self, o):
                if isinstance(o, dict) and not o:
                    return E.SBool(z3.Bool("no terms"))
                return NotImplemented

            def __len__(self):
                raise E.Unsupported('number of terms')

            def __bool__(self):
                return not E.decide(z3.Bool('no terms'))

            def items(self):
                return Terms(lambda p: (('key', p), cl(p, 'value')), 'items')

            def values(self):
                return Terms(lambda p: cl(p, 'value'), 'values')

        class M:
            format = C.SpMat if sparse else C.NdArray
            data = Data(lambda p: ('key', p), 'keys')

            def items(self):
                return self.data.items()

            def values(self):
                return self.data.values()

            def zeros_like(self):
                return Result()
        sps = E.Stub('scipy.sparse', spmatrix=C.SpMat, issparse=lambda x: isinstance(x, C.SpMat))
        spl = E.Stub('scipy.sparse.linalg', norm=size)
        sps.linalg = spl
        np_ = E.Stub('numpy', sqrt=root, sum=lambda x: x.sum(), abs=abs, max=largest, ndarray=C.NdArray,
                     linalg=E.Stub('numpy.linalg', norm=size))

        def run():
            E.assume(z3.Real('largest') >= 0)
            E.assume(z3.Real('rtol') > 0)
            E.assume(z3.Real('atol') > 0)

            def biggest(*a):
                if len(a) == 2 and all(isinstance(x, RealV) for x in a):
                    return RealV(z3.If(a[0].x >= a[1].x, a[0].x, a[1].x))
                return largest(*a)
            im = C.imports(**{'numpy': np_, 'scipy': E.Stub('scipy', sparse=sps), 'scipy.sparse': sps, 'scipy.sparse.linalg': spl})
            m = E.load('model', im, dict(copy=lambda x: x.copy()), dict(max=biggest, complex=C.SymComplex))
            return getattr(m.ns['Model'], 'eliminate_zeros')(M(), RealV(z3.Real('rtol')), RealV(z3.Real('atol')))
        for p in explore(run):
            if p.kind == 'raise':
                ob.check('returns', False, repr(p.value))
                continue
            d = p.value.data if isinstance(p.value, Result) else None
            if d == {}:
                ob.prove('everything is dropped only if there is nothing', z3.Bool('no terms'), p.pc)
                continue
            ok = isinstance(d, Filtered) and d.kind == 'dict' and len(d.out) <= 1
            ob.check('a selection of the terms', ok, d)
            if not ok:
                continue
            r, at, big, n = z3.Real('rtol'), z3.Real('atol'), z3.Real('largest'), z3.Real('norm {}'.format(d.p))
            small = z3.And(z3.Or(n < at, n < r * big))
            facts = list(p.pc) + [n <= big, n >= 0]
            if d.out:
                k, v = d.out[0]
                ob.check('terms are copied unchanged', k == ('key', d.p) and isinstance(v, Size) and v.p == d.p and v.step == 'copy', (k, v))
                ob.prove('small terms are left out', z3.Not(small), facts)
            else:
                ob.prove('only small terms are left out', small, facts)


@obligation(P, ['model.Model.eliminate_zeros'])
def small_terms_of_other_formats(ob):
    """eliminate_zeros refuses LinearOperators."""
    class M:
        format = C.LinOp
    def run():
        m = E.load('model', C.imports(), {}, dict(complex=C.SymComplex))
        return m.ns['Model'].eliminate_zeros(M())
    for p in explore(run):
        ob.check('refused with a ValueError', p.kind == 'raise' and isinstance(p.value, ValueError), p.value)
