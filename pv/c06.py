"""C06: periodic and symbolic forms.

The algebra of the two forms is shared with C02 and C05 (the same methods of BlochModel).  This module adds the
conversions: a symbolic coefficient is read as a hopping term (_to_bloch_coeff), the hopping term is written as a symbolic
coefficient (BlochCoeff.tosympy).  Both are executed from source on real sympy expressions whose numbers are generic,
for every combination of the listed coefficients, hopping vectors and ways of writing them."""
import itertools

import numpy as np
import sympy

import z3

from . import c02, c05, keyworld as K, modelworld as C      # noqa: F401 (the groups of c02, c05 are registered for C06, too)
from .algebra import Expr, G, declare_scalar
from .engine import explore, ContractError, Unsupported
from .keyworld import I, S, H
from .obl import obligation, assumption, bounded_only

P = 'C06'
assumption([P], 'reading of hopping terms: proved for generic numbers and the listed shapes of a key (up to 3 momenta, up to three '
           'further factors); sympy (powsimp, expand, simplify, nsimplify) is executed, not modelled')
a, b, phi = S('a'), S('b'), S('phi')
h1, h2, h3, h4 = H
Q = sympy.Rational
MOM = {1: (('k_x',), ('q',)), 2: (('k_x', 'k_y'), ('k_z', 'a_1')), 3: (('k_x', 'k_y', 'k_z'), ('p', 'k_x', 'theta'))}
HOPS = {1: [(h1,), (-h1,), (1,), (-Q(1, 2),), (h1 + h2,), (sympy.sqrt(3) / 2,), (h1 - 1,)],
        2: [(h1, h2), (h1, -h2), (-h1, 0), (0, h2), (1, h1), (h1, h1), (1, -1), (Q(1, 2), sympy.sqrt(3) / 2), (h1 + h2, h1 - h2)],
        3: [(h1, h2, h3), (h1, -h2, 0), (0, 0, h3), (1, 1, 1), (h1, h1, -h1), (0, -1, h2), (Q(2, 3), h1, -Q(1, 2))]}


def coefficients(e):
    return [sympy.Integer(1), a, a * b, a ** 2, sympy.sqrt(a), 1 / a, e ** (I * phi), e ** (-a), a * e ** (-I * phi), h4, h4 * a,
            sympy.Integer(-1), I * a, sympy.sqrt(2) * a * b, e ** (I * h4 * phi) * b, sympy.Function('V')(b), 2 ** a]


def styles(e, ks, hop):
    """Ways of writing e**(I*hop.k)."""
    terms = [(h, k) for h, k in zip(hop, ks) if h != 0]
    out = [('sum', e ** sum(I * h * k for h, k in terms)), ('factored', e ** (I * sum(h * k for h, k in terms))),
           ('product', sympy.Mul(*[e ** (I * h * k) for h, k in terms])),
           ('halves', e ** (I * sum(h * k for h, k in terms) / 2) * e ** (sum(I * h * k / 2 for h, k in terms))),
           ('inverse', 1 / e ** (-I * sum(h * k for h, k in terms))),
           ('cancelling', e ** (I * sum(h * k for h, k in terms) + I * h4 * ks[-1]) * e ** (-I * h4 * ks[-1])),
           ('common factor', e ** (h4 * (I * sum(h / h4 * k for h, k in terms) + I * phi)) * e ** (-I * h4 * phi)),
           ('real and imaginary parts', e ** (I * (sum(h * k for h, k in terms) + phi) - a) * e ** (a - I * phi)),
           ('with a phase', e ** (I * sum(h * k for h, k in terms) + I * phi) * e ** (-I * phi))]
    return out


def read(mod, key, ks):
    return mod.ns['_bloch_normalizer'](key, ks)


def denotation(bc, e, ks):
    hop, coeff = tuple(bc)
    return coeff * e ** (I * sum(sympy.sympify(h) * k for h, k in zip(hop, ks)))


def accepts(ob, mod, kc, key, ks, what, hop=None, coeff=None):
    e = kc.e
    try:
        bc = read(mod, key, ks)
    except Exception as x:
        ob.check('terms with a hopping vector are accepted', False, '{}: {}: {}'.format(what, type(x).__name__, x), 'sympy')
        return None
    h, c = tuple(bc)
    ob.check('the hopping vector has one entry per momentum', isinstance(bc, mod.BlochCoeff) and h.shape == (len(ks),), (what, h), 'sympy')
    ob.check('the coefficient is free of momenta', not (c.atoms(sympy.Symbol) & set(ks)), (what, c), 'sympy')
    ob.check('the function is the same', K.equal(denotation(bc, e, ks), key), '{}: {} became {}'.format(what, key, bc), 'sympy')
    if hop is not None:
        ob.check('the hopping vector', K.allclose(h, np.array(hop, dtype=object)), (what, h, hop), 'sympy')
    s = bc.tosympy(ks)
    ob.check('tosympy: the function is the same', K.equal(s, key), '{}: {} became {}'.format(what, key, s), 'sympy')
    s = mod.ns['_symbol_normalizer'](s)
    ob.check('normalised tosympy: the function is the same', K.equal(s, key), '{}: {} became {}'.format(what, key, s), 'sympy')
    return bc


def keys(e, n):
    """(label, momenta, key, hop, coefficient)"""
    out = []
    cs = coefficients(e)
    for i, names in enumerate(MOM[n]):
        ks = tuple(S(x) for x in names)
        for j, hop in enumerate(HOPS[n]):
            st = styles(e, ks, hop)
            for l, c in enumerate(cs):
                # every pair (hopping vector, style), (coefficient, style), (hopping vector, coefficient)
                name, x = st[(l + j) % len(st)]
                out.append((name, ks, c * x, hop, c))
            for l, (name, x) in enumerate(st):
                c = cs[(3 * l + 5 * j + i) % len(cs)]
                out.append((name, ks, c * x, hop, c))
    return out


def reading(ob, n):
    mod, kc = K.world()
    for name, ks, key, hop, c in keys(kc.e, n):
        accepts(ob, mod, kc, key, ks, '{} {}'.format(name, key), hop)
        k2 = mod.ns['_symbol_normalizer'](key)
        ob.check('_symbol_normalizer: the function is the same', K.equal(k2, key), '{} became {}'.format(key, k2), 'sympy')
        accepts(ob, mod, kc, k2, ks, 'normalised {} {}'.format(name, key), hop)


FN = ['model._to_bloch_coeff', 'model._bloch_normalizer', 'model._symbol_normalizer', 'model.BlochCoeff.tosympy']


@obligation(P, FN)
def reading_1(ob):
    """One momentum."""
    reading(ob, 1)


@obligation(P, FN)
def reading_2(ob):
    """Two momenta."""
    reading(ob, 2)


@obligation(P, FN)
def reading_3(ob):
    """Three momenta."""
    reading(ob, 3)


@obligation(P, FN + ['model.BlochCoeff.__eq__', 'model.BlochCoeff.__hash__', 'model.BlochCoeff.__mul__'])
def same_term(ob):
    """The ways of writing a term give equal keys; a key survives the way to sympy and back; products."""
    mod, kc = K.world()
    e = kc.e
    for n in (1, 2, 3):
        ks = tuple(S(x) for x in MOM[n][0])
        for j, hop in enumerate(HOPS[n]):
            c = coefficients(e)[(7 * j + n) % 17]
            bcs = [read(mod, c * x, ks) for _, x in styles(e, ks, hop)]
            for bc in bcs[1:]:
                ob.check('one term, one key', bool(bc == bcs[0]) and hash(bc) == hash(bcs[0]), (bc, bcs[0]), 'sympy')
            bc = bcs[0]
            ob.check('to sympy and back', bool(read(mod, bc.tosympy(ks), ks) == bc), bc, 'sympy')
            ob.check('hopping terms are left alone', read(mod, bc, ks) is bc, bc, 'sympy')
            other = read(mod, b * e ** (I * h4 * ks[0]), ks)
            ob.check('product', K.equal(denotation(bc * other, e, ks), denotation(bc, e, ks) * denotation(other, e, ks)), (bc, other), 'sympy')
            ob.check('product with a symbol', K.equal(denotation(bc * phi, e, ks), denotation(bc, e, ks) * phi), bc, 'sympy')
            ob.check('different terms differ', not (bc == other) and not (bc == read(mod, bc[1] * b, ks)), (bc, other), 'sympy')


@obligation(P, ['model.BlochModel.__init__', 'model.BlochModel.tomodel', 'model.Model.__init__'])
def expressions(ob):
    """BlochModel(expression) and BlochModel({coefficient: value}) with generic numbers: same function, filters in either form."""
    mod, kc = K.models()
    e, ks = kc.e, (S('k_x'), S('k_y'))
    M = np.array([[h1, I * h2], [0, -h3]], dtype=object).view(K.GenArray)
    N = np.array([[h4, 1], [h1 * h2, I]], dtype=object).view(K.GenArray)
    cs = coefficients(e)
    # exp(V(b)) style functions are no expressions of models
    cs = [c for c in cs if not c.atoms(sympy.Function) and not c.has(2 ** a)]
    for j, hop in enumerate(HOPS[2]):
        for l, (name, x) in enumerate(styles(e, ks, hop)):
            t = cs[(l + 2 * j) % len(cs)] * x
            y = b ** 3 * e ** (-I * h4 * ks[0])
            mats = (sympy.Matrix(np.asarray(M)), sympy.Matrix(np.asarray(N)))
            want = t * mats[0] + y * mats[1]
            for how in ('matrix', 'terms'):
                ham = want if how == 'matrix' else {t: M, y: N}
                m = mod.BlochModel(ham, momenta=('k_x', 'k_y'))
                ob.check(how + ': the function is the same', K.same_function(K.value_of(m, e), want), (ham, m.data), 'sympy')
                ob.check(how + ': momenta', tuple(m.momenta) == ks, m.momenta, 'sympy')
                back = m.tomodel()
                ob.check(how + ': tomodel', K.same_function(K.value_of(back), want) and tuple(back.momenta) == ks, back.data, 'sympy')
                key = read(mod, y, ks)
                for keep in ([key], [y], [key, S('zz')]):
                    f = mod.BlochModel(ham, momenta=('k_x', 'k_y'), keep=keep)
                    ob.check(how + ': filter', K.same_function(K.value_of(f, e), y * mats[1]), (ham, keep, f.data), 'sympy')
                    ob.check(how + ': the filter is kept', f.keep == {read(mod, z, ks) for z in keep}, (f.keep, keep), 'sympy')


@obligation([P], ['model.BlochModel.__getitem__', 'model.BlochModel._constant_key', 'model.Model.__missing__', 'model.Model.__radd__',
                  'model.Model.__add__', 'model.Model.value_list', 'model.BlochModel.transform_symbolic'])
def access(ob):
    """Terms of periodic models are found under every form of their coefficient; absent terms are zero; constants."""
    mod, kc = K.models()
    e, ks = kc.e, (S('k_x'), S('k_y'))
    M = np.array([[h1, I * h2], [0, -h3]], dtype=object).view(K.GenArray)
    N = np.array([[h4, 1], [h1 * h2, I]], dtype=object).view(K.GenArray)

    def eq(x, y):
        return K.same_function(sympy.Matrix(np.asarray(x)), sympy.Matrix(np.asarray(y)))
    for j, hop in enumerate(HOPS[2]):
        if all(h == 0 for h in hop):
            continue
        for c in (sympy.Integer(1), a, a * b, e ** (I * phi)):
            forms = [c * x for _, x in styles(e, ks, hop)]
            key = read(mod, forms[0], ks)
            m = mod.BlochModel({key: M, read(mod, b ** 3, ks): N}, momenta=('k_x', 'k_y'))
            ob.check('found under the hopping term', eq(m[key], M), (key, m.data), 'sympy')
            for f in forms:
                ob.check('found under every form of the coefficient', eq(m[f], M), (f, m.data), 'sympy')
            ob.check('found under the text of the coefficient', eq(m['b**3'], N), m.data, 'sympy')
            ob.check('values of a list of keys', all(map(eq, m.value_list([forms[-1], key, b ** 3]), (M, M, N))), m.data, 'sympy')
            other = read(mod, S('zz') * forms[0], ks)
            ob.check('absent terms are zero', all(eq(m[k], np.zeros((2, 2), dtype=int)) for k in (other, S('zz'), 'zz', e ** (-I * h4 * ks[0]))), m.data, 'sympy')
            n0 = len(m.data)
            for lab, r in (('model + matrix', m + N), ('matrix + model', m.__radd__(N))):
                k0 = read(mod, sympy.Integer(1), ks)
                ob.check(lab + ': the constant term', len(r.data) == n0 + 1 and k0 in r.data and eq(r.data[k0], N), (lab, r.data), 'sympy')
                ob.check(lab + ': the other terms', eq(r.data[key], M), (lab, r.data), 'sympy')
            r = (m + N) + M
            ob.check('constants are added up', len(r.data) == n0 + 1 and eq(r[1], N + M) and eq(r['1'], N + M), r.data, 'sympy')
            try:
                m.transform_symbolic(lambda x: x)
            except NotImplementedError:
                ob.check('transform_symbolic refuses hopping terms', True, '', 'sympy')
            else:
                ob.check('transform_symbolic refuses hopping terms', False, '', 'sympy')


@obligation(P, FN)
def rejecting(ob):
    """Coefficients that are not hopping terms are refused."""
    mod, kc = K.world()
    e = kc.e
    f, g = sympy.Function('f'), sympy.Function('sin')
    for n in (1, 2, 3):
        ks = tuple(S(x) for x in MOM[n][0])
        k, q = ks[0], ks[-1]
        bad = [k, k * a, k ** 2, 1 / k, sympy.sqrt(k), h1 * k, e ** k, e ** (h1 * k), e ** (I * k ** 2), e ** (I * k * q), e ** (I * a * k),
               e ** (I * f(a) * k), a ** (I * k), h1 ** (I * k), 2 ** (I * k), sympy.exp(I * k), f(k), g(k), e ** (I * f(k)), e ** (I * k + I * k ** 2), e ** (I * h1 * k + k * I * a),
               e ** (I * k) * k, e ** (I * k) * f(q), e ** (I * k) * sympy.sqrt(q), e ** (I * k) * a ** k, e ** (I * k) / q,
               e ** ((1 + 2 * I) * k), e ** (I * k) + 1, e ** (I * k) * (1 + a), a + b, e ** (I * h1 * k) * (e ** (I * q) + 1),
               e ** (e ** (I * k)), e ** (I / k), e ** (I * k + k), e ** (I * k) * e ** (q * a), e ** (h1 * q + I * h2 * k)]
        if n > 1:
            bad += [e ** (I * k + q), e ** (I * k + I * a * q), e ** (I * k * q + I * k), e ** (I * k) ** q]
        for x in bad:
            for c in (sympy.Integer(1), a, e ** (I * phi), e ** (I * h3 * q), h4):
                key = c * x
                try:
                    r = read(mod, key, ks)
                except (ValueError, TypeError):
                    ob.check('refused', True, '', 'sympy')
                else:
                    ob.check('refused', False, '{} was read as {}'.format(key, r), 'sympy')


# ---------------------------------------------------------------- the conversions of whole models

KEPT = 'kept key'


class BlochKeep(C.Keep):
    """An arbitrary set of kept terms, as hopping terms (bloch) or as symbolic coefficients."""
    def __init__(self, names, bloch):
        C.Keep.__init__(self, names)
        self.bloch = bloch

    def pv_comp(self, kind, fn):
        i = C.fresh_index()
        k = bloch_key(i, 'kept ') if self.bloch else symbolic_key(i, 'kept ')
        r = fn(k)
        if kind == 'set' and len(r) == 1 and C.key_expr(r[0]).same(C.key_expr(k)):
            return BlochKeep(self.names, not isinstance(r[0], C.Key))
        raise ContractError('the filter is transformed differently from the terms: {}'.format(r))

    def copy(self):
        return BlochKeep(self.names, self.bloch)


def letters(i, pre):
    declare_scalar(pre + 'coeff')
    declare_scalar(pre + 'phase')
    C.SCAL_ATTR[pre + 'phase'] = frozenset(['phase'])
    return ((pre + 'coeff', i), 0, None), ((pre + 'phase', i), 0, (1, ()))


def bloch_key(i, pre=''):
    c, p = letters(i, pre)
    return C.world().BlochCoeff(C.Hop(Expr([(((), (p,), ()), G(1))], None, None), i), C.Key(Expr([(((), (c,), ()), G(1))], None, None), i))


def symbolic_key(i, pre=''):
    """The symbolic coefficient with hopping vector hop_i and coefficient coeff_i."""
    return C.Key(Expr([(((), letters(i, pre), ()), G(1))], None, None), i)


def split(e):
    """(coefficient, phase) of a key that is a hopping term."""
    if len(e.t) != 1:
        raise Unsupported('key {}'.format(e))
    ((b, s, w), c), = e.t.items()
    ph = tuple(x for x in s if 'phase' in C.SCAL_ATTR.get(x[0] if isinstance(x[0], str) else x[0][0], ()))
    return Expr([((b, tuple(x for x in s if x not in ph), w), c)], None, None), Expr([((b, ph, ()), G(1))], None, None)


class Readers:
    """Contracts (groups reading_*, same_term): _bloch_normalizer keeps the function of a key, reads the momenta it is given,
    may give the same hopping term for different keys; tosympy keeps the function; Model(...) as in C20."""
    def __init__(self, momenta):
        self.momenta, self.log, self.answer, self.called = momenta, [], object(), None

    def __enter__(self):
        mod = self.mod = C.world()
        self.saved = {k: mod.ns[k] for k in ('_bloch_normalizer', 'Model', 'BlochModel')}
        self.tosympy = mod.BlochCoeff.tosympy
        real, me = mod.ns['Model'], self
        plain = C.contract_class(mod, 'Model')

        def normalizer(key, momenta):
            if momenta != me.momenta:
                raise ContractError('the keys are read with the momenta {}'.format(momenta))
            if isinstance(key, mod.BlochCoeff):
                return key
            c, p = split(C.key_expr(key))
            return mod.BlochCoeff(C.Hop(p), C.Key(c))

        def tosympy(key, momenta, nsimplify=False):
            if momenta != me.momenta:
                raise ContractError('the keys are written with the momenta {}'.format(momenta))
            ko = C.key_ops(key)
            return C.Key(C.key_expr(key), ko[0] if ko else None, ('symbolic',) + ko[1] if ko else ())

        class Meta(type):
            def __instancecheck__(cls, x):
                return isinstance(x, real)

            def __call__(cls, *a, **k):
                me.log.append(k.get('normalize', False))
                if isinstance(k.get('momenta'), tuple):
                    k['momenta'] = C.find_momenta(k['momenta'])
                m = plain(*a, **k)
                m.subs, m.tosympy = (lambda *a, **k: me.call('subs', m, a, k)), (lambda *a, **k: me.call('tosympy', m, a, k))
                return m

        class Model(metaclass=Meta):
            pass
        mod.ns.update(_bloch_normalizer=normalizer, Model=Model)
        mod.BlochCoeff.tosympy = tosympy
        return self

    def call(self, name, m, a, k):
        self.called = (name, m, a, k)
        return self.answer

    def __exit__(self, *a):
        self.mod.ns.update(self.saved)
        self.mod.BlochCoeff.tosympy = self.tosympy


MO = C.Momenta('given')


def symbolic_model(cls, fmt, keep=set()):
    """An arbitrary Model all of whose coefficients are hopping terms."""
    m = C.family(cls, 'A', c05.shape(fmt), fmt, momenta=MO, keep=keep)
    p, = m.parts
    m.parts = [C.Part(p.binders, symbolic_key(p.binders[0][0]), p.val)]
    return m


def the_sum(fmt, ind=None):
    i = C.fresh_index()
    v = C.make_value('A', c05.shape(fmt), C.FMT[fmt], i).e
    k = C.key_expr(symbolic_key(i))
    e = v.smul(k) if v.rows is not None else k.smul(v)
    if ind:
        e = e.smul(C.indicator_expr(C.indicator(ind, symbolic_key(i)))) if v.rows is not None else C.indicator_expr(C.indicator(ind, symbolic_key(i))).smul(e)
    return Expr([((((i, C.Dom.atom('A')),) + b, s, w), c) for (b, s, w), c in e.t.items()], v.rows, v.cols)


def converts(ob, label, fmt, build, keep=None):
    """build() returns the converted model; the value is that of A (restricted to the filter, if there is one)."""
    n = 0
    for p in explore(build):
        if p.kind == 'raise':
            ob.check(label + ': returns', False, c05.raised(p))
            continue
        r, defs = p.value
        C.DEFS.clear()
        C.DEFS.update(defs)
        if r.shape is None or r.format is None:
            t = z3.Solver()
            t.add(*p.pc)
            t.add(z3.Not(z3.Bool('empty<{!r}>'.format(C.Dom.atom('A')))))
            ob.check(label + ': only a dictionary without terms to keep leaves the shape open', keep is not None or t.check() == z3.unsat, p.pc)
            ob.check(label + ': no terms are lost', all(C.known_empty_on(q.binders, p.pc) for q in r.parts), r.parts)
            continue
        d = C.resolve(r.den())
        for cond, ind in ((z3.BoolVal(True), None),) if keep is None else ((z3.Bool('nonempty<K>'), 'K'), (z3.Not(z3.Bool('nonempty<K>')), None)):
            s = z3.Solver()
            s.add(*p.pc)
            s.add(cond)
            if s.check() != z3.sat:
                continue
            n += 1
            e = the_sum(fmt, ind)
            ob.check(label + ': value', C.holds_on_path(d, e, list(p.pc) + [cond]), 'computed: {}   specified: {}   on {}'.format(d, e, p.pc))
        c05.frame(ob, label, r, c05.shape(fmt), fmt, MO)
        for q in r.parts:
            yield r, q
    ob.check(label + ': some path is feasible', n > 0)


@obligation(P, ['model.BlochModel.tomodel'])
def tomodel(ob):
    """A sum of hopping terms as a Model: same function, momenta, shape, format, filter."""
    for fmt in c05.FMT:
        for keep in (None, BlochKeep(['K'], True)):
            for ns in (False, True):
                def build():
                    C.DEFS.clear()
                    A = C.family(C.contract_class(C.world(), 'BlochModel', ('tomodel',)), 'A', c05.shape(fmt), fmt, momenta=MO, bloch=True,
                                 mod=C.world(), keep=set() if keep is None else keep)
                    A.keep = set() if keep is None else keep
                    return A.tomodel(nsimplify=ns), dict(C.DEFS)
                with Readers(MO):
                    for r, q in converts(ob, 'tomodel', fmt, build, keep):
                        ob.check('tomodel: symbolic coefficients', isinstance(q.key, C.Key), q.key)
                        if keep is not None:
                            ob.check('tomodel: filter', isinstance(r.keep, BlochKeep) and not r.keep.bloch, r.keep)


def bloch_class():
    return C.contract_class(C.world(), 'BlochModel', ('__init__',))


@obligation(P, ['model.BlochModel.__init__', 'model.Model.__init__'])
def from_model(ob):
    """BlochModel(Model): same function, momenta, shape, format, filter; different coefficients may become the same term."""
    for fmt in c05.FMT:
        for keep in (None, BlochKeep(['K'], False)):
            def build():
                C.DEFS.clear()
                A = symbolic_model(C.contract_class(C.world(), 'Model'), fmt, set() if keep is None else keep)
                return bloch_class()(A), dict(C.DEFS)
            with Readers(MO):
                for r, q in converts(ob, 'BlochModel(Model)', fmt, build, keep):
                    ob.check('BlochModel(Model): hopping terms', isinstance(q.key, C.world().BlochCoeff), q.key)
                    ob.check('BlochModel(Model): filter', (isinstance(r.keep, BlochKeep) and r.keep.bloch) if keep is not None else r.keep == set(), r.keep)


@obligation(P, ['model.BlochModel.__init__', 'model.Model.__init__'])
def from_terms(ob):
    """BlochModel({hopping term: value}) and BlochModel({symbolic coefficient: value})."""
    for fmt in c05.FMT:
        for bloch in (True, False):
            for keep in (None, BlochKeep(['K'], bloch)):
                def build():
                    C.DEFS.clear()
                    i = C.fresh_index()
                    key = bloch_key(i) if bloch else symbolic_key(i)
                    C.MEMBER_OF['A'] = 'A'
                    d = C.SymMap([C.Part(((i, C.Dom.atom('A')),), key, C.make_value('A', c05.shape(fmt), C.FMT[fmt], i))])
                    return bloch_class()(d, momenta=MO, keep=keep), dict(C.DEFS)
                with Readers(MO):
                    for r, q in converts(ob, 'BlochModel({})'.format('{hopping term: value}' if bloch else '{coefficient: value}'), fmt, build, keep):
                        ob.check('BlochModel(dict): hopping terms', isinstance(q.key, C.world().BlochCoeff), q.key)


@obligation(P, ['model.BlochModel.__init__'])
def other_inputs(ob):
    """No terms at all; hopping terms mixed with symbolic coefficients are refused."""
    for fmt in c05.FMT:
        for ham in (None, {}):
            with Readers(MO):
                for p in explore(lambda: bloch_class()(ham, momenta=MO, shape=c05.shape(fmt), format=C.FMT[fmt])):
                    if p.kind == 'raise':
                        ob.check('BlochModel(): returns', False, c05.raised(p))
                        continue
                    ob.check('BlochModel(): no terms', not p.value.parts, p.value.parts)
                    c05.frame(ob, 'BlochModel()', p.value, c05.shape(fmt), fmt, MO, set())

        def build():
            C.DEFS.clear()
            i, j = C.fresh_index(), C.fresh_index()
            C.MEMBER_OF['A'], C.MEMBER_OF['B'] = 'A', 'B'
            d = object.__new__(C.SymMap)
            d.parts = [C.Part(((i, C.Dom.atom('A')),), bloch_key(i), C.make_value('A', c05.shape(fmt), C.FMT[fmt], i)),
                       C.Part(((j, C.Dom.atom('B')),), symbolic_key(j), C.make_value('B', c05.shape(fmt), C.FMT[fmt], j))]
            return bloch_class()(d, momenta=MO)
        with Readers(MO):
            both = [z3.Not(z3.Bool('empty<{!r}>'.format(C.Dom.atom(f)))) for f in 'AB']
            for p in explore(build, both):
                ob.check('mixed keys are refused', p.kind == 'raise' and isinstance(p.value, ValueError), p.value)


@obligation(P, ['model.BlochModel.subs', 'model.BlochModel.tosympy'])
def through_the_symbolic_form(ob):
    """subs and tosympy act on the symbolic form (groups of C20 for Model.subs); the result of subs is converted back."""
    for fmt in c05.FMT:
        with Readers(MO) as rd:
            def build():
                C.DEFS.clear()
                A = C.family(C.contract_class(C.world(), 'BlochModel', ('tomodel', 'subs', 'tosympy')), 'A', c05.shape(fmt), fmt, momenta=MO,
                             bloch=True, mod=C.world())
                return A
            for ns in (False, True):
                for p in explore(lambda: build().tosympy(nsimplify=ns)):
                    rd_ok = p.kind != 'raise' and p.value is rd.answer
                    name, m, a, k = rd.called
                    ob.check('tosympy: of the symbolic form', rd_ok and name == 'tosympy' and C.holds_on_path(m.den(), the_sum(fmt), p.pc), p.value)
                    ob.check('tosympy: nsimplify is passed on', (a, k) in (((ns,), {}), ((), {'nsimplify': ns})), (a, k))
            built = []

            class Back:
                def __new__(cls, *a, **k):
                    built.append((a, k))
                    return 'converted back'
            rd.mod.ns['BlochModel'] = Back
            for args, kw in ((('old', 'new'), {}), (({'old': 'new'},), {}), (([('old', 'new')],), {'simultaneous': True})):
                for p in explore(lambda: build().subs(*args, **kw)):
                    name, m, a, k = rd.called
                    ob.check('subs: of the symbolic form', p.kind != 'raise' and name == 'subs' and C.holds_on_path(m.den(), the_sum(fmt), p.pc), p.value)
                    ob.check('subs: arguments are passed on', (a, k) == (args, kw), (a, k))
                    ob.check('subs: converted back', p.value == 'converted back' and built[-1] == ((rd.answer,), {}), (p.value, built))
