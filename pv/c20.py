"""C20: construction of models.

Model.__init__ is executed from its source for an arbitrary dictionary {key: value} (any number of keys, which may
coincide after normalisation); the cleaning of the keys is checked for keys with up to 3 summands of up to 3
factors each, any of them numbers (bounded in these two counts only). Parsing, filtering, substitution and
evaluation are executed from their source with the real sympy on expressions of listed shapes whose numbers are
generic (keyworld): bounded in the shape, not in the numbers."""
import itertools

import z3

import numpy as np
import sympy

from . import c02, c05, engine as E, keyworld as K, matworld as W, modelworld as C
from .algebra import Expr, G, declare, declare_scalar
from .engine import explore, Unsupported
from .obl import obligation, assumption, bounded_only

P = 'C20'
assumption([P], 'sympy itself: expand, powsimp, as_ordered_terms/factors, subs, atoms, evalf, sympify of strings and lambdify (the code it '
           'generates) behave as documented; the real sympy is run, on expressions whose numbers are generic',
           'sympy.lambdify is replaced by a recorder of (arguments, expression); numpy.zeros, allclose and complex() have contracts on generic numbers',
           'the normal form of keys is injective on keys that have been expanded and combined',
           'terms whose values are zero within tolerance are zero')
bounded_only([P], 'parsing, substitution and evaluation: the listed shapes of expressions (every number in them generic), not every expression',
             'Model.__init__ cleaning of keys: at most 3 summands of at most 3 factors per key in the proof')
FMT, shape, raised = c05.FMT, c05.shape, c05.raised
MASKS = [m for n in range(0, 4) for m in itertools.product((False, True), repeat=n)]


def hfamily(name, fmt, sh, masks):
    i = C.fresh_index()
    v = C.make_value(name, sh, C.FMT[fmt], i)
    C.MEMBER_OF[name] = name
    d = C.SymMap.__new__(C.SymMap)
    d.parts = [C.Part(((i, C.Dom.atom(name)),), C.HKey(i, masks), v)]
    return d


def construct(ob, label, masks, fmt, expect_keep=(), **kw):
    sh = shape(fmt)
    box = {}

    def build():
        C.DEFS.clear()
        cls = C.contract_class(C.world(), 'Model', real=('__init__',))
        box['d'] = hfamily('A', fmt, sh, masks)
        m = cls(box['d'], momenta=C.Momenta('given'), **kw)
        return m, dict(C.DEFS)
    n = 0
    for p in explore(build):
        if p.kind == 'raise':
            ob.check(label + ': returns', False, raised(p))
            continue
        m, defs = p.value
        C.DEFS.clear()
        C.DEFS.update(defs)
        if m.shape is None or m.format is None:
            part, = box['d'].parts
            t = z3.Solver()
            t.add(*p.pc)
            t.add(z3.Not(C.empty_formula([part])))
            ob.check(label + ': only the empty dictionary leaves the shape open', t.check() == z3.unsat, p.pc)
            ob.check(label + ': the empty dictionary has no terms', all(C.known_empty_on(q.binders, p.pc) for q in m.parts), m.parts)
            continue
        d = C.resolve(m.den())
        part, = box['d'].parts
        facts = [z3.Bool('nonempty<{}>'.format(k)) for k in expect_keep]
        for cond, e in ((z3.And(facts), None), (z3.Not(z3.And(facts)), C.total([part]))) if facts else ((z3.BoolVal(True), C.total([part])),):
            s = z3.Solver()
            s.add(*p.pc)
            s.add(cond)
            if s.check() != z3.sat:
                continue
            n += 1
            if e is None:
                ind = C.indicator_expr(C.indicator(expect_keep[0], C.Key(part.key.e)))
                e = C.total([C.Part(part.binders, part.key, part.val._n(part.val.e.smul(ind)))])
            ob.check(label + ': value', C.holds_on_path(d, e, list(p.pc) + [cond]), 'computed: {}   specified: {}   on {}'.format(d, e, p.pc))
        ob.check(label + ': momenta', m.momenta == C.Momenta('given'), m.momenta)
        if m.parts:
            ob.check(label + ': shape', tuple(m.shape) == tuple(sh), m.shape)
            ob.check(label + ': format', m.format is C.FMT[fmt], m.format)
        if kw.get('normalize'):
            for q in m.parts:
                for name in [k for k in C.DEFS if any(not isinstance(x[0], str) and x[0][0] == k for t in q.den().t for x in list(t[1]) + list(t[2]))]:
                    for r in C.DEFS[name][2]:
                        ob.check(label + ': no numbers are left in the keys',
                                 not any('number' in C.algebra._base(x[0]) for t in C.key_expr(r.key).t for x in t[1]), r.key)
    ob.check(label + ': some path is feasible', n > 0)


@obligation(P, ['model.Model.__init__'])
def dictionary(ob):
    for fmt in FMT:
        construct(ob, 'dictionary', [(False,)], fmt)
        construct(ob, 'dictionary with a filter', [(False,)], fmt, ('K',), keep=C.Keep(['K']))


@obligation(P, ['model.Model.__init__'])
def cleaning(ob):
    """normalize=True: summands split, numbers moved to the values, same function."""
    for fmt in ('dense', 'csr', 'scalar'):
        for m1 in MASKS:
            construct(ob, 'cleaning', [m1], fmt, normalize=True)
    for m1, m2 in itertools.product(MASKS[1:7], repeat=2):
        construct(ob, 'cleaning of sums', [m1, m2], 'dense', normalize=True)
    for m1, m2, m3 in itertools.product(MASKS[1:3], MASKS[3:5], MASKS[4:6]):
        construct(ob, 'cleaning of sums', [m1, m2, m3], 'dense', normalize=True)


# ---------------------------------------------------------------- expressions, substitution, evaluation: sympy itself, generic numbers

I, S = sympy.I, sympy.Symbol
h1, h2, h3, h4 = K.H
a, b, phi, p, kx, ky, kz = sympy.symbols('a b phi p k_x k_y k_z')
NC = {k: sympy.Symbol(k.name, commutative=False) for k in (kx, ky, kz)}


def plain(expr, e):
    """Reference: sin, cos, exp written with e."""
    f = lambda x: x.replace(sympy.sin, lambda t: (e ** (I * t) - e ** (-I * t)) / (2 * I)) \
                   .replace(sympy.cos, lambda t: (e ** (I * t) + e ** (-I * t)) / 2).replace(sympy.exp, lambda t: e ** t)
    expr = sympy.sympify(expr)
    return expr.applyfunc(f) if isinstance(expr, sympy.MatrixBase) else sympy.Matrix([[f(expr)]])


def pool(e):
    return [sympy.Integer(1), a, a * b, a ** 2, sympy.sqrt(a), 1 / b, kx, kx * ky, a * kx ** 2, sympy.cos(kx), sympy.sin(h2 * kx), sympy.exp(I * kx),
            sympy.exp(-a), sympy.cos(kx) * sympy.sin(ky), e ** (I * h1 * kx), b * e ** (I * phi), sympy.cos(kx + ky), kx * sympy.sin(ky) ** 2]


NUMS = [h1, -h2, I * h3, sympy.Integer(2), sympy.sqrt(2), -I, sympy.Rational(1, 3), h1 + I * h2, h1 * h3]


def expressions_list(e):
    """(label, expression)"""
    P_ = pool(e)
    n = len(P_)
    out = [('term', NUMS[i % 9] * x) for i, x in enumerate(P_)]
    out += [('sum', NUMS[(i + j) % 9] * P_[i] + NUMS[(2 * i + j) % 9] * P_[j]) for i in range(n) for j in range(i)]
    out += [('product of sums', (NUMS[i % 9] * P_[i] + a) * (P_[(i + 5) % n] + NUMS[(i + 2) % 9])) for i in range(n)]
    out += [('cancelling sum', h1 * P_[i] + b - h1 * P_[i]) for i in range(n)]
    out += [('matrix', sympy.Matrix([[NUMS[i % 9] * P_[i], P_[(i + 3) % n]], [0, NUMS[(i + 1) % 9] * P_[(i + 7) % n] + P_[i]]])) for i in range(n)]
    out += [('row', sympy.Matrix([[h1 * a, kx * I, P_[i]]])) for i in range(n)]
    out += [('non-commuting momenta', (h1 * x).subs(NC)) for x in P_] + \
           [('non-commuting momenta', sympy.Matrix([[x.subs(NC) * a, I * NC[kx]], [h3 * NC[ky] * b, 0]])) for x in P_[:9]]
    return out


def cleaned(ob, m, what):
    for k in m.data:
        ob.check('the terms are products of symbols and powers',
                 not isinstance(k, sympy.Add) and not any(f.is_number and f != 1 for f in k.as_ordered_factors()), (what, k), 'sympy')


def commuting(x):
    return x.subs({v: k for k, v in NC.items()})


@obligation(P, ['model.Model.__init__', 'model.substitute_exponents', 'kwant_continuum.sympify', 'kwant_continuum.make_commutative',
                'kwant_continuum.monomials', 'kwant_continuum._expression_monomials', 'model._shape_and_format', 'model._find_momenta'])
def expressions(ob):
    """Model(expression): every listed form, generic numbers."""
    mod, kc = K.models()
    for i, (label, x) in enumerate(expressions_list(kc.e)):
        names, ks = ((('k_x', 'k_y', 'k_z'), (kx, ky, kz)), (('k_y', kx), (ky, kx)), ((kx, p), (kx, p)))[i % 3]
        m = mod.Model(x, momenta=names)
        want = plain(commuting(x), kc.e)
        ob.check('same function', K.same_function(K.value_of(m), want), '{} {}: {}'.format(label, x, m.data), 'sympy')
        ob.check('momenta', tuple(m.momenta) == ks, (names, m.momenta), 'sympy')
        if m.data:
            ob.check('shape and format', tuple(m.shape) == want.shape and issubclass(m.format, np.ndarray), (m.shape, m.format), 'sympy')
        cleaned(ob, m, x)
        for k in list(m.data)[:2]:
            f = mod.Model(x, momenta=names, keep=[k])
            ob.check('filter', K.same_function(K.value_of(f), k * sympy.Matrix(np.asarray(m.data[k]))), (x, k, f.data), 'sympy')
        ob.check('the coefficients are numbers', all(sympy.sympify(y).is_number for v in m.data.values() for y in np.asarray(v).flat), m.data, 'sympy')
        ob.check('converted back', K.same_function(m.tosympy(), want) if m.data else True, m.data, 'sympy')


@obligation(P, ['kwant_continuum.sympify', 'model.Model.__init__'])
def parsing(ob):
    """Strings: the documented names; entries of locals are parsed by the same rules."""
    mod, kc = K.models()
    s0, sx, sy, sz = kc.pauli
    kron = sympy.kronecker_product
    ref = {'sigma_0': sympy.eye(2), 'sigma_x': sympy.Matrix([[0, 1], [1, 0]]), 'sigma_y': sympy.Matrix([[0, -I], [I, 0]]),
           'sigma_z': sympy.Matrix([[1, 0], [0, -1]])}
    for n, m in ref.items():
        ob.check('Pauli matrices', kc.sympify(n) == m, n, 'sympy')
        for n2, m2 in ref.items():
            ob.check('Kronecker products', sympy.Matrix(kc.sympify('kron({}, {})'.format(n, n2))) == kron(m, m2), (n, n2), 'sympy')
            x = mod.Model('a*kron({}, {}) + k_x*eye(4)/2'.format(n, n2))
            ob.check('models of Kronecker products', K.same_function(K.value_of(x), a * kron(m, m2) + kx * sympy.eye(4) / 2), x.data, 'sympy')
    for text, want in (('identity(3)*k_x', kx * sympy.eye(3)), ('[[k_x, I], [pi, gamma*E]]', sympy.Matrix([[kx, I], [sympy.pi, S('gamma') * S('E')]])),
                       ('S*N*Q*C*O', S('S') * S('N') * S('Q') * S('C') * S('O')), ('beta*zeta + lamda', S('beta') * S('zeta') + S('lamda')),
                       ('k_x*k_y**2 - x*y', kx * ky ** 2 - S('x') * S('y')), ('[[1, 2, k_x]]', sympy.Matrix([[1, 2, kx]])),
                       ('e**(I*k_x)', kc.e ** (I * kx)), ('exp(2*I*k_x)*m_0', kc.e ** (2 * I * kx) * S('m_0')),
                       ('cos(a*k_x)', (kc.e ** (I * a * kx) + kc.e ** (-I * a * kx)) / 2)):
        m = mod.Model(text)
        want = want if isinstance(want, sympy.MatrixBase) else sympy.Matrix([[want]])
        ob.check('names', K.same_function(K.value_of(m), want), (text, m.data), 'sympy')
    sp = sympy.Matrix([[0, 2], [0, 0]])
    for text, loc, want in (('k*sigma_plus', {'k': 'k_x + I*k_y', 'sigma_plus': [[0, 2], [0, 0]]}, (kx + I * ky) * sp),
                            ('k*M', {'k': kx ** 2, 'M': np.array([[1, 0], [0, -1]])}, kx ** 2 * ref['sigma_z']),
                            ('f*sigma_x', {'f': 'cos(k_x)'}, (kc.e ** (I * kx) + kc.e ** (-I * kx)) / 2 * ref['sigma_x']),
                            ('sigma_x*c', {'sigma_x': 'sigma_z', 'c': h1}, h1 * ref['sigma_z']),
                            ('a*M', {'a': b, 'M': sympy.Matrix([[h1, a]])}, b * sympy.Matrix([[h1, a]]))):
        given = dict(loc)
        m = mod.Model(text, locals=given)
        ob.check('locals', K.same_function(K.value_of(m), want), (text, loc, m.data), 'sympy')
        ob.check('locals are not changed', list(given) == list(loc), given, 'sympy')
    for bad in ('1x', 'for', 'a b', 3, ''):
        try:
            kc.sympify('a', locals={bad: 'b'})
            ok = False
        except ValueError:
            ok = True
        ob.check('invalid names in locals are refused', ok, bad, 'sympy')


def gmat(i):
    """Generic values."""
    return [np.array([[h1, I * h2], [0, -h3]], dtype=object), np.array([[h4, 1], [h1 * h2, I]], dtype=object),
            np.array([[sympy.sqrt(3), 0], [h2 + I * h3, h1]], dtype=object)][i % 3].view(K.GenArray)


def dict_models(e):
    """Term dictionaries with generic values: (label, dict, value)"""
    P_ = [plain(x, e)[0] for x in (sympy.Integer(1), a, a * b, a ** 2, sympy.sqrt(a), 1 / b, kx, kx * ky, a * kx ** 2)] + \
         [e ** (I * kx), e ** (I * h1 * kx), b * e ** (I * phi) * kx, e ** (-a), a * e ** (I * (kx + h2 * ky)), e ** (I * h1 * kx) * e ** (-I * ky)]
    n = len(P_)
    out = [('one term', {x: gmat(i)}) for i, x in enumerate(P_)]
    out += [('two terms', {P_[i]: gmat(i + j), P_[j]: gmat(j)}) for i in range(n) for j in range(i)]
    out += [('three terms', {P_[i]: gmat(i), P_[(i + 4) % n]: gmat(i + 1), P_[(i + 9) % n]: gmat(i + 2)}) for i in range(n)]
    return [(lab, d, sum((k * sympy.Matrix(np.asarray(v)) for k, v in d.items()), sympy.zeros(2, 2))) for lab, d in out]


@obligation(P, ['model.Model.__init__', 'model._symbol_normalizer', 'model.Model.__getitem__', 'model.Model.__setitem__', 'model.Model.__missing__'])
def term_dictionaries(ob):
    """Model({coefficient: value}): different forms of a coefficient, cleaning, filters; access by any form of the key."""
    mod, kc = K.models()
    e = kc.e
    for lab, d, want in dict_models(e):
        for norm in (False, True):
            m = mod.Model(d, momenta=(kx, ky), normalize=norm)
            ob.check('same function', K.same_function(K.value_of(m), want), (lab, norm, d, m.data), 'sympy')
            for k, v in d.items():
                ob.check('terms are found under their keys', K.same_function(sympy.Matrix(np.asarray(m[k])), sympy.Matrix(np.asarray(v))), (k, m.data), 'sympy')
                if not k.has(e):
                    ob.check('terms are found under the text of their keys', K.same_function(sympy.Matrix(np.asarray(m[str(k)])), sympy.Matrix(np.asarray(v))), (k, m.data), 'sympy')
            ob.check('missing terms are zero', K.same_function(sympy.Matrix(np.asarray(m[S('zz') * a])), sympy.zeros(2, 2)), m.data, 'sympy')
            for k in d:
                f = mod.Model(d, momenta=(kx, ky), normalize=norm, keep=[k])
                ob.check('filter', K.same_function(K.value_of(f), k * sympy.Matrix(np.asarray(d[k]))), (k, f.data), 'sympy')
    forms = [(e ** (I * (kx + ky)), e ** (I * kx) * e ** (I * ky)), ('a*b', b * a), ('k_x', kx), (e ** (I * (kx + h1 * ky)), e ** (I * kx + I * h1 * ky)),
             ('e**(I*k_x)', e ** (I * kx))]
    for x, y in forms:
        m = mod.Model({x: gmat(0), y: gmat(1)}, momenta=(kx, ky), normalize=True)
        z = sympy.sympify(x, locals={'e': e})
        ob.check('different forms of a coefficient are added up', K.same_function(K.value_of(m), z * sympy.Matrix(np.asarray(gmat(0) + gmat(1)))), (x, y, m.data), 'sympy')
    for x, parts in ((h1 * a, None), (a + b, (a, b)), (2 * a * kx - I * b, (a * kx, b)), ((a + h1) * kx, (a * kx, kx)), (sympy.sqrt(2) * e ** (I * kx) + 3, (e ** (I * kx), sympy.Integer(1)))):
        m = mod.Model({x: gmat(0), b: gmat(1)}, momenta=(kx, ky), normalize=True)
        ob.check('sums and numbers in coefficients', K.same_function(K.value_of(m), x * sympy.Matrix(np.asarray(gmat(0))) + b * sympy.Matrix(np.asarray(gmat(1)))), (x, m.data), 'sympy')
        cleaned(ob, m, x)
    m = mod.Model({a: gmat(0), 2 * a: gmat(1), 3 * a: -gmat(1)}, momenta=(kx, ky), normalize=True)
    ob.check('sums and numbers in coefficients', K.same_function(K.value_of(m), a * sympy.Matrix(np.asarray(gmat(0) - gmat(1)))), m.data, 'sympy')
    m = mod.Model({a: gmat(0), -a: gmat(0), b: gmat(1)}, momenta=(kx, ky), normalize=True)
    ob.check('terms that cancel are removed', list(m.data) == [b], m.data, 'sympy')


def subs_ref(x, args, kw):
    return x.applyfunc(lambda y: y.subs(*args, **kw))


def substitutions():
    """(arguments of subs, momenta afterwards, given (k_x, k_y))"""
    c, d = S('c'), S('d')
    one = [(a, h1, (kx, ky)), (a, c, (kx, ky)), (a, c ** 2 + b, (kx, ky)), (a, a * kx, (kx, ky)), (kx, h2, (ky,)), (kx, p, (p, ky)), (kx, 2 * p + c, (ky,)),
           (kx, kx + h1, (kx, ky)), (kx, -kx, (kx, ky)), (ky, sympy.Integer(0), (kx,)), (ky, sympy.pi / 2, (kx,)), ('k_x', 'p', (p, ky)), ('a', 'c + 1', (kx, ky)),
           ('k_y', 2, (kx,)), (phi, h3, (kx, ky)), (b, I, (kx, ky)), (kx, ky, (ky,))]
    out = []
    for old, new, mom in one:
        out += [((old, new), {}, mom), (([(old, new)],), {}, mom), (({old: new},), {}, mom)]
    out += [(({a: b, b: a},), {'simultaneous': True}, (kx, ky)), (({b: c, a: b},), {}, (kx, ky)), (([(b, c), (a, b)],), {}, (kx, ky)),
            (([(a, b), (b, c)],), {}, (kx, ky)), (({kx: ky, ky: kx},), {'simultaneous': True}, (ky, kx)), (([(kx, p), (ky, c)],), {}, (p, c)),
            (({kx: h1, ky: h2, a: b},), {}, ()), (([(kx, p), (p, h3)],), {}, (ky,)), (({kx: p, a: p + ky},), {}, (p, ky)),
            (([(kx, 2 * ky), (ky, h1)],), {}, ()), (([(kx, kx + ky), (ky, d)],), {}, (kx, d)), (({'k_x': 'p', 'k_y': 0},), {}, (p,)),
            (({kx: kx + h1, ky: ky - p},), {}, (kx, ky))]
    return out


def substitute(ob, which):
    mod, kc = K.models()
    e = kc.e
    dm = dict_models(e)
    for i, (args, kw, mom) in enumerate(substitutions()):
        if i % 2 != which:
            continue
        names = [(old if not isinstance(old, str) else S(old), sympy.sympify(new)) for old, new in
                 ([args] if len(args) == 2 else args[0].items() if isinstance(args[0], dict) else args[0])]
        ref = (dict(names),) if isinstance(args[0], dict) else (names,)
        for lab, d, val in dm[15 + i % 17::17] + dm[:15]:
            m = mod.Model(d, momenta=(kx, ky), normalize=True)
            before = dict(m.data)
            r = m.subs(*args, **kw)
            want = subs_ref(val, ref, kw)
            v = K.value_of(r)
            v = v if v is not None else sympy.zeros(2, 2)
            if v.has(sympy.Float):      # exponentials of numbers are evaluated
                v, want = v.subs(e, sympy.Float(np.e)), want.subs(e, sympy.Float(np.e))
            ok = K.same_function(v, want)
            ob.check('substitution into the function', ok, '{} {} in {}: {}'.format(args, kw, d, r.data), 'sympy')
            ob.check('the momenta afterwards', tuple(r.momenta) == mom, (args, kw, r.momenta), 'sympy')
            ob.check('shape and format', tuple(r.shape) == (2, 2) and issubclass(r.format, np.ndarray), (args, r.shape, r.format), 'sympy')
            ob.check('the model itself is left alone', m.data == before and tuple(m.momenta) == (kx, ky), args, 'sympy')


@obligation(P, ['model.Model.subs', 'model.Model.transform_symbolic'])
def substitution(ob):
    """Model.subs: substitution into the function; renamed and remaining momenta."""
    substitute(ob, 0)


@obligation(P, ['model.Model.subs', 'model.Model.transform_symbolic'])
def substitution_2(ob):
    """Model.subs, the other half of the substitutions."""
    substitute(ob, 1)


@obligation(P, ['model.Model.tosympy', 'model.Model.toarray', 'model.Model.lambdify', 'model.Model.evalf', 'model.BlochModel.evalf', 'model.BlochModel.tosympy', 'kwant_continuum.lambdify'])
def evaluation(ob):
    """The symbolic matrix, the callable function and evalf have the value of the model (sympy.lambdify by its contract)."""
    mod, kc = K.models()
    e = kc.e
    for i, (lab, d, val) in enumerate(dict_models(e)[::3]):
        m = mod.Model(d, momenta=(kx, ky))
        models = [('Model', m)]
        try:
            models.append(('BlochModel', mod.BlochModel(m)))
        except ValueError:
            pass        # not a sum of hopping terms
        for name, x in models:
            t = x.tosympy()
            ob.check('tosympy', isinstance(t, sympy.MatrixBase) and K.same_function(sympy.Matrix(t), val), (name, d, t), 'sympy')
            syms = sorted({s.name for s in val.subs(e, 2).atoms(S)})
            for kw, extra in (({}, []), ({'onsite': True}, ['site']), ({'hopping': True}, ['site1', 'site2'])):
                f = x.lambdify(**kw)
                ob.check('arguments of the function: in alphabetical order', f.args == extra + syms, (name, kw, f.args), 'sympy')
                ob.check('value of the function', K.same_function(sympy.Matrix(f.expr), val.subs(e, sympy.Float(np.e))), (name, d, f.expr), 'sympy')
            try:
                x.lambdify(onsite=True, hopping=True)
                ok = False
            except ValueError:
                ok = True
            ob.check('onsite and hopping together are refused', ok, name, 'sympy')
        at = {a: h1, b: h4, kx: h2, ky: h3}
        for name, x in models if val.atoms(S) - {e} <= set(at) else ():
            v = sympy.Matrix(np.asarray(x.evalf(subs=at)))
            want = val.subs(at).subs(e, sympy.E)
            ob.check('evalf', K.same_function(v, want), (name, d, v), 'sympy')
    exact = {a * kx: np.array([[1, 2j], [0.5, np.sqrt(2)]]), b * e ** (I * kx / 2): np.array([[0, 1 / 3], [-1j, np.sqrt(3) / 2]])}
    want = a * kx * sympy.Matrix([[1, 2 * I], [sympy.Rational(1, 2), sympy.sqrt(2)]]) + b * e ** (I * kx / 2) * sympy.Matrix([[0, sympy.Rational(1, 3)], [-I, sympy.sqrt(3) / 2]])
    m = mod.Model(exact, momenta=(kx, ky))
    ob.check('tosympy(nsimplify=True)', K.same_function(sympy.Matrix(m.tosympy(nsimplify=True)), want), m.tosympy(nsimplify=True), 'sympy')
    ob.check('lambdify(nsimplify=True)', K.same_function(sympy.Matrix(m.lambdify(nsimplify=True).expr), want.subs(e, sympy.Float(np.e))), m.lambdify(nsimplify=True).expr, 'sympy')
    for x in expressions_list(e)[:20]:
        x = x[1]
        f = kc.lambdify(kc.sympify(x), None)
        ob.check('kwant_continuum.lambdify: arguments in alphabetical order', f.args == sorted(f.args), f.args, 'sympy')
    for text in ('b*k_x + a', 'V(a)*c', 'k_y*k_x*sigma_x'):
        f = kc.lambdify(text)
        x = kc.sympify(text)
        ob.check('kwant_continuum.lambdify: arguments', f.args == sorted([s.name for s in x.atoms(S)] + [str(g.func) for g in x.atoms(sympy.Function)]) and f.expr == x, f.args, 'sympy')


@obligation(P, ['kwant_continuum.monomials', 'kwant_continuum._expression_monomials', 'kwant_continuum.make_commutative'])
def parts_of_expressions(ob):
    """monomials: the sum of generator * coefficient is the expression; make_commutative replaces the symbols only."""
    mod, kc = K.models()
    for label, x in expressions_list(kc.e):
        x = plain(commuting(x), kc.e) if label != 'matrix' else plain(x, kc.e)
        for gens in (None, ['k_x', 'k_y'], ['a']):
            if gens == ['k_x', 'k_y']:      # parsed as operators
                y = x.subs({k: NC[k] for k in NC})
            else:
                y = x
            for z in (y, y[0, 0]):
                d = kc.monomials(z, gens)
                total = sum((k * v for k, v in d.items()), sympy.zeros(*z.shape) if isinstance(z, sympy.MatrixBase) else sympy.Integer(0))
                ob.check('monomials: sum', K.same_function(commuting(total), commuting(z)), (z, d), 'sympy')
                if gens:
                    ok = all(set(k.atoms(S)) <= set(kc.sympify(g) for g in gens) or k.has(kc.e) for k in d)
                    ob.check('monomials: generators', ok, (z, gens, d), 'sympy')
        y = x.subs(NC)
        z = kc.make_commutative(y, kx, NC[ky])
        ob.check('make_commutative', K.same_function(sympy.Matrix(z).subs(NC[kz], kz), x) and not z.has(NC[kx]) and not z.has(NC[ky]), (y, z), 'sympy')
