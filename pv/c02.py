"""C02: the action of operations and generators on Hamiltonians.

apply_formula (c01) proves the discrete formula over the contracts of the model methods; here those contracts
are proved from the source of the model methods over arbitrary formal sums, and the generator formula."""
import itertools

import z3

from . import c01, c05, engine as E, matworld as W, modelworld as C
from .algebra import Expr, G, declare, declare_scalar
from .engine import explore, Unsupported
from .obl import obligation, assumption

P = 'C02'
assumption([P], 'momenta and parameters are real', 'sympy substitution and differentiation of keys compute the mathematical operation of their name',
           'keys of one model are independent functions; distinct keys stay distinct under an invertible rotation of the momenta')
declare('Q', 'd', 'd', 'real', 'invertible')

run, spec, make, both, raised = c05.run, c05.spec, c05.make, c05.both, c05.raised


@obligation([P, 'C06'], ['model.Model.rotate_momenta', 'model.BlochModel.rotate_momenta'])
def rotation(ob):
    """H.rotate_momenta(R) is the function k -> H(R k), for every format."""
    def one(base, bl, fmt, sh):
        for rep, sgn in itertools.product((W.Dense, W.FloatArr, W.IntArr, W.SymMat), (1, -1)):
            Q = lambda: rep(Expr.letter('Q').scale(sgn))
            A = lambda cls: make(cls, 'A', fmt, sh, bl, keep=C.Keep(['K']) if bl else ())
            e = spec('A', fmt, sh, bl).compose(sgn, tuple(Expr.letter('Q').t)[0][2])
            run(ob, 'rotate_momenta', base, ('rotate_momenta',), lambda cls: A(cls).rotate_momenta(Q()), e, fmt, sh, C.Keep(['K']) if bl else set())
    both(one)


@obligation([P, 'C20', 'C06'], ['model.Model.transform_symbolic'])
def transform(ob):
    """transform_symbolic(f): sum of f(key) times value, whatever f does to the keys."""
    def one(base, bl, fmt, sh):
        if bl:
            return
        f = lambda key: C.Key(C.apply_scalar_function('f', key.e))
        for K in ((), ):
            run(ob, 'transform_symbolic', base, ('transform_symbolic',), lambda cls: make(cls, 'A', fmt, sh, bl).transform_symbolic(f),
                spec('A', fmt, sh, bl, kf=lambda e: C.apply_scalar_function('f', e)), fmt, sh)
    both(one)


@obligation(P, ['model.Model.conj', 'model.BlochModel.conj'])
def conjugation(ob):
    def one(base, bl, fmt, sh):
        run(ob, 'conj', base, ('conj',), lambda cls: make(cls, 'A', fmt, sh, bl).conj(),
            spec('A', fmt, sh, bl, lambda e: e.conj(), lambda k: k.conj()), fmt, sh)
    both(one)


class RMat:
    """d x d matrix with arbitrary entries (d concrete)."""
    def __init__(self, d, name='R'):
        self.d, self.name = d, name
        for i, j in itertools.product(range(d), repeat=2):
            declare_scalar('{}{}{}'.format(name, i, j))
        C.ZERO_FACTS[self.zero_name()] = [self[i, j].e for i, j in itertools.product(range(d), repeat=2)]

    def zero_name(self):
        return 'zero<{} of size {}>'.format(self.name, self.d)

    shape = property(lambda self: (self.d, self.d))

    def __getitem__(self, ij):
        i, j = ij
        if not (0 <= i < self.d and 0 <= j < self.d):
            raise IndexError
        return C.ScalV._make(Expr([(((), (('{}{}{}'.format(self.name, i, j), 0, None),), ()), G(1))], None, None))


def generator_world():
    def allclose(a, b, *r, **k):
        if isinstance(a, RMat) and C.is_number(b) and b == 0:
            return E.SBool(z3.Bool(a.zero_name()))
        return C.allclose(a, b)
    imp = C.imports()
    imp.update({'tinyarray': W.TA, 'scipy.linalg': W.LA, '.linalg': E.Stub('.linalg', allclose=allclose, prop_to_id=None, _inv_int=None),
                '.kwant_continuum': E.Stub('.kwant_continuum', sympify=None)})
    return E.load('groups', imp)


@obligation(P, ['groups.ContinuousGroupGenerator.apply', 'groups.ContinuousGroupGenerator.__init__'])
def generator(ob):
    """i (H U - U H) + i sum_ij dH/dk_i R_ij k_j, for 0 to 3 momenta, with either part missing, for dense and
    sparse Hamiltonians."""
    g = generator_world()
    declare('Ugen', 'n', 'n', 'hermitian')
    SQ = c05.SQ
    for d, fmt, r, u in itertools.product((1, 2, 3), ('dense', 'csr'), (True, False), (True, False)):
        cls = C.contract_class(C.world(), 'Model')

        def build():
            A = C.family(cls, 'A', SQ, fmt, momenta=C.MomList(d))
            gen = object.__new__(g.ContinuousGroupGenerator)
            gen.R, gen.U = RMat(d) if r else None, W.Dense(Expr.letter('Ugen')) if u else None
            return gen.apply(A)

        H = lambda f=lambda e: e, kf=lambda e: e: spec('A', fmt, SQ, False, f, kf)
        e = Expr.zero('n', 'n')
        if u:
            U = Expr.letter('Ugen')
            e = e + H(lambda a: a @ U).scale(1j) - H(lambda a: U @ a).scale(1j)
        if r:
            R = RMat(d)
            for i, j in itertools.product(range(d), repeat=2):
                e = e + H(kf=lambda k: C.derivative(k, i).smul(R[i, j].e).smul(C.MomList(d)[j].e)).scale(1j)
        for p in explore(build):
            if p.kind == 'raise':
                ob.check('generator: returns', False, raised(p))
                continue
            ob.check('generator formula', C.holds_on_path(p.value.den(), e, p.pc),
                     'computed: {}   specified: {}  on {}'.format(p.value.den(), e, p.pc))
            ob.check('generator: momenta', p.value.momenta == C.MomList(d), p.value.momenta)
            ob.check('generator: shape', p.value.shape == SQ, p.value.shape)


@obligation(P, ['groups.ContinuousGroupGenerator.__init__', 'groups._is_hermitian', 'groups._is_antisymmetric'])
def generator_validation(ob):
    """Exactly the Hermitian antisymmetric R and Hermitian U are accepted, and stored unchanged."""
    g = E.load('groups', W.imports())
    declare('R0', 'd', 'd')
    declare('U0', 'n', 'n')
    for r, u in itertools.product((True, False), repeat=2):
        W.Facts.eqs.clear()
        Rm, Um = W.Dense(Expr.letter('R0')), W.Dense(Expr.letter('U0'))
        R, U = Expr.letter('R0'), Expr.letter('U0')
        need = []
        if r:
            need += [W.eq_formula(R, R.conj().T()), W.eq_formula(R, -R.T())]
        if u:
            need += [W.eq_formula(U, U.conj().T())]
        need = z3.And(need) if need else z3.BoolVal(True)
        for p in explore(lambda: g.ContinuousGroupGenerator(Rm if r else None, Um if u else None)):
            ob.prove('accepted exactly if Hermitian (antisymmetric)', need == z3.BoolVal(p.kind == 'return'), p.pc)
            if p.kind == 'return':
                x = p.value
                ob.check('R and U are stored', (x.R is Rm if r else x.R is None) and (x.U is Um if u else x.U is None))
            else:
                ob.check('rejected with ValueError', isinstance(p.value, ValueError), p.value)
