"""C10: conserved quantities.  The construction of the operators from the block bases, the Killing form, the
centre and the composition of the block reduction, for matrices and algebras of any dimension."""
import itertools

import z3

from . import engine as E
from . import c08        # noqa: F401  (solve_mat_eqn, null space, simultaneous diagonalization: contracts used here)
from . import tensor as t
from .engine import explore, load, Stub, SBool, Symbolic, Unsupported, ContractError, assume
from .tensor import TT, Each, Comp, GList, Dim, tensor, param
from .c08 import IntE
from .obl import obligation, assumption, bounded_only

P = 'C10'
for f in (c08.null_space, c08.basis_of_matrices, c08.simultaneous_diagonalization):
    obligation(P, ['linalg.solve_mat_eqn', 'linalg.nullspace', 'linalg.matrix_basis', 'linalg.simult_diag'])(f)
assumption(P, 'the traceless Hermitian commutant of a family is a reductive Lie algebra: the null space of its Killing '
           'form is its centre, and in every joint eigenspace of the centre it is one su(d) acting on n copies',
           'scipy.linalg.lstsq returns the coefficients of a vector inside of the span of independent columns',
           'sparse_basis(v, reals=True) returns real combinations of the rows of v with the same real span (proved separately in the group sparsification)',
           'scipy.linalg.eigh and svd return unitary eigenvectors and singular vectors; split_list divides the '
           'eigenvalues into the complete sequence of degenerate intervals (proved separately for lists of up to four values)',
           *[a for a in __import__('pv.obl', fromlist=['ASSUME']).ASSUME.get('C08', [])])


def world(extra_np=None, extra=None, over=None):
    np_ = dict(t.NUMPY, array=array, zeros=None, sqrt=None)
    np_.update(extra_np or {})
    m = load('symmetry_finder', {'numpy': Stub('numpy', **{k: v for k, v in np_.items() if v}),
                                 'scipy': Stub('scipy'), 'scipy.linalg': Stub('scipy.linalg', **(over or {})),
                                 '.linalg': Stub('.linalg'), '.groups': Stub('.groups'), '.model': Stub('.model')},
             extra or {}, dict(len=length, list=the_list, tuple=lambda x=(): tuple(x) if not isinstance(x, Symbolic) else x))
    return m.ns


def the_list(x=()):
    if isinstance(x, Comp):
        return [Each(x.p, [x.item])]
    if isinstance(x, (GList, TT)):
        return x
    return list(x)


def length(x):
    if isinstance(x, (list, tuple)) and any(isinstance(e, Each) for e in x):
        return Count(x)
    if hasattr(x, 'pv_len'):
        return x.pv_len()
    return len(x)


class Count:
    """Unknown number of members."""
    def __init__(self, x):
        self.x = x

    def _c(name):
        def f(self, o):
            return SBool(z3.Bool('count {} {}'.format(name, o)))
        return f
    __gt__, __ge__, __lt__, __le__, __eq__, __ne__ = map(_c, ('>', '>=', '<', '<=', '==', '!='))
    __hash__ = None


class OpList(Symbolic):
    """Array of operators; mixed: real combinations of the members with the same real span."""
    def __init__(self, members, mixed=False, flat=False, reals=None):
        self.members, self.mixed, self.flat, self.reals = members, mixed, flat, reals

    @property
    def shape(self):
        return (MDim('m'),) + ((MDim('NN'),) if self.flat else (MDim('N'), MDim('N')))

    def reshape(self, *s):
        s = s[0] if len(s) == 1 and isinstance(s[0], tuple) else s
        names = [getattr(x, 'name', x) for x in s]
        if names == ['m', -1]:
            return OpList(self.members, self.mixed, True, self.reals)
        if names in (['m', 'N', 'N'], [-1, 'N', 'N']):
            return OpList(self.members, self.mixed, False, self.reals)
        raise ContractError('reshape to {}'.format(names))

    def pv_len(self):
        return Count(self.members)

    def pv_comp(self, kind, fn):
        out = []
        if self.flat:
            raise ContractError('rows of flattened operators')
        for e in self.members:
            if isinstance(e, Each):
                out.append(Each(e.p, [x for i in e.items for x in (fn(i) if not isinstance(i, Each) else
                                                                  [Each(i.p, [y for k in i.items for y in fn(k)])])]))
            else:
                out += fn(e)
        return Wrapped(out, self)


class Wrapped(Symbolic):
    def __init__(self, items, src):
        self.items, self.src = items, src


class MDim:
    def __init__(self, name):
        self.name = name


def array(x, *a, **k):
    if isinstance(x, Comp):
        return x.array()
    if isinstance(x, TT):
        return x
    if isinstance(x, list):
        return OpList(x)
    raise Unsupported('array of {}'.format(type(x).__name__))


# ---------------------------------------------------------------- conserved quantities

def block(p, first=None):
    """Basis of one symmetry block: P[a, i, j]."""
    name = 'P%d' % p
    tensor(name, 'd%d' % p, 'N', 'n%d' % p)
    t.isometry(name, 1)
    return TT.named(name)


@obligation(P, ['symmetry_finder.conserved_quantities'])
def conserved(ob):
    for prettify in (False, True):
        t.reset()
        made = []

        def run():
            info = {}

            def mk(p):
                info['p'] = p
                return block(p)

            def basis(dim, traceless=False, antihermitian=False, real=False, sparse=False):
                if antihermitian or real or sparse:
                    raise ContractError('another basis than that of the Hermitian matrices')
                tl = traceless if isinstance(traceless, bool) else bool(traceless)
                info['traceless'] = tl
                q = dim.name
                def l(p):
                    n = 'l%d' % p
                    tensor(n, q, q, hermitian=True, traceless=tl)
                    info['l'] = p
                    return TT.named(n)
                return GList('basis', l, 'basis')

            def sparse_basis(v, *a, **k):
                if not isinstance(v, OpList) or not v.flat:
                    raise ContractError('operators are not flattened')
                if k.get('reals') is not True and not (len(a) > 2 and a[2] is True):
                    raise ContractError('complex combinations of Hermitian operators')
                return OpList(v.members, True, True, True)
            ns = world(extra=dict(matrix_basis=basis, sparse_basis=sparse_basis, PrettyList=lambda x: x,
                                  ContinuousGroupGenerator=lambda R=None, U=None: ('CGG', R, U)))
            Ps = GList('blocks', mk, 'blocks')
            Ps.positions = True
            return ns['conserved_quantities'](Ps, prettify=prettify), info
        for p in explore(run):
            if p.kind == 'raise':
                ob.check('returns', False, repr(p.value))
                continue
            v, info = p.value
            if not isinstance(v, Wrapped):
                raise Unsupported('result {}'.format(type(v)))
            # the list has exactly the generic element: for each block, for each element of the basis
            it = v.items
            ok = len(it) == 1 and isinstance(it[0], Each) and len(it[0].items) == 1 and isinstance(it[0].items[0], Each) \
                and len(it[0].items[0].items) == 1
            ob.check('one operator for every element of the basis of every block', ok, it)
            if not ok:
                continue
            g = it[0].items[0].items[0]
            ob.check('onsite generators', isinstance(g, tuple) and g[:2] == ('CGG', None), g)
            L = g[2]
            first = E.prove(z3.Int('position blocks {}'.format(info['p'])) == 0, p.pc)[0]
            other = E.prove(z3.Int('position blocks {}'.format(info['p'])) != 0, p.pc)[0]
            ob.check('the identity is left out exactly once', (info['traceless'] and first) or (not info['traceless'] and other),
                     (info, str(p.pc)))
            Pn, ln, d, n = 'P%d' % info['p'], 'l%d' % info['l'], 'd%d' % info['p'], 'n%d' % info['p']
            T_ = TT.named(Pn)
            l = TT.named(ln)
            full = t.einsum('aij,ab,bkj->ik', T_, l, T_.conj())
            spec = full - full.trace() * (TT.eye('N') / Dim('N'))
            ob.check('operators act with the basis element on all copies, minus the trace', L.same(spec), (L, spec), 'tensor normal form')
            ob.check('operators are Hermitian', L.same(L.T.conj()), (L, L.T.conj()), 'tensor normal form')
            ob.check('operators are traceless', L.trace().is_zero(), L.trace(), 'tensor normal form')
            # acting inside of the block the operator is l (x) 1 up to a multiple of the identity
            inner = t.einsum('ain,ik,bkm->anbm', T_.conj(), L, T_)
            want = t.einsum('ab,nm->anbm', l, TT.eye(n)) - t.einsum('ab,nm->anbm', TT.eye(d), TT.eye(n)) * (full.trace() / Dim('N'))
            ob.check('operators are independent inside of a block up to the identity', inner.same(want), (inner, want), 'tensor normal form')
            # commutation with a Hermitian term that acts identically on all copies
            tensor('H', 'N', 'N', hermitian=True), tensor('h', n, n, hermitian=True)
            rules = list(t.RULES)
            t.intertwines('H', Pn, 'h')
            H = TT.named('H')
            L._n = None
            ob.check('operators commute with every term that acts identically on all copies', (H @ L - L @ H).is_zero(),
                     H @ L - L @ H, 'tensor normal form')
            t.RULES[:] = rules
            if prettify:
                many = E.prove(z3.Bool('count > 1'), p.pc)[0]
                ob.check('prettified operators are real combinations with the same span',
                         v.src.mixed or not many, v.src.mixed)


# ---------------------------------------------------------------- Lie algebras

@obligation(P, ['symmetry_finder.struct_const', 'symmetry_finder.killing', 'symmetry_finder.casimir',
                'symmetry_finder.separate_lie_algebra'])
def lie_algebra(ob):
    def setup():
        t.reset()
        tensor('L', 'm', 'N', 'N', hermitian=True)
        tensor('f', 'm', 'm', 'm')

    class Flat(Symbolic):
        """A matrix as a vector."""
        def __init__(self, m):
            self.m = m

    class Cols(Symbolic):
        def __init__(self, tt, transposed):
            self.tt, self.tr = tt, transposed

        @property
        def T(self):
            return Cols(self.tt, not self.tr)

    class Gens(TT):
        """The array of the generators."""
        def pv_comp(self, kind, fn):
            p = param('m')
            r = fn(Mat(TT.named('L', (p, t.new('N'), t.new('N'))).terms, ()).with_free(p))
            if len(r) != 1:
                raise Unsupported('filtered')
            return Comp(p, r[0])

    class Mat(TT):
        def with_free(self, p):
            fs = self.terms[0][2][0][2]
            return Mat(self.terms, fs[1:])

        def flatten(self, *a):
            if a:
                raise ContractError('another order')
            return Flat(self)
        ravel = flatten

    def lift(f):
        def g(*a):
            r = f(*a)
            return Mat(r.terms, r.free) if isinstance(r, TT) else r
        return g
    for nm in ('__sub__', '__add__', '__matmul__', '__mul__', 'dot', '__rmul__', '__neg__'):
        setattr(Mat, nm, lift(getattr(TT, nm)))

    def arr(x, *a, **k):
        if isinstance(x, Comp) and isinstance(x.item, Flat):
            return Cols(t.stack(x.item.m, x.p), False)
        if isinstance(x, Comp):
            return x.array()
        if isinstance(x, TT):
            return x
        raise Unsupported('array')

    def lstsq(bas, v, *a, **k):
        if not (isinstance(bas, Cols) and bas.tr and bas.tt.same(TT.named('L')) and isinstance(v, Flat)):
            raise ContractError('expansion in another basis')
        fs = {i for c, s, f in v.m.terms for n, k2, ix in f for i in ix if i in t.PARAMS}
        for a_, b_ in itertools.permutations(fs, 2):
            A = TT.named('L', (a_, t.new('N'), t.new('N')))
            A = TT(A.terms, A.terms[0][2][0][2][1:])
            B = TT.named('L', (b_, t.new('N'), t.new('N')))
            B = TT(B.terms, B.terms[0][2][0][2][1:])
            if v.m.same(A @ B - B @ A):
                k_ = t.new('m')
                return TT([(t.G(1), (), (('f', 0, (a_, b_, k_)),))], (k_,)), 'residues', None, None
        raise ContractError('expansion of something else than a commutator')
    np_ = dict(array=arr, all=lambda x: x, isclose=lambda a, b, *r: True if a == 'residues' and b == 0 else SBool(z3.Bool('closeness')),
               allclose=lambda a, b, *r: SBool(z3.Bool('real Killing form')))

    def gens():
        g = TT.named('L')
        return Gens(g.terms, g.free)

    setup()
    ns = world(np_, dict(commutator=lambda a, b: a @ b - b @ a), dict(lstsq=lstsq))
    for p in explore(lambda: ns['struct_const'](gens())):
        if p.kind == 'raise':
            ob.check('structure constants are returned', False, repr(p.value))
            continue
        ob.check('structure constants: commutators are expanded in the generators', isinstance(p.value, TT) and
                 p.value.same(TT.named('f')), p.value, 'tensor normal form')
    setup()
    ns = world(np_, dict(struct_const=lambda g: TT.named('f') if isinstance(g, Gens) else None))
    spec = t.einsum('ade,bed->ab', TT.named('f'), TT.named('f'))
    for p in explore(lambda: ns['killing'](gens())):
        ob.check('Killing form', p.kind == 'return' and p.value.same(spec), p.value, 'tensor normal form')
    ob.check('the Killing form is symmetric', spec.same(spec.T), spec, 'tensor normal form')
    # centre and semisimple part
    setup()
    tensor('K', 'm', 'm'), tensor('c', 'mc', 'm', real=True), tensor('s', 'ms', 'm', real=True)

    class Form(TT):
        part = 'complex'

        def same_form(self):
            return self.same(TT.named('K'))

        @property
        def imag(self):
            return 'imaginary part'

        @property
        def real(self):
            r = Form(self.terms, self.free)
            r.part = 'real'
            return r
    made = []

    def killing(g):
        if not isinstance(g, Gens):
            raise ContractError('Killing form of something else')
        k = TT.named('K')
        return Form(k.terms, k.free)

    def nullsp(g, *a, **k):
        if not (isinstance(g, Form) and g.same(TT.named('K'))):
            raise ContractError('null space of something else')
        if a or set(k) - {'return_complement'} or not k.get('return_complement'):
            raise ContractError('null space with {} {}'.format(a, k))
        is_real = E.prove(z3.Bool('real Killing form'), E.ctx().pc)[0]
        if is_real and g.part != 'real':
            raise ContractError('null space of a noisy form')
        if not is_real and g.part == 'real':
            raise ContractError('the imaginary part of the form is dropped')
        return TT.named('c'), TT.named('s')
    ns = world(np_, dict(killing=killing, nullspace=nullsp))
    for p in explore(lambda: ns['separate_lie_algebra'](gens())):
        if p.kind == 'raise':
            ob.check('the algebra is separated', False, repr(p.value))
            continue
        C, S = p.value
        L = TT.named('L')
        ob.check('centre: combinations in the null space of the Killing form', C.same(t.einsum('ab,bij->aij', TT.named('c'), L)), C, 'tensor normal form')
        ob.check('semisimple part: combinations in its complement', S.same(t.einsum('ab,bij->aij', TT.named('s'), L)), S, 'tensor normal form')
        ob.check('both parts are Hermitian for a real Killing form', C.same(C.conj().transpose(0, 2, 1)) and S.same(S.conj().transpose(0, 2, 1)),
                 C, 'tensor normal form')


# ---------------------------------------------------------------- composition

class Fam(Symbolic):
    """Family of matrices: the arbitrary member is H restricted by the isometry iso (None: not restricted)."""
    def __init__(self, iso=None):
        self.iso = iso

    def pv_comp(self, kind, fn):
        r = fn(HMat(self.iso))
        if len(r) != 1 or not isinstance(r[0], HMat) or kind == 'set':
            raise ContractError('restricted family: {}'.format(r))
        return Fam(r[0].iso)

    def __getitem__(self, k):
        return HMat(self.iso)

    def pv_len(self):
        return Dim('members')


class HMat:
    __array_ufunc__ = None

    def __init__(self, iso, half=None):
        self.iso, self.half = iso, half

    @property
    def shape(self):
        return (Dim('N') if self.iso is None else Dim(self.iso.cols),) * 2

    def __rmatmul__(self, o):
        if not isinstance(o, Iso) or not (o.t and o.c) or self.half or self.iso is not None:
            raise ContractError('restriction by something else than P^+ h P')
        return HMat(self.iso, o)

    def __matmul__(self, o):
        if isinstance(o, Iso) and self.half is not None and not o.t and not o.c and self.half.name == o.name:
            return HMat(o)
        raise ContractError('restriction by something else than P^+ h P')


class Iso:
    """Isometry (N x n), or product of isometries."""
    __array_ufunc__ = None

    def __init__(self, name, cols, tr=0, c=0):
        self.name, self.cols, self.t, self.c = name, cols, tr, c

    @property
    def T(self):
        return Iso(self.name, self.cols, self.t ^ 1, self.c)

    def conj(self):
        return Iso(self.name, self.cols, self.t, self.c ^ 1)
    conjugate = conj

    def dot(self, o):
        if not isinstance(o, Iso):
            return NotImplemented
        if self.t or self.c or o.t or o.c:
            raise ContractError('product of adjoint projectors')
        return Iso(self.name + (o.name,) if isinstance(self.name, tuple) else (self.name, o.name), o.cols)
    __matmul__ = dot


@obligation(P, ['symmetry_finder._reduce_hamiltonian'])
def block_reduction(ob):
    class GensOf:
        def __init__(self, fam):
            self.fam = fam

        def pv_len(self):
            return IntE(z3.Int('generators ' + str(self.fam.iso and self.fam.iso.name)))

    class Centre:
        def __init__(self, gens):
            self.gens = gens

        def pv_len(self):
            return IntE(z3.Int('centre'))

    class Sun(Symbolic):
        def __init__(self, g):
            self.g = g

        def pv_comp(self, kind, fn):
            p = param('d')
            r = fn(Iso('Q', 'n'))
            if len(r) != 1:
                raise ContractError('copies are skipped')
            return Comp(p, r[0])

    def run():
        rec = []

        def solve(h, hr=None, hermitian=False, traceless=False, conjugate=False, sparse=None, k_max=-10):
            if not isinstance(h, Fam) or hr is not None or conjugate is not False or k_max != -10:
                raise ContractError('other equations than the commutation with the family')
            if not (hermitian and traceless):
                raise ContractError('generators that are not Hermitian and traceless')
            rec.append(sparse)
            assume(z3.Int('generators ' + str(h.iso and h.iso.name)) >= 0)
            return GensOf(h)

        def sep(g):
            if not isinstance(g, GensOf) or g.fam.iso is not None:
                raise ContractError('centre of another algebra')
            assume(z3.Int('centre') >= 0)
            return Centre(g), 'semisimple part'

        def sd(c, *a, **k):
            if not isinstance(c, Centre) or a or k:
                raise ContractError('simultaneous diagonalization of {}'.format(c))
            if not E.prove(z3.Int('centre') > 0, E.ctx().pc)[0]:
                raise ContractError('simultaneous diagonalization of nothing')
            return GList('eigenspaces', lambda p: Iso('P', 'k'), 'eigenspaces')

        def sun(g, *a, **k):
            if not isinstance(g, GensOf) or g.fam.iso is None:
                raise ContractError('symmetry adapted basis of another algebra')
            if not E.prove(z3.Int('generators ' + str(g.fam.iso.name)) > 0, E.ctx().pc)[0]:
                raise ContractError('symmetry adapted basis for no generators')
            return Sun(g)

        def eye(n, *a, **k):
            return Iso('1_' + n.name, n.name)

        def arr(x):
            if isinstance(x, list):
                return ('array', tuple(x))
            if isinstance(x, Comp):
                return ('array', x)
            raise Unsupported('array')
        ns = world(dict(eye=eye, array=arr, dot=lambda a, b: a.dot(b)), dict(
            solve_mat_eqn=solve, separate_lie_algebra=sep, simult_diag=sd, symmetry_adapted_sun=sun))
        return ns['_reduce_hamiltonian'](Fam(), sparse='S'), rec
    for p in explore(run):
        if p.kind == 'raise':
            ob.check('returns', False, repr(p.value))
            continue
        v, rec = p.value
        ob.check('the storage is passed on', all(s == 'S' for s in rec), rec)
        z = lambda f: E.prove(f, p.pc)[0]
        none = z(z3.Int('generators None') == 0)
        central = z(z3.Int('centre') > 0)
        ob.check('result is a tuple of block bases', isinstance(v, tuple) and len(v) == 1, v)
        if none:
            ob.check('no conserved quantity: one block', v[0] == ('array', v[0][1]) and len(v[0][1]) == 1 and v[0][1][0].name == '1_N', v)
            continue
        b = v[0]
        if central:
            ok = isinstance(b, Each) and len(b.items) == 1
            ob.check('one block for every joint eigenspace of the centre', ok, v)
            if not ok:
                continue
            b, base = b.items[0], 'P'
        else:
            base = '1_N'
            ob.check('an algebra with a centre is split into its eigenspaces', z(z3.Int('centre') == 0), str(p.pc))
        ok = isinstance(b, tuple) and b[0] == 'array'
        ob.check('every block is an array', ok, b)
        if not ok:
            continue
        b = b[1]
        simple = z(z3.Int('generators {}'.format(base)) > 0)
        if simple:
            ob.check('bases are products of the eigenspace and the adapted basis of its own algebra',
                     isinstance(b, Comp) and isinstance(b.item, Iso) and b.item.name == (base, 'Q'), getattr(b, 'item', b))
        else:
            ob.check('eigenspaces without further generators are one copy',
                     isinstance(b, tuple) and len(b) == 1 and b[0].name[0] == base and b[0].name[1].startswith('1_'), b)


from . import c09, c15      # noqa: E402,F401 (symmetries(), rref and sparse_basis: registered here, too)
bounded_only(P, 'symmetry_adapted_sun: two or three copies; its optional check')


# ---------------------------------------------------------------- symmetry adapted bases

class Sub:
    """Basis V (Q x 1_n) W of a subspace that holds f copies of the n-dimensional space; aligned: W is that of
    the named subspace (up to a phase of Q)."""
    def __init__(self, ctx, path, f, aligned=None):
        self.ctx, self.path, self.f, self.aligned = ctx, path, f, aligned if aligned is not None else path

    @property
    def shape(self):
        return (self.ctx.d * self.ctx.n, self.f * self.ctx.n)

    def conj(self):
        return Flip(self, conj=True)
    conjugate = conj

    @property
    def T(self):
        return Flip(self, T=True)

    def __matmul__(self, o):
        if isinstance(o, Vectors) and o.of.sub.path == self.path and o.of.sub.aligned == self.aligned and o.sel is not None:
            b, e = o.sel
            k = [s for s in o.of.blocks or () if s == (b, e)]
            if not k:
                raise ContractError('columns {} are no degenerate eigenspace'.format(o.sel))
            return Sub(self.ctx, self.path + ((o.of.g.i, b, e),), (e - b) // self.ctx.n)
        if isinstance(o, Polar) and o.adjoint and o.b.P.path == self.path and o.b.P.aligned == self.aligned:
            return Sub(self.ctx, self.path, self.f, o.b.P0.aligned)
        raise ContractError('basis times {}'.format(o))


class Flip:
    def __init__(self, x, T=False, conj=False):
        self.x, self._t, self._c = x, T, conj

    @property
    def T(self):
        return self._n(Flip(self.x, not self._t, self._c))

    def conj(self):
        return self._n(Flip(self.x, self._t, not self._c))
    conjugate = conj

    def _n(self, r):
        return r if r._t or r._c else r.x

    def __matmul__(self, o):
        if self._t and self._c and isinstance(self.x, Sub) and isinstance(o, Gen):
            return Half(self.x, o)
        if self._t and self._c and isinstance(self.x, Sub) and isinstance(o, GP):
            return Block(self.x, o.g, o.P)
        raise ContractError('product with a basis that is not the adjoint')


class Half:
    def __init__(self, P0, g):
        self.P0, self.g = P0, g

    def __matmul__(self, P):
        if not isinstance(P, Sub):
            raise ContractError('block of {}'.format(P))
        return Block(self.P0, self.g, P)


class Block:
    """P0^dagger g P"""
    def __init__(self, P0, g, P):
        self.P0, self.g, self.P = P0, g, P
        self.sub, self.blocks = P, None

    def zero(self):
        return z3.Bool('zero {} {} {}'.format(self.P0.path, self.g.i, self.P.path))


class Gen:
    def __init__(self, i):
        self.i = i

    def __matmul__(self, P):
        if isinstance(P, Sub):
            return GP(self, P)
        return NotImplemented


class GP:
    def __init__(self, g, P):
        self.g, self.P = g, P


class Gens:
    def __init__(self, count, dim):
        self.count, self.shape = count, (count, dim, dim)

    def __len__(self):
        return self.count

    def __iter__(self):
        return iter([Gen(i) for i in range(self.count)])

    def __getitem__(self, i):
        return Gen(range(self.count)[i]) if isinstance(i, int) else [Gen(j) for j in range(self.count)[i]]


class Evals:
    def __init__(self, of):
        self.of = of


class Vectors:
    def __init__(self, of, sel=None):
        self.of, self.sel = of, sel

    def __getitem__(self, k):
        if not (isinstance(k, tuple) and len(k) == 2 and k[0] == slice(None) and isinstance(k[1], slice) and k[1].step is None):
            raise ContractError('columns {}'.format(k))
        return Vectors(self.of, (k[1].start or 0, self.of.sub.shape[1] if k[1].stop is None else k[1].stop))


class UV:
    def __init__(self, b, which):
        self.b, self.which = b, which

    def __matmul__(self, o):
        if isinstance(o, UV) and (self.which, o.which) == ('u', 'vh') and self.b is o.b:
            return PolarF(self.b)
        if isinstance(o, Flip) or isinstance(o, UV):
            raise ContractError('product of singular vectors')
        return NotImplemented

    @property
    def T(self):
        raise Unsupported('transposed singular vectors')
    conj = conjugate = T


class PolarF:
    """u vh and what it becomes by transposition and conjugation"""
    def __init__(self, b, t=False, c=False):
        self.b, self._t, self._c = b, t, c

    @property
    def T(self):
        return self._n(PolarF(self.b, not self._t, self._c))

    def conj(self):
        return self._n(PolarF(self.b, self._t, not self._c))
    conjugate = conj

    def _n(self, r):
        return Polar(r.b) if r._t and r._c else r


class Polar:
    adjoint = True

    def __init__(self, b):
        self.b = b

    @property
    def T(self):
        return PolarF(self.b, False, True)

    def conj(self):
        return PolarF(self.b, True, False)
    conjugate = conj


class Tree:
    def __init__(self, d, n):
        self.d, self.n, self.tested = d, n, set()


def compositions(k):
    if k == 0:
        return [()]
    return [(a,) + r for a in range(1, k + 1) for r in compositions(k - a)]


@obligation([P, 'C11'], ['symmetry_finder.symmetry_adapted_sun'])
def adapted_bases(ob):
    """symmetry_adapted_sun: the bases returned split the space into d copies of n dimensions, and all of them have the
    orientation of the first, so that every generator is a number in every block.  d = 2, 3 (bounded), eigenvalues in
    any order and with any degeneracy, generators that vanish between two copies anywhere."""
    import numpy as np
    from itertools import combinations_with_replacement                     # noqa: F401
    for d, n, mode in ((2, 2, 'all'), (2, 3, 'all'), (3, 2, 'splitting'), (3, 2, 'orientation'), (3, 3, 'orientation')):
        def run():
            tree = Tree(d, n)

            def eye(k, *a, **kw):
                if k != n * d:
                    raise ContractError('identity of size {}'.format(k))
                return Sub(tree, (), d)

            def eigh(b):
                if not isinstance(b, Block) or b.P0.path != b.P.path:
                    raise ContractError('eigenvalues of something else')
                tree.tested.add((b.g.i, b.P.path))
                f = b.P.f
                opts = compositions(f)
                if mode == 'orientation':
                    opts = [(1,) * f]
                pick = opts[-1]
                for j, o in enumerate(opts[:-1]):
                    if E.decide(z3.Bool('{} splits {} as {}'.format(b.g.i, b.P.path, o))):
                        pick = o
                        break
                at, out = 0, []
                for k in pick:
                    out.append((at * n, (at + k) * n))
                    at += k
                b.blocks = out
                return Evals(b), Vectors(b)

            def split_list(ev, tol=None):
                if not isinstance(ev, Evals):
                    raise ContractError('degeneracies of something else')
                return ev.of.blocks

            def allclose(b, z, *a, **k):
                if not isinstance(b, Block) or z != 0:
                    raise ContractError('closeness of something else')
                if b.P0.path == b.P.path:
                    raise ContractError('diagonal block')
                if mode == 'splitting':
                    return False
                # the generators span all Hermitian matrices: one of them does not vanish between the two
                assume(z3.Not(z3.And(*[Block(b.P0, Gen(i), b.P).zero() for i in range(d * d - 1)])))
                return SBool(b.zero())

            def svd(b, *a, **k):
                if mode != 'splitting' and not (isinstance(b, Block) and c08.implied(z3.Not(b.zero()))):
                    raise ContractError('singular vectors of a block that may vanish')
                return UV(b, 'u'), 's', UV(b, 'vh')
            np_ = Stub('numpy', sqrt=np.sqrt, eye=eye, identity=eye, array=lambda x, **k: list(x), allclose=allclose)
            m = load('symmetry_finder', {'numpy': np_, 'scipy': Stub('scipy'), 'scipy.linalg': Stub('la', eigh=eigh, svd=svd),
                                         '.linalg': Stub('.linalg'), '.groups': Stub('.groups'), '.model': Stub('.model')},
                     dict(split_list=split_list, allclose=allclose))
            try:
                return tree, m.ns['symmetry_adapted_sun'](Gens(d * d - 1, n * d))
            except ValueError as ex:
                return tree, ex
        for p in explore(run):
            what = 'd={}, n={}'.format(d, n)
            if p.kind == 'raise':
                ob.check('returns', False, (what, repr(p.value)))
                continue
            tree, v = p.value
            if isinstance(v, ValueError):
                # only if some subspace is degenerate for every generator, which is impossible for su(d)
                paths = {q for _, q in tree.tested}
                anc = [q for q in paths if all(any((i, q[:k]) in tree.tested for k in range(len(q) + 1)) for i in range(d * d - 1))]
                ob.check('gives up only after every generator was tried', bool(anc), (what, sorted(tree.tested)))
                continue
            ok = isinstance(v, list) and all(isinstance(x, Sub) for x in v) and len(v) == d
            ob.check('as many bases as copies', ok, (what, v))
            if not ok:
                continue
            ob.check('every basis spans one copy', all(x.f == 1 for x in v) and len({x.path for x in v}) == d, [x.path for x in v])
            # leaves of one tree of orthogonal decompositions
            div = all(first_difference(x.path, y.path) for x in v for y in v if x.path != y.path)
            ob.check('the copies are orthogonal', div, [x.path for x in v])
            ob.check('all bases have the orientation of the first', all(x.aligned == v[0].aligned for x in v), [(x.path, x.aligned) for x in v])
    for d, n in ((2, 1), (3, 1)):
        def run1():
            m = load('symmetry_finder', {'numpy': np, 'scipy': Stub('scipy'), 'scipy.linalg': Stub('la'),
                                         '.linalg': Stub('.linalg'), '.groups': Stub('.groups'), '.model': Stub('.model')}, {})
            return m.ns['symmetry_adapted_sun'](Gens(d * d - 1, n * d))
        for p in explore(run1):
            ok = p.kind == 'return' and np.shape(p.value) == (d, d, 1)
            ob.check('full matrix algebra: one-dimensional copies', ok, p.value)
            if ok:
                U = np.hstack(list(p.value))
                ob.check('full matrix algebra: an orthonormal basis', np.array_equal(U.T @ U, np.eye(d)), U)
    for count, dim in ((2, 4), (4, 4), (3, 3), (8, 4), (8, 5)):
        def run2():
            m = load('symmetry_finder', {'numpy': np, 'scipy': Stub('scipy'), 'scipy.linalg': Stub('la'),
                                         '.linalg': Stub('.linalg'), '.groups': Stub('.groups'), '.model': Stub('.model')}, {})
            return m.ns['symmetry_adapted_sun'](Gens(count, dim))
        for p in explore(run2):
            ob.check('other shapes are refused', p.kind == 'raise' and isinstance(p.value, ValueError), (count, dim, p.value))


def first_difference(x, y):
    """Both paths pass through different eigenspaces of the same generator of the same subspace."""
    for k in range(min(len(x), len(y))):
        if x[k] != y[k]:
            return x[k][0] == y[k][0] and (x[k][2] <= y[k][1] or y[k][2] <= x[k][1])
    return False
