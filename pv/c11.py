"""C11: continuous rotations.  The linear system of continuous_symmetries, its column layout and the generators that
are rebuilt from its null vectors; blocks of any dimension, one to three blocks (bounded), two and three momenta."""
import itertools

import numpy as np
import z3

from . import engine as E
from . import c02, c08        # noqa: F401
from . import tensor as t
from .engine import explore, load, Stub, SBool, Symbolic, Unsupported, ContractError, assume
from .tensor import TT, Each, Comp, GList, Dim, tensor, param
from .c08 import IntE, implied
from .obl import obligation, assumption, bounded_only, REG, FUNCS

P = 'C11'
for f in (c08.null_space, c08.basis_of_matrices, c08.simultaneous_diagonalization):
    obligation(P, ['linalg.solve_mat_eqn', 'linalg.nullspace', 'linalg.matrix_basis', 'linalg.simult_diag'])(f)
assumption(P, 'the number of elements of matrix_basis(d, traceless) is d^2 - 1, that of the real antisymmetric one is d (d-1)/2',
           'the infinitesimal action of a generator on a Hamiltonian is linear in its spatial and in its onsite part (C02)',
           'sparse_basis returns combinations of the rows with the same span (C15)',
           'block bases as proved for C10',
           *__import__('pv.obl', fromlist=['ASSUME']).ASSUME.get('C08', []))


# ---------------------------------------------------------------- families as vectors

class ModelL(Symbolic):
    """Arbitrary member of a family."""
    def __init__(self, p):
        self.p = p

    def keys(self):
        return KeySet({self.p})

    def value_list(self, keys):
        if not isinstance(keys, KeySet) or not keys.listed:
            raise ContractError('values for unordered keys')
        return GList('keys', lambda q: MatE(self.p, q, ('re+im',)), 'keys')


class KeySet(Symbolic):
    """Union of the keys of the members in who; 'all': the keys passed in."""
    def __init__(self, who, listed=False):
        self.who, self.listed = set(who), listed

    def __or__(self, o):
        return KeySet(self.who | o.who)
    __ior__ = __ror__ = __or__

    def pv_list(self):
        return KeySet(self.who, True)

    def __ge__(self, o):
        return SBool(z3.Or(*[z3.Bool('keys %s >= keys %s' % (a, b)) for a in self.who for b in o.who])) if not (o.who <= self.who) else True

    def __bool__(self):
        return E.decide(z3.Bool('some keys'))


class MatE:
    def __init__(self, p, q, parts, flat=False):
        self.p, self.q, self.parts, self.flat = p, q, parts, flat

    def reshape(self, *s):
        if s not in ((-1,), ((-1,),)):
            raise ContractError('reshape {}'.format(s))
        return MatE(self.p, self.q, self.parts, True)

    def flatten(self):
        return MatE(self.p, self.q, self.parts, True)
    ravel = flatten

    @property
    def real(self):
        return MatE(self.p, self.q, ('re',), self.flat)

    @property
    def imag(self):
        return MatE(self.p, self.q, ('im',), self.flat)


class VecE:
    def __init__(self, p, q, parts):
        self.p, self.q, self.parts = p, q, parts


@obligation(['C11', 'C12', 'C13', 'C14', 'C15'], ['linalg.family_to_vectors'])
def families_as_vectors(ob):
    for given in (False, True):
        def run():
            def concat(a, *r, **k):
                if isinstance(a, Comp):
                    x = a.item
                    if not isinstance(x, VecE) or x.q != a.p:
                        raise Unsupported('concatenation')
                    return ('row', x.p, x.parts)
                if not all(isinstance(x, MatE) and x.flat for x in a) or len({(x.p, x.q) for x in a}) != 1:
                    raise Unsupported('concatenation of {}'.format(a))
                return VecE(a[0].p, a[0].q, tuple(y for x in a for y in x.parts))

            def vstack(rows):
                return ('matrix', rows)
            m = load('linalg', {'numpy': Stub('numpy', concatenate=concat, hstack=concat, vstack=vstack, array=vstack,
                                              empty=lambda s: ('empty', s), zeros=lambda s: ('empty', s)), 'scipy': Stub('scipy')},
                     builtin_overrides={'set': lambda x=(): KeySet(x.who) if isinstance(x, KeySet) else KeySet(set()) if x == () else set(x),
                                        'list': lambda x=(): x.pv_list() if isinstance(x, KeySet) else list(x),
                                        'all': lambda x: (bool(x.item) if isinstance(x, Comp) else all(x)),
                                        'len': lambda x: x.pv_len() if hasattr(x, 'pv_len') else len(x)})
            if given:
                return m.ns['family_to_vectors'](GList('members', ModelL), all_keys=KeySet({'given'}, True))

            class Fam(GList):
                def pv_for(self, body, get, set_):
                    b = get()
                    ks = {k: v for k, v in b.items() if isinstance(v, KeySet)}
                    if ks:      # union over all members
                        p_ = 'every'
                        body(ModelL(p_))
                        return None
                    return GList.pv_for(self, body, get, set_)

                def pv_comp(self, kind, fn):
                    p = param('members')
                    r = fn(ModelL('every'))     # an arbitrary member, whose keys are among those of every member
                    return Comp(p, r[0])
            return m.ns['family_to_vectors'](Fam('members', ModelL))
        for p in explore(run):
            if p.kind == 'raise':
                ob.check('raises only an AssertionError', isinstance(p.value, AssertionError) and given, repr(p.value))
                continue
            v = p.value
            if v[0] == 'empty':
                ob.check('no terms: rows without entries', isinstance(v[1], tuple) and v[1][0] == Dim('members') and v[1][1] == 0, v)
                ob.prove('no terms: only without keys', z3.Not(z3.Bool('some keys')), p.pc)
                continue
            rows = v[1]
            ok = isinstance(rows, list) and len(rows) == 1 and isinstance(rows[0], Each) and len(rows[0].items) == 1
            ok = ok or isinstance(rows, Comp)
            ob.check('one row for every member', ok, rows)
            if not ok:
                continue
            r, q = (rows[0].items[0], rows[0].p) if isinstance(rows, list) else (rows.item, rows.p)
            ob.check('rows list the real and imaginary parts of the matrices of all keys', r == ('row', q, ('re', 'im')) or
                     r == ('row', q, ('im', 're')), r)


# ---------------------------------------------------------------- continuous rotations

class Gen:
    """ContinuousGroupGenerator."""
    def __init__(self, R, L):
        self.R, self.U = R, L

    def apply(self, m):
        if isinstance(m, RHam):
            if (self.R is None) == (self.U is None):
                raise ContractError('both or no parts of the generator are applied')
            return Trf(self, m.i)
        if isinstance(m, TheModel):
            return Final()
        raise ContractError('applied to {}'.format(m))


class Final:
    def allclose(self, o, *a, **k):
        return True      # by the equations solved and the linearity of the action


class Trf:
    def __init__(self, g, i):
        self.g, self.i = g, i

    def keys(self):
        return RKeys(self.i, {('trf', getattr(self.g.R, 'k', None)) if self.g.R is not None else ('own',)})


class RKeys(Symbolic):
    def __init__(self, i, what, listed=False):
        self.i, self.what, self.listed = i, set(what), listed

    def __or__(self, o):
        if o.i != self.i:
            raise ContractError('keys of different blocks')
        return RKeys(self.i, self.what | o.what)
    __ior__ = __or__

    def pv_list(self):
        return RKeys(self.i, self.what, True)


class RHam:
    def __init__(self, i):
        self.i = i

    @property
    def shape(self):
        return (D(self.i), D(self.i))

    def values(self):
        return [HShape(self.i)]

    def keys(self):
        return RKeys(self.i, {('own',)})


class HShape:
    def __init__(self, i):
        self.shape = (D(i), D(i))


def D(i):
    return Int('n%d' % i)


class Int(IntE):
    """Dimension of a block."""
    def __init__(self, t):
        IntE.__init__(self, z3.Int(t) if isinstance(t, str) else t)

    def pv_float(self):
        return self

    def __int__(self):
        raise Unsupported('int')


def exact(x):
    if isinstance(x, float) and x == int(x):
        return int(x)
    return x


class RMat:
    """1j * (k-th real antisymmetric matrix) * coefficient."""
    __array_ufunc__ = None

    def __init__(self, k, c=1, v=()):
        self.k, self.c, self.v = k, c, v

    def __mul__(self, o):
        if isinstance(o, (int, float, complex)):
            return RMat(self.k, self.c * o, self.v)
        if isinstance(o, Comp1):
            return RMat(self.k, self.c, self.v + (o.name,))
        return NotImplemented
    __rmul__ = __mul__

    def __add__(self, o):
        return RSum(RSum.of(self).terms + RSum.of(o).terms)
    __radd__ = __add__


class RSum:
    def __init__(self, terms):
        self.terms = terms

    @staticmethod
    def of(o):
        if isinstance(o, RSum):
            return o
        if isinstance(o, RMat):
            return RSum([(o.k, o.c, o.v)])
        if o == 0:
            return RSum([])
        raise Unsupported('sum with {}'.format(o))

    def __add__(self, o):
        return RSum(self.terms + RSum.of(o).terms)
    __radd__ = __add__


class Comp1:
    """Component of the null vector."""
    def __init__(self, name):
        self.name = name


class LBasis(Symbolic):
    """Traceless Hermitian matrices of the size of block i."""
    def __init__(self, i):
        self.i = i

    def pv_len(self):
        return LenB(self.i)

    def pv_comp(self, kind, fn):
        p = param('basis%d' % self.i)
        r = fn(LMem(self.i, p))
        if len(r) != 1:
            raise Unsupported('filtered')
        return BComp(self.i, p, r[0])

    def pv_enumerate(self, *a):
        if a:
            raise Unsupported('enumerate from another start')
        b = self

        class En(Symbolic):
            def pv_comp(self, kind, fn):
                p = param('basis%d' % b.i)
                j = z3.Int('j%d' % p)
                assume(z3.And(j >= 0, j < width(b.i)))
                r = fn((Int(j), LMem(b.i, p, j)))
                if len(r) != 1:
                    raise Unsupported('filtered')
                return BComp(b.i, p, r[0])
        return En()


def width(i):
    n = z3.Int('n%d' % i)
    return n * n - 1


class LenB(IntE):
    def __init__(self, i):
        self.i = i
        IntE.__init__(self, width(i))


class LMem:
    """Arbitrary member of the basis of block i, times a component of the null vector."""
    __array_ufunc__ = None

    def __init__(self, i, p, j=None, v=None):
        self.i, self.p, self.j, self.v = i, p, j, v

    def __mul__(self, o):
        if isinstance(o, Comp1) and self.v is None:
            return LMem(self.i, self.p, self.j, o.name)
        return NotImplemented
    __rmul__ = __mul__


class BComp(Symbolic):
    """Something for every member of the basis of block i."""
    def __init__(self, i, p, item):
        self.i, self.p, self.item = i, p, item

    def __bool__(self):
        return E.decide(width(self.i) > 0)

    def pv_len(self):
        return IntE(width(self.i))

    def pv_sum(self, start=0):
        x = self.item
        if not isinstance(x, LMem) or x.v is None or start != 0:
            raise Unsupported('sum')
        if x.v != ('entry', 'L', self.i):
            raise ContractError('component {} for the basis of block {}'.format(x.v, self.i))
        return LSum(self.i)


class LSum:
    """l_i = sum over the basis of block i with the components of the null vector that belong to it."""
    def __init__(self, i):
        self.i = i


class VMat:
    """Matrix whose columns are transformed Hamiltonians (after .T); segs: list of ('R', k) or ('L', i)."""
    def __init__(self, i, segs, t=False):
        self.i, self.segs, self.t = i, segs, t

    @property
    def T(self):
        return VMat(self.i, self.segs, not self.t)

    def pv_len(self):
        return RowsOf(self.i)


class RowsOf:
    def __init__(self, i):
        self.i = i


class TheModel:
    format = np.ndarray

    def __init__(self, dim):
        self.momenta = ['k%d' % i for i in range(dim)]

    def values(self):
        return ['values']


class TheBlochModel(TheModel):
    pass


class _SP:
    pass


@obligation(P, ['symmetry_finder.continuous_symmetries'])
def linear_system(ob):
    for dim, nb, prettify, bloch in [(d, n, pr, False) for d in (2, 3) for n in (1, 2, 3) for pr in (False, True)] + [
            (0, 1, True, False), (1, 1, True, False), (2, 1, True, True)]:
        what = 'momenta={}, blocks={}, prettify={}'.format(dim, nb, prettify)
        t.reset()
        for i in range(nb):
            tensor('P%d' % i, 'd%d' % i, 'N', 'n%d' % i), tensor('l%d' % i, 'n%d' % i, 'n%d' % i, hermitian=True)

        class PBlock:
            def __init__(self, i, c=0):
                self.i, self.c = i, c
                self.shape = (Dim('d'), Dim('N'), D(i))

            def conj(self):
                return PBlock(self.i, self.c ^ 1)
            conjugate = conj

        def run():
            rec = {}
            nR = dim * (dim - 1) // 2

            def mb(d, traceless=False, antihermitian=False, real=False, sparse=False):
                if isinstance(d, int) and not isinstance(d, IntE):
                    if d != dim or not (antihermitian and real):
                        raise ContractError('rotation generators')
                    return [RMat(k) for k in range(nR)]
                if antihermitian or real or not traceless:
                    raise ContractError('onsite generators')
                for i in range(nb):
                    if z3.eq(d.t, z3.Int('n%d' % i)):
                        return LBasis(i)
                raise ContractError('onsite generators of the wrong size')

            def f2v(fam, all_keys=None):
                if not isinstance(all_keys, RKeys) or not all_keys.listed:
                    raise ContractError('keys are not fixed')
                if isinstance(fam, BComp):
                    x = fam.item
                    if not isinstance(x, Trf) or x.g.R is not None or not isinstance(x.g.U, LMem) or x.g.U.i != fam.i or x.i != fam.i:
                        raise ContractError('transformed Hamiltonians')
                    i, segs, ks = x.i, [('L', fam.i)], {('own',)}
                else:
                    if not all(isinstance(x, Trf) and x.g.U is None and isinstance(x.g.R, RMat) for x in fam):
                        raise ContractError('transformed Hamiltonians')
                    if any(x.g.R.c != 1j or x.g.R.v for x in fam):
                        raise ContractError('spatial parts {}'.format([x.g.R.c for x in fam]))
                    i = fam[0].i
                    segs, ks = [('R', x.g.R.k) for x in fam], {('trf', x.g.R.k) for x in fam}
                    if any(x.i != i for x in fam):
                        raise ContractError('different blocks in a family')
                if all_keys.i != i or not ks <= all_keys.what:
                    raise ContractError('keys are missing')
                rec.setdefault('keys', {}).setdefault(i, []).append(all_keys)
                return VMat(i, segs)

            def zeros(shape, *a, **k):
                if isinstance(shape[0], RowsOf):
                    if shape[1] != 0:
                        raise ContractError('columns without meaning')
                    return VMat(shape[0].i, [], True)
                if [getattr(s, 'name', s) for s in shape] != ['N', 'N']:
                    raise ContractError('operator of the wrong shape')
                return TT.zero('N', 'N')

            def vstack(bl):
                if [b.i for b in bl] != list(range(nb)) or not all(b.t for b in bl):
                    raise ContractError('stacked blocks {}'.format([b.i for b in bl]))
                if len({tuple(b.segs) for b in bl}) != 1:
                    raise ContractError('stacked blocks with different columns')
                return ('all rows', bl[0].segs)

            def block_diag(*bl):
                if [b.i for b in bl] != list(range(nb)) or not all(b.t for b in bl):
                    raise ContractError('diagonal blocks')
                for b in bl:
                    if not b.segs and not implied(width(b.i) == 0):
                        raise ContractError('onsite part of a block is missing')
                return ('diagonal', [s for b in bl for s in (b.segs or [('L', b.i)])])

            def hstack(a):
                if a[0][0] != 'all rows' or a[1][0] != 'diagonal':
                    raise ContractError('system of equations')
                return ('system', a[0][1] + a[1][1])

            def ns_(c, atol=None, return_complement=False, sparse=None, k_max=-10):
                if c[0] != 'system' or atol is not None or return_complement or k_max != -10:
                    raise ContractError('null space of another system')
                rec['sparse'] = sparse
                return Null(c[1])

            def sb(n, num_digits=3, reals=False):
                return n

            class Null(Symbolic):
                def __init__(self, segs):
                    self.segs = segs

                def pv_for(self, body, get, set_):
                    return t.generic_loop('solutions', lambda p: Vec(self.segs), body, get, set_)

            class Vec:
                def __init__(self, segs):
                    self.segs = segs

                def __getitem__(self, k):
                    k = IntE.of(exact(k))
                    off = z3.IntVal(0)
                    for s in self.segs:
                        if s[0] == 'R':
                            if implied(k == off):
                                return Comp1(('entry',) + s)
                            off = off + 1
                        else:
                            js = [v for v in c08._vars(k) if str(v).startswith('j')]
                            if js and implied(k == off + js[0]) and implied(z3.And(js[0] >= 0, js[0] < width(s[1]))):
                                return Comp1(('entry',) + s)
                            off = off + width(s[1])
                    raise ContractError('component {} of a solution'.format(k))

            def einsum(spec, *ops, **k):
                a, l, b = ops
                if not isinstance(l, LSum):
                    raise ContractError('onsite part')
                lt = TT.named('l%d' % l.i)
                A, B = [TT.named('P%d' % x.i, conj=x.c) for x in (a, b)]
                return t.einsum(spec, A, lt, B)
            for i in range(nb):
                assume(z3.Int('n%d' % i) >= 1)
            np_ = Stub('numpy', zeros=zeros, vstack=vstack, hstack=hstack, einsum=einsum, ndarray=np.ndarray,
                       sum=lambda l: sum(l, 0) if l else 0)
            reduced = [RHam(i) for i in range(nb)]

            def rmodel(m, Ps=None):
                if not isinstance(m, TheModel) or [x.i for x in Ps] != list(range(nb)):
                    raise ContractError('reduction of another model')
                return list(reduced)
            m = load('symmetry_finder', {'numpy': np_, 'scipy': Stub('scipy', sparse=Stub('s', spmatrix=_SP)),
                                         'scipy.sparse': Stub('s', spmatrix=_SP),
                                         'scipy.linalg': Stub('la', block_diag=block_diag), '.linalg': Stub('.linalg'),
                                         '.groups': Stub('.groups'), '.model': Stub('.model')},
                     dict(matrix_basis=mb, family_to_vectors=f2v, nullspace=ns_, sparse_basis=sb, _reduced_model=rmodel,
                          ContinuousGroupGenerator=Gen, PrettyList=lambda x: x, BlochModel=TheBlochModel,
                          _reduce_hamiltonian=lambda h, sparse=False: [PBlock(i) for i in range(nb)]),
                     dict(list=lambda x=(): x.pv_list() if isinstance(x, RKeys) else list(x),
                          int=lambda x: x if isinstance(x, IntE) else int(x),
                          len=lambda x: x.pv_len() if hasattr(x, 'pv_len') else len(x)))
            model = (TheBlochModel if bloch else TheModel)(dim)
            return m.ns['continuous_symmetries'](model, Ps=[PBlock(i) for i in range(nb)], prettify=prettify,
                                                 sparse_linalg='S'), rec
        for p in explore(run):
            if p.kind == 'raise':
                ob.check('returns', False, (what, repr(p.value)))
                continue
            v, rec = p.value
            if bloch or dim <= 1:
                ob.check('periodic models and fewer than two momenta: none', v == [], (what, v))
                continue
            ok = isinstance(v, list) and len(v) == 1 and isinstance(v[0], Each) and len(v[0].items) == 1
            ob.check('one generator for every solution', ok, (what, v))
            if not ok:
                continue
            g = v[0].items[0]
            ob.check('the storage is passed on', rec['sparse'] == 'S')
            R = RSum.of(g.R)
            nR = dim * (dim - 1) // 2
            ob.check('spatial part: i times the antisymmetric matrices with their components of the solution',
                     sorted(R.terms, key=str) == sorted([(k, 1j, (('entry', 'R', k),)) for k in range(nR)], key=str), (what, R.terms))
            want = TT.zero('N', 'N')
            for i in range(nb):
                if E.prove(width(i) > 0, p.pc)[0]:
                    Pi = TT.named('P%d' % i)
                    want = want + t.einsum('aij,jl,akl->ik', Pi, TT.named('l%d' % i), Pi.conj())
                elif not E.prove(width(i) == 0, p.pc)[0]:
                    ob.check('blocks of unknown size', None, what)
            ob.check('onsite part: every block acts on all its copies with its components of the solution',
                     isinstance(g.U, TT) and g.U.same(want), (what, g.U, want), 'tensor normal form')
            ob.check('onsite part is Hermitian', g.U.same(g.U.T.conj()), what, 'tensor normal form')


@obligation(P, ['symmetry_finder._reduced_model'])
def reduced_models(ob):
    class Pr:
        def __init__(self, ops=('P',), idx=None):
            self.ops, self.idx = ops, idx

        def __getitem__(self, k):
            if k != 0:
                raise Unsupported('another copy')
            return Pr(self.ops, 0)

        @property
        def T(self):
            return Pr(self.ops + ('T',), self.idx)

        def conj(self):
            return Pr(self.ops + ('c',), self.idx)
        conjugate = conj

        def key(self):
            return (self.ops[0], self.ops.count('T') % 2, self.ops.count('c') % 2, self.idx)

        def __matmul__(self, o):
            return NotImplemented

    class Mod:
        format = np.ndarray

        def __init__(self, l=None, r=None):
            self.l, self.r = l, r

        def values(self):
            return ['values']

        def __rmatmul__(self, o):
            return Mod(o.key() + (() if self.l is None else self.l), self.r)

        def __matmul__(self, o):
            return Mod(self.l, (() if self.r is None else self.r) + o.key())

    def run():
        m = load('symmetry_finder', {'numpy': Stub('numpy', array=lambda x: x, ndarray=np.ndarray),
                                     'scipy': Stub('scipy', sparse=Stub('s', spmatrix=_SP)), 'scipy.sparse': Stub('s', spmatrix=_SP),
                                     '.linalg': Stub('.linalg'), '.groups': Stub('.groups'), '.model': Stub('.model')}, {})
        return m.ns['_reduced_model'](Mod(), GList('blocks', lambda p: Pr(('P%d' % p,)), 'blocks'))
    for p in explore(run):
        v = p.value
        ok = isinstance(v, list) and len(v) == 1 and isinstance(v[0], Each) and len(v[0].items) == 1
        ok = ok or isinstance(v, Comp)
        ob.check('one reduced Hamiltonian for every block', ok, v)
        if ok:
            h, q = (v[0].items[0], v[0].p) if isinstance(v, list) else (v.item, v.p)
            ob.check('restricted by the first copy of the block', h.l == ('P%d' % q, 1, 1, 0) and h.r == ('P%d' % q, 0, 0, 0), (h.l, h.r))


from . import c09, c10, c15      # noqa: E402,F401 (symmetries(), rref and sparse_basis: registered here, too)
bounded_only(P, 'symmetry_adapted_sun: two or three copies', 'more than three blocks in continuous_symmetries')
for _f, _t in REG.get('C02', []):
    if _f.__name__ in ('infinitesimal_action', 'generators') or 'generator' in _f.__name__:
        obligation(P, FUNCS['C02'])(_f)
