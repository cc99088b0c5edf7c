"""C13: pairing families: extension to particle-hole space, candidates and off-diagonal blocks, for any sizes."""
import itertools

import numpy as np
import z3

from . import engine as E
from . import c08, c12, c15
from . import constrain        # noqa: F401
from . import tensor as t
from . import famworld as fw
from .engine import explore, Stub, Symbolic, ContractError, Unsupported
from .tensor import TT, Each, GList, Comp, DIM, Dim, tensor
from .famworld import generator_module, nums
from .c08 import IntE
from .c12 import Members, Product, candidate_world, Range
from .obl import obligation, assumption

P = 'C13'
obligation(P, ['linalg.matrix_basis'])(c08.basis_of_matrices)
obligation(P, ['linalg.nullspace'])(c08.null_space)
obligation(P, ['hamiltonian_generator.make_basis_pretty'])(c15.pretty)
assumption(P, 'a linear change of the momenta keeps the degree of a homogeneous polynomial, so degrees may be constrained separately',
           'monomials times basis matrices are linearly independent', 'momenta: up to four named momenta',
           'scipy.linalg.block_diag, numpy.block and numpy.kron assemble block matrices',
           'arithmetic is exact, closeness to zero within the tolerance is equality to zero')


class Blocks:
    """2 x 2 block matrix."""
    def __init__(self, b):
        self.b = b

    def same(self, o):
        return isinstance(o, Blocks) and all(
            isinstance(x, TT) and isinstance(y, TT) and x.same(y) for r, s in zip(self.b, o.b) for x, y in zip(r, s))

    def __repr__(self):
        return 'Blocks({})'.format(self.b)


def zero():
    return TT.zero('N', 'N')


def block(rows):
    if len(rows) != 2 or any(len(r) != 2 for r in rows) or any(not isinstance(x, TT) or x.ndim != 2 for r in rows for x in r):
        raise Unsupported('block matrix')
    return Blocks([list(r) for r in rows])


def block_diag(a, b):
    return block([[a, zero()], [zero(), b]])


def kron(a, b):
    a = np.array(a)
    if a.shape != (2, 2) or not isinstance(b, TT):
        raise Unsupported('kron')
    return block([[b * int(a[i, j]) for j in range(2)] for i in range(2)])


def eye(n, *a, **k):
    if isinstance(n, Dim):
        return TT.eye(n.name)
    return ('identity', n)


class NormalSym:
    """Arbitrary symmetry of the normal state."""
    def __init__(self, p, copied=False):
        self.p, self.kind, self.copied = p, None, copied
        self.U = TT([(t.G(1), (), (('U', 0, (p,) + ix),)) for ix in [(t.new('N'), t.new('N'))]], ())
        ix = (t.new('N'), t.new('N'))
        self.U = TT([(t.G(1), (), (('U', 0, (p,) + ix),))], ix)
        self.R = Stub('R')
        self.__dict__['done'] = True

    def __setattr__(self, k, v):
        if self.__dict__.get('done'):
            if not self.copied:
                raise ContractError('a symmetry given by the user is changed')
            if k != 'U':
                raise ContractError('{} of a symmetry is changed'.format(k))
        self.__dict__[k] = v

    def pv_isinstance(self, ty):
        if ty in (PGE, fw.ContinuousType):
            return E.decide(z3.Bool('discrete')) == (ty is PGE)
        return None


class Syms(GList):
    def __init__(self, copied=False, made=None):
        self.made = [] if made is None else made
        self.extra = []
        self.copied = copied

        def make(p):
            s = NormalSym(p, copied)
            if copied:
                self.made.append(s)
            return s
        GList.__init__(self, 'syms', make, 'syms')

    def append(self, x):
        if not self.copied:
            raise ContractError('the list of symmetries given by the user is changed')
        self.extra.append(x)

    def __getitem__(self, k):
        if k == 0:
            return NormalSym(t.param('syms'), self.copied)     # its matrix has the size of all others
        return GList.__getitem__(self, k)

    def pv_comp(self, kind, fn):
        raise Unsupported('comprehension over the symmetries')


class Monomial:
    """Arbitrary member of a constrained family: a model in particle-hole space."""
    def items(self):
        return Terms()


class Terms(Symbolic):
    def pv_comp(self, kind, fn):
        if kind != 'dict':
            raise Unsupported('terms of a member')
        return ('terms', fn(('key', Half())))


class Half:
    """Matrix of a term in particle-hole space, to be cut into blocks."""
    def __getitem__(self, k):
        out = []
        for s in k:
            if not isinstance(s, slice) or s.step is not None:
                raise Unsupported('block of a matrix')
            if isinstance(s.start, Dim) and s.stop is None and s.start.name == 'N':
                out.append(1)
            elif s.start in (None,) and isinstance(s.stop, Dim) and s.stop.name == 'N':
                out.append(0)
            else:
                raise ContractError('block {}'.format(s))
        return ('block', tuple(out))


class PairMembers(Members):
    def pv_comp(self, kind, fn):
        return fn(Monomial())


class Cut:
    """A pairing term."""
    def __init__(self, args):
        self.args = args

    def pv_len(self):
        return fw.Tok('')

    def __bool__(self):
        return E.decide(z3.Bool('pairing term without entries')) is False


_comp = E.Hooks.comp


def comp(self, kind, it, fn):
    if isinstance(it, list) and any(isinstance(x, Each) for x in it):
        out = []
        for x in it:
            if isinstance(x, Each):
                out.append(Each(x.p, [z for y in x.items for z in (y.pv_comp('list', fn) if isinstance(y, Symbolic) else fn(y))]))
            else:
                out += fn(x)
        return out
    return _comp(self, kind, it, fn)


class MoreComp(Comp):
    """A list made of several comprehensions over the same collection."""
    def __init__(self, c):
        Comp.__init__(self, c.p, c.item, c.src, c.fn)
        self.parts = [c]

    def extend(self, o):
        self.parts.append(o)


class MBasis(GList):
    """matrix_basis(N): a basis of the Hermitian matrices."""
    def pv_comp(self, kind, fn):
        return MoreComp(GList.pv_comp(self, kind, fn))


class PairProduct(Symbolic):
    def __init__(self, a, b):
        self.a, self.b = a, b

    def pv_comp(self, kind, fn):
        p = t.param(self.a.dim)
        parts = self.b.parts if isinstance(self.b, MoreComp) else [self.b]
        out = []
        for c in parts:
            r = fn((self.a.at(p), c.item))
            if len(r) != 1:
                raise Unsupported('filtered comprehension')
            out.append(r[0])
        return PairGrid(p, self.a, self.b, out)


class PairGrid(Symbolic):
    def __init__(self, p, a, b, items):
        self.p, self.a, self.b, self.items = p, a, b, items


@obligation(P, ['hamiltonian_generator.continuum_pairing'])
def family(ob):
    for kind, dim, prettify, sparse, square, phased in itertools.product(
            ('int', 'list'), range(4), (False, True), (False, True), (1, -1), (False, True)):
        if (dim, kind, sparse) not in ((2, 'int', False),) and (square == -1 or (phased and prettify)):
            continue
        t.reset()

        def run():
            tensor('U', 'syms', 'N', 'N')
            tensor('phase', 'syms')
            tensor('M', 'matrices', 'N', 'N', hermitian=True)
            info = {}

            def basis(n, *a, **k):
                if not isinstance(n, Dim) or n.name != 'N' or a or any(k.values()):
                    raise ContractError('basis of other matrices')
                return MBasis('matrices', lambda p: TT.named('M').at(p), 'matrices')

            def degrees(p):
                d = IntE(z3.Int('degree %d' % p))
                info['deg'].append((p, d))
                return d

            def rng(*a):
                info['range'] = Range(*a)
                return GList('degrees', degrees, 'degrees')
            over = candidate_world(info, basis)
            over_model = over['Model']
            info['cuts'] = []

            def model(d, momenta=None, **k):
                if isinstance(d, tuple) and d and d[0] == 'terms':
                    c = Cut((d[1], momenta, k))
                    info['cuts'].append(c)
                    return c
                return over_model(d, momenta=momenta, **k)
            base_constrain, base_pretty = over['constrain_family'], over['make_basis_pretty']
            over.update(Model=model, PointGroupElement=PGE, ContinuousGroupGenerator=fw.ContinuousType,
                        constrain_family=lambda *a, **k: PairMembers(base_constrain(*a, **k).what),
                        make_basis_pretty=lambda *a, **k: PairMembers(base_pretty(*a, **k).what))

            def deepcopy(x):
                if not isinstance(x, Syms):
                    raise Unsupported('copy')
                info['syms'] = Syms(True)
                return info['syms']
            np_ = nums(eye=eye, zeros=lambda s, *a, **k: zero(), block=block, kron=kron, array=np.array,
                       ones=lambda n: GList('syms', lambda p: TT.number(1), 'ones'))
            ns = generator_module(np_, {'itertools': Stub('itertools', product=PairProduct), 'copy': Stub('copy', deepcopy=deepcopy),
                                        'scipy.linalg': Stub('la', block_diag=block_diag)}, over,
                                  dict(range=rng, len=lambda x: IntE(z3.Int('entries')) if isinstance(x, Cut) else fw.length(x)))
            total = IntE(z3.Int('total')) if kind == 'int' else GList('degrees', degrees, 'degrees')
            kw = dict(ph_square=square) if square == -1 else {}
            if phased:
                kw['phases'] = GList('syms', lambda p: TT([(t.G(1), (), (('phase', 0, (p,)),))], ()), 'phases')
            if prettify:
                kw.update(prettify=True, num_digits=7)
            if sparse:
                kw['sparse_linalg'] = True
            saved = E.Hooks.comp
            E.Hooks.comp = comp
            try:
                v = ns['continuum_pairing'](Syms(), dim, total, all_powers='powers', momenta=('a', 'b', 'c'), **kw)
            finally:
                E.Hooks.comp = saved
            return v, info
        for p in explore(run):
            if p.kind == 'raise':
                ok = isinstance(p.value, AssertionError) and prettify and any(
                    z3.is_not(c) and '==' in str(c) and 'len' in str(c) for c in map(z3.simplify, p.pc))
                ob.check('family: only a family that shrinks is rejected', ok, (repr(p.value), p.pc))
                continue
            v, info = p.value
            if kind == 'int':
                r = info.get('range')
                ob.prove('family: all degrees up to the maximum', z3.And(IntE.of(r.lo) == 0, IntE.of(r.hi) == z3.Int('total') + 1)
                         if r is not None else z3.BoolVal(False), p.pc)
            # symmetries in particle-hole space
            S = info['syms']
            ok = len(S.made) == 1 and len(S.extra) == 1
            ob.check('extension: every symmetry, and the particle-hole operator', ok, (S.made, S.extra))
            if not ok:
                continue
            s = S.made[0]
            U = NormalSym(s.p).U
            ph = TT([(t.G(1), (), (('phase', 0, (s.p,)),))], ()) if phased else TT.number(1)
            disc = E.prove(z3.Bool('discrete'), p.pc)[0]
            low = U.conj() * ph if disc else TT.eye('N') * ph - U.conj()
            want = block_diag(U, low)
            ob.check('extension: U acts on particles, its conjugate with the phase on holes' if disc else
                     'extension: generators act on particles and with the opposite sign, shifted by the phase, on holes',
                     want.same(s.U), (s.U, want), 'tensor normal form')
            x = S.extra[0]
            ob.check('extension: the particle-hole operator conjugates, anticommutes and has the square requested',
                     isinstance(x, PGE) and x.args[0] == ('identity', dim) and x.args[1] is True and x.args[2] is True and
                     block([[zero(), TT.eye('N')], [TT.eye('N') * square, zero()]]).same(x.args[3]), x, 'tensor normal form')
            # candidates
            cs = info.get('constrained', [])
            ob.check('family: every degree is constrained once', len(cs) == 1, cs)
            if len(cs) != 1:
                continue
            syms, fam, sp = cs[0]
            ob.check('family: constrained by all extended symmetries', syms is S and bool(sp) == sparse, cs)
            momenta = tuple('var ' + k for k in 'abc'[:dim])
            d = info['deg'][-1][1] if info['deg'] else None
            ob.check('family: monomials of this degree, with the powers and momenta requested', info['vars'] and info['vars'][-1][0] == dim and
                     info['vars'][-1][1] is d and info['vars'][-1][2] == 'powers' and info['vars'][-1][3] == momenta, info['vars'])
            ok = isinstance(fam, PairGrid) and fam.a.dim.startswith('monomials') and isinstance(fam.b, MoreComp) and len(fam.items) == 2
            ob.check('family: a candidate for every monomial and every matrix of the basis', ok, fam)
            if ok:
                got = []
                for q, c in zip(fam.items, fam.b.parts):
                    ok = q[0] == 'model' and q[2] == momenta and len(q[1]) == 1 and q[1][0][0].what[1] is d and q[1][0][0].what[2] == fam.p
                    ob.check('family: candidates are monomial times matrix', ok, q)
                    got.append((q[1][0][1], TT.named('M').at(c.p)))
                for f, name in ((1, 'Hermitian'), (1j, 'anti-Hermitian')):
                    ob.check('family: candidates for {} pairing blocks'.format(name), any(
                        block([[zero(), M * f], [(M * f).T.conj(), zero()]]).same(g) for g, M in got), got, 'tensor normal form')
            # result
            ok = isinstance(v, list) and len(v) == 1 and isinstance(v[0], Each) and DIM[v[0].p] == 'degrees' and len(v[0].items) <= 1
            ob.check('family: the members of every degree are returned', ok, v)
            if not ok:
                continue
            if v[0].items == []:
                ob.prove('family: only pairing terms without entries are dropped', z3.Int('entries') == 0, p.pc + [z3.Int('entries') >= 0])
            else:
                ob.check('family: returned from the constrained members', v[0].items[0] in info['cuts'] and len(info['cuts']) == 1, v)
            c = info['cuts'][0]
            ob.check('family: the particle-hole block of every term', c.args[0] == [('key', ('block', (0, 1)))] and not c.args[2], c.args)
            ob.check('family: members know all momenta', c.args[1] == tuple('var ' + k for k in 'abc'), c.args)
            ob.check('family: made pretty exactly on request', prettify == bool(info.get('prettied')), info)


class PGE:
    def __init__(self, *a, **k):
        self.args = list(a) + [None] * (4 - len(a))
        for q, n in enumerate(('R', 'conjugate', 'antisymmetry', 'U')):
            if n in k:
                self.args[q] = k.pop(n)
        if k:
            raise Unsupported('options of the particle-hole operator')


