"""Families of Hamiltonians: formal real-linear algebra over families with any number of members.

A base family F has a matrix V_F (members x entries; family_to_vectors).  Every other member is a combination
sum_i c_i F_i, represented by its coefficients c over a base."""
import itertools

import numpy as np
import z3

from . import engine as E
from . import tensor as t
from .engine import Symbolic, SBool, Stub, Unsupported, ContractError, load
from .tensor import TT, Each, Comp, GList, Dim, Idx, tensor, param, new, DIM

_n = itertools.count(1)


class Keys(Symbolic):
    """Union of the keys of all members of the families named."""
    def __init__(self, of, listed=False, marks=()):
        self.of, self.listed, self.marks = frozenset(of), listed, tuple(marks)

    def __or__(self, o):
        if isinstance(o, (set, frozenset)) and not o:
            return self
        if not isinstance(o, Keys):
            return NotImplemented
        return Keys(self.of | o.of, False, self.marks + o.marks)
    __ror__ = __ior__ = union = __or__

    def pv_mark(self, m):
        return Keys(self.of, self.listed, self.marks + (m,))

    def pv_unmark(self, m, p):
        if m not in self.marks:
            raise ContractError('keys of earlier members are forgotten')
        return Keys(self.of, self.listed, [x for x in self.marks if x is not m]).generalise(p)

    def generalise(self, p):
        """p was arbitrary."""
        return Keys({_gen(k, p) for k in self.of}, self.listed, self.marks)

    def __bool__(self):
        return E.decide(z3.Bool('keys ' + ','.join(sorted(map(str, self.of)))))


def _gen(k, p):
    return tuple((o[0], 'every ' + DIM[p]) if isinstance(o, tuple) and o[1] == p else o for o in k)


class Tok:
    """A value that is only compared."""
    def __init__(self, s):
        self.s = s

    def __eq__(self, o):
        if isinstance(o, Tok):
            return SBool(z3.BoolVal(True)) if self.s == o.s else SBool(z3.Bool('=='.join(sorted((self.s, o.s)))))
        return NotImplemented

    def __ne__(self, o):
        r = self == o
        return r if r is NotImplemented else SBool(z3.Not(r.f))
    __hash__ = None


class Member:
    """sum_i c[i] base[i], transformed by ops."""
    __array_ufunc__ = None

    def __init__(self, base, coef, ops=()):
        self.base, self.coef, self.ops = base, coef, tuple(ops)

    def _like(self, o):
        return isinstance(o, Member) and o.base == self.base and o.ops == self.ops

    def __add__(self, o):
        if isinstance(o, (int, float)) and o == 0:
            return self
        if not self._like(o):
            raise Unsupported('sum of members of different families')
        return Member(self.base, self.coef + o.coef, self.ops)
    __radd__ = __add__

    def __mul__(self, c):
        if isinstance(c, (TT, int, float, complex)):
            if isinstance(c, TT) and c.ndim:
                raise ContractError('member times an array')
            return Member(self.base, self.coef * c, self.ops)
        return NotImplemented
    __rmul__ = __mul__

    def __neg__(self):
        return self * -1

    def __sub__(self, o):
        return self + (-o)

    def __truediv__(self, c):
        return Member(self.base, self.coef / c, self.ops)

    def pv_total(self, p):
        return Member(self.base, t.total(self.coef, p), self.ops)

    def _id(self):
        return '{}{}{}'.format(self.ops, self.base, self.coef)

    def __bool__(self):
        return E.decide(z3.Bool('nonzero ' + self._id()))

    def __eq__(self, o):
        if isinstance(o, dict) and not o or isinstance(o, int) and o == 0:
            return SBool(z3.Not(z3.Bool('nonzero ' + self._id())))
        if isinstance(o, Member):
            if o._id() == self._id():
                return True
            return SBool(z3.Bool(' equals '.join(sorted((self._id(), o._id())))))
        return NotImplemented

    def __ne__(self, o):
        r = self == o
        return r if r is NotImplemented else (SBool(z3.Not(r.f)) if isinstance(r, SBool) else not r)
    __hash__ = None

    def around(self, decimals=3):
        return Member(self.base, self.coef, self.ops + (('round', str(decimals)),))

    def keys(self):
        return Keys({self.ops + (self.base,)})

    @property
    def shape(self):
        return Tok('shape ' + self._id())

    @property
    def momenta(self):
        return MTok('momenta ' + self._id())

    def tosympy(self, nsimplify=False):
        return ('sympy', self, nsimplify)

    def __repr__(self):
        return 'Member({}, {}, {})'.format(self.base, self.coef, self.ops)


class MTok(Tok):
    def pv_len(self):
        return Tok('len ' + self.s)


def delta(base, p):
    i = new(base)
    return TT([(t.G(1), (), (('1', 0, (p, i)),))], (i,))


class Fam(GList):
    """The base family."""
    def __init__(self, name):
        self.base = name
        GList.__init__(self, name, lambda p: Member(name, delta(name, p)), name)
        if 'V' + name not in t.FACTS:
            tensor('V' + name, name, 'entries', real=True)

    def __iter__(self):
        """Only for argument lists."""
        p = param(self.dim)
        yield Each(p, [self.at(p)])

    def at_int(self, k):
        return self.at(param(self.dim))


def as_coefs(fam):
    """(base, coefficient matrix (members x base) as TT, ops) of a family."""
    if isinstance(fam, Fam):
        p = param(fam.dim)
        return fam.base, t.stack(delta(fam.base, p), p), ()
    if isinstance(fam, list) and len(fam) == 1 and isinstance(fam[0], Each) and len(fam[0].items) == 1:
        fam = Comp(fam[0].p, fam[0].items[0])
    if isinstance(fam, Comp) and isinstance(fam.item, Member):
        return fam.item.base, t.stack(fam.item.coef, fam.p), fam.item.ops
    raise Unsupported('family {}'.format(fam))


def covers(keys, base, ops):
    k = tuple(ops) + (base,)
    alt = tuple((o[0], 'every ' + DIM[o[1]]) if isinstance(o, tuple) and o[1] in DIM else o for o in k)
    return isinstance(keys, Keys) and keys.listed and (k in keys.of or alt in keys.of)


def to_vectors(rec):
    def family_to_vectors(fam, all_keys=None):
        base, c, ops = as_coefs(fam)
        if all_keys is not None and not covers(all_keys, base, ops):
            raise ContractError('keys of the family are missing: {} for {}'.format(getattr(all_keys, 'of', all_keys), (ops, base)))
        rec.setdefault('keys', []).append(all_keys)
        if ops:
            v = rotated(base, ops)
        else:
            v = TT.named('V' + base)
        return t.contract(c, v, [1], [0])
    return family_to_vectors


def rotated(base, ops):
    """Vectors of the transformed base family."""
    (op,) = ops
    kind, p = op
    name = 'V{} {}'.format(kind, base)
    if name not in t.FACTS:
        tensor(name, DIM[p], base, 'entries', real=True)
    r = TT.named(name, (p, new(base), new('entries')))
    fs = r.terms[0][2][0][2]
    return TT(r.terms, fs[1:])


class Stack(Symbolic):
    """vstack of a list."""
    def __init__(self, items):
        self.items = items

    @property
    def T(self):
        return self

    def __bool__(self):
        raise Unsupported('truth of an array')


def nums(**extra):
    d = dict(t.NUMPY, abs=abs)
    d.update(extra)
    return Stub('numpy', **d)


class Chain(Symbolic):
    def __init__(self, parts):
        self.parts = parts

    def pv_for(self, body, get, set_):
        for x in self.parts:
            if isinstance(x, Each):
                for y in x.items:
                    if isinstance(y, (GList, Comp)):
                        r = y.pv_for(body, get, set_)
                    else:
                        r = t.generic_loop(None, None, body, get, set_, Comp(x.p, y))
                    if r is not None:
                        raise Unsupported('loop left early')
                    set_({k: v.generalise(x.p) for k, v in get().items() if isinstance(v, Keys)})
            else:
                r = x.pv_for(body, get, set_)
        return None


def chain(*a):
    return Chain(list(a))


def the_list(x=()):
    if isinstance(x, Keys):
        return Keys(x.of, True, x.marks)
    if isinstance(x, (GList, Comp, TT)):
        return x
    return list(x)


class SetT:
    def __new__(cls, x=()):
        if isinstance(x, Keys):
            return Keys(x.of)
        if isinstance(x, (list, tuple)) and not x:
            return Keys(())
        raise Unsupported('set')

    @staticmethod
    def union(*a):
        out = Keys(())
        for x in a:
            for y in (x.items if isinstance(x, Each) else [x]):
                out = (out | y).generalise(x.p) if isinstance(x, Each) else out | y
        return out


def length(x):
    if isinstance(x, (list, tuple)) and len(x) == 1 and isinstance(x[0], Each):
        return Count(x)
    return x.pv_len() if hasattr(x, 'pv_len') else len(x)


class Count:
    def __init__(self, x):
        self.x = x

    def __eq__(self, o):
        if isinstance(o, Count):
            return SBool(z3.Bool('same length'))
        return SBool(z3.Bool('length {}'.format(o)))
    __hash__ = None


def truth(x):
    return x


def generator_module(np_, imports=None, over=None, builtins=None):
    imp = {'numpy': np_, 'sympy': Stub('sympy'), 'scipy': Stub('scipy'), 'tinyarray': Stub('tinyarray'),
           'itertools': Stub('itertools', chain=chain), 'scipy.linalg': Stub('scipy.linalg'),
           'copy': Stub('copy', deepcopy=lambda x: x), '.linalg': Stub('.linalg'), '.groups': Stub('.groups'),
           '.model': Stub('.model', _commutative_momenta=('k0', 'k1', 'k2')), '.kwant_continuum': Stub('kc'), '.': Stub('.')}
    imp.update(imports or {})
    b = dict(list=the_list, len=length, set=SetT)
    b.update(builtins or {})
    return load('hamiltonian_generator', imp, over or {}, b).ns


# ---------------------------------------------------------------- symmetries

class DiscreteType:
    pass


class ContinuousType:
    pass


class Sym:
    """Arbitrary discrete or continuous symmetry."""
    def __init__(self, p, kind=None):
        self.p, self.kind = p, kind

    def pv_isinstance(self, ty):
        if ty is DiscreteType:
            return self.discrete()
        if ty is ContinuousType:
            return not self.discrete()
        return None

    def discrete(self):
        if self.kind:
            return self.kind == 'discrete'
        return E.decide(z3.Bool('discrete {}'.format(DIM[self.p] if False else self.p)))

    def apply(self, m):
        if not isinstance(m, Member) or m.ops:
            raise Unsupported('symmetry applied to {}'.format(m))
        return Member(m.base, m.coef, (('apply', self.p),))

    @property
    def U(self):
        return Stub('U', shape=Tok('shape U%d' % self.p))

    @property
    def R(self):
        if E.decide(z3.Bool('no R %d' % self.p)):
            return None
        return Stub('R', shape=(Tok('len R%d' % self.p),))
