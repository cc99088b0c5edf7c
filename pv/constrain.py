"""constrain_family for families and symmetry lists of any length."""
import z3

from . import engine as E
from . import tensor as t
from . import famworld as fw
from .engine import explore, Stub, SBool, ContractError
from .tensor import TT, Each, Comp, GList, tensor
from .famworld import Fam, Member, Sym, as_coefs, generator_module, nums
from .obl import obligation

PS = ['C12', 'C13', 'C14', 'C15']


@obligation(PS, ['hamiltonian_generator.constrain_family'])
def constraints(ob):
    t.reset()
    for sparse in (False, True):
        def run():
            tensor('VF', 'F', 'entries', real=True)
            tensor('N', 'nulls', 'F', real=True)
            rec, info = {}, {}

            def vstack(x):
                info['stacked'] = list(x)
                return fw.Stack(list(x))

            def nullspace(A, *a, sparse=None, **k):
                if a or k or not isinstance(A, fw.Stack):
                    raise ContractError('null space of something else')
                info['solved'] = A.items
                info['sparse'] = sparse
                return TT.named('N')

            def any_(A):
                return SBool(z3.Bool('any constraint'))

            def sym(p):
                info.setdefault('syms', []).append(p)
                return Sym(p)
            ns = generator_module(nums(vstack=vstack, any=any_), None, dict(
                family_to_vectors=fw.to_vectors(rec), nullspace=nullspace, PointGroupElement=fw.DiscreteType,
                ContinuousGroupGenerator=fw.ContinuousType))
            kw = dict(sparse_linalg=True) if sparse else {}
            return ns['constrain_family'](GList('syms', sym, 'syms'), Fam('F'), **kw), rec, info
        for p in explore(run):
            pc = {str(c): c for c in map(z3.simplify, p.pc)}
            if p.kind == 'raise':
                ob.check('constraining: only incompatible inputs are rejected', isinstance(p.value, AssertionError) and any(
                    z3.is_not(c) and '==' in str(c.children()[0]) and any(w in str(c.children()[0]) for w in ('shape', 'momenta', 'len'))
                    for c in pc.values()), (repr(p.value), list(pc)))
                continue
            v, rec, info = p.value
            if not (E.prove(z3.Bool('some F'), p.pc)[0] and E.prove(z3.Bool('some syms'), p.pc)[0]):
                ob.check('constraining: without members or symmetries nothing changes', isinstance(v, Fam) and 'solved' not in info, v)
                continue
            # one constraint matrix for every symmetry
            st = info.get('stacked') or []
            ok = len(st) == 1 and isinstance(st[0], Each) and len(st[0].items) == 1 and t.DIM[st[0].p] == 'syms'
            ob.check('constraining: one constraint for every symmetry', ok, st)
            if not ok:
                continue
            s, A = st[0].p, st[0].items[0]
            d = [c for k, c in pc.items() if 'discrete %s' % s in k]
            ob.check('constraining: discrete symmetries and generators are distinguished', len(d) == 1, list(pc))
            want = fw.rotated('F', (('apply', s),)).T
            if d and not z3.is_not(d[0]):
                want = want - TT.named('VF').T
            ob.check('constraining: the constraint of every symmetry', A.same(want), (A, want), 'tensor normal form')
            keys = [k.of for k in rec.get('keys', []) if isinstance(k, fw.Keys)]
            ob.check('constraining: the terms of the family and of every image are considered', keys and all(
                ('F',) in k and (('apply', 'every syms'), 'F') in k
                for k in keys), keys)
            if 'solved' not in info:
                ob.prove('constraining: an unconstrained family only if there is no constraint', z3.Not(z3.Bool('any constraint')), p.pc)
                ob.check('constraining: an unconstrained family is returned', isinstance(v, Fam), v)
                continue
            ob.check('constraining: the null space of all constraints', info['solved'] == st and bool(info['sparse']) == sparse, info)
            if v == []:
                ob.check('constraining: only vanishing members are dropped', any(
                    z3.is_not(c) and 'nonzero' in k for k, c in pc.items()), list(pc))
                continue
            base, c, ops = as_coefs(v)
            ob.check('constraining: members are the solutions of the constraints', base == 'F' and not ops and c.same(TT.named('N')),
                     c, 'tensor normal form')
