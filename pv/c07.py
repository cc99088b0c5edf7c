"""C07: frame conditions of every function of the package, fresh results, caches and the shared parser table."""
import ast
import keyword

import z3

from . import engine as E
from . import frames as fr
from .engine import explore, Stub, decide
from .obl import obligation, assumption, bounded_only

P = 'C07'
assumption(P, 'methods and functions of other libraries without a contract in pv/frames.py modify nothing',
           'functions given as arguments (symbol normalisers, transformations) modify nothing',
           'numpy arithmetic, comparisons and indexing with arrays return new arrays; slices, transposes, reshapes and conjugates may be views; '
           'deepcopy and copies of matrices share nothing with the original',
           'eliminate_zeros of a sparse matrix does not change its value', 'sympy expressions, tiny arrays and immutable sympy matrices are immutable',
           'the lists in all_powers of continuum_variables are lists', 'exec and eval are not used')
bounded_only(P, 'equal results after any history beyond the state named here (library caches): bounded',
             'kwant_rmt (random test matrices) is not part of the library interface')

PROGRAM = []


def program():
    if not PROGRAM:
        PROGRAM.append(fr.Program({m: E.source(m) for m in fr.MODULES}))
    return PROGRAM[0]


# item assignment is documented to change the model
ALLOWED = {('model', 'Model.__setitem__'): {'self'}}
PARSER = ('G', 'sympy.core.sympify.converter')


def public(q):
    return not any(k.startswith('_') and not k.startswith('__') for k in q.split('.'))


@obligation(P, ['{}.*'.format(m) for m in fr.MODULES])
def frame_conditions(ob):
    p = program()
    ob.check('frames: functions are found', len(p.fns) > 100, len(p.fns), 'points-to fixpoint')
    for (m, q), f in sorted(p.fns.items()):
        bad = []
        for r, where in f.mods.items():
            if r[0] in ('P', 'P*'):
                if not public(q) or r[1] in ALLOWED.get((m, q), ()):
                    continue            # callers of private functions are checked with this contract
            if r == PARSER:
                continue                # see parser_state
            bad.append('{} at {}'.format(r, where))
        ob.check('{}.{} modifies nothing it was given'.format(m, q), not bad, '; '.join(bad), 'points-to fixpoint')


def matrices(f, skip=()):
    """Regions the matrices of a returned model, or of the models in a returned list, may come from: [(region, path)]."""
    out, seen, todo = [], set(), [(r, ()) for r in f.ret]
    while todo:
        r, path = todo.pop(0)
        out.append((r, path))
        if (r, path) in seen or len(path) >= 4 or path[-2:] == ('data', '[]'):
            continue
        seen.add((r, path))
        for (q, fld), v in f.heap.items():
            if q == r and fld in ('[]', 'data'):
                todo += [(x, path + (fld,)) for x in v]
    return out


MODEL_OPS = ['__add__', '__radd__', '__neg__', '__sub__', '__mul__', '__rmul__', '__matmul__', '__rmatmul__', '__truediv__', 'zeros_like', 'transform_symbolic',
             'rotate_momenta', 'subs', 'conj', 'T', 'trace', 'reshape', 'around', 'tocsr', 'toarray', 'tomodel', 'copy', '__copy__', 'eliminate_zeros', '__init__']
OPS = [('groups', 'PointGroupElement.apply'), ('groups', 'ContinuousGroupGenerator.apply')]
FAMILIES = ['continuum_hamiltonian', 'continuum_pairing', 'bloch_family', 'symmetrize_monomial', 'hamiltonian_from_family', 'constrain_family', 'make_basis_pretty',
            'remove_duplicates', 'subtract_family']
# these return the family they were given when there is nothing to do
ITSELF = {'constrain_family': 'family', 'make_basis_pretty': 'family', 'remove_duplicates': 'family', 'subtract_family': 'family1'}


@obligation(P, ['model.Model', 'model.BlochModel', 'groups.PointGroupElement.apply', 'groups.ContinuousGroupGenerator.apply'])
def fresh_models(ob):
    p = program()
    n = 0
    for m, q in [('model', c + '.' + o) for c in ('Model', 'BlochModel') for o in MODEL_OPS] + OPS:
        f = p.fns.get((m, q))
        if f is None:
            continue
        n += 1
        bad = []
        for r, path in matrices(f):
            if path in ((), ('data',), ('[]',), ('data', '[]')) and r[0] != 'S' and r[0] != 'F':
                bad.append('{} via {}'.format(r, '.'.join(path)))
        ob.check('{}.{} returns matrices of its own'.format(m, q), not bad, '; '.join(bad), 'points-to fixpoint')
    ob.check('fresh: operations are found', n >= 20, n, 'points-to fixpoint')


@obligation(P, ['hamiltonian_generator.' + q for q in FAMILIES])
def fresh_families(ob):
    p = program()
    n = 0
    for q in FAMILIES:
        f = p.fns.get(('hamiltonian_generator', q))
        if f is None:
            continue
        n += 1
        bad = []
        for r, path in matrices(f):
            if r[0] in ('S', 'F') or q in ITSELF and r in (('P', ITSELF[q]), ('P*', ITSELF[q])) and path in ((), ('[]',)):
                continue
            if path in ((), ('data',), ('[]',), ('data', '[]'), ('[]', 'data'), ('[]', 'data', '[]')):
                bad.append('{} via {}'.format(r, '.'.join(path)))
        ob.check('hamiltonian_generator.{} returns models of its own'.format(q), not bad, '; '.join(bad), 'points-to fixpoint')
    ob.check('fresh: family functions are found', n >= 7, n, 'points-to fixpoint')


@obligation(P, ['model.copy'])
def matrix_copies(ob):
    """The contract used for copy: a new matrix, whose numbers are not shared."""
    class Sparse:
        def copy(self):
            return ('deep copy', self)

    class Other:
        pass
    for x in (Sparse(), Other()):
        def run():
            sparse = Stub('scipy.sparse', spmatrix=Sparse, issparse=lambda a: isinstance(a, Sparse))
            cp = Stub('copy', copy=lambda a: ('shallow copy', a), deepcopy=lambda a: ('deep copy', a))
            kc = Stub('.kwant_continuum', momentum_operators=[], e='e', make_commutative=lambda *a: a[0])
            ns = E.load('model', {'copy': cp, 'scipy': Stub('scipy', sparse=sparse), 'scipy.sparse': sparse,
                                  'numpy': Stub('numpy', ndarray=Other), '.linalg': Stub('.linalg', allclose=None), '.kwant_continuum': kc,
                                  'sympy': Stub('sympy', I='I')}).ns
            return ns['copy'](x)
        for p in explore(run):
            kinds = ('deep copy',) if isinstance(x, Sparse) else ('deep copy', 'shallow copy')
            ok = p.kind == 'return' and isinstance(p.value, tuple) and p.value[0] in kinds and p.value[1] is x
            ob.check('copy of a matrix shares no numbers', ok, p.value, 'symbolic execution')


@obligation(P, ['model._symbol_normalizer', 'model._bloch_normalizer', 'model._find_momenta', 'groups._mul', 'groups._inv', 'groups._eq', 'groups._make_int'])
def caches(ob):
    p = program()
    changed = {r for f in p.fns.values() for r in f.mods if r[0] == 'G'}
    for (m, q), f in sorted(p.fns.items()):
        if not f.cached:
            continue
        name = '{}.{}'.format(m, q)
        dirty = {r: w for r, w in f.mods.items() if r != PARSER}
        ob.check('cached {} modifies nothing'.format(name), not dirty, dirty, 'points-to fixpoint')
        bound = set(f.params) | {x.id for x in ast.walk(f.node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        read = {x.id for x in ast.walk(f.node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)} - bound
        state = {x for x in read if ('G', m, x) in changed}
        ob.check('cached {} depends on its arguments only'.format(name), not state and not f.gen and
                 not any(isinstance(x, (ast.Global, ast.Nonlocal)) for x in ast.walk(f.node)), state, 'points-to fixpoint')
        # results that could be changed by a caller
        ob.check('cached {}: the result is immutable'.format(name), q in fr.IMMUTABLE_RESULT or q == '_bloch_normalizer',
                 'no contract for the result of this cached function', 'points-to fixpoint')
        dirty = [(g.key, w) for g in p.fns.values() for r, w in g.mods.items() if r == ('K', q)]
        ob.check('cached {}: no function changes the result'.format(name), not dirty, dirty, 'points-to fixpoint')
    f = p.fns.get(('model', '_symbol_normalizer'))
    if f is not None and f.cached:
        ok = any(isinstance(d, ast.Call) and any(k.arg == 'typed' and isinstance(k.value, ast.Constant) and k.value.value is True for k in d.keywords)
                 for d in f.node.decorator_list)
        ob.check('cached symbols: numbers of different types are told apart', ok, [ast.unparse(d) for d in f.node.decorator_list], 'syntactic')
    ob.check('no module level object is changed', not (changed - {PARSER}), changed, 'points-to fixpoint')
    # the only function that touches the parser table is the one verified below
    touch = {g.key for g in p.fns.values() if PARSER in g.mods and any(isinstance(x, ast.Name) and x.id == 'converter' for x in ast.walk(g.node))}
    ob.check('parser table: only changed by sympify', touch <= {('kwant_continuum', 'sympify')}, touch, 'points-to fixpoint')


class Parsed:
    def subs(self, *a, **k):
        if decide(z3.Bool('subs raises')):
            raise TypeError('subs')
        return self

    def atoms(self, *a):
        return []


class Matrix:
    pass


class Named:
    def __init__(self, name):
        self.name = name


@obligation(P, ['kwant_continuum.sympify'])
def parser_state(ob):
    """The converter table of sympy is the same before and after parsing, also when parsing fails."""
    for stored in (None, 'a converter'):
        for given in (None, {}, {'a': 'A', 'x': 'X'}, {'not an identifier': 1}):
            def run():
                table = {str: 'other'}
                if stored is not None:
                    table[list] = stored
                before, loc = dict(table), dict(given) if given is not None else None
                count = [0]

                def sympify(e, locals=None, **k):
                    count[0] += 1
                    if list not in table:
                        seen.append('list is not converted')
                    if decide(z3.Bool('parse %d raises' % count[0])):
                        raise ValueError('parse')
                    return Parsed()
                seen = []
                basic = Stub('sympy.core.basic', Basic=Parsed)

                class Anything:
                    def __init__(self, *a):
                        pass
                sy = Stub('sympy', sympify=sympify, Matrix=Matrix, MatrixBase=Matrix, Basic=Parsed, Expr=Parsed, Function=Anything, I='I', abc=Stub('abc', _clash={'x': 0, 'I': 0, 'pi': 0}),
                          symbols=lambda s, **k: [Named(n) for n in s.split()] if ' ' in s else Named(s), eye=lambda *a: 'eye',
                          matrices=Stub('m', MatrixBase=Matrix), physics=Stub('p', quantum=Stub('q', TensorProduct='kron')), SympifyError=ValueError)
                ns = E.load('kwant_continuum', {'sympy': sy, 'sympy.abc': sy.abc, 'sympy.physics': sy.physics, 'sympy.physics.quantum': sy.physics.quantum,
                                                'sympy.core.function': Stub('f', AppliedUndef=Anything), 'sympy.core.sympify': Stub('s', converter=table),
                                                'sympy.physics.matrices': Stub('pm', msigma=lambda i: 'sigma'), 'sympy.core.basic': basic,
                                                'sympy.matrices': Stub('m', MatrixBase=Matrix), 'sympy.matrices.matrices': Stub('m', MatrixBase=Matrix),
                                                'numpy': Stub('numpy', ndarray=Anything), 'keyword': keyword}, None, dict(set=set)).ns
                extra = dict(ns['extra_ns'])
                err = None
                try:
                    if given is None:
                        ns['sympify']('text')
                    else:
                        ns['sympify']('text', locals=loc)
                except (ValueError, TypeError) as e:
                    err = e
                return table == before, loc == given, ns['extra_ns'] == extra, seen, err, list(table.items())
            n = {True: 0, False: 0}
            for p in explore(run):
                if p.kind == 'raise':
                    ob.check('parser: no other errors', False, repr(p.value), 'symbolic execution')
                    continue
                a, b, c, seen, err, tab = p.value
                n[err is None] += 1
                ob.check('parser: the table of converters is restored', a, (tab, repr(err)), 'symbolic execution')
                ob.check('parser: the given locals are not changed', b, (given, repr(err)), 'symbolic execution')
                ob.check('parser: the default names are not changed', c, '', 'symbolic execution')
            ok = n[False] > 0 and (n[True] > 0 or given is not None and 'not an identifier' in given)
            ob.check('parser: reachable with success and failure', ok, n, 'symbolic execution')
