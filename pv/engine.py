"""Symbolic execution of the repository's own source text.

load() parses a module of /repo, applies a mechanical, semantics-preserving rewriting of loops,
comprehensions and identity tests into calls of the hooks below (so that iteration over a symbolic
collection can be summarised instead of unrolled) and executes the result with the imports replaced by a
`World`: contracts of the external libraries over symbolic values.  The functions that come out are the
code that runs, statement for statement; what is dropped is listed in DROPPED.

explore() runs a function once per feasible path.  A branch on a symbolic truth value asks z3 whether
either side is excluded by the path condition and forks otherwise."""
import ast
import builtins
import itertools
import os
import sys
import time
import types

import z3

REPO = os.environ.get('VERIF_REPO', '/repo')

DROPPED = [
    'docstrings, comments, type annotations and default-argument evaluation order are not modelled beyond CPython executing them',
    'functools.lru_cache is replaced by the identity decorator (caches are treated by property C07)',
    'generator expressions over symbolic collections are evaluated eagerly',
    'warnings.warn has no effect',
]


class Unsupported(Exception):
    """The source uses something the contracts of the verifier do not cover."""


class ContractError(Exception):
    """A precondition of a contract fails, or an obligation is refuted."""


class Infeasible(BaseException):
    pass


class NeedOuter(BaseException):
    """A fact about whole collections is needed inside a nested exploration: decide it outside first."""
    def __init__(self, f):
        self.f = f


GLOBAL_FACTS = ('empty<', 'nonempty<')


def is_global(f):
    if z3.is_not(f) or z3.is_or(f) or z3.is_and(f):
        return all(is_global(x) for x in f.children())
    return z3.is_const(f) and z3.is_bool(f) and f.decl().name().startswith(GLOBAL_FACTS)


# ---------------------------------------------------------------- path exploration

# milliseconds: treat a branch the solver cannot exclude as feasible (sound: more paths have to be proved)
UNKNOWN_IS_FEASIBLE = [None]


class Ctx:
    def __init__(self, trail, assumptions):
        self.trail = list(trail)      # decisions taken at free choices
        self.pos = 0
        self.free = []                # which decisions were free
        self.solver = z3.Solver()
        self.solver.set('timeout', UNKNOWN_IS_FEASIBLE[0] or 10000)
        self.pc = []
        for a in assumptions:
            self.assume(a)

    def assume(self, f):
        self.pc.append(f)
        self.solver.add(f)

    def feasible(self, f):
        t0 = time.time()
        self.solver.push()
        self.solver.add(f)
        r = self.solver.check()
        self.solver.pop()
        STATS['solver_s'] += time.time() - t0
        STATS['queries'] += 1
        if r == z3.unknown and UNKNOWN_IS_FEASIBLE[0]:
            return True
        if r == z3.unknown:
            raise Unsupported('z3 gives no answer for a branch condition: {}'.format(self.solver.reason_unknown()))
        return r == z3.sat

    def decide(self, f):
        f = z3.simplify(f)
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        if self.pos < len(self.trail):
            val = self.trail[self.pos]
        else:
            can_t, can_f = self.feasible(f), self.feasible(z3.Not(f))
            if not can_t and not can_f:
                raise Infeasible
            if can_t and can_f and len(_ctx) > 1 and is_global(f):
                raise NeedOuter(f)
            val = can_t
            self.trail.append(val)
            self.free.append((self.pos, can_t and can_f))
        self.pos += 1
        self.assume(f if val else z3.Not(f))
        return val


STATS = dict(solver_s=0.0, queries=0, paths=0)
_ctx = []


def ctx():
    if not _ctx:
        raise Unsupported('symbolic branch outside of path exploration')
    return _ctx[-1]


def decide(f):
    return ctx().decide(f)


def assume(f):
    ctx().assume(f)


class Path:
    def __init__(self, pc, kind, value):
        self.pc, self.kind, self.value = pc, kind, value   # kind: 'return' | 'raise'


def explore(fn, assumptions=(), max_paths=20000):
    """All paths of fn(): list of Path.  Exceptions of the verifier propagate."""
    paths, todo = [], [[]]
    while todo:
        trail = todo.pop()
        c = Ctx(trail, assumptions)
        _ctx.append(c)
        try:
            try:
                value, kind = fn(), 'return'
            except Infeasible:
                kind = None
            except (Unsupported, ContractError):
                raise
            except Exception as e:     # an exception of the code under verification
                value, kind = e, 'raise'
        finally:
            _ctx.pop()
        for pos, both in c.free:
            if both:
                todo.append(c.trail[:pos] + [not c.trail[pos]])
        if kind:
            STATS['paths'] += 1
            paths.append(Path(c.pc, kind, value))
            if len(paths) > max_paths:
                raise Unsupported('too many paths')
    return paths


class SBool:
    """Symbolic truth value."""
    __slots__ = ('f',)

    def __init__(self, f):
        self.f = f

    def __bool__(self):
        return decide(self.f)

    def __and__(self, o):
        return SBool(z3.And(self.f, _f(o)))
    __rand__ = __and__

    def __or__(self, o):
        return SBool(z3.Or(self.f, _f(o)))
    __ror__ = __or__

    def __xor__(self, o):
        return SBool(z3.Xor(self.f, _f(o)))
    __rxor__ = __xor__

    def __invert__(self):
        return SBool(z3.Not(self.f))

    def __eq__(self, o):
        if isinstance(o, (SBool, bool)):
            return SBool(self.f == _f(o))
        return NotImplemented

    def __ne__(self, o):
        return SBool(z3.Not((self == o).f))

    def __lt__(self, o):
        return SBool(z3.And(z3.Not(self.f), _f(o)))

    def __gt__(self, o):
        return SBool(z3.And(self.f, z3.Not(_f(o))))

    def __le__(self, o):
        return SBool(z3.Or(z3.Not(self.f), _f(o)))

    def __ge__(self, o):
        return SBool(z3.Or(self.f, z3.Not(_f(o))))

    def __hash__(self):
        return hash(self.f)


def _f(x):
    if isinstance(x, SBool):
        return x.f
    if isinstance(x, (bool,)):
        return z3.BoolVal(x)
    if z3.is_bool(x):
        return x
    raise Unsupported('not a truth value: {!r}'.format(type(x)))


def formula(x):
    """z3 formula of a value used as a truth value (forks are avoided where possible)."""
    return _f(x)


BUDGET = [None]     # (solver seconds at the start of the group, seconds allowed before giving up quickly)


def prove(f, assumptions=(), timeout=30000):
    """z3 (then cvc5 if it gives up): is f valid under the assumptions?  -> (bool, model text)."""
    t0 = time.time()
    s = z3.Solver()
    if BUDGET[0] and STATS['solver_s'] - BUDGET[0][0] > BUDGET[0][1]:
        timeout = min(timeout, 1000)
        if STATS['solver_s'] - BUDGET[0][0] > 2 * BUDGET[0][1]:
            raise Unsupported('the solver ran out of its time budget')
    s.set('timeout', timeout)
    for a in assumptions:
        s.add(a)
    s.add(z3.Not(f))
    r = s.check()
    STATS['solver_s'] += time.time() - t0
    STATS['queries'] += 1
    if r == z3.unsat:
        return True, ''
    if r == z3.sat:
        return False, 'counter-model: ' + str(s.model())[:1500]
    return None, 'z3: unknown ({})'.format(s.reason_unknown())


# ---------------------------------------------------------------- hooks called by the rewritten source

class Symbolic:
    """Base of symbolic collections: iteration goes through the hooks."""

    def pv_for(self, body, get, set_):
        raise Unsupported('loop over ' + type(self).__name__)

    def pv_comp(self, kind, fn):
        raise Unsupported('comprehension over ' + type(self).__name__)

    def __iter__(self):
        raise Unsupported('iteration over ' + type(self).__name__)


class _Ret:
    __slots__ = ('value',)

    def __init__(self, value):
        self.value = value


BREAK, CONTINUE = object(), None
BREAK_OUTER, CONTINUE_OUTER = object(), object()


class Hooks:
    def for_(self, it, body, get, set_, orelse=None):
        """for loop: returns None or _Ret(value)."""
        if isinstance(it, Symbolic):
            if orelse is not None:
                if not getattr(it, 'pv_else', False):
                    raise Unsupported('else clause of a loop over ' + type(it).__name__)
                return it.pv_for(body, get, set_, orelse)
            return it.pv_for(body, get, set_)
        for x in it:
            r = body(x)
            if r is BREAK:
                return None
            if isinstance(r, _Ret):
                return r
        if orelse is not None:
            return orelse()
        return None

    def while_(self, name, cond, body, get, set_, orelse=None):
        h = WHILE_RULES.get(name[0]) if WHILE_RULES else None
        if h is not None:
            return h(name, cond, body, get, set_, orelse)
        n = 0
        while cond():
            r = body()
            if r is BREAK:
                return None
            if isinstance(r, _Ret):
                return r
            n += 1
            if n > 5000:
                raise Unsupported('while loop without a contract')
        if orelse is not None:
            return orelse()
        return None

    def comp(self, kind, it, fn):
        if isinstance(it, Symbolic):
            return it.pv_comp(kind, fn)
        if kind == 'gen':
            return (y for x in it for y in fn(x))
        out = [y for x in it for y in fn(x)]
        if kind == 'list':
            return out
        if kind == 'set':
            return make_set(out)
        if kind == 'dict':
            return make_dict(out)

    def flat(self, lists):
        out = []
        for l in lists:
            if isinstance(l, Symbolic):
                if len(lists) == 1:
                    return l
                raise Unsupported('nested symbolic comprehension')
            out += list(l)
        return out

    def is_(self, a, b):
        return a is b

    RET, BREAK = _Ret, BREAK
    BREAK_OUTER, CONTINUE_OUTER = BREAK_OUTER, CONTINUE_OUTER


def make_set(items):
    for h in SET_BUILDERS:
        r = h(items)
        if r is not None:
            return r
    return set(items)


def make_dict(items):
    for h in DICT_BUILDERS:
        r = h(items)
        if r is not None:
            return r
    return dict(items)


SET_BUILDERS, DICT_BUILDERS = [], []
WHILE_RULES = {}
HOOKS = Hooks()


# ---------------------------------------------------------------- rewriting

def _assigned(nodes):
    """Names bound by statements (not descending into function/class scopes)."""
    names = set()

    class V(ast.NodeVisitor):
        def visit_FunctionDef(self, n):
            names.add(n.name)

        def visit_ClassDef(self, n):
            names.add(n.name)

        def visit_Lambda(self, n):
            pass

        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                names.add(n.id)

        def visit_ListComp(self, n):
            pass
        visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

        def visit_Import(self, n):
            for a in n.names:
                names.add((a.asname or a.name).split('.')[0])
        visit_ImportFrom = visit_Import
    v = V()
    for n in nodes:
        v.visit(n)
    return names


def _contains(nodes, kinds, stop=(ast.FunctionDef, ast.Lambda, ast.ClassDef)):
    todo = list(nodes)
    while todo:
        n = todo.pop()
        if isinstance(n, kinds):
            return True
        if isinstance(n, stop):
            continue
        todo += list(ast.iter_child_nodes(n))
    return False


def _outer_exits(stmts):
    """break / continue that leave a loop around these statements."""
    out, todo = set(), list(stmts)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Break, ast.Continue)):
            out.add(type(n))
        elif isinstance(n, (ast.For, ast.While)):
            todo += n.orelse
        elif not isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            todo += list(ast.iter_child_nodes(n))
    return out


def _name(x, store=False):
    return ast.Name(id=x, ctx=ast.Store() if store else ast.Load())


def _hook(attr):
    return ast.Attribute(value=_name('_pv_hooks'), attr=attr, ctx=ast.Load())


def _call(f, *args):
    return ast.Call(func=f, args=list(args), keywords=[])


def _str(x):
    return ast.Constant(value=x)


class _BodyExits(ast.NodeTransformer):
    """break/continue/return of a loop body that has become a function."""

    def __init__(self):
        self.depth = 0

    def visit_FunctionDef(self, n):
        return n
    visit_Lambda = visit_ClassDef = visit_FunctionDef

    def visit_For(self, n):
        self.depth += 1
        n.body = [self.visit(s) for s in n.body]
        self.depth -= 1
        n.orelse = [self.visit(s) for s in n.orelse]
        return n
    visit_While = visit_For

    def visit_Break(self, n):
        return n if self.depth else ast.Return(value=_hook('BREAK'))

    def visit_Continue(self, n):
        return n if self.depth else ast.Return(value=ast.Constant(value=None))

    def visit_Return(self, n):
        return ast.Return(value=_call(_hook('RET'), n.value or ast.Constant(value=None)))


class _ElseExits(_BodyExits):
    """else clause of a loop: break and continue belong to the loop around it."""
    def visit_Break(self, n):
        return n if self.depth else ast.Return(value=_hook('BREAK_OUTER'))

    def visit_Continue(self, n):
        return n if self.depth else ast.Return(value=_hook('CONTINUE_OUTER'))


class Rewriter(ast.NodeTransformer):
    def __init__(self):
        self.n = 0
        self.fn = []       # stack of [node, declared names, extra dummies, is_generator, loop counter]

    def visit_FunctionDef(self, node):
        decl = {a.arg for a in node.args.args + node.args.kwonlyargs + node.args.posonlyargs}
        if node.args.vararg:
            decl.add(node.args.vararg.arg)
        if node.args.kwarg:
            decl.add(node.args.kwarg.arg)
        info = dict(name=node.name, params=decl, dummies=set(), loops=0,
                    gen=_contains(node.body, (ast.Yield, ast.YieldFrom)),
                    nonlocals={x for s in ast.walk(node) if isinstance(s, (ast.Nonlocal, ast.Global)) for x in s.names})
        self.fn.append(info)
        node.args = self.generic_visit(node.args)
        body = []
        for s in node.body:
            r = self.visit(s)
            body += r if isinstance(r, list) else [r]
        self.fn.pop()
        # make every loop variable a local of this function
        dummies = sorted(info['dummies'] - info['params'] - info['nonlocals'])
        if dummies:
            doc = 1 if (body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant)) else 0
            body.insert(doc, ast.If(test=ast.Constant(value=False), orelse=[], body=[
                ast.Assign(targets=[_name(d, True)], value=ast.Constant(value=None)) for d in dummies]))
        node.body = body
        return node

    def _loop_parts(self, names):
        k = self.n
        get, set_ = '_pv_get%d' % k, '_pv_set%d' % k
        defs = []
        gbody = [ast.Assign(targets=[_name('_pv_d', True)], value=ast.Dict(keys=[], values=[]))]
        for v in sorted(names):
            gbody.append(ast.Try(body=[ast.Assign(targets=[ast.Subscript(value=_name('_pv_d'), slice=_str(v), ctx=ast.Store())],
                                                  value=_name(v))],
                                 handlers=[ast.ExceptHandler(type=_name('NameError'), name=None, body=[ast.Pass()])],
                                 orelse=[], finalbody=[]))
        gbody.append(ast.Return(value=_name('_pv_d')))
        defs.append(_fdef(get, [], gbody))
        sbody = ([ast.Nonlocal(names=sorted(names))] if names else []) + [
            ast.If(test=ast.Compare(left=_str(v), ops=[ast.In()], comparators=[_name('_pv_d')]),
                   body=[ast.Assign(targets=[_name(v, True)],
                                    value=ast.Subscript(value=_name('_pv_d'), slice=_str(v), ctx=ast.Load()))],
                   orelse=[]) for v in sorted(names)] + [ast.Pass()]
        defs.append(_fdef(set_, ['_pv_d'], sbody))
        return defs, get, set_

    def _hoistable(self, node):
        if not self.fn or self.fn[-1]['gen']:
            return False
        return not _contains(node.body + node.orelse, (ast.Yield, ast.YieldFrom, ast.Nonlocal, ast.Global, ast.Delete))

    def _exit(self, call, orelse=()):
        r = '_pv_r%d' % self.n
        out = []
        for ty, name, stmt in ((ast.Break, 'BREAK_OUTER', ast.Break()), (ast.Continue, 'CONTINUE_OUTER', ast.Continue())):
            if ty in orelse:
                out.append(ast.If(test=ast.Compare(left=_name(r), ops=[ast.Is()], comparators=[_hook(name)]), body=[stmt], orelse=[]))
        return self._exit_return(call) + out

    def _exit_return(self, call):
        r = '_pv_r%d' % self.n
        test = _call(_name('isinstance'), _name(r), _hook('RET'))
        return [ast.Assign(targets=[_name(r, True)], value=call),
                ast.If(test=test, body=[ast.Return(value=ast.Attribute(value=_name(r), attr='value', ctx=ast.Load()))],
                       orelse=[])]

    def visit_For(self, node):
        if not self._hoistable(node):
            return self.generic_visit(node)
        info = self.fn[-1]
        ordinal = info['loops']
        info['loops'] += 1
        names = _assigned(node.body + [node.target] + node.orelse)
        info['dummies'] |= names
        node = self.generic_visit(node)
        self.n += 1
        k = self.n
        names |= {x for s in node.body for x in _assigned([s])}
        names = {x for x in names if not x.startswith('_pv_')}
        body = [_BodyExits().visit(s) for s in node.body]
        hidden = {x for s in body for x in _assigned([s]) if x.startswith('_pv_')}
        bname = '_pv_body%d' % k
        target = node.target
        fbody = ([ast.Nonlocal(names=sorted(names))] if names else []) + [
            ast.Assign(targets=[target], value=_name('_pv_item'))] + body
        defs, get, set_ = self._loop_parts(names)
        defs.append(_fdef(bname, ['_pv_item'], fbody))
        args = [node.iter, _name(bname), _name(get), _name(set_)]
        outer = _outer_exits(node.orelse)
        if node.orelse:
            oname = '_pv_else%d' % k
            defs.append(_fdef(oname, [], ([ast.Nonlocal(names=sorted(names))] if names else []) +
                              [_ElseExits().visit(s) for s in node.orelse]))
            args.append(_name(oname))
        out = defs + self._exit(_call(_hook('for_'), *args), outer)
        return [ast.copy_location(s, node) for s in out]

    def visit_While(self, node):
        if not self._hoistable(node):
            return self.generic_visit(node)
        info = self.fn[-1]
        ordinal = info['loops']
        info['loops'] += 1
        names = _assigned(node.body + node.orelse)
        info['dummies'] |= names
        node = self.generic_visit(node)
        self.n += 1
        k = self.n
        names = {x for x in names if not x.startswith('_pv_')}
        body = [_BodyExits().visit(s) for s in node.body]
        bname = '_pv_body%d' % k
        nl = [ast.Nonlocal(names=sorted(names))] if names else []
        defs, get, set_ = self._loop_parts(names)
        defs.append(_fdef(bname, [], nl + body))
        cond = ast.Lambda(args=_args([]), body=node.test)
        label = ast.Tuple(elts=[_str(info['name']), ast.Constant(value=ordinal)], ctx=ast.Load())
        args = [label, cond, _name(bname), _name(get), _name(set_)]
        outer = _outer_exits(node.orelse)
        if node.orelse:
            oname = '_pv_else%d' % k
            defs.append(_fdef(oname, [], nl + [_ElseExits().visit(s) for s in node.orelse]))
            args.append(_name(oname))
        out = defs + self._exit(_call(_hook('while_'), *args), outer)
        return [ast.copy_location(s, node) for s in out]

    def _comp(self, node, kind, elt):
        """comp(kind, X, lambda it: [elt for T in [it] if conds ...])"""
        def build(gens):
            g = gens[0]
            if len(gens) == 1:
                inner = ast.ListComp(elt=elt, generators=[ast.comprehension(
                    target=g.target, iter=ast.List(elts=[_name('_pv_it')], ctx=ast.Load()), ifs=g.ifs, is_async=0)])
                return g.iter, inner
            it2, inner2 = build(gens[1:])
            sub = _call(_hook('comp'), _str('list'), it2, ast.Lambda(args=_args(['_pv_it']), body=inner2))
            inner = ast.ListComp(elt=sub, generators=[ast.comprehension(
                target=g.target, iter=ast.List(elts=[_name('_pv_it')], ctx=ast.Load()), ifs=g.ifs, is_async=0)])
            return g.iter, _call(_hook('flat'), inner)
        node_gens = node.generators
        it, inner = build(node_gens)
        return ast.copy_location(_call(_hook('comp'), _str(kind), it, ast.Lambda(args=_args(['_pv_it']), body=inner)), node)

    def visit_ListComp(self, node):
        node = self.generic_visit(node)
        return self._comp(node, 'list', node.elt)

    def visit_SetComp(self, node):
        node = self.generic_visit(node)
        return self._comp(node, 'set', node.elt)

    def visit_GeneratorExp(self, node):
        node = self.generic_visit(node)
        return self._comp(node, 'gen', node.elt)

    def visit_DictComp(self, node):
        node = self.generic_visit(node)
        return self._comp(node, 'dict', ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()))

    def visit_Set(self, node):
        node = self.generic_visit(node)
        return ast.copy_location(_call(_hook('setlit'), ast.List(elts=node.elts, ctx=ast.Load())), node)

    def visit_Dict(self, node):
        node = self.generic_visit(node)
        if any(k is None for k in node.keys):
            return node
        return ast.copy_location(_call(_hook('dictlit'), ast.List(elts=[
            ast.Tuple(elts=[k, v], ctx=ast.Load()) for k, v in zip(node.keys, node.values)], ctx=ast.Load())), node)


Hooks.setlit = lambda self, items: make_set(items)
Hooks.dictlit = lambda self, items: make_dict(items)


def _args(names):
    return ast.arguments(posonlyargs=[], args=[ast.arg(arg=a) for a in names], kwonlyargs=[], kw_defaults=[], defaults=[])


def _fdef(name, args, body):
    return ast.FunctionDef(name=name, args=_args(args), body=body, decorator_list=[], type_params=[])


# ---------------------------------------------------------------- loading

_sources = {}


def source(mod):
    if mod not in _sources:
        with open(os.path.join(REPO, 'qsymm', mod + '.py'), encoding='utf-8') as f:
            _sources[mod] = f.read()
    return _sources[mod]


class Stub(types.ModuleType):
    """Namespace of contracts; anything without a contract is Unsupported when used."""

    def __init__(self, name, **items):
        super().__init__(name)
        self.__dict__.update(items)

    def __getattr__(self, attr):
        if attr.startswith('__'):
            raise AttributeError(attr)
        return Missing(self.__name__ + '.' + attr)


class Missing:
    def __init__(self, name):
        self._name = name

    def __call__(self, *a, **k):
        raise Unsupported('no contract for ' + self._name)

    def __getattr__(self, attr):
        if attr.startswith('__'):
            raise AttributeError(attr)
        return Missing(self._name + '.' + attr)

    def __mro_entries__(self, bases):
        return (object,)


def _identity_decorator(*a, **k):
    if len(a) == 1 and callable(a[0]) and not k:
        return a[0]
    return lambda f: f


REAL_OK = {'collections', 'collections.abc', 'numbers', 'fractions', 're', 'math', 'operator', 'string', 'random', 'typing'}


CODE = {}     # the source is read once per run


def load(mod, imports, overrides=None, builtin_overrides=None, only=None):
    """Execute the rewritten source of qsymm/<mod>.py.  imports: {module name: Stub or module}; relative
    imports are looked up as '.name'.  overrides: names replaced (by their contracts) after loading."""
    code = CODE.get(mod)
    if code is None:
        tree = ast.parse(source(mod))
        tree = Rewriter().visit(tree)
        ast.fix_missing_locations(tree)
        code = CODE[mod] = compile(tree, '/repo/qsymm/{}.py (rewritten)'.format(mod), 'exec')

    def imp(name, globals=None, locals=None, fromlist=(), level=0):
        full = '.' * level + name
        top = full if (fromlist or level) else full.split('.')[0]
        if name == 'functools':
            return Stub('functools', lru_cache=_identity_decorator, cache=_identity_decorator,
                        reduce=__import__('functools').reduce, partial=__import__('functools').partial,
                        wraps=__import__('functools').wraps)
        if name == 'itertools':
            return imports.get('itertools', ITERTOOLS)
        if name == 'warnings':
            return Stub('warnings', warn=lambda *a, **k: None)
        if not level and not fromlist and '.' in full:
            # import a.b.c as x: attributes are looked up on the top module
            ns = m = Stub(top)
            if top in imports:
                ns.__dict__.update(vars(imports[top]))
            parts, path = full.split('.')[1:], top
            for q in parts:
                path += '.' + q
                sub = imports.get(path)
                if sub is None:
                    sub = m.__dict__.get(q) or Stub(path)
                m.__dict__[q] = sub
                m = sub
            return ns
        if top in imports:
            return imports[top]
        if name in REAL_OK:
            return __import__(name, globals, locals, fromlist, 0)
        if level:
            if not name:     # from . import x
                ns = Stub('.')
                for f in fromlist:
                    ns.__dict__[f] = imports.get('.' + f, Missing('.' + f))
                return ns
            return Stub(full)
        return Stub(top)

    b = dict(vars(builtins))
    b['__import__'] = imp
    b['sum'] = sym_sum
    b['set'] = SetType
    b['any'], b['all'] = sym_any, sym_all
    b['len'] = sym_len
    b['abs'] = sym_abs
    b['range'] = sym_range
    b['isinstance'] = sym_isinstance
    b['zip'] = sym_zip
    b['enumerate'] = sym_enumerate
    b.update(builtin_overrides or {})
    g = {'__name__': 'qsymm.' + mod, '__builtins__': b, '_pv_hooks': HOOKS, '__package__': 'qsymm'}
    exec(code, g)
    if overrides:
        for k, v in overrides.items():
            if k not in g:
                raise Unsupported('{}.{} has disappeared'.format(mod, k))
            g[k] = v
    return types.SimpleNamespace(**{'ns': g, **{k: v for k, v in g.items() if k.isidentifier() and not k.startswith('__')}})


def sym_sum(it, start=0):
    if hasattr(it, 'pv_sum'):
        return it.pv_sum(start)
    r = start
    for x in it:
        r = r + x
    return r


class _SetMeta(type):
    def __instancecheck__(cls, x):
        return builtins.isinstance(x, builtins.set) or hasattr(x, 'pv_is_set')

    def __call__(cls, *a):
        if a and hasattr(a[0], 'pv_set'):
            return a[0].pv_set()
        return builtins.set(*a) if not a else make_set(list(a[0]))


class SetType(metaclass=_SetMeta):
    pass


def sym_isinstance(x, t):
    ts = t if builtins.isinstance(t, tuple) else (t,)
    out = []
    for y in ts:
        if y is SetType:
            if builtins.isinstance(x, SetType):
                return True
        elif builtins.isinstance(y, Missing):
            raise Unsupported('isinstance with ' + y._name)
        elif builtins.isinstance(y, tuple):
            if sym_isinstance(x, y):
                return True
        else:
            if hasattr(x, 'pv_isinstance'):
                r = x.pv_isinstance(y)
                if r is not None:
                    if r:
                        return True
                    continue
            if builtins.isinstance(x, y):
                return True
    return False


def sym_any(it):
    if hasattr(it, 'pv_any'):
        return it.pv_any()
    for x in it:
        if x:
            return True
    return False


def sym_all(it):
    if hasattr(it, 'pv_all'):
        return it.pv_all()
    for x in it:
        if not x:
            return False
    return True


def sym_len(x):
    return x.pv_len() if hasattr(x, 'pv_len') else builtins.len(x)


def sym_abs(x):
    return abs(x)


def sym_range(*a):
    for x in a:
        if hasattr(x, 'pv_range'):
            return x.pv_range(*a)
    return range(*a)


def sym_zip(*a, **k):
    for x in a:
        if isinstance(x, Symbolic):
            return x.pv_zip(*a)
    return zip(*a, **k)


def sym_enumerate(x, *a):
    if isinstance(x, Symbolic):
        return x.pv_enumerate(*a)
    return enumerate(x, *a)


def sym_product(*a, repeat=1):
    for x in a:
        if isinstance(x, Symbolic):
            return x.pv_product(*a)
    return itertools.product(*a, repeat=repeat)


ITERTOOLS = Stub('itertools', **{k: v for k, v in vars(itertools).items() if not k.startswith('_')})
ITERTOOLS.__dict__['product'] = sym_product
