"""Frame conditions (modifies / fresh clauses) by points-to analysis of the source.

Every function gets a contract, computed from its body: the parameters it may modify, and where the objects it returns may come from.  Callers
are checked against the contracts of the callees (fixpoint over all modules).  Regions:
  ('P', x)   the object passed as parameter x        ('P*', x)  everything reachable from it
  ('G', m, x) a module level object (and everything reachable from it)
  ('K', f)   a value returned by the cached function f
  ('S', ...) an object created in the function       ('F', id)  a function defined in the function
The heap maps (region, field) to regions; the field '[]' stands for all elements; numpy arrays contain themselves (views)."""
import ast
import itertools

MODULES = ['linalg', 'kwant_linalg_lll', 'kwant_continuum', 'model', 'groups', 'hamiltonian_generator', 'symmetry_finder']

# -------------------------------------------------- contracts of the environment

MUTATORS = {'append', 'extend', 'add', 'update', 'pop', 'popitem', 'clear', 'remove', 'discard', 'sort', 'reverse', 'insert', 'setdefault', 'fill',
            'resize', 'setflags', 'difference_update', 'intersection_update', 'symmetric_difference_update', '__setitem__', '__delitem__',
            'itemset', 'put', 'partition', 'move_to_end', 'row_del', 'col_del', 'row_swap',
            'col_swap', 'row_op', 'col_op', 'byteswap', 'appendleft', 'popleft', '__iadd__', '__isub__', '__imul__', '__itruediv__', '__ior__',
            'sumdup', 'prune', 'setdiag', 'cache_clear', 'setfield', 'subtract'}
NP_MUTATORS = {'fill_diagonal', 'copyto', 'put', 'place', 'putmask', 'put_along_axis', 'add.at', 'subtract.at', 'multiply.at', 'shuffle',
               'random.shuffle', 'setattr', 'delattr'}
VIEWS = {'asarray', 'asanyarray', 'ascontiguousarray', 'atleast_1d', 'atleast_2d', 'atleast_3d', 'reshape', 'ravel', 'transpose', 'real', 'imag', 'diag',
         'diagonal', 'squeeze', 'swapaxes', 'moveaxis', 'rollaxis', 'broadcast_to', 'expand_dims', 'flip', 'fliplr', 'flipud', 'rot90', 'split', 'array_split',
         'T', 'flat', 'H', 'A', 'view', 'conj', 'conjugate', 'real_if_close', 'nan_to_num_', 'require', 'aslinearoperator', 'astype_', 'broadcast_arrays'}
FRESH_COPY = {'copy', 'deepcopy', '_copy'}        # a fresh object that shares no matrix with the argument (deepcopy, or copy of a matrix)
SHALLOW = {'list', 'tuple', 'set', 'frozenset', 'dict', 'sorted', 'reversed', 'enumerate', 'zip', 'iter', 'filter', 'OrderedDict', 'defaultdict',
           'UserDict', 'PrettyList', 'product', 'combinations', 'permutations', 'chain', 'islice', 'repeat', 'accumulate', 'count', 'groupby', 'takewhile',
           'combinations_with_replacement', 'cycle', 'starmap', 'tee', 'zip_longest', 'compress', 'chain.from_iterable', 'next', 'min', 'max', 'getattr', 'map',
           'vars'}
SCALAR = {'len', 'int', 'float', 'complex', 'bool', 'str', 'repr', 'abs', 'isinstance', 'issubclass', 'hasattr', 'callable', 'type', 'hash', 'id', 'range',
          'print', 'round', 'any', 'all', 'format', 'ord', 'chr', 'slice', 'divmod', 'pow', 'super', 'object', 'property', 'classmethod', 'staticmethod',
          'ValueError', 'TypeError', 'NotImplementedError', 'AssertionError', 'KeyError', 'RuntimeError', 'Exception', 'warn', 'One', 'Fraction', 'eval_'}
# methods of other libraries: result is a new immutable value
IMMUTABLE_METHODS = {'subs', 'expand', 'powsimp', 'as_ordered_terms', 'as_ordered_factors', 'atoms', 'rewrite', 'xreplace', 'format', 'join', 'replace',
                     'split', 'strip', 'startswith', 'endswith', 'isidentifier', 'as_coeff_Mul', 'as_coeff_mul', 'as_powers_dict', 'has', 'diff', 'coeff',
                     'simplify', 'evalf', 'as_integer_ratio', 'limit_denominator', 'is_constant', 'as_base_exp', 'iskeyword', 'lower', 'upper', 'index',
                     'count', 'issubset', 'issuperset', 'isdisjoint', 'tobytes', 'item', 'any', 'all', 'free_symbols', '_repr_latex_', 'rstrip', 'lstrip',
                     'as_independent', 'doit', 'together', 'cancel', 'text', 'mro'}
# methods whose result is a new container with the same elements
SHALLOW_METHODS = {'items', 'values', 'union', 'intersection', 'difference', 'symmetric_difference', 'get', 'fromkeys', '__iter__', 'tolist_'}
KEY_METHODS = {'keys'}
# methods with a new matrix as result
ARRAY_METHODS = {'dot', 'sum', 'trace', 'toarray', 'todense', 'tocsr', 'tocsc', 'tocoo', 'max', 'min', 'mean', 'prod', 'round', 'argmax', 'argmin', 'argsort',
                 'nonzero', 'cumsum', 'astype', 'flatten', 'repeat', 'inv', 'det', 'std', 'tolist', 'matmat', 'matvec', 'around', 'clip', 'take', 'norm',
                 'searchsorted', 'eigenvals', 'nullspace', 'pinv', 'multiply', 'power', 'transpose_', 'rmatvec', 'matmul', 'cross', 'applyfunc', 'adjoint'}
ARRAY_ATTRS = {'T', 'real', 'imag', 'flat', 'H', 'A'}
SCALAR_ATTRS = {'shape', 'dtype', 'ndim', 'size', 'nnz', 'name', 'func', 'is_number', 'is_commutative', 'args', 'exp', 'base', 'numerator', 'denominator',
                'start', 'stop', 'step', '__name__', '__class__', 'format', 'conjugate_', 'is_Add', 'free_symbols', 'cols', 'rows', 'is_Mul', 'is_Pow',
                'is_Symbol', 'momenta', 'is_zero', 'is_real', 'is_integer', 'is_Number'}

# the results of these cached functions are immutable: tiny arrays, immutable sympy matrices, truth values, tuples of symbols
IMMUTABLE_RESULT = {'_mul', '_inv', '_eq', '_make_int', '_find_momenta', '_symbol_normalizer'}
# calls that change the state of a library
STATE_SETTERS = {'seterr', 'seed', 'set_printoptions', 'set_state', 'simplefilter', 'filterwarnings', 'resetwarnings', 'setrecursionlimit', 'init_printing',
                 'init_session', 'seterrcall', 'setbufsize', 'clear_cache', 'set_global_settings', 'cache_clear', 'putenv', 'chdir'}
# documented types of parameters
LISTS = {('hamiltonian_generator', 'continuum_variables', 'all_powers')}

EMPTY = frozenset()
ROUNDS = 30


class Fn:
    def __init__(self, mod, qual, node, cls=None, cached=False):
        self.mod, self.qual, self.node, self.cls, self.cached = mod, qual, node, cls, cached
        a = node.args
        self.params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + ([a.vararg.arg] if a.vararg else []) + ([a.kwarg.arg] if a.kwarg else [])
        self.pos = [x.arg for x in a.posonlyargs + a.args]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.mods = {}            # region -> where
        self.ret = EMPTY
        self.heap = {}
        self.key = (mod, qual)
        self.gen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(node))


class Program:
    def __init__(self, sources):
        self.fns, self.classes, self.globals, self.imports, self.trees = {}, {}, {}, {}, {}
        self.notes = []
        self.stateful = {'converter'}
        for m, src in sources.items():
            tree = self.trees[m] = ast.parse(src)
            self.globals[m], self.imports[m] = set(), {}
            for n in tree.body:
                self.top(m, n)
        self.methods = {}
        for (m, q), f in self.fns.items():
            if f.cls:
                self.methods.setdefault(q.split('.')[-1], []).append(f)
        self.solve()

    def top(self, m, n):
        if isinstance(n, ast.FunctionDef):
            cached = any('cache' in ast.unparse(d) for d in n.decorator_list)
            self.fns[m, n.name] = Fn(m, n.name, n, cached=cached)
        elif isinstance(n, ast.ClassDef):
            self.classes[n.name] = (m, [ast.unparse(b) for b in n.bases])
            for k in n.body:
                if isinstance(k, ast.FunctionDef):
                    self.fns[m, n.name + '.' + k.name] = Fn(m, n.name + '.' + k.name, k, cls=n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                full = ('.' * n.level + (n.module or '') + ':' + a.name) if isinstance(n, ast.ImportFrom) else a.name
                self.imports[m][a.asname or a.name.split('.')[0]] = full
        elif isinstance(n, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
            for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                for x in ast.walk(t):
                    if isinstance(x, ast.Name):
                        self.globals[m].add(x.id)
        elif isinstance(n, (ast.If, ast.Try)):
            for k in n.body + n.orelse + getattr(n, 'finalbody', []):
                self.top(m, k)
            for h in getattr(n, 'handlers', []):
                for k in h.body:
                    self.top(m, k)

    def resolve(self, m, name):
        """Function, class or None of a global name."""
        if (m, name) in self.fns:
            return self.fns[m, name]
        if name in self.classes and (self.classes[name][0] == m or name in self.imports[m]):
            return name
        imp = self.imports[m].get(name, '')
        if imp.startswith('.') and ':' in imp:
            mod, nm = imp.lstrip('.').split(':')
            if mod and (mod, nm) in self.fns:
                return self.fns[mod, nm]
            if nm in self.classes:
                return nm
        return None

    def solve(self):
        for rnd in range(ROUNDS):
            changed = False
            for f in self.fns.values():
                a = Analysis(self, f)
                a.run()
                new = (a.ret, {k: v for k, v in a.heap.items()}, a.mods)
                if a.ret != f.ret or a.heap != f.heap or set(a.mods) != set(f.mods):
                    changed = True
                f.ret, f.heap, f.mods = new
            if not changed:
                return
        raise RuntimeError('frame analysis does not converge')


class Analysis:
    def __init__(self, prog, f):
        self.prog, self.f, self.m = prog, f, f.mod
        self.heap, self.mods, self.ret = {}, {}, EMPTY
        self.lambdas = {}
        self.depth = 0
        self.kinds = {}
        self.notes = []

    # ---------------- heap
    def load(self, v, field, seen=()):
        out = set()
        for r in v:
            if r[0] in ('P', 'P*'):
                out.add(('P*', r[1]))
            elif r[0] in ('G', 'K'):
                out.add(r)
            elif r[0] == 'S':
                out |= self.heap.get((r, field), EMPTY)
                if field == '[]':
                    for q in self.heap.get((r, 'data'), EMPTY):
                        if q != r and q not in seen:
                            out |= self.load([q], '[]', (*seen, r))
                if self.isarray(r) and field == '[]':
                    out.add(r)
        return frozenset(out)

    def isarray(self, r):
        return r[0] == 'S' and r[-1] == 'array'

    def store(self, r, field, v):
        if r[0] == 'S' and v:
            self.heap[r, field] = self.heap.get((r, field), EMPTY) | v

    def closure(self, v):
        seen, todo = set(), list(v)
        while todo:
            r = todo.pop()
            if r in seen:
                continue
            seen.add(r)
            for (q, fld), w in list(self.heap.items()):
                if q == r:
                    todo += list(w)
            if r[0] == 'P':
                todo.append(('P*', r[1]))
        return frozenset(seen)

    def site(self, node, tag=''):
        return ('S', self.f.mod, self.f.qual, getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0), tag)

    def modify(self, v, node):
        for r in v:
            if r[0] != 'S' and r[0] != 'F':
                self.mods.setdefault(r, 'line {}: {}'.format(getattr(node, 'lineno', '?'), ast.unparse(node)[:120]))

    # ---------------- running
    def run(self):
        env = {p: frozenset([('P', p)]) for p in self.f.params}
        a = self.f.node.args
        if self.f.vararg:      # a new tuple of the arguments
            s = ('S', self.f.mod, self.f.qual, 0, 0, self.f.vararg)
            self.heap[s, '[]'] = frozenset([('P*', self.f.vararg)])
            env[self.f.vararg] = frozenset([s])
        if self.f.kwarg:
            s = ('S', self.f.mod, self.f.qual, 0, 0, self.f.kwarg)
            self.heap[s, '[]'] = frozenset([('P*', self.f.kwarg)])
            env[self.f.kwarg] = frozenset([s])
        if self.f.qual.endswith('.__init__'):
            # a new object
            self.me = ('S', self.f.mod, self.f.qual, 0, 0, 'self')
            env[self.f.params[0]] = self.ret = frozenset([self.me])
        for d in a.defaults + [x for x in a.kw_defaults if x is not None]:
            if isinstance(d, (ast.List, ast.Dict, ast.Set)) or isinstance(d, ast.Call):
                # a mutable default argument is shared between calls: it is covered by modifications of the parameter
                pass
        self.block(self.f.node.body, env)
        # keep only what callers can see
        self.summarise()

    def summarise(self):
        """Merge the returned objects of the same depth and kind."""
        depth, todo = {}, [(r, ()) for r in sorted(self.ret, key=str)]
        succ = {}
        for (q, fld), v in self.heap.items():
            succ.setdefault(q, []).extend((x, fld) for x in v)
        for v in succ.values():
            v.sort(key=str)
        while todo:
            r, d = todo.pop(0)
            if r in depth:
                continue
            depth[r] = d
            todo += [(x, (*d, fld)[:3] if len(d) < 3 else (*d[:3], '*')) for x, fld in succ.get(r, ())]
        me = getattr(self, 'me', None)

        def m(r):
            if r[0] != 'S' or r == me:
                return r
            return ('S', self.f.mod, self.f.qual, 'path', depth[r], 'array' if self.isarray(r) else 'object')
        heap = {}
        for (q, fld), v in self.heap.items():
            if q in depth:
                k = (m(q), fld)
                heap[k] = heap.get(k, EMPTY) | frozenset(m(x) for x in v)
        self.heap, self.ret = heap, frozenset(m(r) for r in self.ret)

    def block(self, stmts, env):
        for s in stmts:
            self.stmt(s, env)

    @staticmethod
    def join(a, b):
        for k, v in b.items():
            a[k] = a.get(k, EMPTY) | v

    def stmt(self, s, env):
        t = type(s)
        if t is ast.Assign:
            v = self.ev(s.value, env)
            for x in s.targets:
                self.assign(x, v, env, s)
        elif t is ast.AnnAssign:
            if s.value is not None:
                self.assign(s.target, self.ev(s.value, env), env, s)
        elif t is ast.AugAssign:
            self.aug(s, env)
        elif t is ast.Expr:
            self.ev(s.value, env)
        elif t is ast.Return:
            if s.value is not None:
                self.ret |= self.ev(s.value, env)
        elif t is ast.If:
            self.ev(s.test, env)
            e1, e2 = dict(env), dict(env)
            self.narrow(s.test, e1, True)
            self.narrow(s.test, e2, False)
            self.block(s.body, e1)
            self.block(s.orelse, e2)
            dead1, dead2 = leaves(s.body), leaves(s.orelse)
            env.clear()
            if not dead1:
                self.join(env, e1)
            if not dead2:
                self.join(env, e2)
            if dead1 and dead2:
                self.join(env, e1)
        elif t in (ast.For, ast.AsyncFor):
            it = self.ev(s.iter, env)
            for _ in range(3):
                e = dict(env)
                self.assign(s.target, self.elements(it, s.iter, env), e, s)
                self.block(s.body, e)
                self.join(env, e)
            self.block(s.orelse, env)
        elif t is ast.While:
            for _ in range(3):
                self.ev(s.test, env)
                e = dict(env)
                self.block(s.body, e)
                self.join(env, e)
            self.block(s.orelse, env)
        elif t is ast.Try:
            e = dict(env)
            self.block(s.body, e)
            self.join(env, e)
            for h in s.handlers:
                e = dict(env)
                self.block(h.body, e)
                self.join(env, e)
            self.block(s.orelse, env)
            self.block(s.finalbody, env)
        elif t in (ast.With, ast.AsyncWith):
            for i in s.items:
                v = self.ev(i.context_expr, env)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, v, env, s)
            self.block(s.body, env)
        elif t is ast.Delete:
            for x in s.targets:
                if isinstance(x, (ast.Subscript, ast.Attribute)):
                    self.modify(self.ev(x.value, env), s)
        elif t is ast.FunctionDef:
            env[s.name] = self.function(s, env)
        elif t in (ast.Raise, ast.Assert):
            for c in ast.iter_child_nodes(s):
                if isinstance(c, ast.expr):
                    self.ev(c, env)
        elif t is ast.Global:
            self.mods.setdefault(('G', self.m, ','.join(s.names)), 'global statement')
        elif t is ast.Nonlocal:
            pass
        elif t in (ast.Pass, ast.Break, ast.Continue, ast.Import, ast.ImportFrom):
            pass
        elif t is ast.ClassDef:
            env[s.name] = EMPTY
        else:
            for c in ast.iter_child_nodes(s):
                if isinstance(c, ast.expr):
                    self.ev(c, env)

    def narrow(self, test, env, truth):
        """x is None / isinstance(x, Number or str): x is an immutable value in that branch."""
        if isinstance(test, ast.BoolOp) and isinstance(test.op, ast.And if truth else ast.Or):
            for v in test.values:
                self.narrow(v, env, truth)
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            self.narrow(test.operand, env, not truth)
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.left, ast.Name):
            if isinstance(test.ops[0], ast.Is if truth else ast.IsNot) and isinstance(test.comparators[0], ast.Constant):
                env[test.left.id] = EMPTY
        if truth and isinstance(test, ast.Call) and isinstance(test.func, ast.Name) and test.func.id == 'isinstance' and isinstance(test.args[0], ast.Name):
            ts = test.args[1].elts if isinstance(test.args[1], ast.Tuple) else [test.args[1]]
            if all(ast.unparse(x) in ('Number', 'numbers.Number', 'str', 'int', 'float', 'complex', 'bool', 'sympy.Expr', 'sympy.Basic', 'Basic', 'tuple_')
                   for x in ts):
                env[test.args[0].id] = EMPTY

    def elements(self, v, node, env):
        return self.load(v, '[]')

    def assign(self, x, v, env, node):
        if isinstance(x, ast.Name):
            env[x.id] = v
        elif isinstance(x, (ast.Tuple, ast.List)):
            e = self.load(v, '[]')
            if isinstance(node, ast.Assign) and isinstance(node.value, (ast.Tuple, ast.List)) and len(node.value.elts) == len(x.elts) and \
                    not any(isinstance(y, ast.Starred) for y in (*x.elts, *node.value.elts)):
                vs = [self.ev(y, env) for y in node.value.elts]
                for y, w in zip(x.elts, vs):
                    self.assign(y, w, env, None)
                return
            # the fields of tuples are kept apart where they are known
            for i, y in enumerate(x.elts):
                w = set()
                for r in v:
                    known = self.heap.get((r, i))
                    w |= known if known is not None else self.load([r], '[]')
                self.assign(y, frozenset(w), env, None)
        elif isinstance(x, ast.Starred):
            s = self.site(x, 'star')
            self.store(s, '[]', self.load(v, '[]') | v)
            self.assign(x.value, frozenset([s]), env, None)
        elif isinstance(x, ast.Subscript):
            c = self.ev(x.value, env)
            self.ev(x.slice, env)
            self.modify(c, node or x)
            for r in c:
                if not self.isarray(r):          # numbers are copied into arrays
                    self.store(r, '[]', v)
        elif isinstance(x, ast.Attribute):
            c = self.ev(x.value, env)
            self.modify(c, node or x)
            for r in c:
                if x.attr not in SCALAR_ATTRS:
                    self.store(r, x.attr, v)

    def aug(self, s, env):
        v = self.ev(s.value, env)
        if isinstance(s.target, ast.Name):
            old = env.get(s.target.id, EMPTY)
            if s.target.id not in env:
                old = self.ev(ast.copy_location(ast.Name(id=s.target.id, ctx=ast.Load()), s.target), env)
            self.modify(old, s)
            for r in old:
                if r[0] == 'S' and isinstance(s.op, (ast.Add, ast.BitOr)):
                    self.store(r, '[]', self.load(v, '[]'))
            env[s.target.id] = frozenset(r for r in old) | self.binop(s, s.op, old, v)
        else:
            c = self.ev(s.target.value, env)
            self.modify(c, s)
            old = self.load(c, '[]' if isinstance(s.target, ast.Subscript) else s.target.attr)
            # the element itself is changed in place
            self.modify(old, s)
            new = self.binop(s, s.op, old, v)
            for r in c:
                if not self.isarray(r):
                    self.store(r, '[]' if isinstance(s.target, ast.Subscript) else s.target.attr, new)

    def binop(self, node, op, a, b):
        if not a and not b:
            return frozenset([self.site(node, 'array')])
        arr = any(self.isarray(r) for r in a | b)
        if arr or isinstance(op, (ast.Mult, ast.MatMult, ast.Div, ast.Pow, ast.FloorDiv, ast.Mod, ast.Sub, ast.BitAnd, ast.BitXor)) and not (
                isinstance(op, (ast.Sub, ast.BitAnd, ast.BitXor)) and False):
            s = self.site(node, 'array')
            if isinstance(op, (ast.Sub, ast.BitAnd, ast.BitXor, ast.Mult)):
                # set difference or repetition of a list: same elements
                e = frozenset(r for r in self.load(a, '[]') | self.load(b, '[]') if not arr and r[0] == 'S' and not self.isarray(r))
                self.store(s, '[]', e)
            return frozenset([s])
        s = self.site(node, 'sum')
        e = self.load(a, '[]') | self.load(b, '[]')
        self.store(s, '[]', frozenset(r for r in e))
        return frozenset([s])

    # ---------------- expressions
    def function(self, node, env):
        self.lambdas[id(node)] = (node, env)
        return frozenset([('F', id(node))])

    def bind(self, node, args, kwargs, env):
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        e = dict(env)
        for n, d in zip(names[::-1], a.defaults[::-1]):
            e[n] = self.ev(d, env)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            e[x.arg] = self.ev(d, env) if d is not None else EMPTY
        for n, v in zip(names, args):
            e[n] = v
        if a.vararg:
            s = self.site(node, 'varargs')
            for v in args[len(names):]:
                self.store(s, '[]', v)
            e[a.vararg.arg] = frozenset([s])
        for k, v in kwargs.items():
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                e[k] = v
        if a.kwarg:
            e[a.kwarg.arg] = frozenset([self.site(node, 'kwargs')])
        return e

    def call_local(self, fid, args, kwargs):
        node, env = self.lambdas[fid]
        if self.depth > 6:
            return frozenset([self.site(node, 'recursive')])
        self.depth += 1
        e = self.bind(node, args, kwargs, env)
        if isinstance(node, ast.Lambda):
            r = self.ev(node.body, e)
        else:
            save, self.ret = self.ret, EMPTY
            self.block(node.body, e)
            r, self.ret = self.ret, save
            if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(node)):
                s = self.site(node, 'generator')
                self.store(s, '[]', self.yielded)
                r = frozenset([s])
        self.depth -= 1
        return r

    yielded = EMPTY

    def ev(self, n, env):
        t = type(n)
        if t is ast.Constant or t is ast.JoinedStr or t is ast.FormattedValue:
            for c in ast.walk(n):
                if c is not n and isinstance(c, ast.FormattedValue):
                    self.ev(c.value, env)
            return EMPTY
        if t is ast.Name:
            if n.id in env:
                return env[n.id]
            if n.id in self.prog.globals[self.m]:
                return frozenset([('G', self.m, n.id)])
            full = self.prog.imports[self.m].get(n.id, '')
            if ':' in full and not full.startswith('.') and n.id in self.prog.stateful:
                return frozenset([('G', full.replace(':', '.'))])
            return EMPTY
        if t is ast.NamedExpr:
            v = self.ev(n.value, env)
            env[n.target.id] = v
            return v
        if t is ast.Attribute:
            v = self.ev(n.value, env)
            if n.attr in SCALAR_ATTRS:
                return EMPTY
            if n.attr in ARRAY_ATTRS:
                # a view of the array (or the property of a model, see its contract)
                out = set(v)
                for f in self.prog.methods.get(n.attr, []):
                    out |= self.apply(f, [v], {}, n) if not any(self.isarray(r) for r in v) else EMPTY
                return frozenset(out)
            if isinstance(n.value, ast.Name) and not v:
                # attribute of a module
                imp = self.prog.imports[self.m].get(n.value.id, '')
                mod = imp.split(':')[-1]
                if mod in self.prog.globals and n.attr in self.prog.globals[mod]:
                    return frozenset([('G', mod, n.attr)])
                if imp == 'sympy' or imp.startswith('sympy'):
                    return EMPTY
                return EMPTY
            return self.load(v, n.attr)
        if t is ast.Subscript:
            v = self.ev(n.value, env)
            self.ev(n.slice, env)
            if isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, int):
                w = set()
                for r in v:
                    known = self.heap.get((r, n.slice.value))
                    w |= known if known is not None else self.load([r], '[]')
                return frozenset(w)
            if isinstance(n.slice, ast.Slice):
                # a view of an array, a new list of the same elements
                out = set()
                for r in v:
                    if r[0] == 'P' and (self.f.mod, self.f.qual, r[1]) in LISTS:
                        s = self.site(n, 'list')
                        self.store(s, '[]', self.load([r], '[]'))
                        out.add(s)
                    else:
                        out.add(r)
                return frozenset(out)
            return self.load(v, '[]')
        if t in (ast.Tuple, ast.List, ast.Set):
            s = self.site(n, 'tuple' if t is ast.Tuple else 'list')
            for i, x in enumerate(n.elts):
                v = self.ev(x.value if isinstance(x, ast.Starred) else x, env)
                if isinstance(x, ast.Starred):
                    v = self.load(v, '[]')
                elif t is ast.Tuple and not any(isinstance(y, ast.Starred) for y in n.elts):
                    self.heap[s, i] = self.heap.get((s, i), EMPTY) | v
                self.store(s, '[]', v)
            return frozenset([s])
        if t is ast.Dict:
            s = self.site(n, 'dict')
            for k, x in zip(n.keys, n.values):
                v = self.ev(x, env)
                if k is None:
                    v = self.load(v, '[]')
                else:
                    self.ev(k, env)
                self.store(s, '[]', v)
            return frozenset([s])
        if t in (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp):
            e = dict(env)
            for g in n.generators:
                it = self.ev(g.iter, e)
                self.assign(g.target, self.elements(it, g.iter, e), e, None)
                for c in g.ifs:
                    self.ev(c, e)
                    self.narrow(c, e, True)
            s = self.site(n, 'list')
            if t is ast.DictComp:
                self.ev(n.key, e)
                self.store(s, '[]', self.ev(n.value, e))
            else:
                self.store(s, '[]', self.ev(n.elt, e))
            return frozenset([s])
        if t is ast.BinOp:
            return self.binop(n, n.op, self.ev(n.left, env), self.ev(n.right, env))
        if t is ast.UnaryOp:
            v = self.ev(n.operand, env)
            return EMPTY if isinstance(n.op, ast.Not) else frozenset([self.site(n, 'array')])
        if t is ast.BoolOp:
            out = EMPTY
            for x in n.values:
                out |= self.ev(x, env)
            return out
        if t is ast.Compare:
            self.ev(n.left, env)
            for x in n.comparators:
                self.ev(x, env)
            return frozenset([self.site(n, 'array')])
        if t is ast.IfExp:
            self.ev(n.test, env)
            e1, e2 = dict(env), dict(env)
            self.narrow(n.test, e1, True)
            self.narrow(n.test, e2, False)
            return self.ev(n.body, e1) | self.ev(n.orelse, e2)
        if t is ast.Lambda:
            return self.function(n, env)
        if t is ast.Starred:
            return self.ev(n.value, env)
        if t is ast.Slice:
            for x in (n.lower, n.upper, n.step):
                if x is not None:
                    self.ev(x, env)
            return EMPTY
        if t in (ast.Yield, ast.YieldFrom):
            v = self.ev(n.value, env) if n.value is not None else EMPTY
            if t is ast.YieldFrom:
                v = self.load(v, '[]')
            self.yielded = self.yielded | v
            if self.f.gen and self.depth == 0:
                s = ('S', self.f.mod, self.f.qual, 0, 0, 'generator')
                self.store(s, '[]', v)
                self.ret |= frozenset([s])
            return EMPTY
        if t is ast.Call:
            return self.call(n, env)
        if t is ast.Await:
            return self.ev(n.value, env)
        return EMPTY

    def escape(self, vals):
        """Functions passed elsewhere are called with unknown arguments."""
        for v in vals:
            for r in v:
                if r[0] == 'F' and self.depth < 4:
                    node, _ = self.lambdas[r[1]]
                    n = len(node.args.args)
                    u = frozenset([('P*', 'argument of a callback')])
                    self.call_local(r[1], [u] * n, {})

    def call(self, n, env):
        fn = n.func
        args, star = [], EMPTY
        for a in n.args:
            v = self.ev(a.value if isinstance(a, ast.Starred) else a, env)
            if isinstance(a, ast.Starred):
                star |= self.load(v, '[]')
            else:
                args.append(v)
        kwargs = {}
        for k in n.keywords:
            v = self.ev(k.value, env)
            if k.arg is None:
                star |= self.load(v, '[]')
            else:
                kwargs[k.arg] = v
        allv = args + list(kwargs.values()) + [star]
        for k in ('out',):
            if k in kwargs:
                self.modify(kwargs[k], n)
        for k in n.keywords:
            if k.arg and k.arg.startswith('overwrite') and not (isinstance(k.value, ast.Constant) and not k.value.value):
                self.modify(args[0] if args else EMPTY, n)
        # local functions
        if isinstance(fn, ast.Name) and fn.id in env and env[fn.id]:
            v = env[fn.id]
            out = EMPTY
            for r in v:
                if r[0] == 'F':
                    out |= self.call_local(r[1], args, kwargs)
                else:
                    # a function given as argument: assumed to modify nothing
                    s = self.site(n, 'result')
                    self.store(s, '[]', self.closure(frozenset().union(*allv)) if allv else EMPTY)
                    out |= frozenset([s])
            return out
        self.escape(allv)
        if isinstance(fn, ast.Name):
            r = self.prog.resolve(self.m, fn.id)
            if isinstance(r, Fn):
                return self.apply(r, args, kwargs, n, star)
            if isinstance(r, str):
                return self.construct(r, args, kwargs, n, star)
            return self.external(fn.id, args, kwargs, n, star)
        if isinstance(fn, ast.Attribute):
            # module function
            dotted = ast.unparse(fn)
            root = dotted.split('.')[0].split('(')[0]
            imp = self.prog.imports[self.m].get(root)
            if isinstance(fn.value, (ast.Name, ast.Attribute)) and imp is not None and root not in env:
                mod = imp.split(':')[-1]
                if imp.startswith('.') and (mod, fn.attr) in self.prog.fns:
                    return self.apply(self.prog.fns[mod, fn.attr], args, kwargs, n, star)
                if imp.startswith('.') and fn.attr in self.prog.classes:
                    return self.construct(fn.attr, args, kwargs, n, star)
                if root[0].islower() and self.prog.resolve(self.m, root) is None:
                    return self.external('.'.join(dotted.split('.')[1:]), args, kwargs, n, star)
            if ast.unparse(fn.value) == 'super()' or ast.unparse(fn.value).startswith('super('):
                me = env.get('self', EMPTY)
                out = EMPTY
                for b in self.prog.classes.get(self.f.cls, (None, []))[1]:
                    f = self.lookup(b, fn.attr)
                    if f is not None:
                        out |= self.apply(f, [me] + args, kwargs, n, star)
                if fn.attr == '__new__':
                    s = self.site(n, 'new')
                    for a in args[1:]:
                        self.store(s, '[]', self.load(a, '[]'))
                    return frozenset([s])
                return out
            # class attribute such as Model.copy(x) or type(self)(...)
            if isinstance(fn.value, ast.Name) and fn.value.id in self.prog.classes:
                f = self.lookup(fn.value.id, fn.attr)
                if f is not None:
                    return self.apply(f, args, kwargs, n, star)
            recv = self.ev(fn.value, env)
            return self.method(fn.attr, recv, args, kwargs, n, star)
        # type(self)(...), functions in containers
        src = ast.unparse(fn)
        if src.startswith('type(') or src.endswith('.__class__'):
            out = EMPTY
            for c in (['Model', 'BlochModel'] if 'Model' in (self.f.cls or 'Model') else [self.f.cls]):
                out |= self.construct(c, args, kwargs, n, star)
            return out
        v = self.ev(fn, env)
        out = EMPTY
        for r in v:
            if r[0] == 'F':
                out |= self.call_local(r[1], args, kwargs)
        if not out:
            s = self.site(n, 'array')
            out = frozenset([s])
        return out

    def lookup(self, cls, name):
        while cls in self.prog.classes:
            m, bases = self.prog.classes[cls]
            if (m, cls + '.' + name) in self.prog.fns:
                return self.prog.fns[m, cls + '.' + name]
            cls = bases[0] if bases else None
        return None

    def construct(self, cls, args, kwargs, n, star):
        s = self.site(n, 'object ' + cls)
        f = self.lookup(cls, '__init__')
        if f is None:
            f2 = self.lookup(cls, '__new__')
            if f2 is not None:
                return self.apply(f2, [EMPTY] + args, kwargs, n, star)
            for a in args:
                self.store(s, '[]', self.load(a, '[]'))
            return frozenset([s])
        self.apply(f, [frozenset([s])] + args, kwargs, n, star, init=s)
        return frozenset([s])

    def apply(self, f, args, kwargs, n, star=EMPTY, init=None):
        """Use the contract of a function of the repository."""
        if f.key == ('model', 'copy'):        # its contract is proved separately
            return frozenset([self.site(n, 'array')])
        names = list(f.pos)
        bound = {}
        for p, v in zip(names, args):
            bound[p] = v
        if f.vararg:
            bound[f.vararg] = frozenset().union(*args[len(names):], star)
        for k, v in kwargs.items():
            if k in f.params:
                bound[k] = v
            elif f.kwarg:
                bound[f.kwarg] = bound.get(f.kwarg, EMPTY) | v
        if star:
            for p in f.params:
                if p not in bound:
                    bound[p] = star
        regs = {}
        if init is not None:
            regs['S', f.mod, f.qual, 0, 0, 'self'] = init
        elif f.qual.endswith('.__init__'):      # super().__init__
            for x in args[0] if args else ():
                if x[0] == 'S':
                    regs['S', f.mod, f.qual, 0, 0, 'self'] = x

        def tr(v):
            out = set()
            for r in v:
                if r[0] == 'P':
                    out |= bound.get(r[1], EMPTY)
                elif r[0] == 'P*':
                    c = bound.get(r[1], EMPTY)
                    if f.vararg == r[1] or f.kwarg == r[1]:
                        out |= self.closure(c)
                    else:
                        out |= self.closure(c) - {x for x in c if x[0] in ('P', 'S') and not self.selfcontained(x)}
                elif r[0] == 'S':
                    if r not in regs:
                        regs[r] = self.site(n, 'ret%d' % len(regs) if not (r[-1] == 'array') else 'array')
                    out.add(regs[r])
                elif r[0] != 'F':
                    out.add(r)
            return frozenset(out)
        for r, where in f.mods.items():
            if r[0] == 'P' and init is not None and r[1] == f.params[0]:
                continue
            self.modify_via(tr([r]), n, f, where)
        ret = tr(sorted(f.ret, key=str))
        for (q, fld), v in sorted(f.heap.items(), key=str):
            if q[0] == 'S':
                q2 = tr([q])
                for x in q2:
                    if not self.isarray(x) or fld != '[]':
                        self.store(x, fld, tr(sorted(v, key=str)))
                    if isinstance(fld, int):
                        pass
        if f.cached and f.qual in IMMUTABLE_RESULT:
            return EMPTY
        if f.cached:
            ret = frozenset(('K', f.qual) if x[0] == 'S' else x for x in ret) or frozenset([('K', f.qual)])
        return ret

    def selfcontained(self, x):
        return False

    def modify_via(self, v, n, f, where):
        for r in v:
            if r[0] not in ('S', 'F'):
                self.mods.setdefault(r, 'line {}: {} ({} in {})'.format(getattr(n, 'lineno', '?'), ast.unparse(n)[:80], where.split(' (line')[0], f.qual))

    def own(self, name, n):
        """The methods of the repository a call may reach."""
        v = n.func.value
        if isinstance(v, ast.Name) and v.id == 'self' and self.f.cls:
            f = self.lookup(self.f.cls, name)
            subs = [c for c in self.prog.classes if self.f.cls in self.prog.classes[c][1] and (self.prog.classes[c][0], c + '.' + name) in self.prog.fns]
            return ([f] if f is not None else []) + [self.prog.fns[self.prog.classes[c][0], c + '.' + name] for c in subs]
        return self.prog.methods.get(name, [])

    def method(self, name, recv, args, kwargs, n, star):
        if name in MUTATORS:
            # eliminate_zeros, pop, ... of the repository have their own contract
            own = self.own(name, n)
            if own and not any(r[0] == 'S' and r[-1] in ('list', 'dict', 'array') for r in recv):
                out = EMPTY
                for f in own:
                    out |= self.apply(f, [recv] + args, kwargs, n, star)
                return out
            self.modify(recv, n)
            for r in recv:
                for a in args:
                    if name in ('extend', 'update', 'difference_update', 'intersection_update'):
                        self.store(r, '[]', self.load(a, '[]'))
                    else:
                        self.store(r, '[]', a)
                for a in kwargs.values():
                    self.store(r, '[]', a)
            return self.load(recv, '[]')
        out = EMPTY
        own = self.own(name, n)
        onlyarr = recv and all(self.isarray(r) for r in recv)
        if own and not onlyarr:
            for f in own:
                out |= self.apply(f, [recv] + args, kwargs, n, star)
        if name in IMMUTABLE_METHODS or name in KEY_METHODS:
            s = self.site(n, 'list')
            return out | frozenset([s])
        if name in ('copy', '__copy__'):
            s = self.site(n, 'array' if onlyarr else 'copy')
            if not onlyarr and not own:
                self.store(s, '[]', self.load(recv, '[]'))
            elif not onlyarr:
                self.store(s, '[]', frozenset(r for r in self.load(recv, '[]') if r[0] == 'S'))
            return out | frozenset([s])
        if name in SHALLOW_METHODS:
            s = self.site(n, 'list')
            e = self.load(recv, '[]')
            for a in args:
                e |= self.load(a, '[]') | (a if name == 'get' else EMPTY)
            if name == 'items':
                t = self.site(n, 'tuple')
                self.heap[t, 0] = EMPTY
                self.heap[t, 1] = self.heap.get((t, 1), EMPTY) | e
                self.store(t, '[]', e)
                self.store(s, '[]', frozenset([t]))
            elif name == 'get':
                return out | e
            else:
                self.store(s, '[]', e)
            return out | frozenset([s])
        if name in VIEWS:
            return out | recv
        if name == 'astype' and any(k.arg == 'copy' for k in n.keywords):
            return out | recv | frozenset([self.site(n, 'array')])
        if name in ARRAY_METHODS or (onlyarr and not own):
            return out | frozenset([self.site(n, 'array')])
        if own:
            return out
        # unknown method: assumed not to modify anything; the result may share everything
        s = self.site(n, 'result')
        self.store(s, '[]', self.closure(recv.union(*args, *kwargs.values(), star)))
        self.notes.append((self.f.qual, 'method ' + name))
        return frozenset([s]) | recv

    def external(self, name, args, kwargs, n, star):
        allv = frozenset().union(*args, *kwargs.values(), star)
        last = name.split('.')[-1]
        if last in STATE_SETTERS:
            self.mods.setdefault(('G', 'library', last), 'line {}: {}'.format(n.lineno, ast.unparse(n)[:80]))
        if last == 'array' and any(k.arg == 'copy' and not (isinstance(k.value, ast.Constant) and k.value.value is True) for k in n.keywords):
            return (args[0] if args else EMPTY) | frozenset([self.site(n, 'array')])
        if name in NP_MUTATORS or last in NP_MUTATORS:
            self.modify(args[0] if args else EMPTY, n)
            return EMPTY
        if last in SCALAR:
            return EMPTY
        if last in FRESH_COPY:
            return frozenset([self.site(n, 'array')])
        if name in ('sum',) or name == 'reduce':
            s = self.site(n, 'array')
            self.store(s, '[]', frozenset(r for r in self.load(self.load(allv, '[]'), '[]') if r[0] == 'S' and not self.isarray(r)))
            return frozenset([s])
        if name in SHALLOW or last in SHALLOW:
            s = self.site(n, 'list')
            e = EMPTY
            for a in args + list(kwargs.values()) + [star]:
                e |= self.load(a, '[]')
            if last in ('zip', 'product', 'combinations', 'permutations', 'enumerate', 'combinations_with_replacement', 'zip_longest', 'groupby'):
                t = self.site(n, 'tuple')
                if last == 'enumerate':
                    self.heap[t, 0] = EMPTY
                    self.heap[t, 1] = self.heap.get((t, 1), EMPTY) | e
                elif last == 'zip' and not star:
                    for i, a in enumerate(args):
                        self.heap[t, i] = self.heap.get((t, i), EMPTY) | self.load(a, '[]')
                self.store(t, '[]', e)
                self.store(s, '[]', frozenset([t]))
                return frozenset([s])
            if last in ('next', 'min', 'max', 'getattr'):
                return e | (allv if last in ('min', 'max') and len(args) > 1 else EMPTY)
            if last == 'dict' or last == 'OrderedDict' or last == 'defaultdict':
                # mapping, or pairs (the values are the second entries)
                self.store(s, '[]', e | frozenset(x for q in e for x in self.heap.get((q, 1), EMPTY)))
                return frozenset([s])
            self.store(s, '[]', e)
            return frozenset([s])
        if last in VIEWS:
            return (args[0] if args else EMPTY) | frozenset([self.site(n, 'array')])
        return frozenset([self.site(n, 'array')])


def leaves(stmts):
    """Control never reaches the end of the block."""
    for s in stmts:
        if isinstance(s, (ast.Return, ast.Raise, ast.Continue, ast.Break)):
            return True
        if isinstance(s, ast.If) and s.orelse and leaves(s.body) and leaves(s.orelse):
            return True
    return False
