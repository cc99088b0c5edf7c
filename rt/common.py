"""Runtime contract checks on the real code: shared generators, an independent evaluator of
Models, and the case runner.  Runs under /opt/venv (the interpreter of the repository)."""
import os
for _v in ('OPENBLAS_NUM_THREADS', 'OMP_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ.setdefault(_v, '1')
import sys
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)
import warnings
warnings.simplefilter('ignore')
import hashlib
import itertools as it
import json
import math
import signal
import time
import traceback
import multiprocessing as mp

import numpy as np
import scipy.linalg as la
import scipy.sparse
import scipy.sparse.linalg as sla
import sympy
import tinyarray as ta

import qsymm
assert os.path.abspath(qsymm.__file__).startswith(os.path.abspath(REPO)), qsymm.__file__
from qsymm import groups as qg, linalg as ql, model as qm, hamiltonian_generator as qh
from qsymm import symmetry_finder as qs, kwant_continuum as qc, kwant_linalg_lll as qlll
from qsymm.groups import PointGroupElement as PGE, ContinuousGroupGenerator as CGG
from qsymm.model import Model, BlochModel, BlochCoeff


# ------------------------------------------------------------------ case registry

class Violation(Exception):
    """A contract of the property failed on a concrete input."""


class Skip(Exception):
    """The generated input is outside the property's domain."""


class CaseTimeout(BaseException):
    pass


REGISTRY = {}


def case(prop, n, timeout=60, thorough=6):
    """Register a case generator: fn(rng, note); n = number of instances in the quick tier."""
    def deco(fn):
        REGISTRY.setdefault(prop, []).append(
            dict(name=fn.__name__, fn=fn, n=n, timeout=timeout, thorough=thorough))
        return fn
    return deco


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg.format(*args) if args else msg)


def internal(module, name):
    """A private helper of the code under test; cases that look at one are skipped when a
    refactoring has removed it."""
    if not hasattr(module, name):
        raise Skip
    return getattr(module, name)


def close(a, b, tol=1e-6):
    a = np.asarray(a, dtype=complex)
    b = np.asarray(b, dtype=complex)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    if not (np.all(np.isfinite(a)) and np.all(np.isfinite(b))):
        return False
    scale = max(1.0, np.max(np.abs(a)), np.max(np.abs(b)))
    return bool(np.max(np.abs(a - b)) <= tol * scale)


def require_close(a, b, msg, *args, tol=1e-6):
    if not close(a, b, tol):
        a, b = np.asarray(a, dtype=complex), np.asarray(b, dtype=complex)
        d = ('shapes {} {}'.format(a.shape, b.shape) if a.shape != b.shape
             else 'max difference {:.3g}'.format(np.max(np.abs(a - b))))
        raise Violation((msg.format(*args) if args else msg) + ' [' + d + ']')


def expect_raises(fn, exc, msg):
    try:
        fn()
    except exc:
        return
    raise Violation(msg)


class Note(list):
    """Description of the generated input."""
    def __call__(self, *items):
        self.extend(items)

    def text(self, limit=1500):
        s = '; '.join(str(i) for i in self)
        return s if len(s) <= limit else s[:limit] + '...'


def _alarm(signum, frame):
    raise CaseTimeout()


def _seed_for(prop, name, index, seed):
    h = hashlib.sha256('{}/{}/{}/{}'.format(prop, name, index, seed).encode()).digest()
    return int.from_bytes(h[:8], 'little')


def clear_caches():
    for mod in (qg, qm, qc, ql, qh, qs):
        for v in list(vars(mod).values()):
            if hasattr(v, 'cache_clear') and getattr(v, '__module__', '').startswith('qsymm'):
                v.cache_clear()


def run_one(job):
    prop, name, index, seed = job
    entry = next(e for e in REGISTRY[prop] if e['name'] == name)
    s = _seed_for(prop, name, index, seed)
    rng = np.random.default_rng(s)
    np.random.seed(s % (2**32))
    import random
    random.seed(s)
    note = Note()
    clear_caches()
    t0 = time.time()
    # processor time, so that a busy machine makes no difference; a process that sleeps is ended later
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, entry['timeout'])
    signal.alarm(6 * entry['timeout'])
    status, msg = 'ok', ''
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            entry['fn'](rng, note)
    except Skip as e:
        status = 'skip'
    except Violation as e:
        status, msg = 'violation', str(e)
    except CaseTimeout:
        status, msg = 'violation', 'no answer within {} s (normally well below 1/10 of this)'.format(entry['timeout'])
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, SystemExit)):
            raise
        status, msg = 'violation', 'unexpected {}: {}\n{}'.format(
            type(e).__name__, e, traceback.format_exc()[-3000:])
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.alarm(0)
    return dict(name=name, index=index, seed=seed, status=status, msg=msg,
                input=note.text(), wall=time.time() - t0,
                key=hashlib.sha256(note.text(10**7).encode()).hexdigest()[:16])


# quick-tier multipliers, chosen so that each check takes around ten seconds on eight cores
SCALE = dict(C01=20, C02=15, C03=20, C04=12, C05=5, C08=15, C09=2, C10=8, C11=6, C12=5, C13=5, C15=2,
             C16=3, C17=5, C18=15, C19=12, C20=2)


def run_property(prop, seed, tier, procs=None, only=None, stop_after=8, budget=600, sink=None):
    jobs = []
    for e in REGISTRY[prop]:
        if only and e['name'] != only:
            continue
        n = e['n'] * SCALE.get(prop, 1) * (e['thorough'] if tier == 'thorough' else 1)
        jobs += [(prop, e['name'], i, seed) for i in range(n)]
    # interleave generators so an early stop has seen all of them
    jobs.sort(key=lambda j: j[2])
    results = []
    t0 = time.time()
    procs = procs or min(8, os.cpu_count() or 1)
    if procs == 1:
        for j in jobs:
            results.append(run_one(j))
            if sink:
                sink(results[-1])
    else:
        ctx = mp.get_context('fork')
        with ctx.Pool(procs) as pool:
            nviol = 0
            for r in pool.imap_unordered(run_one, jobs, chunksize=1):
                results.append(r)
                if sink:
                    sink(r)
                nviol += r['status'] == 'violation'
                if nviol >= stop_after or time.time() - t0 > budget:
                    pool.terminate()
                    break
    results.sort(key=lambda r: (r['name'], r['index']))
    return results


# ------------------------------------------------------------------ independent evaluation

def _fn_value(name, args):
    if name == 'sin':
        return np.sin(args[0])
    if name == 'cos':
        return np.cos(args[0])
    if name == 'exp':
        return np.exp(args[0])
    if name == 'tan':
        return np.tan(args[0])
    if name == 'sqrt':
        return np.sqrt(complex(args[0]))
    if name in ('conjugate',):
        return np.conj(args[0])
    # deterministic smooth real-analytic function for undefined function names
    h = int(hashlib.sha256(name.encode()).hexdigest()[:8], 16)
    a, b = 1 + (h % 97) / 50, (h % 89) / 30
    return sum((i + 1) * np.cos(a * x + b) for i, x in enumerate(args))


def ev(expr, env):
    """Value of a sympy expression; env maps symbol names to numbers, 'e' is Euler's number."""
    if isinstance(expr, BlochCoeff):
        raise TypeError('use ev_key')
    if isinstance(expr, (int, float, complex, np.generic)):
        return complex(expr)
    if expr.is_Symbol:
        if expr.name in env:
            return complex(env[expr.name])
        if expr.name == 'e':
            return complex(np.e)
        raise KeyError(expr.name)
    if expr.is_Add:
        return sum((ev(a, env) for a in expr.args), 0j)
    if expr.is_Mul:
        r = 1 + 0j
        for a in expr.args:
            r *= ev(a, env)
        return r
    if expr.is_Pow:
        b, x = ev(expr.args[0], env), ev(expr.args[1], env)
        if x.imag == 0 and x.real == int(x.real):
            return b ** int(x.real)
        if b.imag == 0 and b.real > 0:
            return np.exp(x * np.log(b.real))
        return b ** x
    if isinstance(expr, sympy.exp):
        return np.exp(ev(expr.args[0], env))
    if expr is sympy.I:
        return 1j
    if expr.is_number and not expr.args:
        return complex(expr)
    if expr.is_Function:
        return complex(_fn_value(type(expr).__name__ if not hasattr(expr.func, 'name') else expr.func.name,
                                 [ev(a, env) for a in expr.args]))
    if expr.is_number:
        return complex(expr)
    raise TypeError('cannot evaluate {!r}'.format(expr))


def sym_names(expr):
    return {s.name for s in expr.atoms(sympy.Symbol)}


def key_names(key):
    if isinstance(key, BlochCoeff):
        return sym_names(key[1])
    return sym_names(key)


def ev_key(key, momenta, env):
    if isinstance(key, BlochCoeff):
        hop, coeff = key
        k = np.array([env[m.name] for m in momenta])
        return ev(coeff, env) * np.exp(1j * np.dot(np.asarray(hop, dtype=float), k))
    return ev(key, env)


def dense(val):
    """Matrix value of a coefficient of any supported format."""
    if isinstance(val, sla.LinearOperator):
        return val @ np.eye(val.shape[-1], dtype=complex)
    if scipy.sparse.issparse(val):
        return np.asarray(val.toarray(), dtype=complex)
    return np.asarray(val, dtype=complex)


def evm(model, env, shape=None):
    """Value of a Model/BlochModel at env as a dense array."""
    shape = model.shape if shape is None else shape
    res = np.zeros(shape, dtype=complex)
    for key, val in model.data.items():
        res = res + ev_key(key, model.momenta, env) * dense(val)
    return res


def model_names(*models):
    names = set()
    for m in models:
        names |= {s.name for s in m.momenta}
        for key in m.data:
            names |= key_names(key)
    return sorted(names - {'e'})


def rand_env(rng, names, lo=-1.3, hi=1.3):
    return {n: float(rng.uniform(lo, hi)) for n in sorted(names)}


def envs(rng, models, n=3, extra=()):
    names = set(model_names(*models)) | set(extra)
    return [rand_env(rng, names) for _ in range(n)]


def with_momenta(env, momenta, kvec):
    env = dict(env)
    for m, k in zip(momenta, kvec):
        env[m.name] = complex(k) if np.iscomplexobj(k) else float(k)
    return env


def kvec(env, momenta):
    return np.array([env[m.name] for m in momenta], dtype=float)


# ------------------------------------------------------------------ generators

def choice(rng, seq):
    seq = list(seq)
    return seq[int(rng.integers(len(seq)))]


def rbool(rng, p=0.5):
    return bool(rng.random() < p)


def rmat(rng, n, m=None, real=False):
    m = n if m is None else m
    a = rng.standard_normal((n, m))
    return a if real else a + 1j * rng.standard_normal((n, m))


def nice_mat(rng, n, m=None):
    """Small-integer complex matrix, often with zeros."""
    m = n if m is None else m
    a = rng.integers(-2, 3, (n, m)) + 1j * rng.integers(-2, 3, (n, m))
    a = a * (rng.random((n, m)) < 0.8)
    if not np.any(a):
        a[0, 0] = 1
    if rng.random() < 0.2 and np.any(a.real):
        # values of a real type
        return a.real.astype(choice(rng, [float, float, int]))
    return a.astype(complex)


def runitary(rng, n):
    q, r = la.qr(rmat(rng, n))
    return q * (np.diag(r) / np.abs(np.diag(r)))


def rherm(rng, n):
    a = rmat(rng, n)
    return (a + a.conj().T) / 2


def rorth(rng, d):
    if d == 0:
        return np.zeros((0, 0))
    q, r = la.qr(rng.standard_normal((d, d)))
    return q * np.sign(np.diag(r))


def signed_perm(rng, d):
    p = rng.permutation(d)
    m = np.zeros((d, d), int)
    for i, j in enumerate(p):
        m[i, j] = choice(rng, [1, -1])
    return m


def unimodular(rng, d):
    m = np.eye(d, dtype=int)
    for _ in range(3):
        if d > 1:
            i, j = rng.choice(d, 2, replace=False)
            m[i] += int(rng.integers(-1, 2)) * m[j]
    return m @ signed_perm(rng, d) if d else m


_S3 = sympy.sqrt(3)


def exact_rot(rng, d):
    """Exact orthogonal sympy matrix (element of a hexagonal or cubic or Pythagorean rotation)."""
    def r2():
        th = choice(rng, [1, 2, 4, 5, 'p', 'q'])
        if th == 'p':
            c, s = sympy.Rational(3, 5), sympy.Rational(4, 5)
        elif th == 'q':
            c, s = sympy.sqrt(2) / 2, sympy.sqrt(2) / 2
        else:
            c, s = sympy.cos(sympy.pi * th / 3), sympy.sin(sympy.pi * th / 3)
        m = sympy.Matrix([[c, -s], [s, c]])
        if rbool(rng):
            m = m * sympy.diag(1, -1)
        return m
    if d == 1:
        return sympy.Matrix([[choice(rng, [1, -1])]])
    if d == 2:
        return r2()
    m = sympy.eye(d)
    i = int(rng.integers(d))
    idx = [j for j in range(d) if j != i][:2]
    b = r2()
    for a in range(2):
        for c in range(2):
            m[idx[a], idx[c]] = b[a, c]
    m[i, i] = choice(rng, [1, -1])
    if rbool(rng):
        m = sympy.Matrix(signed_perm(rng, d).tolist()) * m
    return m


def rand_R(rng, d, kind=None):
    """(matrix in some accepted input form, float value, kind)"""
    kind = kind or choice(rng, ['int', 'int', 'uni', 'sympy', 'float', 'floatint', 'skew'])
    if d == 0:
        return np.zeros((0, 0), int), np.zeros((0, 0)), 'int'
    if kind == 'int':
        m = signed_perm(rng, d)
        form = choice(rng, ['np', 'ta', 'sympy'])
    elif kind == 'uni':
        m = unimodular(rng, d)
        form = choice(rng, ['np', 'ta', 'sympy'])
    elif kind == 'floatint':
        m = signed_perm(rng, d).astype(float)
        form = 'np'
    elif kind == 'float':
        m = rorth(rng, d)
        form = choice(rng, ['np', 'ta'])
    elif kind == 'skew':
        # an isometry in the coordinates of a skew basis
        B = rorth(rng, d) @ np.diag(rng.uniform(0.7, 1.4, d)) @ rorth(rng, d) if d > 1 else np.eye(1)
        m = B @ rorth(rng, d) @ la.inv(B) if d > 1 else np.array([[rng.uniform(0.7, 1.4)]])
        form = choice(rng, ['np', 'ta'])
    else:
        m = exact_rot(rng, d)
        f = np.array(m.tolist(), dtype=float)
        return choice(rng, [sympy.Matrix, sympy.ImmutableMatrix])(m), f, 'sympy'
    f = np.array(m, dtype=float)
    if form == 'np':
        return m, f, kind
    if form == 'ta':
        return ta.array(m.tolist() if kind not in ('float', 'skew') else m), f, kind
    return sympy.ImmutableMatrix(m.tolist()), f, kind


def Rf(g):
    return np.array(g.R).astype(float)


MOM_NAMES = [('k_x', 'k_y', 'k_z'), ('k_y', 'k_z', 'k_x'), ('q_1', 'q_2', 'q_3'), ('p', 'q', 'r')]


def rand_momenta(rng, d, default=False):
    names = MOM_NAMES[0] if default else choice(rng, MOM_NAMES)
    return names[:d]


def to_format(mat, fmt):
    if fmt == 'dense':
        return np.array(mat, dtype=complex)
    if fmt == 'csr':
        return scipy.sparse.csr_matrix(np.array(mat, dtype=complex))
    if fmt == 'csc':
        return scipy.sparse.csc_matrix(np.array(mat, dtype=complex))
    if fmt == 'lo':
        return sla.aslinearoperator(np.array(mat, dtype=complex))
    if fmt == 'scalar':
        return complex(np.array(mat).ravel()[0])
    raise ValueError(fmt)


PARAMS = ['a', 'b', 'm_1', 'Delta', 'alpha']


def rand_poly_key(rng, momenta, deg=2, params=True):
    ks = [sympy.Symbol(m) for m in momenta]
    f = sympy.Integer(1)
    for _ in range(int(rng.integers(0, deg + 1))):
        if ks:
            f *= choice(rng, ks)
    if params and rbool(rng, 0.5):
        f *= sympy.Symbol(choice(rng, PARAMS)) ** int(rng.integers(1, 3))
    return f


def rand_poly_model(rng, momenta, n, m=None, terms=3, deg=2, fmt='dense', herm=False, params=True):
    m = n if m is None else m
    d = {}
    for _ in range(terms):
        key = rand_poly_key(rng, momenta, deg, params)
        val = rherm(rng, n) if herm else nice_mat(rng, n, m)
        d[key] = val
    shape = () if fmt == 'scalar' else (n, m)
    return Model({k: to_format(v, fmt) for k, v in d.items()}, momenta=momenta)


def rand_hop(rng, d, kind='int'):
    while True:
        if kind == 'int':
            v = rng.integers(-2, 3, d).astype(float)
        elif kind == 'half':
            v = rng.integers(-3, 4, d) / 2
        else:
            v = np.round(rng.uniform(-2, 2, d), 3)
        return v


def rand_bloch_model(rng, momenta, n, m=None, terms=3, kind='int', fmt='dense', herm=False):
    m = n if m is None else m
    d = {}
    for _ in range(terms):
        hop = rand_hop(rng, len(momenta), kind)
        coeff = sympy.Integer(1)
        if rbool(rng):
            coeff = sympy.Symbol(choice(rng, PARAMS)) ** int(rng.integers(1, 3))
        if herm:
            v = rmat(rng, n)
            d[BlochCoeff(hop, coeff)] = v
        else:
            d[BlochCoeff(hop, coeff)] = nice_mat(rng, n, m)
    model = BlochModel({k: to_format(v, fmt) for k, v in d.items()}, momenta=momenta)
    if herm:
        model = model + model.T().conj()
    return model


def bloch_value(hops, momenta, env):
    """sum coeff(env) e^{i hop k} mat, for [(hop, coeff, mat)]."""
    k = np.array([env[x] for x in momenta])
    return sum(ev(c, env) * np.exp(1j * np.dot(h, k)) * mat for h, c, mat in hops)


def span_rank(vecs, tol=1e-7):
    vecs = np.asarray(vecs)
    if vecs.size == 0:
        return 0
    s = la.svdvals(vecs)
    return int(np.sum(s > tol * max(1, s[0])))


def same_span(A, B, tol=1e-6):
    """Row spans of A and B coincide."""
    ra, rb = span_rank(A, tol), span_rank(B, tol)
    if ra != rb:
        return False
    if ra == 0:
        return True
    return span_rank(np.vstack([A, B]), tol) == ra


def family_vectors(families, momenta, rng, pts=None, n_pts=None):
    """Real vectors of each model evaluated at random points (values are a faithful representation
    of polynomial/periodic functions if there are enough points)."""
    names = set()
    for m in families:
        names |= set(model_names(m))
    names |= {str(x) for x in momenta}
    pts = pts or [rand_env(rng, names, -1.5, 1.5) for _ in range(n_pts or 12)]
    rows = []
    for m in families:
        v = np.concatenate([evm(m, p).ravel() for p in pts])
        rows.append(np.concatenate([v.real, v.imag]))
    return np.array(rows) if rows else np.zeros((0, 0))


def fmt_mat(a, nd=4):
    return np.array2string(np.round(np.asarray(dense(a)), nd), separator=',').replace('\n', ' ')


def describe_pge(g):
    return 'PGE(R={}, conj={}, anti={}, U={}, strict={})'.format(
        np.array(g.R).tolist() if not qg.is_sympy_matrix(g.R) else str(g.R.tolist()),
        g.conjugate, g.antisymmetry, None if g.U is None else fmt_mat(g.U), g._strict_eq)


def describe_model(m):
    return '{}({{{}}}, momenta={}, shape={}, fmt={})'.format(
        type(m).__name__, ', '.join('{}: {}'.format(k, fmt_mat(v)) for k, v in m.data.items()),
        m.momenta, m.shape, getattr(m.format, '__name__', m.format))


def rand_pge(rng, d, n=None, kind=None, conj=None, anti=None, strict=None):
    R, f, kind = rand_R(rng, d, kind)
    U = None if n is None else runitary(rng, n)
    if n is not None and rbool(rng, 0.2):
        U = np.eye(n)[rng.permutation(n)] * np.exp(1j * rng.uniform(0, 6, n))
    g = PGE(R, rbool(rng) if conj is None else conj, rbool(rng) if anti is None else anti, U,
            _strict_eq=(rbool(rng, 0.3) if strict is None else strict))
    return g, f, kind


def pge_action(g, model, env, Rinv=None):
    """Documented action of g on model evaluated at env, computed independently."""
    R = Rf(g)
    k = kvec(env, model.momenta)
    kk = la.solve(R, k) if len(k) else k
    if g.conjugate:
        kk = -kk
    H = evm(model, with_momenta(env, model.momenta, kk))
    if g.conjugate:
        H = H.conj()
    if g.antisymmetry:
        H = -H
    if g.U is not None:
        H = g.U @ H @ g.U.conj().T
    return H


def compare_models(a, b, rng, msg, tol=1e-6, n=2):
    require(a.shape == b.shape, msg + ': shapes {} {}'.format(a.shape, b.shape))
    for env in envs(rng, [a, b], n):
        require_close(evm(a, env), evm(b, env), msg, tol=tol)


def snapshot(x):
    """Deep, comparable snapshot of argument values (for frame conditions)."""
    if isinstance(x, Model):
        return ('model', type(x).__name__, x.shape, str(x.format), tuple(map(str, x.momenta)),
                tuple(sorted(map(str, x.keep))),
                tuple(sorted(((snapshot(k), snapshot(v)) for k, v in x.data.items()), key=repr)))
    if isinstance(x, BlochCoeff):
        return ('bc', tuple(np.asarray(x[0], dtype=float).tolist()), sympy.srepr(x[1]))
    if isinstance(x, PGE):
        return ('pge', type(x.R).__name__, str(np.array(x.R).tolist()), x.conjugate, x.antisymmetry,
                snapshot(x.U), x._strict_eq)
    if isinstance(x, CGG):
        return ('cgg', snapshot(x.R), snapshot(x.U))
    if isinstance(x, np.ndarray):
        return ('nd', x.shape, str(x.dtype), x.tobytes() if x.dtype != object else str(x.tolist()))
    if scipy.sparse.issparse(x):
        y = x.tocsr().copy()
        return ('sp', type(x).__name__, snapshot(y.toarray()))
    if isinstance(x, sla.LinearOperator):
        return ('lo', snapshot(dense(x)))
    if isinstance(x, dict):
        return ('dict', tuple((snapshot(k), snapshot(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(snapshot(i) for i in x))
    if isinstance(x, (set, frozenset)):
        return (type(x).__name__, tuple(sorted((snapshot(i) for i in x), key=repr)))
    if isinstance(x, sympy.Basic) or isinstance(x, sympy.MatrixBase):
        return ('sym', sympy.srepr(x))
    return ('val', repr(x))


class exact_eigsh:
    """Replace the ARPACK eigensolver by a dense one with the same contract (k eigenpairs nearest
    to sigma, or of largest/smallest magnitude/value).  ARPACK is trusted, but it may miss
    members of degenerate eigenspaces, which would be blamed on the code under test."""

    def __enter__(self):
        self.orig = sla.eigsh

        def eigsh(A, k=6, M=None, sigma=None, which='LM', *args, **kwargs):
            ret = kwargs.get('return_eigenvectors', True)
            if (M is not None or which not in ('LM', 'SM', 'LA', 'SA')
                    or isinstance(A, sla.LinearOperator) or k >= A.shape[0]):
                return self.orig(A, k, M, sigma, which, *args, **kwargs)
            A = A.toarray() if scipy.sparse.issparse(A) else np.asarray(A)
            w, v = la.eigh(A)
            x = w if sigma is None else 1 / (w - sigma)
            order = {'LM': np.argsort(-np.abs(x)), 'SM': np.argsort(np.abs(x)),
                     'LA': np.argsort(-x), 'SA': np.argsort(x)}[which][:k]
            order = order[np.argsort(w[order])]
            return (w[order], v[:, order]) if ret else w[order]

        sla.eigsh = eigsh
        return self

    def __exit__(self, *a):
        sla.eigsh = self.orig
        return False
