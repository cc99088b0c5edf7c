"""World K: the readers of symbolic coefficients, executed from source on real sympy expressions.

Numbers are generic: GenNum instances are sympy constants (is_number, real, no symbols) that carry a value only so that
sympy may order them; nothing is decided by that value, unless the code itself evaluates the number.  numpy arrays of such numbers keep them (astype(float) checks
that every entry is a real number and returns the entries)."""
import importlib
import types

import mpmath
import numpy as np
import scipy
import scipy.sparse
import scipy.sparse.linalg
import sympy

from . import engine as E

I, S = sympy.I, sympy.Symbol


class GenNum(sympy.NumberSymbol):
    is_real = is_extended_real = is_irrational = is_number = is_nonzero = is_finite = True
    is_rational = is_zero = False
    is_commutative = True


_GEN = {}


def gen(name, val):
    """A generic number; val (a decimal string, possibly negative) is used for ordering only."""
    if name not in _GEN:
        neg = val.startswith('-')
        _GEN[name] = type(name, (GenNum,), dict(
            _as_mpf_val=lambda self, prec: mpmath.libmp.from_str(val, prec), is_positive=not neg, is_negative=neg,
            is_extended_positive=not neg, is_extended_negative=neg,
            is_nonnegative=not neg, is_nonpositive=neg,
            _sympystr=lambda self, p, *a: name, _sympyrepr=lambda self, p, *a: name,
            approximation_interval=lambda self, c: None, __slots__=(), __hash__=lambda self: hash('generic ' + name),
            __eq__=lambda self, o: self is o, __ne__=lambda self, o: self is not o))()
    return _GEN[name]


H = [gen('h1', '0.7236198461923846198346198237461923874619823746'),
     gen('h2', '1.3846192837461982374619283746192837461910298371'),
     gen('h3', '-0.4471982645198264519826451982645198264519826451'),
     gen('h4', '2.2219847561298374651928374651928374651928374651')]


class GenArray(np.ndarray):
    def astype(self, t, *a, **k):
        if t is float and self.dtype == object:
            for x in self.flat:
                if sympy.sympify(x).is_real is not True:
                    raise TypeError('Cannot convert {} to float'.format(x))
            return self
        return np.ndarray.astype(self, t, *a, **k)

    def __copy__(self):
        return np.array(self, copy=True, subok=True)


class Numpy:
    def __getattr__(self, n):
        return getattr(np, n)

    @staticmethod
    def array(x, *a, **k):
        r = np.array(x, *a, **k)
        return r.view(GenArray) if r.dtype == object else r

    @staticmethod
    def vectorize(f, *a, **k):
        g = np.vectorize(f, *a, **k)
        return lambda *x: np.asarray(g(*x)).view(GenArray)


def zero(x):
    x = sympy.sympify(x)
    if x.has(sympy.Float) and x.is_number:
        return abs(complex(x.evalf(20))) < 1e-9
    if x == 0 or sympy.expand(x) == 0:
        return True
    if x.is_number:
        return abs(complex(x.evalf(30))) < 1e-20 and sympy.simplify(x) == 0
    return equal(x, 0) is True


def allclose(a, b, *args, **kw):
    """Contract: entrywise equality."""
    a, b = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
    return bool(all(zero(p - q) for p, q in zip(*[x.ravel() for x in np.broadcast_arrays(a, b)])))


SUBMODULES = ('copy', 'keyword', 'sympy.abc', 'sympy.core.function', 'sympy.core.sympify', 'sympy.physics.matrices', 'sympy.physics.quantum',
              'sympy.core.numbers', 'sympy.matrices.matrices', 'sympy.core.basic', 'scipy.sparse', 'scipy.sparse.linalg')
_W = {}


def world():
    """(model.py, kwant_continuum.py), interpreted with sympy itself and generic numbers."""
    if 'model' not in _W:
        im = {'numpy': Numpy(), 'sympy': sympy, 'scipy': scipy}
        im.update({n: importlib.import_module(n) for n in SUBMODULES})
        kc = E.load('kwant_continuum', im)
        kcm = types.ModuleType('kwant_continuum')
        kcm.__dict__.update({k: v for k, v in kc.ns.items() if k != '__builtins__'})
        _W['kc'] = kcm
        _W['model'] = E.load('model', {**im, '.kwant_continuum': kcm, '.linalg': types.SimpleNamespace(allclose=allclose)})
    return _W['model'], _W['kc']


def equal(a, b):
    """a == b for all values of the symbols: True, False, or None (undecided)."""
    a, b = sympy.sympify(a), sympy.sympify(b)
    if a == b:
        return True
    floats = a.has(sympy.Float) or b.has(sympy.Float)     # numbers that were evaluated: compared at points only
    d = a - b
    if not floats:
        for f in (lambda x: sympy.powsimp(sympy.expand(sympy.expand_power_exp(sympy.expand(x)))),
                  lambda x: sympy.expand(sympy.powsimp(sympy.expand(x), combine='exp'))):
            if f(d) == 0:
                return True
    for n in range(3):      # a difference at some point refutes
        at = {s: sympy.Float(mpmath.mpf(17 * i + 23 * n + 11) / (29 + 7 * n) / (3 + i), 30) for i, s in enumerate(sorted(d.atoms(sympy.Symbol), key=str))}
        # undefined functions get arbitrary values
        fs = {f: sympy.Float('0.37', 30) for f in d.atoms(sympy.core.function.AppliedUndef)}
        try:
            v = complex(d.xreplace(fs).evalf(30, subs=at))
        except Exception:
            return None
        if abs(v) > (1e-9 if floats else 1e-15):
            return False
    if floats:
        return True
    if sympy.simplify(d) == 0:
        return True
    if b != 0 and sympy.simplify(sympy.powsimp(sympy.expand_power_exp(sympy.expand(a / b)))) == 1:
        return True
    return None


# ---------------------------------------------------------------- whole models with generic numbers

def zeros(shape, dtype=None, **k):
    r = np.zeros(shape, dtype=object)
    r[...] = sympy.Integer(0)
    return r.view(GenArray)


class Recorded:
    """Contract of sympy.lambdify: a function of these arguments with the value of the expression."""
    def __init__(self, args, expr):
        self.args, self.expr = list(args), expr

    def __call__(self, *vals):
        if len(vals) != len(self.args):
            raise TypeError('{} arguments instead of {}'.format(len(vals), len(self.args)))
        r = sympy.sympify(self.expr)
        r = r.subs({S(s): v for s, v in zip(self.args, vals)}, simultaneous=True) if vals else r
        return array(r)


def array(m):
    if isinstance(m, sympy.MatrixBase):
        return np.array(m.tolist(), dtype=object).reshape(m.shape).view(GenArray)
    return m


def number(x=0, *a):
    """complex(...) of a sympy number: the number itself"""
    if isinstance(x, sympy.Basic):
        if not x.is_number:
            raise TypeError('Cannot convert expression to complex')
        return x
    return complex(x, *a)


def models():
    """model.py and kwant_continuum.py for whole models: complex(number), numpy.zeros, numpy.allclose and sympy.lambdify are replaced by
    their contracts on generic numbers."""
    if 'models' not in _W:
        npx, syx = Numpy(), types.ModuleType('sympy')
        npx.zeros, npx.allclose = zeros, allclose
        im = {'numpy': npx, 'sympy': syx, 'scipy': scipy}
        im.update({n: importlib.import_module(n) for n in SUBMODULES})
        syx.__dict__.update(vars(sympy))
        syx.lambdify = Recorded
        kc = E.load('kwant_continuum', im, builtin_overrides=dict(complex=number))
        kcm = types.ModuleType('kwant_continuum')
        kcm.__dict__.update({k: v for k, v in kc.ns.items() if k != '__builtins__'})
        _W['kcm'] = kcm
        _W['models'] = E.load('model', {**im, '.kwant_continuum': kcm, '.linalg': types.SimpleNamespace(allclose=allclose)},
                              builtin_overrides=dict(complex=number))
    return _W['models'], _W['kcm']


def value_of(m, e=None):
    """The function a model stands for, as a sympy matrix (or scalar)."""
    out = None
    for k, v in m.data.items():
        if isinstance(k, tuple):
            k = k[1] * e ** (I * sum(sympy.sympify(h) * q for h, q in zip(k[0], m.momenta)))
        t = k * sympy.Matrix(np.asarray(v, dtype=object)) if np.shape(v) else k * sympy.sympify(v)
        out = t if out is None else out + t
    return out


def same_function(a, b):
    """Entrywise equality; None stands for the zero function."""
    if a is None or b is None:
        x = b if a is None else a
        return True if x is None else all(zero(y) for y in (x if isinstance(x, sympy.MatrixBase) else [x]))
    if isinstance(a, sympy.MatrixBase) != isinstance(b, sympy.MatrixBase):
        return False
    if not isinstance(a, sympy.MatrixBase):
        return equal(a, b)
    if a.shape != b.shape:
        return False
    rs = [equal(x, y) for x, y in zip(a, b)]
    return False if False in rs else None if None in rs else True
