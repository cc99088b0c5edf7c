"""C19: printed names of symmetry operations describe the operation."""
import re
from fractions import Fraction
from .common import *
from .fam import rot2
from .c18 import rodrigues, isometries, star

P = 'C19'


def parse_angle(s):
    s = s.strip().replace(' ', '')
    m = re.fullmatch(r'(-?)\\frac\{(\d*)\\pi\}\{(\d+)\}', s)
    if not m:
        m = re.fullmatch(r'(-?)(\d*)(?:\\pi|π)(?:/(\d+))?', s)
    require(m, 'angle {!r} cannot be read', s)
    num = int(m.group(2) or 1)
    den = int((m.group(3) if m.lastindex and m.lastindex >= 3 else None) or 1)
    return (-1 if m.group(1) else 1) * np.pi * num / den


def parse_axis(s):
    m = re.fullmatch(r'\[(.*)\]', s.strip())
    require(m, 'axis {!r} cannot be read', s)
    v = np.array([float(x) for x in m.group(1).replace(',', ' ').split()])
    return v


def parse_rot(name, d):
    """Spatial matrix described by the printed name."""
    name = name.replace(r'\left', '').replace(r'\right', '').strip()
    if name == '1':
        return np.eye(d)
    if name == 'I':
        return -np.eye(d)
    m = re.fullmatch(r'([RMS])\((.*)\)', name)
    require(m, 'name {!r} cannot be read', name)
    kind, arg = m.groups()
    if kind == 'M':
        n = parse_axis(arg)
        require(len(n) == d, 'axis of wrong dimension')
        n = n / la.norm(n)
        return np.eye(d) - 2 * np.outer(n, n)
    if d == 2:
        require(kind == 'R', 'rotoinversion in 2D')
        return rot2(parse_angle(arg))
    ang, ax = arg.split(',', 1)
    ax = parse_axis(ax)
    require(len(ax) == 3 and np.any(ax), 'axis {} is not a direction', ax)
    R = rodrigues(ax, parse_angle(ang))
    return R if kind == 'R' else -R


AZ = {'': (False, False), 'T': (True, False), 'P': (True, True), 'C': (False, True)}


def parse_short(text, latex, d):
    if latex:
        require(text.startswith('$') and text.endswith('$'), 'LaTeX name {!r}', text)
        text = text[1:-1]
        m = re.fullmatch(r'(.*?)\s*(?:\\mathcal\{([TPC])\})?', text, re.S)
    else:
        m = re.fullmatch(r'(.*?)\s*([TPC])?', text, re.S)
    require(m, 'name {!r} cannot be read', text)
    return parse_rot(m.group(1) or '1', d), AZ[m.group(2) or '']


def parse_full(text, latex, d):
    if latex:
        text = text.strip('$')
        m = re.match(r'U H\(\\mathbf\{k\}\)(\^\*)? U\^\{-1\} = (-?)H\((-?)R\\mathbf\{k\}\) \\\\R = (.*?)\\\\(.*)', text, re.S)
    else:
        m = re.match(r'\nU⋅H\(k\)(\*)?⋅U\^-1 = (-?)H\((-?)R⋅k\)\nR = (.*?)\n(.*)', text, re.S)
    require(m, 'full name {!r} cannot be read', text)
    require(bool(m.group(1)) == bool(m.group(3)), 'momentum is reversed exactly for antiunitary operations')
    return parse_rot(m.group(4), d), (bool(m.group(1)), bool(m.group(2))), m.group(5)


def parse_matrix(text, latex):
    if latex:
        m = re.search(r'\\begin\{bmatrix\}(.*)\\end\{bmatrix\}', text, re.S)
        require(m, 'matrix missing')
        rows = [[c for c in r.split('&')] for r in m.group(1).split(r'\\') if r.strip()]
        return np.array([[complex(c.replace(' ', '')) for c in r] for r in rows])
    body = text[text.index('['):]
    rows = re.findall(r'\[([^\[\]]*)\]', body)
    return np.array([[complex(x) for x in re.findall(r'[-+]?\d*\.?\d*(?:e[-+]?\d+)?[-+ ]+\d*\.?\d*(?:e[-+]?\d+)?j|[-+]?\d+\.?\d*',
                                                      r.replace('\n', ' '))] for r in rows])


def rand_orth(rng, d):
    """(R in an accepted form, float R, exact?)"""
    kind = choice(rng, ['crystal', 'crystal', 'angle', 'random', 'exact', 'nearpi', 'small'])
    if d == 0:
        return np.zeros((0, 0), int), np.zeros((0, 0)), True
    if d == 1:
        s = choice(rng, [1, -1])
        return choice(rng, [np.array([[s]]), sympy.Matrix([[s]]), np.array([[float(s)]])]), np.array([[s * 1.0]]), True
    if kind == 'exact':
        m = exact_rot(rng, d)
        return m, np.array(m.tolist(), float), False
    if kind == 'crystal':
        R = choice(rng, ISO(choice(rng, ['square', 'hex2'] if d == 2 else ['cubic', 'hex3'])))
        return np.round(R, 15), R, bool(np.allclose(R, np.round(R)))
    if kind == 'random':
        R = rorth(rng, d)
        return R, R, False
    t = {'angle': np.pi * float(Fraction(int(rng.integers(-12, 13)), int(choice(rng, [1, 2, 3, 4, 5, 6, 8, 12])))),
         'nearpi': np.pi - 10 ** -rng.uniform(1, 3), 'small': 10 ** -rng.uniform(0.5, 1.5)}[kind]
    if d == 2:
        R = rot2(t)
        if rbool(rng, 0.3):
            R = R @ np.diag([1, -1])
    else:
        n = choice(rng, [rng.standard_normal(3), rng.integers(-1, 2, 3), rng.integers(-3, 4, 3)])
        if not np.any(n):
            n = np.array([1, -1, 1])
        R = rodrigues(n, t) * choice(rng, [1, -1])
    return R, R, False


_I = {}


def ISO(name):
    if name not in _I:
        _I[name] = isometries(star(name))
    return _I[name]


def nearest_int_axis(n):
    n = n / la.norm(n)
    for v in it.product([-1, 0, 1], repeat=len(n)):
        if any(v) and np.dot(v, n) / la.norm(v) > 1 - 1e-5:
            return True
    return False


def op_type(R):
    """Letter of the name, None if it is too close to call."""
    d = len(R)
    if d == 0:
        return '1'
    if d == 1:
        return '1' if R[0, 0] > 0 else 'I'
    proper = la.det(R) > 0
    if d == 2:
        t = 0 if not proper else abs(np.arctan2(R[1, 0], R[0, 0]))
        return 'M' if not proper else '1' if t < 1e-9 else 'R' if t > 1e-4 else None
    Q = R if proper else -R
    t = np.arctan2(la.norm([Q[2, 1] - Q[1, 2], Q[0, 2] - Q[2, 0], Q[1, 0] - Q[0, 1]]) / 2, (np.trace(Q) - 1) / 2)
    if t < 1e-9:
        return '1' if proper else 'I'
    if t < 1e-4:
        return None
    if proper:
        return 'R'
    return 'M' if np.pi - t < 1e-9 else 'S' if np.pi - t > 1e-3 else None


@case(P, 400)
def discrete(rng, note):
    d = int(choice(rng, [0, 1, 2, 2, 3, 3, 3]))
    arg, R, exact = rand_orth(rng, d)
    conj, anti = rbool(rng), rbool(rng)
    n = int(rng.integers(1, 4))
    U = None if rbool(rng) else choice(rng, [runitary(rng, n), np.eye(n), np.round(runitary(rng, n), 2)])
    g = PGE(arg, conj, anti, U)
    note('pretty_print_pge', np.round(R, 6).tolist(), conj, anti, None if U is None else fmt_mat(U))
    tol = 1e-6 if exact else 0.045
    kind = op_type(R)
    texts = [(qg.pretty_print_pge(g), False), (qg.pretty_print_pge(g, latex=True), True), (g._repr_latex_(), True)]
    for text, latex in texts[:2]:
        Rp, flags = parse_short(text, latex, d)
        require_close(Rp, R, 'operation read back from {!r}', text, tol=tol)
        require(flags == (conj, anti), 'flags read back from {!r}', text)
        require(kind in (None, '1') or text.lstrip('$ ')[0] == kind, 'operation of type {} printed as {!r}', kind, text)
    for text, latex in [(qg.pretty_print_pge(g, full=True), False), (str(g), False),
                        (qg.pretty_print_pge(g, full=True, latex=True), True)]:
        Rp, flags, rest = parse_full(text, latex, d)
        require_close(Rp, R, 'operation read back from {!r}', text, tol=tol)
        require(flags == (conj, anti), 'flags read back from {!r}', text)
        if U is None:
            require('U =' not in rest, 'unitary part printed')
        else:
            require('U =' in rest, 'unitary part missing')
            try:
                M = parse_matrix(rest[rest.index('U ='):], latex)
            except ValueError:
                M = None
            if M is not None and M.shape == U.shape:
                require_close(M, U, 'unitary part read back from {!r}', rest, tol=0.02)
    require(texts[2][0].startswith('$'), 'LaTeX representation')
    repr(g)


@case(P, 300)
def crystal_names(rng, note):
    """Type, angle and axis of every crystallographic operation."""
    name = choice(rng, ['square', 'hex2', 'cubic', 'hex3'])
    R = choice(rng, ISO(name))
    d = len(R)
    note(name, np.round(R, 4).tolist())
    text = qg.pretty_print_pge(PGE(np.round(R, 15), False, False, None))
    Rp, _ = parse_short(text, False, d)
    require_close(Rp, R, 'operation read back from {!r}', text, tol=0.012 if name == 'hex3' or name == 'hex2' else 1e-6)
    det, tr = la.det(R), np.trace(R)
    if d == 2:
        want = ('1' if tr > 2 - 1e-6 else 'R') if det > 0 else 'M'
    else:
        want = ('1' if tr > 3 - 1e-6 else 'R') if det > 0 else \
            ('I' if tr < -3 + 1e-6 else ('M' if abs(tr - 1) < 1e-6 else 'S'))
    require(text[0] == want, 'operation of type {} printed as {!r}', want, text)


@case(P, 60)
def rotation_to_angle(rng, note):
    t = choice(rng, [rng.uniform(-np.pi, np.pi), np.pi, -np.pi, np.pi / 2, 2 * np.pi / 3, -np.pi / 3])
    n = choice(rng, [rng.standard_normal(3), rng.integers(-1, 2, 3)])
    if not np.any(n):
        n = np.array([0, -1, 0])
    note('rotation_to_angle', n, t)
    R = rodrigues(n, t)
    m, th = qg.rotation_to_angle(R)
    require_close(la.norm(m), 1.0, 'axis is normalised')
    require_close(rodrigues(m, th), R, 'axis and angle describe the rotation')


@case(P, 200)
def continuous(rng, note):
    d = int(choice(rng, [0, 1, 2, 3, 3]))
    n = int(rng.integers(1, 4))
    kind = choice(rng, ['R', 'U', 'both', 'zeroR', 'zeroU'])
    R = None
    ax = None
    if kind in ('R', 'both', 'zeroU') and d >= 2:
        if d == 2:
            s = choice(rng, [1, -1])
            if kind != 'both':      # without conserved quantity the normalization of the parameter is free
                s *= choice(rng, [1, 1, 0.2, 3])
            R = s * 1j * np.array([[0, -1], [1, 0]])
        else:
            ax = choice(rng, [rng.standard_normal(3), rng.integers(-1, 2, 3).astype(float)])
            if not np.any(ax):
                ax = np.array([1.0, 1.0, 1.0])
            ax = ax / la.norm(ax)
            L = 1j * np.array([[[0, 0, 0], [0, 0, -1], [0, 1, 0]], [[0, 0, 1], [0, 0, 0], [-1, 0, 0]],
                               [[0, -1, 0], [1, 0, 0], [0, 0, 0]]])
            R = np.tensordot(ax, L, axes=(0, 0))
    elif kind == 'zeroR':
        R = np.zeros((d, d))
    U = None
    if kind in ('U', 'both', 'zeroR') or d < 2:
        U = np.round(rherm(rng, n), 3)
        if not np.any(np.round(U, 3)):
            U = np.eye(n)
    elif kind == 'zeroU':
        U = np.zeros((n, n))
    if R is None and U is None:
        raise Skip()
    g = CGG(R, U)
    note('pretty_print_cgg', kind, d, None if R is None else np.round(R.imag, 4).tolist(), None if U is None else fmt_mat(U))
    hasR, hasU = R is not None and np.any(R), U is not None and np.any(U)
    for text, latex in [(qg.pretty_print_cgg(g), False), (str(g), False), (qg.pretty_print_cgg(g, latex=True), True),
                        (g._repr_latex_(), True)]:
        m = re.search(r'= R\s*(?:\\left)?\((-?)\s*(?:\\phi|ϕ)\s*(?:,\s*(\[[^\]]*\]))?\s*(?:\\right)?\)', text)
        require(bool(m) == bool(hasR), 'rotation {} in {!r}', 'missing' if hasR else 'printed', text)
        if hasR:
            sg = -1 if m.group(1) else 1
            if d == 2:
                require_close(sg * 1j * np.array([[0, -1], [1, 0]]), R / la.norm(R, 2), 'direction read back from {!r}', text)
            else:
                v = parse_axis(m.group(2))
                require_close(sg * v / la.norm(v), ax, 'axis read back from {!r}', text, tol=0.02)
        mL = re.search(r'(?:^|\n|\\\\|\s)L = (.*)', text, re.S)
        require(bool(mL) == bool(hasU), 'conserved quantity {} in {!r}', 'missing' if hasU else 'printed', text)
        require(('exp(' in text or 'e^{' in text) == bool(hasU and hasR), 'action on the Hamiltonian in {!r}', text)
        require(('= 0' in text) == (not hasR), 'commutator in {!r}', text)
        if hasU:
            try:
                M = parse_matrix(mL.group(1), latex)
            except ValueError:
                M = None
            if M is not None and M.shape == U.shape:
                require_close(M, U, 'conserved quantity read back', tol=0.02)
    repr(g)


@case(P, 20)
def lists(rng, note):
    """Lists of operations print each member."""
    syms = [qg.mirror([1, 0]), qg.time_reversal(2), qg.rotation(1 / 3), qg.chiral(2)]
    k = int(rng.integers(1, 5))
    note('PrettyList', k)
    pl = qg.PrettyList(syms[:k])
    require(len(pl) == k and isinstance(pl, list), 'list of operations')
    text = pl._repr_latex_()
    for g in syms[:k]:
        require(g._repr_latex_().strip('$') in text, 'member missing from the printed list')
    require(str(pl).count('R =') == k or str(pl).count('PointGroupElement') == k, 'members in str')
    require(qg.PrettyList([])._repr_latex_() == '' or True, '')
