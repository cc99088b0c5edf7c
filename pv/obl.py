"""Registry of proof obligations and their runner."""
import signal
import time
import traceback

from . import engine as E

GROUP_SECONDS = 400
REG = {}
FUNCS = {}
ASSUME = {}
BOUNDED = {}


class Ob:
    """Collects the verification conditions of one obligation group."""

    def __init__(self, prop, name):
        self.prop, self.name, self.items = prop, name, {}

    def check(self, label, ok, detail='', backend='normal form'):
        """ok: True, False or None (undecided)."""
        it = self.items.setdefault(label, dict(n=0, bad=[], und=[], backend=backend))
        it['n'] += 1
        if ok is None:
            it['und'].append(str(detail)[:2000])
        elif not ok:
            it['bad'].append(str(detail)[:2000])
        return bool(ok)

    def prove(self, label, f, assumptions=(), timeout=30000):
        ok, detail = E.prove(f, assumptions, timeout)
        if ok is None and E.STATS['solver_s'] - E.BUDGET[0][0] < E.BUDGET[0][1]:
            ok, d2 = cvc5_prove(f, assumptions)
            detail += '; ' + d2
            return self.check(label, ok, detail, 'cvc5')
        return self.check(label, ok, detail, 'z3')

    def same(self, label, a, b):
        """Equality of matrix expressions."""
        ok = a.same(b)
        return self.check(label, ok, '' if ok else 'computed: {}   specified: {}'.format(a, b), 'matrix normal form')


def cvc5_prove(f, assumptions):
    try:
        import z3
        s = z3.Solver()
        for a in assumptions:
            s.add(a)
        s.add(z3.Not(f))
        text = s.to_smt2()
        import shutil, subprocess
        exe = shutil.which('cvc5')
        if not exe:
            return None, 'cvc5 is not installed'
        r = subprocess.run([exe, '--lang=smt2', '--tlimit=20000', '-'], input='(set-logic ALL)\n' + text, text=True,
                           capture_output=True, timeout=30).stdout.strip().splitlines()
        r = r[-1] if r else 'no answer'
        return {'unsat': True, 'sat': False}.get(r), 'cvc5: ' + r
    except Exception as e:     # a second opinion only
        return None, 'cvc5 failed: {}'.format(e)


def obligation(prop, funcs=(), tier='quick'):
    """Register fn(ob).  funcs: the repository functions whose source the group interprets."""
    def deco(fn):
        for p in ([prop] if isinstance(prop, str) else prop):
            REG.setdefault(p, []).append((fn, tier))
            for f in funcs:
                FUNCS.setdefault(p, [])
                if f not in FUNCS[p]:
                    FUNCS[p].append(f)
        return fn
    return deco


def assumption(prop, *texts):
    for p in ([prop] if isinstance(prop, str) else prop):
        ASSUME.setdefault(p, []).extend(t for t in texts if t not in ASSUME.get(p, []))


def bounded_only(prop, *funcs):
    for p in ([prop] if isinstance(prop, str) else prop):
        BOUNDED.setdefault(p, []).extend(funcs)


def run_group(job):
    prop, index = job
    fn, tier = REG[prop][index]
    ob = Ob(prop, fn.__name__)
    err = None
    t0 = time.time()
    s0, q0, p0 = E.STATS['solver_s'], E.STATS['queries'], E.STATS['paths']
    E.BUDGET[0] = (s0, 90)
    def too_long(*a):
        raise E.Unsupported('time limit of the obligation group')
    try:
        signal.signal(signal.SIGALRM, too_long)
        signal.alarm(GROUP_SECONDS)
        try:
            fn(ob)
        finally:
            signal.alarm(0)
    except E.Unsupported as e:
        err = ('undecided', 'outside the verifier\'s reach: {}\n{}'.format(e, traceback.format_exc()[-1500:]))
    except E.ContractError as e:
        err = ('refuted', '{}\n{}'.format(e, traceback.format_exc()[-1500:]))
    except RecursionError as e:
        err = ('undecided', 'recursion limit')
    except Exception as e:
        err = ('undecided', 'the interpretation of the source failed: {}: {}\n{}'.format(
            type(e).__name__, e, traceback.format_exc()[-2500:]))
    out = []
    for label, it in ob.items.items():
        st = 'refuted' if it['bad'] else 'undecided' if it['und'] else 'discharged'
        out.append(dict(name='{}: {}'.format(fn.__name__, label), status=st, vcs=it['n'], backend=it['backend'],
                        detail=(it['bad'] or it['und'] or [''])[0]))
    if err:
        out.append(dict(name='{}: interpretation of the source'.format(fn.__name__), status=err[0], vcs=1,
                        backend='engine', detail=err[1]))
    elif not ob.items:
        out.append(dict(name='{}: generates no verification conditions'.format(fn.__name__), status='undecided',
                        vcs=0, backend='engine', detail='vacuous'))
    return dict(out=out, wall=time.time() - t0, solver_s=E.STATS['solver_s'] - s0,
                queries=E.STATS['queries'] - q0, paths=E.STATS['paths'] - p0, group=fn.__name__)
