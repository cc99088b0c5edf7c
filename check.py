#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough]    decide one property of /repo's current tree
   check.py --replay <file>                        re-run what a VIOLATION line refers to

Two layers look at the same contracts:
  proof    pv/: parses the functions in /repo, generates proof obligations from them and
           discharges them (python3-vt);
  runtime  rt/: evaluates the contracts on generated inputs of the real code (bounded stand-in
           for whatever the proof layer assumes, and the source of concrete failing inputs).
Exit 0: every obligation discharged and no contract failed.  Exit 1: VIOLATION."""
import argparse, json, os, signal, subprocess, sys, tempfile, time, shutil

HERE = os.path.dirname(os.path.abspath(__file__))
RT_PY = '/opt/venv/bin/python'
PV_PY = '/opt/veriftools/pyvenv/bin/python'
EVID = os.environ.get('EVID_DIR') or os.path.join(HERE, 'evidence')


def start(cmd, log):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
    return subprocess.Popen(cmd, cwd=HERE, env=env, stdout=log, stderr=subprocess.STDOUT, start_new_session=True)


def finish(proc, deadline):
    """Wait; on the deadline end the whole process group. Returns the return code or None."""
    try:
        return proc.wait(timeout=max(1, deadline - time.time()))
    except subprocess.TimeoutExpired:
        try:
            os.killpg(proc.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        proc.wait()
        return None


def load_known():
    with open(os.path.join(HERE, 'known_findings.json')) as f:
        return json.load(f)


def main():
    p = argparse.ArgumentParser()
    p.add_argument('prop', nargs='?')
    p.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    p.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    p.add_argument('--replay')
    p.add_argument('--layers', default='rt,pv')
    a = p.parse_args()
    if a.replay:
        return replay(a.replay)
    t0 = time.time()
    prop, tier = a.prop, 'thorough' if a.tier == 'thorough' else 'quick'
    os.makedirs(EVID, exist_ok=True)
    for f in os.listdir(EVID):
        if f.startswith(prop + '-'):
            os.unlink(os.path.join(EVID, f))
    tmp = tempfile.mkdtemp(prefix='qsymm-check-')
    try:
        return decide(prop, tier, a.seed, tmp, t0, a.layers.split(','))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def decide(prop, tier, seed, tmp, t0, layers):
    limit = t0 + (780 if tier == 'quick' else 6 * 3600)
    rt_out, pv_out = os.path.join(tmp, 'rt.jsonl'), os.path.join(tmp, 'pv.json')
    rt_log, pv_log = open(os.path.join(tmp, 'rt.log'), 'w+'), open(os.path.join(tmp, 'pv.log'), 'w+')
    budget = 500 if tier == 'quick' else 5 * 3600
    prt = start([RT_PY, '-m', 'rt.main', prop, '--seed', str(seed), '--tier', tier, '--out', rt_out,
                 '--budget', str(budget)], rt_log) if 'rt' in layers else None
    have_pv = 'pv' in layers and os.path.exists(os.path.join(HERE, 'pv', prop.lower() + '.py'))
    ppv = start([PV_PY, '-m', 'pv.main', prop, '--seed', str(seed), '--tier', tier, '--out', pv_out],
                pv_log) if have_pv else None
    rc_rt = finish(prt, limit) if prt else 0
    rc_pv = finish(ppv, limit) if ppv else 0
    rt_log.seek(0), pv_log.seek(0)

    # ---- runtime layer
    cases, done = [], prt is None
    if os.path.exists(rt_out):
        for line in open(rt_out):
            try:
                d = json.loads(line)
            except ValueError:
                continue
            if d.get('done'):
                done = True
            else:
                cases.append(d)
    bad = [c for c in cases if c['status'] == 'violation']
    problems = []          # (kind, title, payload, concrete)
    known = load_known()
    for c in bad:
        hit = next((k for k in known['findings'] if k['property'] == prop and k['case'] == c['name']
                    and k['match'] in c['msg']), None)
        if hit:
            print('KNOWN-FINDING: property={} {}'.format(prop, hit['what']))
        else:
            problems.append(('runtime', '{}[{}]'.format(c['name'], c['index']), c, True))
    if prt and not done and not bad:
        problems.append(('runtime', 'the runtime checks did not finish',
                         dict(log=rt_log.read()[-4000:], rc=rc_rt), True))

    # ---- proof layer
    obl, pv = [], {}
    if ppv:
        if os.path.exists(pv_out):
            pv = json.load(open(pv_out))
            obl = pv['obligations']
        if not obl:
            problems.append(('proof', 'no obligations were generated', dict(log=pv_log.read()[-4000:], rc=rc_pv), False))
        for o in obl:
            if o['status'] != 'discharged':
                problems.append(('proof', o['name'], o, False))
    problems.sort(key=lambda q: not q[3])

    # ---- report
    rc = 0
    for i, (kind, title, payload, concrete) in enumerate(problems):
        path = os.path.join(EVID, '{}-{}.json'.format(prop, i))
        with open(path, 'w') as f:
            json.dump(dict(property=prop, seed=seed, tier=tier, layer=kind, what=title, detail=payload,
                           replay='python3 /verif/check.py --replay ' + path), f, indent=1)
        rc = 1
        if i < 5:
            msg = payload.get('msg') or payload.get('detail') or payload.get('log') or ''
            print('{}: {}: {}'.format(kind, title, str(msg).strip()[:300].replace('\n', ' | ')))
            print('VIOLATION property={} replay={}{}'.format(prop, path, '' if concrete else ' no-failing-input-found'))

    n_ok = sum(o['status'] == 'discharged' for o in obl)
    nontrivial = {c['key'] for c in cases if c['status'] != 'skip'}
    gens = {}
    for c in cases:
        g = gens.setdefault(c['name'], [0, 0])
        g[0] += 1
        g[1] += c['status'] == 'skip'
    samples = []
    for name in sorted(gens):
        s = next((c for c in cases if c['name'] == name and c['status'] == 'ok' and c['input']), None)
        if s:
            samples.append(dict(case=name, input=s['input'][:400]))
    coverage = dict(
        obligations=len(obl), discharged=n_ok,
        checker_cmd='{} -m pv.main {}'.format(PV_PY, prop),
        trusted_base=pv.get('trusted_base', []),
        functions_under_contract=pv.get('functions', []),
        functions_bounded_only=pv.get('bounded_only', []),
        backends=pv.get('backends', {}), solver_s=pv.get('solver_s', 0),
        obligation_names=[o['name'] for o in obl],
        vacuity=pv.get('vacuity', []),
        evaluations=len(cases), distinct_nontrivial=len(nontrivial),
        rule='bounded layer: each case draws its input from the generator of that name seeded by (property, name, '
             'index, VERIF_SEED), runs the real code and evaluates the contract; trivial = the generator '
             'rejected the draw as outside the domain; distinct = different printed inputs',
        samples=samples[:12], generators={k: dict(cases=v[0], skipped=v[1]) for k, v in sorted(gens.items())},
        explanation='Deductive layer: obligations generated from the source of the listed functions, parsed on '
                    'this run. Bounded layer: the same contracts evaluated at run time on generated inputs; '
                    'counted separately and never as proved.')
    man = json.load(open(os.path.join(HERE, 'MANIFEST.json')))
    level = next((c['level'] for c in man['checks'] if c['property'] == prop), 'exploration')
    with open(os.path.join(EVID, prop + '.json'), 'w') as f:
        json.dump(dict(property=prop, tier=tier, seed=seed, level=level, coverage=coverage,
                       assumptions=pv.get('assumptions', []), wall_s=round(time.time() - t0, 2),
                       violations=len(problems)), f, indent=1)
    print('{}: {} of {} obligations discharged, {} runtime cases, {} problems, {:.1f} s'.format(
        prop, n_ok, len(obl), len(cases), len(problems), time.time() - t0))
    return rc


def replay(path):
    d = json.load(open(path))
    if d['layer'] == 'runtime' and 'index' in d['detail']:
        c = d['detail']
        return subprocess.call([RT_PY, '-m', 'rt.main', d['property'], '--seed', str(c['seed']),
                                '--only', c['name'], '--index', str(c['index'])], cwd=HERE)
    print(json.dumps(d['detail'], indent=1))
    return subprocess.call([PV_PY, '-m', 'pv.main', d['property'], '--only', d['what']], cwd=HERE)


if __name__ == '__main__':
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        print('the check itself failed')
        sys.exit(3)
