"""python -m pv.main PROP [--out FILE] [--tier quick|thorough] [--only NAME]"""
import argparse, importlib, json, multiprocessing as mp, os, sys, time
sys.dont_write_bytecode = True
for _v in ('OPENBLAS_NUM_THREADS', 'OMP_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ.setdefault(_v, '1')
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)


def main():
    p = argparse.ArgumentParser()
    p.add_argument('prop')
    p.add_argument('--out')
    p.add_argument('--tier', default='quick')
    p.add_argument('--seed', type=int, default=1)
    p.add_argument('--only')
    p.add_argument('--procs', type=int, default=4)
    a = p.parse_args()
    from pv import obl, engine
    t0 = time.time()
    try:
        importlib.import_module('pv.' + a.prop.lower())
    except ModuleNotFoundError as e:
        if e.name != 'pv.' + a.prop.lower():
            raise
    reg = obl.REG.get(a.prop, [])
    jobs = [(a.prop, i) for i, (fn, tier) in enumerate(reg)
            if (tier == 'quick' or a.tier == 'thorough')
            and (not a.only or a.only.split(':')[0] == fn.__name__)]
    if a.procs > 1 and len(jobs) > 1:
        with mp.get_context('fork').Pool(a.procs) as pool:
            res = pool.map(obl.run_group, jobs, chunksize=1)
    else:
        res = [obl.run_group(j) for j in jobs]
    out = [o for r in res for o in r['out']]
    backends = {}
    for o in out:
        backends[o['backend']] = backends.get(o['backend'], 0) + o['vcs']
    d = dict(obligations=out, functions=obl.FUNCS.get(a.prop, []), bounded_only=obl.BOUNDED.get(a.prop, []),
             assumptions=obl.ASSUME.get(a.prop, []),
             trusted_base=['CPython executing the rewritten source', 'z3 4.x / cvc5', 'pv/ (rewriter, contracts, normaliser)',
                           *engine.DROPPED],
             backends=backends, solver_s=round(sum(r['solver_s'] for r in res), 2),
             vacuity=['{}: {} paths, {} solver queries, {:.1f} s'.format(r['group'], r['paths'], r['queries'], r['wall'])
                      for r in res], wall=time.time() - t0)
    if a.out:
        with open(a.out, 'w') as f:
            json.dump(d, f)
    else:
        for o in out:
            print('%-10s %4d %-20s %s' % (o['status'], o['vcs'], o['backend'], o['name']))
            if o['status'] != 'discharged':
                print('      ', o['detail'][:1500])
        for v in d['vacuity']:
            print('  ', v)
    return 0 if all(o['status'] == 'discharged' for o in out) else 1


if __name__ == '__main__':
    sys.exit(main())
