"""python -m rt.main PROP --seed S --tier quick --out FILE [--only NAME --index I]"""
import argparse, json, sys, os, time, importlib
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def main():
    p = argparse.ArgumentParser()
    p.add_argument('prop')
    p.add_argument('--seed', type=int, default=1)
    p.add_argument('--tier', default='quick')
    p.add_argument('--out')
    p.add_argument('--only')
    p.add_argument('--index', type=int)
    p.add_argument('--procs', type=int)
    p.add_argument('--budget', type=float, default=500)
    a = p.parse_args()
    from rt import common
    importlib.import_module('rt.' + a.prop.lower())
    from rt import shared
    shared.register(a.prop)
    t0 = time.time()
    if a.index is not None:
        res = [common.run_one((a.prop, a.only, a.index, a.seed))]
    else:
        # one JSON line per finished case, so that nothing is lost if the run is cut short
        f = open(a.out, 'w') if a.out else None
        sink = (lambda r: print(json.dumps(r), file=f, flush=True)) if f else None
        res = common.run_property(a.prop, a.seed, a.tier, a.procs, a.only, budget=a.budget, sink=sink)
        if f:
            print(json.dumps(dict(done=True)), file=f)
            f.close()
    d = dict(results=res, wall=time.time() - t0)
    bad = [r for r in res if r['status'] == 'violation']
    n = {}
    for r in res:
        n.setdefault(r['name'], [0, 0, 0, 0.0, 0.0])
        x = n[r['name']]
        x[0] += 1; x[1] += r['status'] == 'skip'; x[2] += r['status'] == 'violation'
        x[3] += r['wall']; x[4] = max(x[4], r['wall'])
    if not a.out:
        for k, x in n.items():
            print('%-40s n=%d skip=%d viol=%d total=%.1fs max=%.2fs' % (k, *x))
        for r in bad[:3]:
            print('---', r['name'], r['index'], '\n', r['msg'][-700:], '\nINPUT', r['input'][:500])
        print('cases', len(res), 'violations', len(bad), 'wall %.1f' % d['wall'])
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main())
