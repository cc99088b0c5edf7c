"""trybugs.py [ids]: run the check of each planted bug's property on a scratch copy with the bug applied.
Evidence files of the run are redirected by EVID_DIR."""
import glob, json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor


def one(id):
    meta = json.load(open('/verif/seeded/%s/meta.json' % id))
    d = tempfile.mkdtemp(prefix='trybug-')
    try:
        w = d + '/repo'
        subprocess.check_call(['cp', '-a', '/repo', w])
        r = subprocess.run(['git', '-C', w, 'apply', '/verif/seeded/%s/patch.diff' % id])
        if r.returncode:
            return id, 'PATCH DOES NOT APPLY'
        env = dict(os.environ, VERIF_REPO=w, EVID_DIR=d + '/ev')
        r = subprocess.run(['python3', '/verif/check.py', meta['property']], env=env, capture_output=True, text=True)
        v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
        conc = [l for l in v if 'no-failing-input' not in l]
        first = next((l for l in r.stdout.splitlines() if ': ' in l and not l.startswith('VIOLATION')), '')
        return id, 'rc=%d concrete=%d proof=%d  %s | %s' % (r.returncode, len(conc), len(v) - len(conc), first[:110], r.stdout.strip().splitlines()[-1])
    finally:
        shutil.rmtree(d)


ids = sys.argv[1:] or sorted(os.listdir('/verif/seeded'))
with ThreadPoolExecutor(2) as ex:
    for id, r in ex.map(one, ids):
        print(id, r, flush=True)
