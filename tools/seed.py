"""seed.py: define planted bugs (tools/seeds_*.py call add()) and validate them on scratch copies.
usage: seed.py [ids...]   -- writes /verif/seeded/<id>/ for every bug that validates"""
import json, os, shutil, subprocess, sys, tempfile, importlib, glob
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
BUGS = {}


def add(id, prop, edits, demo, needs, breaks):
    """edits: [(file, old, new)]; demo: python source run in /repo (exit 0 fine)."""
    BUGS[id] = dict(prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks)


DEMO_SH = '''#!/bin/bash
# exit 0: the property holds here
exec env PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" timeout 250 /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def validate(id):
    b = BUGS[id]
    d = tempfile.mkdtemp(prefix='seed-')
    try:
        w = os.path.join(d, 'repo')
        subprocess.check_call(['cp', '-a', '/repo', w])
        for f, old, new in b['edits']:
            p = os.path.join(w, f)
            s = open(p).read()
            if s.count(old) != 1:
                return 'edit matches %d times: %r' % (s.count(old), old[:60])
            open(p, 'w').write(s.replace(old, new))
        diff = subprocess.check_output(['git', '-C', w, 'diff'], text=True)
        orig = subprocess.check_output(['git', '-C', w, 'blame', '-s', 'HEAD', '--', *{f for f, _, _ in b['edits']}], text=True) if False else ''
        # changed lines must be lines of the base commit
        for f in {f for f, _, _ in b['edits']}:
            base = subprocess.check_output(['git', '-C', w, 'show', '69f801b:' + f], text=True).splitlines()
            removed = [l[1:] for l in diff.splitlines() if l.startswith('-') and not l.startswith('---')]
        for l in removed:
            if l.strip() and not any(l in subprocess.check_output(['git', '-C', w, 'show', '69f801b:' + f], text=True).splitlines()
                                     for f in {f for f, _, _ in b['edits']}):
                return 'changes a line that is not original: %r' % l
        demo = os.path.join(d, 'demo.py')
        open(demo, 'w').write(b['demo'])
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
        def run(cwd):
            return subprocess.run(['/opt/venv/bin/python', demo], cwd=cwd, env=dict(env, PYTHONPATH=cwd), capture_output=True, text=True, timeout=280)
        r0 = run('/repo')
        if r0.returncode != 0:
            return 'demo fails on the unchanged tree: ' + r0.stderr[-600:]
        r1 = run(w)
        if r1.returncode == 0:
            return 'demo passes with the bug'
        stable = json.load(open('/opt/vp/BASELINE.json'))
        out = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '-p', 'vp_seed',
                              '-W', 'ignore:unclosed file <_io.BufferedReader:ResourceWarning', 'qsymm'], cwd=w,
                             env=dict(env, PYTHONPATH=w + ':/opt/vp/pytest_plugins', PYTHONHASHSEED='0', OMP_NUM_THREADS='1',
                                      OPENBLAS_NUM_THREADS='1'), capture_output=True, text=True)
        if out.returncode != 0:
            return 'tests fail: ' + out.stdout[-500:]
        o = '/verif/seeded/' + id
        os.makedirs(o, exist_ok=True)
        open(o + '/patch.diff', 'w').write(diff)
        open(o + '/demo.py', 'w').write(b['demo'])
        open(o + '/demo.sh', 'w').write(DEMO_SH)
        os.chmod(o + '/demo.sh', 0o755)
        json.dump(dict(property=b['prop'], needs=b['needs'], what_it_breaks=b['breaks']), open(o + '/meta.json', 'w'), indent=1)
        return 'OK (' + r1.stderr.strip().splitlines()[-1][:100] + ')' if r1.stderr.strip() else 'OK'
    finally:
        shutil.rmtree(d)


if __name__ == '__main__':
    sys.modules['seed'] = sys.modules['__main__']
    for f in sorted(glob.glob(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'seeds_*.py'))):
        importlib.import_module(os.path.basename(f)[:-3])
    ids = sys.argv[1:] or [i for i in BUGS if not os.path.exists('/verif/seeded/' + i)]
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(6) as ex:
        for i, r in zip(ids, ex.map(validate, ids)):
            print(i, BUGS[i]['prop'], r, flush=True)
