"""mut.py PROP FILE OLD NEW: run the proof layer of PROP on a scratch copy with OLD replaced by NEW."""
import sys, subprocess, shutil, tempfile, os
prop, f, old, new = sys.argv[1:5]
d = tempfile.mkdtemp()
shutil.copytree('/repo/qsymm', d + '/qsymm')
p = d + '/qsymm/' + f
s = open(p).read()
old, new = old.encode().decode('unicode_escape'), new.encode().decode('unicode_escape')
assert s.count(old) >= 1, 'not found'
open(p, 'w').write(s.replace(old, new, 1))
r = subprocess.run(['/opt/veriftools/pyvenv/bin/python', '-m', 'pv.main', prop], cwd='/verif', env=dict(os.environ, VERIF_REPO=d), capture_output=True, text=True)
print(prop, repr(old[:50]), '->', repr(new[:50]), 'rc', r.returncode)
print('\n'.join(l[:200] for l in r.stdout.splitlines() if l.startswith(('refuted', 'undecided'))) , r.stderr[-500:])
shutil.rmtree(d)
