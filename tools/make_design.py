"""Write DESIGN.md (run with python3-vt: it imports the obligation registry)."""
import importlib, json, os, sys
sys.path[:0] = ['/verif', '/verif/tools']
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True
from pv import obl, engine
import levels
for i in levels.IDS:
    importlib.import_module('pv.' + i.lower())
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
T = open('/verif/tools/design_text.md').read()
GROUP = {}
for line in T.split('%%GROUPS%%')[1].strip().splitlines():
    k, v = line.split('|', 1)
    GROUP[k.strip()] = v.strip()
head, tail = T.split('%%GROUPS%%')[0].split('%%PROPERTIES%%')
fixes = json.load(open('/verif/known_findings.json'))['fixed']
out = [head.strip(), '']
RT = {}
for p in props:
    i = p['id']
    out += ['### %s: %s' % (i, p['title']), '', p['statement'] if 'statement' in p else '', '',
            '*Decided by.* ' + levels.PROVED[i], '', 'Obligation groups:', '']
    for fn, tier in obl.REG[i]:
        name = fn.__module__.split('.')[-1] + '.' + fn.__name__
        doc = GROUP.get(name) or ' '.join((fn.__doc__ or '').split())
        assert doc, 'no description of ' + name
        out.append('* `%s`%s: %s' % (name, '' if tier == 'quick' else ' (thorough tier only)', doc))
    out += ['', 'Functions under contract: ' + ', '.join('`%s`' % f for f in obl.FUNCS[i]) + '.', '', 'Assumptions left unchecked:', '']
    out += ['* ' + a for a in obl.ASSUME[i]]
    if obl.BOUNDED.get(i):
        out += ['', 'Bounded only (run-time layer, never counted as proved):', ''] + ['* ' + b for b in obl.BOUNDED[i]]
    out += ['', 'Run-time layer: `rt/%s.py`.' % i.lower(), '']
out += [tail.strip(), '']
s = '\n'.join(out)
s = s.replace('%%FIXES%%', '\n'.join('* ' + f for f in fixes))
rows = []
try:
    caught = json.load(open('/verif/tools/catches.json'))
except FileNotFoundError:
    caught = {}
for d in sorted(os.listdir('/verif/seeded')):
    m = json.load(open('/verif/seeded/%s/meta.json' % d))
    rows.append('| %s | %s | %s | %s |' % (d, m['property'], m['what_it_breaks'].replace('|', '/'), caught.get(d, '?')))
s = s.replace('%%CATCHES%%', '| planted bug | property | what it breaks | caught by |\n|---|---|---|---|\n' + '\n'.join(rows))
open('/verif/DESIGN.md', 'w').write(s)
print(len(s.splitlines()), 'lines')
