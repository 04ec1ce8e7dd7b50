#!/opt/veriftools/pyvenv/bin/python3
"""DESIGN.md = design_template.md with the per-property sections filled in from props/*.py, known_findings.json and seeded/*/meta.json"""
import glob
import importlib
import json
import os
import sys
sys.dont_write_bytecode = True
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, H)
out = []
na = []
for f in sorted(glob.glob(H + '/props/*.py')):
    n = os.path.basename(f)[:-3]
    if n.startswith('_'):
        continue
    m = importlib.import_module('props.' + n)
    p = m.PROP
    if 'na' in p:
        na.append('- **%s %s** - not applicable: %s' % (n, p['title'], p['na']))
        continue
    ents = []
    for u in m.UNITS:
        es = [e if isinstance(e, str) else e['fn'] + (' (thorough)' if e.get('thorough_only') else '') for e in u['entries']]
        ents.append('`harness/%s` with %s: %s' % (u['src'], ', '.join('`%s`' % r for r in u.get('repo', [])) or 'headers only', ', '.join(es)))
    out.append('### %s %s\n' % (n, p['title']))
    out.append(p['statement'] + '\n')
    out.append('- *decided by*: ' + '; '.join(ents))
    if getattr(m, 'ORACLE', None):
        out.append('- *oracle*: ' + m.ORACLE)
    out.append('- *bounds*: ' + ' '.join(m.BOUNDS))
    if getattr(m, 'ASSUMPTIONS', None):
        out.append('- *assumes*: ' + '; '.join(m.ASSUMPTIONS))
    if getattr(m, 'COST', None):
        out.append('- *cost*: ' + m.COST)
    out.append('- *beyond the tests*: ' + p['why'])
    out.append('')
if na:
    out += ['### Not applicable', ''] + na
kf = json.load(open(H + '/known_findings.json'))
fnd = ['- ' + x for x in kf['fixed']] + ['- recorded: property=%s `%s`: %s' % (k['property'], k['entry'], k['what']) for k in kf['findings']]
sd = ['Each is a change that compiles and passes the existing tests, with a demonstration. `caught` = result of the quick check of the property.', '',
      '| id | property | what it breaks | needs | caught by |', '|---|---|---|---|---|']
for f in sorted(glob.glob(H + '/seeded/*/meta.json')):
    d = json.load(open(f))
    sd.append('| %s | %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), d['property'], d['what_it_breaks'], d['needs'], d.get('caught_by', '')))
t = open(H + '/design_template.md').read()
t = t.replace('@@PROPS@@', '\n'.join(out)).replace('@@FINDINGS@@', '\n'.join(fnd)).replace('@@SEEDED@@', '\n'.join(sd))
open(H + '/DESIGN.md', 'w').write(t)
