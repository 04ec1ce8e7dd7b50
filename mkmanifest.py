#!/opt/veriftools/pyvenv/bin/python3
"""regenerates properties.jsonl and MANIFEST.json from props/*.py"""
import glob
import importlib
import json
import os
import sys
sys.dont_write_bytecode = True
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, H)
TECH = ('symbolic execution of the compiled C++ (clang -O2 LLVM IR) with SMT-decided assertions (z3, cvc5), '
        'counterexamples replayed on an ASan build of the real code')


def main():
    props, checks, na = [], [], []
    for f in sorted(glob.glob(os.path.join(H, 'props', '*.py'))):
        n = os.path.basename(f)[:-3]
        if n.startswith('_'):
            continue
        m = importlib.import_module('props.' + n)
        if not hasattr(m, 'PROP'):
            print('no PROP yet:', n)
            continue
        p = dict(m.PROP)
        row = dict(id=n, title=p['title'], statement=p['statement'],
                   quantifier=dict(over=p.get('over', ['inputs']), text=p['quant']),
                   why_tests_cant=p['why'],
                   anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']]))
        assert len(row['title']) <= 80, n
        props.append(row)
        if 'na' in p:
            na.append(dict(property=n, reason=p['na']))
            continue
        checks.append(dict(property=n, quick_cmd='./run.py %s' % n, thorough_cmd='./run.py %s --tier thorough' % n,
                           technique=getattr(m, 'TECHNIQUE', TECH), level=getattr(m, 'LEVEL', 'model_checking'),
                           level_note=' '.join(m.BOUNDS + ['Assumes: ' + '; '.join(m.ASSUMPTIONS)] if
                                               getattr(m, 'ASSUMPTIONS', None) else m.BOUNDS)))
    with open(os.path.join(H, 'properties.jsonl'), 'w') as f:
        for r in props:
            f.write(json.dumps(r) + '\n')
    with open(os.path.join(H, 'MANIFEST.json'), 'w') as f:
        json.dump(dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na), f, indent=1)
        f.write('\n')
    try:
        import jsonschema
        jsonschema.validate(json.load(open(os.path.join(H, 'MANIFEST.json'))), json.load(open('/root/.vp/MANIFEST.schema.json')))
        sch = json.load(open('/root/.vp/PROPERTIES.schema.json'))
        for r in props:
            jsonschema.validate(r, sch)
    except FileNotFoundError:
        pass
    print(len(props), 'properties,', len(checks), 'checks,', len(na), 'not applicable')


main()
