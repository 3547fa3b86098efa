#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and DESIGN.md from spec.py, design_head.md, design_tail.md."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import spec
props, checks, na, design = [], [], [], []
for p in spec.PROPS:
    assert len(p['title']) <= 80, p['id']
    props.append(dict(id=p['id'], title=p['title'], statement=p['statement'],
                      quantifier=dict(over=p['over'], text=p['qtext']), why_tests_cant=p['why'],
                      anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']],
                                   observe_at=p.get('observe', []), hook_needed=None)))
    built = os.path.exists(os.path.join(ROOT, 'checks', p['id'].lower() + '.py'))
    if p.get('na'):
        na.append(dict(property=p['id'], reason=p['na']))
    elif not built:
        na.append(dict(property=p['id'], reason='the check is planned (see DESIGN.md) but not built yet'))
    else:
        checks.append(dict(property=p['id'], quick_cmd='/opt/venv/bin/python run.py ' + p['id'],
                           thorough_cmd='/opt/venv/bin/python run.py %s --tier thorough' % p['id'],
                           technique=p['technique'], level='model_checking', level_note=p['note']))
    design.append('### %s — %s\n\n%s\n\n%s\n' % (p['id'], p['title'], p['statement'], p['design'].strip()))
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in props:
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
m = dict(version=1, setup_cmd='/opt/venv/bin/python tools/setup_check.py', checks=checks, not_applicable=na,
         hooks=dict(guard='VERIF_HOOKS (unused: no hooks were needed)', enable='nothing to enable; the checks import /repo/flavio as it is', source_commits=[]),
         notes='All checks explore the real code imported from /repo (pure Python, nothing to build). See DESIGN.md.')
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1, ensure_ascii=False); f.write('\n')
rd = lambda n: open(os.path.join(HERE, n)).read()
with open(os.path.join(ROOT, 'DESIGN.md'), 'w') as f:
    f.write(rd('design_head.md') + '\n## Properties and how each is decided\n\n' + '\n'.join(design) + '\n' + rd('design_tail.md'))
print(len(props), 'properties', len(checks), 'checks', len(na), 'not applicable')
