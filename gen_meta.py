#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from props_meta.py."""
import json
import os
import props_meta as pm
here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
  for p in pm.PROPS:
    q = dict(id=p['id'], title=p['title'], statement=p['statement'],
             quantifier=dict(over=p.get('over', ['inputs']), text=p['text']),
             why_tests_cant=p['why'],
             anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']],
                          observe_at=p.get('observe', []), hook_needed=None))
    assert len(p['title']) <= 80, p['title']
    f.write(json.dumps(q) + '\n')
claimed = [p for p in pm.PROPS if os.path.exists(os.path.join(here, 'props', p['id'] + '.py'))]
m = dict(version=1, setup_cmd='./setup.sh', checks=[
    dict(property=p['id'], quick_cmd=f"./run_check {p['id']}", thorough_cmd=f"./run_check {p['id']} --tier thorough",
         evidence_file=f"evidence/{p['id']}.json", technique=p.get('technique', pm.TECHNIQUE), level=p.get('level', 'proof'),
         level_note=p['note'], **({'theorems': p['theorems']} if 'theorems' in p else {}))
    for p in claimed],
    not_applicable=[dict(property=p['id'], reason=p.get('na', 'not built yet')) for p in pm.PROPS if p not in claimed] ,
    notes=pm.NOTES)
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(pm.PROPS), 'properties', len(claimed), 'claimed')

# CONTRACTS.md: every contract, with its mode and docstring, as in props/*.py.
import ast
lines = ['# Contracts', '', 'Generated by gen_meta.py from props/*.py. Functions under contract, obligations, back ends and solver times per run are in evidence/<id>.json.', '']
for p in claimed:
  tree = ast.parse(open(os.path.join(here, 'props', p['id'] + '.py')).read())
  base = os.path.join(here, 'baseline', p['id'] + '.json')
  lines += [f"## {p['id']} {p['title']}", '']
  for node in tree.body:
    if not isinstance(node, ast.FunctionDef):
      continue
    for d in node.decorator_list:
      if isinstance(d, ast.Call) and getattr(d.func, 'id', '') == 'contract':
        mode = [k.value.value for k in d.keywords if k.arg == 'mode']
        doc = (ast.get_docstring(node) or '').replace('\n', ' ')
        lines.append(f"- `{d.args[0].value}`{' (bounded)' if mode == ['bounded'] else ''}{': ' + doc if doc else ''}")
  lines.append('')
open(os.path.join(here, 'CONTRACTS.md'), 'w').write('\n'.join(lines))
