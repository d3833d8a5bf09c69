#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from spec/properties.py (run by hand after editing it)."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
import properties as S
with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for p in S.PROPS:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith('_')}) + '\n')
checks, na = [], []
for p in S.PROPS:
    pid = p['id']
    if os.path.exists(os.path.join(root, 'sa/checks', pid.lower() + '.py')) and '_na' not in p:
        checks.append({'property': pid, 'quick_cmd': 'python3 run_check.py ' + pid,
                       'thorough_cmd': 'VERIF_TIER=thorough python3 run_check.py ' + pid,
                       'technique': p['_technique'], 'level': 'other', 'level_note': p['_note']})
    else:
        na.append({'property': pid, 'reason': p.get('_na', 'check not built yet')})
json.dump({'version': 1, 'setup_cmd': 'python3 setup.py', 'checks': checks, 'not_applicable': na,
           'notes': 'Every check parses /repo with a libTooling extractor and runs a static dataflow analysis; nothing of /repo is executed. No hooks in /repo.'},
          open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')

# ---- DESIGN.md
import glob, importlib, textwrap
sys.path.insert(0, root)
head = open(os.path.join(here, 'design_head.md')).read()
rows = ['| bug | needs | breaks |', '|---|---|---|']
for m in sorted(glob.glob(os.path.join(root, 'seeded/*/meta.json'))):
    j = json.load(open(m))
    rows.append('| %s | %s | %s |' % (os.path.basename(os.path.dirname(m)), j['needs'], j['what_it_breaks']))
out = [head.replace('SEEDS', '\n'.join(rows)).rstrip(), '']
for p in S.PROPS:
    pid = p['id']
    if '_na' in p:
        continue
    m = importlib.import_module('sa.checks.' + pid.lower())
    out += ['### %s %s' % (pid, p['title']), '', '*Guarantee.* ' + p['statement'], '',
            '*Method.* ' + m.TECHNIQUE + '.', '', '*Rule.* ' + m.RULE, '', '*Covers.* ' + p['quantifier']['text'] + '. ' + p['_note'], '',
            '*Why tests do not settle it.* ' + p['why_tests_cant'], '']
out += ['## 6. Not applicable', '']
for p in S.PROPS:
    if '_na' in p:
        out += ['* **%s %s**: %s' % (p['id'], p['title'], p['_na'])]
open(os.path.join(root, 'DESIGN.md'), 'w').write('\n'.join(textwrap.fill(l, 150, break_long_words=False, break_on_hyphens=False)
    if len(l) > 150 and l[0] not in '|#' else l for l in out) + '\n')
