"""writes CONTRACTS.md: every task with its contract, from the task registry (run with python3-vt from /verif)"""
import sys, os, json
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from pyvc import task as T
titles = {}
for l in open(ROOT + '/properties.jsonl'):
    p = json.loads(l)
    titles[p['id']] = p['title']
out = ['# Contracts', '', 'Generated by `tools/gen_contracts.py` from the task registry: each entry is a separate verification task over the current source of /repo.', '']
for pid in sorted(titles):
    ts = T.load(pid) if os.path.exists(f"{ROOT}/pyvc/tasks/{pid.lower()}.py") else []
    if not ts:
        continue
    out += [f'## {pid}: {titles[pid]}', '']
    for t in ts:
        out.append('* **%s**: %s' % (t['name'], t['contract']))
    out.append('')
open(ROOT + '/CONTRACTS.md', 'w').write('\n'.join(out))
