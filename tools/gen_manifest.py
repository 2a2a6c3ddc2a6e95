"""writes MANIFEST.json from properties.jsonl and config.json"""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f'{H}/properties.jsonl')]
cfg = json.load(open(f'{H}/config.json'))
NA = cfg['_not_applicable']
m = dict(version=1, setup_cmd='python3-vt tools/setup.py', checks=[], not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
         notes='Contracts are in pyvc/tasks/, discharged on /repo source by pyvc (AST-level verification condition generator, z3; cvc5 cross-check in the thorough tier). '
               'rt/ is the bounded stand-in and counterexample replay on the real code. See DESIGN.md.')
for p in props:
    i = p['id']
    if i in NA:
        continue
    c = cfg.get(i, {})
    m['checks'].append(dict(property=i, quick_cmd=f'python3-vt check.py {i} quick', thorough_cmd=f'python3-vt check.py {i} thorough', evidence_file=f'evidence/{i}.json',
                            technique='contract-based deductive verification of the real source (pyvc verification conditions, z3); bounded stand-in where stated' if os.path.exists(f'{H}/pyvc/tasks/{i.lower()}.py') else 'bounded stand-in: run-time contract checking of the real functions on generated inputs, not counted as proved',
                            level=c.get('level', 'proof' if os.path.exists(f'{H}/pyvc/tasks/{i.lower()}.py') else 'exploration'), level_note=c.get('note', 'see DESIGN.md')))
json.dump(m, open(f'{H}/MANIFEST.json', 'w'), indent=1)
