#!/usr/bin/env python3
"""run every property's quick check against its planted bugs, each in a scratch copy of /repo: runseeds.py [ids] [--all-checks]"""
import sys, os, json, subprocess, tempfile, shutil
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [a for a in sys.argv[1:] if not a.startswith('-')]
for s in sorted(os.listdir(f'{HERE}/seeded')):
    if ids and s not in ids: continue
    pid = json.load(open(f'{HERE}/seeded/{s}/meta.json'))['property']
    d = tempfile.mkdtemp(prefix='seedrun_')
    try:
        subprocess.run(f'cp -a /repo/. {d} && git -C {d} apply {HERE}/seeded/{s}/patch.diff', shell=True, check=True)
        r = subprocess.run(['python3-vt', f'{HERE}/check.py', pid, 'quick'], env=dict(os.environ, VERIF_REPO=d, VERIF_SEED='1'), capture_output=True, text=True)
        v = [l for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
        why = ''
        try:
            e = json.load(open(f'{HERE}/evidence/{pid}.json'))
            why = json.dumps(e.get('result', ''))[:200]
        except Exception: pass
        print(s, pid, 'exit', r.returncode, v[:1], flush=True)
    finally:
        shutil.rmtree(d)
