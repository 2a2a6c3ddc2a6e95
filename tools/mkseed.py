#!/usr/bin/env python3
"""Regenerate /verif/seeded/<id>/ from tools/seeds.py and confirm each one in a scratch
copy of /repo:  mkseed.py [ids...] [--notest]"""
import sys, os, json, subprocess, shutil, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from seeds import SEEDS
OUT = os.path.join(os.path.dirname(HERE), 'seeded')
ids = [a for a in sys.argv[1:] if not a.startswith('-')]
notest = '--notest' in sys.argv
SH = '''#!/bin/bash
# exit 0 when the behaviour is right, nonzero when it is broken
D="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
exec /opt/venv/bin/python "$D/demo.py"
'''
PRE = '''import sys, os, logging, warnings
sys.path.insert(0, os.getcwd())
logging.disable(logging.CRITICAL)
warnings.filterwarnings('ignore')
'''
stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
def run_tests(tree, work):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', PYTHONPATH=tree)
    ps = []
    for name, extra in (('unit_tests', ['-n', '2', '--ignore=test_mesh_validator.py']), ('regression_tests', ['-n', '5', '--dist', 'worksteal'])):
        os.makedirs(f'{work}/{name}', exist_ok=True)
        ps.append(subprocess.Popen(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--rootdir=' + tree, '--timeout=300', '--continue-on-collection-errors', '--tb=short', '-o', 'junit_family=xunit2', f'--junitxml={work}/{name}.xml', *extra, '.'], cwd=f'{tree}/tests/{name}', env=dict(env, TMPDIR=f'{work}/{name}'), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL))
    for p in ps: p.wait()
    subprocess.run(['/usr/bin/python3', '/opt/vp/results.py', f'{work}/out.json', f'junit:{work}/*.xml'], stdout=subprocess.DEVNULL)
    return set(json.load(open(f'{work}/out.json'))['passed'])
for s in SEEDS:
    if ids and s['id'] not in ids: continue
    tree = tempfile.mkdtemp(prefix='seed_'); work = tempfile.mkdtemp(prefix='seedw_')
    try:
        subprocess.run(f'cp -a /repo/. {tree}', shell=True, check=True)
        for f, old, new in s['edits']:
            p = f'{tree}/meshiphi/{f}'
            t = open(p).read()
            import re
            if t.count(old) != 1:      # match up to white space
                ms = list(re.finditer(r'[\s\\\\()]*'.join(re.escape(x) for x in re.findall(r'[^\s\\\\()]+', old)) , t))
                if len(ms) != 1:
                    print(s['id'], 'NO MATCH', len(ms), old); raise SystemExit
                old = ms[0].group(0)
                print('matched:', old)
            open(p, 'w').write(t.replace(old, new))
        diff = subprocess.run(['git', '-C', tree, 'diff'], capture_output=True, text=True).stdout
        d = f'{OUT}/{s["id"]}'; os.makedirs(d, exist_ok=True)
        open(f'{d}/patch.diff', 'w').write(diff)
        open(f'{d}/demo.sh', 'w').write(SH); os.chmod(f'{d}/demo.sh', 0o755)
        open(f'{d}/demo.py', 'w').write(PRE + s['demo'])
        json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(f'{d}/meta.json', 'w'), indent=1)
        a = subprocess.run(['bash', f'{d}/demo.sh'], cwd='/repo', capture_output=True, text=True)
        b = subprocess.run(['bash', f'{d}/demo.sh'], cwd=tree, capture_output=True, text=True)
        msg = f'{s["id"]} clean={a.returncode} patched={b.returncode}'
        if a.returncode: msg += '\n' + a.stderr[-600:]
        if b.returncode == 0: msg += '  NOT BROKEN'
        elif 'AssertionError' not in b.stderr: msg += '  [' + b.stderr.strip().split('\n')[-1] + ']'
        if not notest:
            lost = stable - run_tests(tree, work)
            msg += f' lost={len(lost)} {sorted(lost)[:4]}'
        print(msg, flush=True)
    finally:
        shutil.rmtree(tree, ignore_errors=True); shutil.rmtree(work, ignore_errors=True)
