"""check.py <property> [quick|thorough]  --  decide one property on /repo's current working tree.

1. The contracts of the property (pyvc/tasks/<id>.py) are discharged on the current source, one process per task.
2. Functions outside the verifier's reach are covered by the bounded stand-in (rt/run.py), which runs the real
   code on generated inputs; it is labelled bounded and never counted as proved.
Exit 0: nothing violated.  Exit 1: VIOLATION line."""
import sys, os, json, subprocess, time, concurrent.futures as cf, hashlib

HERE = os.path.dirname(os.path.abspath(__file__))
VT = sys.executable
REPOPY = '/opt/venv/bin/python'
REPO = os.environ.get('VERIF_REPO', '/repo')
CFG = json.load(open(os.path.join(HERE, 'config.json')))


def env():
    e = dict(os.environ)
    e['PYTHONDONTWRITEBYTECODE'] = '1'
    e['PYTHONHASHSEED'] = '0'
    for k in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
        e[k] = '1'
    return e


def run_task(pid, t, smt):
    cmd = [VT, '-m', 'pyvc.task', pid, '--name', t['name']] + (['--smt'] if smt else [])
    try:
        p = subprocess.run(cmd, cwd=HERE, capture_output=True, text=True, timeout=t['seconds'] + 60, env=env())
        if p.returncode == 0 and p.stdout.strip():
            return json.loads(p.stdout.strip().splitlines()[-1])[0]
        why = f'exit {p.returncode}: {p.stderr[-400:]}'
    except subprocess.TimeoutExpired:
        why = 'time limit'
    except Exception as e:
        why = f'{type(e).__name__}: {e}'
    return dict(pid=pid, name=t['name'], status='undecided', error=why, obligations=[], functions=[], under_contract=[], contracts_used=[],
                trusted=[], inexact=[], stats={}, covers={}, wall_s=0, contract='', assumptions=[], bounded=None)


def run_rt(pid, seed, budget, maxn=None, only=None):
    cmd = [REPOPY, 'rt/run.py', pid, '--seed', str(seed), '--budget', str(budget)]
    if maxn:
        cmd += ['--max', str(maxn)]
    if only:
        cmd += ['--only', only]
    try:
        p = subprocess.run(cmd, cwd=HERE, capture_output=True, text=True, timeout=budget * 2 + 120, env=env())
        if p.returncode == 0:
            return json.loads(p.stdout.strip().splitlines()[-1])
        return dict(error=f'exit {p.returncode}: {p.stderr[-600:]}')
    except Exception as e:
        return dict(error=f'{type(e).__name__}: {str(e)[:300]}')


def run_replay(pid, items):
    try:
        p = subprocess.run([REPOPY, 'rt/run.py', pid, '--stdin'], cwd=HERE, input=json.dumps(items), capture_output=True, text=True, timeout=120, env=env())
        return json.loads(p.stdout.strip().splitlines()[-1])['failures']
    except Exception as e:
        return []


def cvc5_check(rep):
    """re-discharge the obligations z3 proved with cvc5 (thorough tier)"""
    n = ok = 0
    t0 = time.time()
    for o in rep['obligations']:
        if o['status'] == 'discharged' and o.get('smt'):
            n += 1
            try:
                p = subprocess.run(['cvc5', '--lang=smt2', '--tlimit=10000'], input='(set-logic ALL)\n' + o['smt'] + '\n(check-sat)\n', capture_output=True, text=True, timeout=20)
                o['cvc5'] = p.stdout.strip().splitlines()[-1] if p.stdout.strip() else 'none'
            except subprocess.TimeoutExpired:
                o['cvc5'] = 'timeout'
            ok += o['cvc5'] == 'unsat'
            o['smt'] = None
    return n, ok, round(time.time() - t0, 2)


def main():
    t0 = time.time()
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    tier = 'thorough' if tier == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    conf = CFG.get(pid, {})
    budget = conf.get('budget', {}).get(tier, 25 if tier == 'quick' else 240)
    nrt = conf.get('procs', 4 if tier == 'quick' else 6)
    p = subprocess.run([VT, '-m', 'pyvc.task', pid, '--list'], cwd=HERE, capture_output=True, text=True, env=env())
    tasks = json.loads(p.stdout) if p.returncode == 0 and p.stdout.strip() else []
    if p.returncode:
        print(p.stderr[-800:])
    tasks.sort(key=lambda t: -t['seconds'])
    with cf.ThreadPoolExecutor(8) as ex:
        frt = [ex.submit(run_rt, pid, seed * 1000 + i, budget) for i in range(nrt)]
        ft = [ex.submit(run_task, pid, t, tier == 'thorough') for t in tasks]
        reps = [f.result() for f in ft]
        rts = [f.result() for f in frt]
    violations = []          # (kind, replay payload, note)
    for r in rts:
        for f in r.get('failures', []):
            violations.append(('input', dict(property=pid, source='bounded stand-in', **f), True))
            break
    errs = [r['error'] for r in rts if 'error' in r]
    for rep in reps:
        for o in rep['obligations']:
            if o['status'] != 'refuted':
                continue
            conf_f = run_replay(pid, o['cases']) if o.get('cases') else []
            pay = dict(property=pid, obligation=f"{rep['name']}: {o['name']}", contract=rep['contract'], counterexample=o.get('model'),
                       verifier_output=dict(goal=o.get('goal'), backend=o['backend'], exact=o['exact'], inexact=o['inexact']), info=o.get('info'))
            if conf_f:
                violations.append(('input', dict(pay, checker=conf_f[0]['checker'], case=conf_f[0]['case'], message=conf_f[0]['message']), True))
            elif any('uninterpreted' in x for x in o['inexact']):   # the counterexample may interpret a function as no real function behaves
                o['status'] = 'unknown'
            elif rep['error'] is None:      # a failed obligation; 'exact' in the replay says whether the paths involved an abstraction
                violations.append(('obligation', pay, False))
    # several stand-in processes crashing is an error of the check, not of the code
    obls = [o for r in reps for o in r['obligations']]
    disc = [o for o in obls if o['status'] == 'discharged']
    cross = None
    if tier == 'thorough':
        with cf.ThreadPoolExecutor(8) as ex:
            cs = list(ex.map(cvc5_check, reps))
        cross = dict(obligations=sum(c[0] for c in cs), confirmed=sum(c[1] for c in cs), seconds=round(sum(c[2] for c in cs), 2))
    trusted = sorted({f'external model: {x}' for r in reps for x in r['trusted']} | {f'assumed contract (discharged by its own task where listed): {c}' for r in reps for c in r['contracts_used']})
    base = ['pyvc interpreter of Python source (pyvc/*.py)', 'z3 ' + ('(cross-checked with cvc5)' if cross else ''), 'floating point treated as real arithmetic']
    ev = dict(property=pid, tier=tier, seed=seed, level=conf.get('level', 'proof' if tasks else 'exploration'),
              coverage=dict(
                  obligations=len(obls), discharged=len(disc),
                  checker_cmd=f'cd /verif && python3-vt -m pyvc.task {pid} -v',
                  trusted_base=base + trusted,
                  tasks=[dict(name=r['name'], status=r['status'], why=r['error'], contract=r['contract'], obligations=len(r['obligations']),
                              discharged=sum(o['status'] == 'discharged' for o in r['obligations']), by_backend={b: sum(o['backend'] == b and o['status'] == 'discharged' for o in r['obligations']) for b in {o['backend'] for o in r['obligations']}},
                              obligation_names=sorted({o['name'] for o in r['obligations']}), undischarged=sorted({o['name'] for o in r['obligations'] if o['status'] != 'discharged'}),
                              solver_s=round(r['stats'].get('obl_s', 0) + r['stats'].get('feas_s', 0), 3), paths=r['stats'].get('paths', 0), covers=r['covers'], abstractions=r['inexact'], wall_s=r['wall_s']) for r in reps],
                  tasks_proved=sum(r['status'] == 'proved' for r in reps), tasks_total=len(reps),
                  functions_under_contract=sorted({f for r in reps for f in r['under_contract']}),
                  functions_interpreted=sorted({f for r in reps for f in r['functions']}),
                  solver_s=round(sum(r['stats'].get('obl_s', 0) + r['stats'].get('feas_s', 0) for r in reps), 3),
                  cvc5_cross_check=cross,
                  bounded_standin=dict(label='bounded: real code on generated inputs, never counted as proved', evaluations=sum(r.get('evaluations', 0) for r in rts),
                                       distinct=sum(r.get('distinct', 0) for r in rts), per=[r.get('per') for r in rts][:1], rule=rts[0].get('rules') if rts else None, errors=errs),
                  evaluations=sum(r.get('evaluations', 0) for r in rts), distinct_nontrivial=sum(r.get('distinct', 0) for r in rts),
                  rule='; '.join(rts[0].get('rules') or []) if rts else '', samples=(rts[0].get('samples') or [])[:3] if rts else [],
                  undecided=[f"{r['name']}: {r['error'] or 'solver unknown'}" for r in reps if r['status'] != 'proved']),
              assumptions=sorted({a for r in reps for a in r['assumptions']} | set(conf.get('assumptions', []))),
              wall_s=round(time.time() - t0, 2), violations=len(violations))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', f'{pid}.json'), 'w'), indent=1, default=str)
    print(f"{pid} {tier}: {sum(r['status'] == 'proved' for r in reps)}/{len(reps)} tasks proved, {len(disc)}/{len(obls)} obligations discharged, "
          f"bounded stand-in {ev['coverage']['evaluations']} evaluations, {ev['wall_s']} s")
    for u in ev['coverage']['undecided']:
        print('  undecided (not counted as proved):', u[:300])
    known = [k for k in KNOWN if k['property'] == pid and k['kind'] == 'known']
    for k in known:
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    if errs and len(errs) == len(rts) and not any(r['status'] == 'proved' for r in reps):
        print('check error: ' + errs[0])
        sys.exit(3)
    if violations:
        violations.sort(key=lambda v: not v[2])
        v = violations[0]
        d = os.path.join(HERE, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        h = hashlib.sha1(json.dumps(v[1], sort_keys=True, default=str).encode()).hexdigest()[:10]
        path = os.path.join(d, f'{pid}-{h}.json')
        json.dump(v[1], open(path, 'w'), indent=1, default=str)
        print('  ' + str(v[1].get('message') or v[1].get('obligation'))[:500])
        print(f'VIOLATION property={pid} replay={path}' + ('' if v[2] else ' no-failing-input-found'))
        sys.exit(1)
    sys.exit(0)


KNOWN = []
for line in open(os.path.join(HERE, 'known-findings.txt')):
    if line.startswith('known: property='):
        k, what = line[len('known: property='):].strip().split(' ', 1)
        KNOWN.append(dict(property=k, kind='known', what=what))
main()
