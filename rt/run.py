"""Usage: run.py <PID> --seed N --budget SECONDS [--max N] [--replay FILE]
Prints one JSON object."""
import sys, json, argparse, time, random, traceback, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import common
import props1, props2, props3
REG = {}
for mod in (props1, props2, props3):
    for k, v in mod.REG.items():
        REG.setdefault(k, []).extend(v)


def one(cls, case):
    try:
        cls.check(case)
        return None
    except common.Bad as e:
        return f'{e}'
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [f'{os.path.basename(f.filename)}:{f.lineno}' for f in tb][-3:]
        return f'unexpected {type(e).__name__}: {e} at {" < ".join(reversed(where))}'


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--budget', type=float, default=10)
    ap.add_argument('--max', type=int, default=10 ** 9)
    ap.add_argument('--only', default=None)
    ap.add_argument('--replay')
    ap.add_argument('--stdin', action='store_true', help='replay a JSON list of {checker, case} from stdin')
    a = ap.parse_args()
    out = dict(pid=a.pid, evaluations=0, distinct=0, failures=[], samples=[], rules=[], per={})
    by = {c.__name__: c for c in REG[a.pid]}
    if a.replay or a.stdin:
        items = json.load(open(a.replay)) if a.replay else json.load(sys.stdin)
        items = items if isinstance(items, list) else [items]
        for it in items:
            m = one(by[it['checker']], it['case'])
            out['evaluations'] += 1
            if m:
                out['failures'].append(dict(checker=it['checker'], case=it['case'], message=m))
        print(json.dumps(out))
        return
    t0 = time.time()
    names = [n for n in by if not a.only or n == a.only]
    for i, n in enumerate(names):
        cls = by[n]
        out['rules'].append(f'{n}: {cls.rule}')
        seen = set()
        cnt = 0
        share = getattr(cls, 'share', 1.0)
        tot = sum(getattr(by[x], 'share', 1.0) for x in names)
        end = time.time() + a.budget * share / tot
        fixed = list(cls.fixed()) if hasattr(cls, 'fixed') else []
        k = 0
        while True:
            if k < len(fixed):
                case = fixed[k]
            else:
                if time.time() > end or cnt >= a.max:
                    break
                case = cls.gen(random.Random(f'{a.pid}/{n}/{a.seed}/{k}'))
            k += 1
            cnt += 1
            js = json.dumps(case, sort_keys=True)
            case = json.loads(js)
            seen.add(js)
            m = one(cls, case)
            if len(out['samples']) < 4 and k % 3 == 1:
                out['samples'].append(dict(checker=n, case=case) if len(js) < 1500 else dict(checker=n, case=js[:1500] + '...'))
            if m:
                out['failures'].append(dict(checker=n, case=case, message=m))
                if len(out['failures']) >= 3:
                    break
        out['evaluations'] += cnt
        out['distinct'] += len(seen)
        out['per'][n] = cnt
        if len(out['failures']) >= 3:
            break
    out['wall_s'] = time.time() - t0
    print(json.dumps(out))


main()
