"""Mutation test of the proof tasks: every function the tasks of a property interpret is mutated (operators, constants,
conditions, statements, arguments), one mutant at a time in a scratch copy; reports the mutants no obligation notices.
usage: mutate.py PID [--max N] [--seed S] [--funcs substr] [--rt]"""
import ast, sys, os, json, subprocess, random, shutil, argparse, copy, tempfile
from concurrent.futures import ThreadPoolExecutor
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.Mod: [ast.Mult], ast.BitAnd: [ast.BitOr], ast.BitOr: [ast.BitAnd]}


def sites(fn):
    """yield (description, edit(node-path copy))"""
    nodes = list(ast.walk(fn))
    for i, n in enumerate(nodes):
        if isinstance(n, ast.Compare):
            for j, op in enumerate(n.ops):
                for new in CMP.get(type(op), []):
                    yield i, f'{type(op).__name__}->{new.__name__}', (lambda m, j=j, new=new: m.ops.__setitem__(j, new()))
        if isinstance(n, ast.BinOp):
            for new in BIN.get(type(n.op), []):
                yield i, f'{type(n.op).__name__}->{new.__name__}', (lambda m, new=new: setattr(m, 'op', new()))
        if isinstance(n, ast.AugAssign):
            for new in BIN.get(type(n.op), []):
                yield i, f'aug {type(n.op).__name__}->{new.__name__}', (lambda m, new=new: setattr(m, 'op', new()))
        if isinstance(n, ast.BoolOp):
            new = ast.Or if isinstance(n.op, ast.And) else ast.And
            yield i, 'boolop', (lambda m, new=new: setattr(m, 'op', new()))
        if isinstance(n, ast.Constant) and isinstance(n.value, bool):
            yield i, f'{n.value} flipped', (lambda m: setattr(m, 'value', not m.value))
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)):
            for v in (n.value + 1, -n.value if n.value else None):
                if v is not None:
                    yield i, f'{n.value}->{v}', (lambda m, v=v: setattr(m, 'value', v))
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            yield i, 'negated condition', (lambda m: setattr(m, 'test', ast.UnaryOp(ast.Not(), m.test)))
        if isinstance(n, (ast.FunctionDef, ast.If, ast.For, ast.While, ast.Try, ast.With)):
            for field in ('body', 'orelse'):
                for j, st in enumerate(getattr(n, field, [])):
                    if isinstance(st, (ast.Assign, ast.AugAssign, ast.Expr, ast.Break, ast.Continue)) and not (isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant)):
                        if isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and ast.unparse(st.value.func).startswith(('logging', 'print')):
                            continue
                        yield i, f'dropped: {ast.unparse(st)[:60]}', (lambda m, field=field, j=j: getattr(m, field).__setitem__(j, ast.Pass()))
        if isinstance(n, ast.Call) and len(n.args) >= 2 and isinstance(n.func, (ast.Name, ast.Attribute)):
            yield i, f'swapped arguments of {ast.unparse(n.func)[:40]}', (lambda m: m.args.__setitem__(slice(0, 2), [m.args[1], m.args[0]]))
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
            for a, b in (('_min', '_max'), ('width', 'height'), ('north', 'south'), ('east', 'west'), ('lat_', 'long_')):
                for x, y in ((a, b), (b, a)):
                    if x in n.attr:
                        yield i, f'.{n.attr}->.{n.attr.replace(x, y)}', (lambda m, x=x, y=y: setattr(m, 'attr', m.attr.replace(x, y)))
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Constant) and n.slice.value in (0, 1):
            pass


def find(tree, qual):
    parts = qual.split('.')
    body = tree.body
    for p in parts:
        hit = [n for n in body if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name == p]
        if not hit:
            return None
        n = hit[0]
        body = n.body
    return n


def run(pid, repo):
    env = dict(os.environ, VERIF_REPO=repo)
    p = subprocess.run(['python3-vt', '-m', 'pyvc.task', pid], capture_output=True, text=True, cwd=H, env=env, timeout=1500)
    try:
        return json.loads(p.stdout)
    except Exception:
        return [dict(name='?', status='crash', error=p.stderr[-300:], obligations=[], functions=[])]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--max', type=int, default=80)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--funcs', default='')
    ap.add_argument('--skip', default='')
    ap.add_argument('--rt', action='store_true')
    ap.add_argument('--procs', type=int, default=8)
    a = ap.parse_args()
    base = run(a.pid, '/repo')
    funcs = sorted({f for r in base for f in r['functions']})
    muts = []
    for f in funcs:
        if a.funcs and not any(x in f for x in a.funcs.split(',')):
            continue
        if a.skip and any(x in f for x in a.skip.split(',')):
            continue
        mod, qual = f.split(':')
        path = mod.replace('.', '/') + '.py'
        tree = ast.parse(open(f'/repo/{path}').read())
        fn = find(tree, qual)
        if fn is None:
            continue
        for k, (i, d, e) in enumerate(sites(fn)):
            muts.append((f, path, qual, k, d))
    random.Random(a.seed).shuffle(muts)
    print(f'{len(muts)} mutants of {len(funcs)} functions; running {min(a.max, len(muts))}', flush=True)
    counts = {}

    def one(mu):
        f, path, qual, k, d = mu
        repo = tempfile.mkdtemp(prefix='mut')
        try:
            shutil.copytree('/repo/meshiphi', repo + '/meshiphi', ignore=shutil.ignore_patterns('__pycache__'))
            tree = ast.parse(open(f'/repo/{path}').read())
            fn = find(tree, qual)
            nodes = list(ast.walk(fn))
            i, d, e = list(sites(fn))[k]
            line = ast.unparse(nodes[i])[:110].replace('\n', ' ; ')
            e(nodes[i])
            ast.fix_missing_locations(tree)
            open(f'{repo}/{path}', 'w').write(ast.unparse(tree))
            rs = run(a.pid, repo)
            if any(r['status'] == 'refuted' for r in rs):
                st = 'refuted'
            elif all(r['status'] == 'proved' for r in rs):
                st = 'SURVIVED'
            else:
                st = 'undecided'
            why = '; '.join(sorted({(r.get('error') or '?')[:80] for r in rs if r['status'] not in ('proved', 'refuted')}))
            if st != 'refuted' and a.rt:
                p = subprocess.run(['/opt/venv/bin/python', 'rt/run.py', a.pid, '--seed', '1', '--budget', '15'], capture_output=True, text=True, cwd=H, env=dict(os.environ, VERIF_REPO=repo))
                try:
                    rr = json.loads(p.stdout)
                    why += f' | rt: {"FAILS" if rr["failures"] else "quiet"}'
                except Exception:
                    why += ' | rt crash'
            return st, f'{qual}: {d} @ {line}', why
        finally:
            shutil.rmtree(repo, ignore_errors=True)
    with ThreadPoolExecutor(a.procs) as ex:
        for st, desc, why in ex.map(one, muts[:a.max]):
            counts[st] = counts.get(st, 0) + 1
            if st != 'refuted':
                print(st, desc, '|', why, flush=True)
    print(counts)


main()
