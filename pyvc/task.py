"""Proof tasks: contracts over functions of /repo, each run in its own process.

A task sets up symbolic inputs satisfying a precondition, runs the real function's source through the
interpreter, and states postconditions as obligations.  `python3-vt -m pyvc.task C20 --name N` runs one
task and prints its report as JSON."""
import sys, json, time, importlib, traceback, argparse, os, resource
import z3
from .core import *
from .interp import Interp

TASKS = {}


def task(pid, name, contract='', seconds=120, qtimeout=20000, assumptions=(), bounded=None):
    """register a proof task; `contract` says in words what is required and ensured"""
    def d(f):
        TASKS.setdefault(pid, []).append(dict(pid=pid, name=name, fn=f, contract=contract, seconds=seconds,
                                              qtimeout=qtimeout, assumptions=list(assumptions), bounded=bounded))
        return f
    return d


class T:
    def __init__(self, spec, keep_smt=False):
        self.spec = spec
        self.ctx = Ctx(f"{spec['pid']}/{spec['name']}", spec['seconds'], spec['qtimeout'])
        self.ctx.keep_smt = keep_smt
        self.replay = None         # fn(model inputs) -> list of {checker, case}
        self.covers = {}
        self.under_contract = set()

    def interp(self, contracts=None, externals=None):
        ip = Interp(self.ctx, contracts, externals)
        ip.task = self
        return ip

    def input(self, name, t):
        self.ctx.inputs[name] = t
        return t

    def run(self, thunk):
        """explore thunk; the end of at least one path must be reachable"""
        ctx = self.ctx

        def go():
            thunk()
            self.cover('end of task')
        ctx.depth = 0
        outs = ctx.explore(go)
        bad = [o for o in outs if o.kind == 'raise']
        if bad:
            raise Unsupported(f'task raised {bad[0].value!r}')

    def cover(self, name):
        if self.covers.get(name) is True:
            return
        s = z3.Solver()
        s.set('timeout', 10000)
        s.add(*self.ctx.solver.assertions())
        s.add(*text_axioms())
        r = s.check()
        self.covers[name] = self.covers.get(name) or (True if r == z3.sat else 'reachability not decided' if r == z3.unknown else False)

    def calls(self, ip, f, args, kw=None, name=None):
        """run the body of f; ('ok', value) or ('raise', exc)"""
        try:
            if isinstance(f, tuple):
                f = ip.find(*f)
            self.under_contract.add(f'{f.module.name}:{f.qual}')
            return 'ok', ip.run_func(f, list(args), kw or {})
        except PyRaise as e:
            return 'raise', e.exc


def run_task(spec, keep_smt=False):
    t0 = time.time()
    t = T(spec, keep_smt)
    rep = dict(pid=spec['pid'], name=spec['name'], contract=spec['contract'], assumptions=spec['assumptions'], bounded=spec['bounded'])
    err = None
    try:
        spec['fn'](t)
    except Unsupported as e:
        err = f'unsupported: {e}'
        if os.environ.get('PYVC_DEBUG'):
            traceback.print_exc()
    except PyRaise as e:
        err = f'raised outside exploration: {e}'
    except Infeasible:
        err = 'infeasible precondition'
    except RecursionError as e:
        err = 'recursion limit'
    except z3.Z3Exception as e:
        err = f'z3: {e}'
        if os.environ.get('PYVC_DEBUG'):
            traceback.print_exc()
    except Exception as e:
        err = f'engine: {type(e).__name__}: {e}'
        if os.environ.get('PYVC_DEBUG'):
            traceback.print_exc()
    ctx = t.ctx
    obls = ctx.obls
    if err is None and not obls:
        err = 'no obligations generated'
    if err is None and not all(t.covers.values()):
        err = f'vacuous: {[k for k, v in t.covers.items() if not v]} unreachable'
    if err is None and not t.covers:
        err = 'vacuous: nothing reached'
    refuted = [o for o in obls if o['status'] == 'refuted']
    unknown = [o for o in obls if o['status'] == 'unknown']
    if refuted:
        st = 'refuted'
    elif err or unknown:
        st = 'undecided'
    else:
        st = 'proved'
    for o in refuted:
        if t.replay and o.get('model') is not None:
            try:
                o['cases'] = t.replay(o['model'])
            except Exception as e:
                o['cases_error'] = f'{type(e).__name__}: {e}'
    rep.update(status=st, error=err, obligations=obls, functions=sorted(ctx.functions), under_contract=sorted(t.under_contract),
               contracts_used=sorted(ctx.contracts_used), trusted=sorted(ctx.trusted), inexact=sorted(set(ctx.inexact)), stats=ctx.stats,
               covers=t.covers, wall_s=round(time.time() - t0, 3))
    return rep


def load(pid):
    m = f'pyvc.tasks.{pid.lower()}'
    try:
        importlib.import_module(m)
    except ModuleNotFoundError as e:
        if e.name != m:
            raise
    return TASKS.get(pid, [])


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--name')
    ap.add_argument('--list', action='store_true')
    ap.add_argument('--smt', action='store_true')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    sys.setrecursionlimit(20000)
    import threading
    threading.stack_size(512 * 1024 * 1024)

    def go():
        ts = load(a.pid)
        if a.list:
            print(json.dumps([dict(name=t['name'], seconds=t['seconds']) for t in ts]))
            return
        out = []
        for s in ts:
            if a.name is None or s['name'] == a.name:
                out.append(run_task(s, a.smt))
        if a.v:
            for r in out:
                print(r['pid'], r['name'], r['status'], r['error'] or '', f"{len(r['obligations'])} obligations {r['wall_s']}s", r['stats'], r['inexact'])
                agg = {}
                for o in r['obligations']:
                    if o['status'] != 'discharged':
                        print('   ', o['status'], o['name'], 'exact' if o['exact'] else 'inexact', o.get('model'), o.get('goal', '')[:1500], o.get('cases', o.get('cases_error')))
        else:
            print(json.dumps(out))
    th = threading.Thread(target=go)
    th.start()
    th.join()


if __name__ == '__main__':
    # the registry must be the one of the package module
    from pyvc import task as _t
    _t.main()
