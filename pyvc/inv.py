"""Loops with an invariant given by the task.

An invariant object has  havoc(ip): make the abstract state arbitrary;  holds(ip): [(name, formula)];
optionally  measure(ip): opaque snapshot and  progress(ip, before): [(name, formula)] checked at the end of an iteration.
`owns(h, slot)` says which locations belong to the abstract state; everything else a loop changes besides local variables
is refused."""
import ast
import z3
from .core import *
from .interp import Model, NEXT, Frame


def assigned(nodes):
    out = set()
    for st in nodes:
        for n in ast.walk(st):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)
    return out


def havoc_locals(ip, fr, names, new=None):
    from .models import Tqdm
    ctx = ip.ctx
    for n in sorted(names):
        if n not in fr.d:
            continue
        v = fr.d[n]
        if isinstance(v, Tqdm) and new and all(isinstance(x, Tqdm) for x in new.get(n, [None])):
            ctx.write(fr, n, Tqdm(Poison('progress bar of some iteration')))      # only its display methods can be used
            continue
        if isinstance(v, (bool, z3.BoolRef)):
            w = ctx.bool(n)
        elif is_num(v):
            w = ctx.int(n) if z3.is_int(rv(v)) else ctx.real(n)
        else:
            w = Poison('set in an earlier iteration')
        ctx.write(fr, n, w)


def frame_check(ip, j0, born, fr, inv):
    for h, slot, *_ in ip.ctx.journal[j0:]:
        if h is fr or h.birth == -1 or h.birth >= born or isinstance(h, Seg) and isinstance(slot, tuple) or isinstance(h, Frame) and h.birth >= born:
            continue
        if not inv.owns(h, slot):
            if hasattr(inv, 'forbids') and inv.forbids(ip, h, slot):
                continue
            raise Unsupported(f'loop with an invariant changes {h!r}.{slot}')


def arbitrary(ip, inv):
    inv.havoc(ip)
    for _, f in inv.holds(ip):
        ip.ctx.assume(f)


def while_rule(inv):
    def rule(ip, st, fr):
        ctx = ip.ctx
        if not inv.applies(ip, st, fr):
            return None
        ctx.abstracted('loop with an invariant')
        if not ctx.branch(ip.truth(ip.eval(st.test, fr))):
            return ip.block(st.orelse, fr)
        for n, f in inv.holds(ip):
            ctx.oblige(f'{inv.name}.initially: {n}', f)
        # an arbitrary iteration, which may be the last one
        arbitrary(ip, inv)
        havoc_locals(ip, fr, assigned(st.body) | assigned([st.test]))
        ctx.assume(zb(ip.truth(ip.eval(st.test, fr))))
        before = inv.measure(ip)
        born, j0 = next(Heap._n), len(ctx.journal)
        r = ip.block(st.body, fr)
        frame_check(ip, j0, born, fr, inv)
        if r[0] == 'return':
            return r
        if r[0] == 'break':
            return NEXT
        for n, f in inv.holds(ip):
            ctx.oblige(f'{inv.name}.preserved: {n}', f)
        again = zb(ip.truth(ip.eval(st.test, fr)))
        for n, f in inv.progress(ip, before):
            ctx.oblige(f'{inv.name}.if it goes on: {n}', z3.Implies(again, zb(f)))
        # where the loop goes on, the arbitrary iteration covers what follows
        ctx.assume(zb(bnot(again)))
        return ip.block(st.orelse, fr)
    return rule


class InvSeq(Model):
    """a sequence of unknown length whose loops are verified with an invariant; element(ip) gives an arbitrary element"""
    def __init__(self, inv, element):
        super().__init__()
        self.inv, self.element = inv, element

    def run_loop(self, ip, body, fr):
        ctx, inv = ip.ctx, self.inv
        ctx.abstracted('loop with an invariant')
        inv.start(ip)
        for n, f in inv.holds(ip):
            ctx.oblige(f'{inv.name}.initially: {n}', f)

        def once():
            arbitrary(ip, inv)
            e = self.element(ip)
            before = inv.measure(ip)
            born, j0 = next(Heap._n), len(ctx.journal)
            r = body(e)
            frame_check(ip, j0, born, fr, inv)
            return r, before
        # which local variables does an iteration set?
        outs = ctx.explore(lambda: once()[0])
        names = {w[1] for o in outs for w in o.writes.values() if w[0] is fr}
        new = {n: [w[5] for o in outs for w in o.writes.values() if w[0] is fr and w[1] == n] for n in names}

        def iteration():
            havoc_locals(ip, fr, names, new)
            try:
                r, before = once()
            except PyRaise as e:
                ctx.oblige(f'{inv.name}.iteration: no exception', False, info=str(e.exc))
                return
            if r[0] in ('break', 'return'):
                raise Unsupported('early exit of a loop with an invariant')
            inv.step(ip)
            for n, f in inv.progress(ip, before):
                ctx.oblige(f'{inv.name}.iteration: {n}', f)
            for n, f in inv.holds(ip):
                ctx.oblige(f'{inv.name}.preserved: {n}', f)
        ctx.explore(iteration)
        # after the loop
        arbitrary(ip, inv)
        inv.after(ip)
        havoc_locals(ip, fr, names, new)
        return NEXT


class Inv:
    name = 'loop'

    def havoc(self, ip):
        pass

    def holds(self, ip):
        return []

    def measure(self, ip):
        return None

    def progress(self, ip, before):
        return []

    def owns(self, h, slot):
        return False

    def applies(self, ip, st, fr):
        return True

    def start(self, ip):
        pass

    def step(self, ip):
        pass

    def after(self, ip):
        pass
