"""Summaries of loops over symbolic sequences.

A loop over an unbounded stretch is verified by one generic iteration: the body is run for a
fresh index constrained only by membership, with every location the loop modifies replaced by an
unknown (locals and accumulators may not be read before they are set).  If the body's effects are
appends to accumulators, updates of the element itself, or updates at keys derived from the element,
the effect of the whole loop is the same effect for every index, and is recorded as such.  This is the
inductive argument 'after k iterations the state is the initial one plus the effects for indices < k'.
"""
import z3
from .core import *
from .interp import Model, NEXT, Frame, ExcVal, Obj


class DictSeg:
    """entries of a dict written by a summarised loop: for idx in dom: guard -> key: value"""
    def __init__(self, seg):
        self.seg = seg          # Seg whose items are (guard, (key, value))


def subst_term(t, m):
    if not m or not isinstance(t, z3.ExprRef):
        return t
    return norm(z3.substitute(t, *m))


class Inst:
    """one instantiation of a loop body's outcome at another index"""
    def __init__(self, ctx, idx, to, inner, born):
        self.ctx, self.idx, self.to = ctx, idx, to
        self.map = [(idx, rv(to))]
        self.inner = inner
        self.born = born
        self.objs = {}
        self.copied = {}
        for c in inner:
            self.map.append((c, ctx.const(str(c).split('!')[0], c.sort())))

    def val(self, v):
        if isinstance(v, z3.ExprRef):
            return simp(z3.substitute(v, *self.map))
        if isinstance(v, NaNable):
            return NaNable(self.val(v.nan), self.val(v.val))
        if isinstance(v, Atom):
            return Atom(z3.substitute(v.t, *self.map))
        if isinstance(v, Rope):
            return Rope([p if isinstance(p, str) else (p[0], self.val(p[1])) for p in v.parts])
        if isinstance(v, tuple):
            return tuple(self.val(x) for x in v)
        if isinstance(v, Heap):
            if id(v) in self.objs:
                return self.objs[id(v)][1]
            if v.origin is not None and id(v.origin[0]) in self.copied:
                return self.copy(v)
            if v.origin is not None:
                seg, i = v.origin
                j = self.val(i)
                if seg.birth >= self.born:
                    # element of a stretch made by this iteration: the same element of the stretch made by the other
                    its = self.val(seg).items(self.ctx, rv(j))
                    for (g, a), (g2, b) in zip(seg.items(self.ctx, i), its):
                        if a is v or v.path and isinstance(a, Heap) and v in owned(a):
                            b = b if a is v else at_path(b, v.path)
                            self.objs[id(v)] = (v, b)
                            return b
                    raise Unsupported('element of an inner sequence lost in substitution')
                if not (is_z3(i) and is_z3(rv(j)) and rv(j).eq(rv(i))):
                    its = seg.items(self.ctx, rv(j))
                    its0 = seg.memo[rv(i).get_id()][1] if rv(i).get_id() in seg.memo else seg.items(self.ctx, i)
                    for (g, a), (g2, b) in zip(its0, its):
                        if a is v:
                            self.objs[id(v)] = (v, b)
                            return b
                        if v.path and isinstance(a, Heap) and v in owned(a):
                            b = at_path(b, v.path)
                            self.objs[id(v)] = (v, b)
                            return b
                    raise Unsupported('element of a sequence lost in substitution')
                return v
            if v.birth < self.born:
                return v
            if isinstance(v, (PyList, PyDict, Obj)):
                return self.copy(v)
            if isinstance(v, Model):
                if hasattr(v, 'subst'):
                    r = v.subst(self)
                    self.objs[id(v)] = (v, r)
                    return r
                raise Unsupported(f'{type(v).__name__} created inside a summarised loop')
            if isinstance(v, Frame):
                return v
        if hasattr(v, 'subst_ent'):
            return v.subst_ent(self)
        if isinstance(v, Seg):
            inst = self

            def fn(ctx, i):
                if v.d['ov'] or v.d['dirty']:
                    raise Unsupported('updated elements of an inner sequence')
                inst.copied[id(v)] = v
                try:
                    return [(inst.val(g), inst.val(x)) for g, x in v.items(ctx, i)]
                finally:
                    del inst.copied[id(v)]
            s = Seg(subst_dom(v.dom, self), fn, v.name)
            s.uniform = v.uniform
            self.objs[id(v)] = (v, s)
            return s
        return v

    def copy(self, v):
        if isinstance(v, PyList):
            r = PyList()
            self.objs[id(v)] = (v, r)
            r.d['segs'] = tuple(self.val(x) for x in v.segs)
        elif isinstance(v, PyDict):
            r = PyDict()
            self.objs[id(v)] = (v, r)
            r.d['ents'] = tuple(self.val(x) for x in v.ents)
        elif isinstance(v, Obj):
            r = Obj(v.cls)
            self.objs[id(v)] = (v, r)
            for k, x in v.d.items():
                r.d[k] = self.val(x)
        else:
            raise Unsupported('element of an inner sequence')
        return r


def owned(a):
    """objects reachable from an element through attributes"""
    out, todo = [a], [a]
    while todo:
        x = todo.pop()
        if isinstance(x, Obj):
            for y in x.d.values():
                if isinstance(y, Heap) and y not in out:
                    out.append(y)
                    todo.append(y)
    return out


def subst_dom(d, inst):
    if isinstance(d, RangeDom):
        return RangeDom(rv(inst.val(d.n)))
    if isinstance(d, BagDom):
        return BagDom(lambda x: inst.val(d.pred(x)), d.name)
    raise Unsupported('domain')


def freeze(v, writes, seen=None):
    """value with the state its fresh objects had at the end of the outcome"""
    return v


def snapshot_objects(ctx, o, born):
    """objects created on this path whose slots were journaled and undone: restore their final state
    permanently (they belong to this outcome only)"""
    for h, slot, had, old, has, new in o.writes.values():
        if h.birth >= born:
            if has:
                h.d[slot] = new
            else:
                h.d.pop(slot, None)


def generic_loop(ip, seg, body, fr, plain=()):
    ctx = ip.ctx
    if isinstance(seg.dom, RangeDom) and ctx.must(simp(rv(seg.dom.n) == 0)):
        return NEXT

    def run(idx):
        root = root_seg(seg)
        for r in root:
            r.generic.add(idx.get_id())

        def thunk():
            ctx.assume(seg.dom.member(idx))
            for g, v in seg.items(ctx, idx):
                if isinstance(v, Seg):
                    if not ctx.branch(g):
                        continue
                    r = generic_loop(ip, v, body, fr)
                else:
                    if not ctx.branch(g):
                        continue
                    r = body(v)
                if r[0] in ('break', 'return'):
                    return r
            return NEXT
        outs = ctx.explore(thunk)
        for o in outs:
            o.dom = seg.dom
        return outs

    # pass 1: which locations does an iteration modify?
    idx = seg.dom.fresh(ctx)
    born = next(Heap._n)
    j0 = len(ctx.journal)
    outs = run(idx)
    if not outs:
        return NEXT
    mod = modset(outs, born, seg, idx)
    # pass 2: those locations are unknown at the start of an iteration
    prevs = {}
    idx = seg.dom.fresh(ctx)
    # variables that every iteration changes by the same number have a known value (checked after pass 2)
    counters = {}
    if isinstance(seg.dom, RangeDom) and seg.dom.ordered:
        for k, (h, slot) in mod.items():
            d = step_of(outs, k, h.d.get(slot)) if isinstance(h, Frame) and slot not in plain else None
            if d is not None:
                counters[k] = (h.d[slot], d)
    for k, (h, slot) in mod.items():
        if k in counters:
            init, d = counters[k]
            ctx.write(h, slot, simp(rv(init) + d * idx))
        elif isinstance(h, Frame):
            init = h.d.get(slot)
            news = [o.writes[k][5] for o in outs if k in o.writes and o.writes[k][4]]
            if slot in h.d and (is_num(init) or isinstance(init, (bool, z3.BoolRef))) and news and all(is_num(v) or isinstance(v, (bool, z3.BoolRef)) for v in news):
                isb = [isinstance(v, (bool, z3.BoolRef)) for v in news + [init]]
                if all(isb) or not any(isb):
                    srt = z3.BoolSort() if all(isb) else z3.IntSort() if all(z3.is_int(rv(v)) for v in news + [init]) else z3.RealSort()
                    prevs[k] = (init, ctx.const('prev_' + str(slot), srt))
            ctx.write(h, slot, prevs[k][1] if k in prevs else Poison('set in an earlier iteration of a summarised loop'))
        elif isinstance(h, PyList) and slot == 'segs' and k[0] != 'el':
            ctx.write(h, slot, h.d['segs'] + (PartialSeg(ctx, h),))
        elif isinstance(h, PyDict) and slot == 'ents' and k[0] != 'el':
            ctx.write(h, slot, h.d['ents'] + (PartialDict(),))
        elif k[0] == 'el':
            if h.path is None:
                raise Unsupported('loop modifies a part of an element')

            def stale(ctx, i, its, slot=slot, path=h.path):
                if i.get_id() not in seg.generic:
                    for g, v in its:
                        if isinstance(v, Heap):
                            v = at_path(v, path)
                            if isinstance(v, PyDict):
                                ctx.write(v, slot, (PartialDict(),))
                            elif isinstance(v, PyList):
                                ctx.write(v, slot, (PartialSeg(ctx, v),))
                            else:
                                ctx.write(v, slot, Poison('attribute of another element, modified by the loop'))
            src = h.origin[0]
            ctx.write(src, 'ov', src.d['ov'] + (stale,))
            for kk, (i, its, asm) in list(src.memo.items()):
                if ('seen', src.birth, kk) in ctx.fh.d:
                    src.items(ctx, i)
        elif isinstance(h, Model) and hasattr(h, 'havoc_slot'):
            h.havoc_slot(ip, slot, idx, seg)
        else:
            ctx.write(h, slot, Poison('attribute modified by a summarised loop'))
    born = next(Heap._n)
    for k, (h, slot) in mod.items():
        if isinstance(h, PyList) and slot == 'segs' and k[0] != 'el':
            h.d['segs'][-1].idx = idx
    # accumulators that grow by a fixed number per iteration have a known length
    for (k, (h, slot)) in mod.items():
        if isinstance(h, PyList) and slot == 'segs' and k[0] != 'el' and isinstance(seg.dom, RangeDom):
            ds = set()
            for o in outs:
                w = o.writes.get(k)
                if w is None:
                    ds.add(0)
                else:
                    old, new = w[3], w[5]
                    if new[:len(old)] == old and not any(isinstance(x, Seg) for x in new[len(old):]):
                        ds.add(len(new) - len(old))
                    else:
                        ds.add(None)
            if len(ds) == 1 and None not in ds:
                h.d['segs'][-1].length = simp(idx * ds.pop())
    ctx.assume_later = None
    outs = run(idx)
    mod2 = modset(outs, born, seg, idx)
    if not set(mod2) <= set(mod):
        raise Unsupported(f'loop modifies different locations in different iterations: {[mod2[k] for k in mod2 if k not in mod]}')
    exits = [o for o in outs if o.kind == 'raise' or o.value[0] in ('break', 'return')]
    normal = [o for o in outs if not (o.kind == 'raise' or o.value[0] in ('break', 'return'))]
    odd = {mod[k][1] for k, (init, d) in counters.items()
           if not all(k in o.writes and o.writes[k][4] and is_num(o.writes[k][5]) and z3.is_true(z3.simplify(rv(o.writes[k][5]) == rv(init) + d * (idx + 1))) for o in normal)}
    if odd:         # not counters after all
        ctx.undo_to(j0)
        return generic_loop(ip, seg, body, fr, tuple(plain) + tuple(odd))
    ctx.undo_to(j0)
    for o in outs:
        snapshot_objects(ctx, o, born)
    reds = {}
    used = [k for k in prevs if any(outcome_mentions(o, prevs[k][1]) for o in outs)]
    if used:
        if exits or len(used) > 1 and any(outcome_mentions(o, prevs[k][1], but=k) for o in outs for k in used):
            raise Unsupported('loop with an early exit depends on a variable set in earlier iterations')
        for k in used:
            if any(q != k and outcome_mentions(o, prevs[k][1], but=k) for o in normal for q in mod if not isinstance(mod[q][0], Frame) or q in used):
                raise Unsupported('effects of a loop depend on a variable set in earlier iterations')
            reds[k] = reduction(ip, seg, idx, born, normal, k, *prevs[k])
    r = summarise(ip, seg, idx, born, normal, exits, mod, counters)
    for k, v in reds.items():
        ctx.write(*mod[k], v)
    return r


def step_of(outs, k, init):
    """the number by which every iteration seems to change a local variable"""
    if not is_num(init):
        return None
    ds = []
    for o in outs:
        if o.kind == 'raise' or o.value[0] in ('break', 'return'):
            continue
        w = o.writes.get(k)
        if w is None or not w[4] or not is_num(w[5]):
            return None
        a, b = rv(w[5]), rv(init)
        if z3.is_int(a) != z3.is_int(b):
            return None
        d = z3.simplify(a - b)
        if not (z3.is_int_value(d) or z3.is_rational_value(d)):
            return None
        ds.append(d)
    return ds[0] if ds and all(d.eq(ds[0]) for d in ds) else None


def value_mentions(v, c, seen=None):
    seen = set() if seen is None else seen
    if isinstance(v, z3.ExprRef):
        return mentions(v, c)
    if isinstance(v, NaNable):
        return value_mentions(v.nan, c) or value_mentions(v.val, c)
    if isinstance(v, Atom):
        return mentions(v.t, c)
    if isinstance(v, Rope):
        return any(not isinstance(p, str) and value_mentions(p[1], c) for p in v.parts)
    if isinstance(v, (tuple, list)):
        return any(value_mentions(x, c, seen) for x in v)
    if isinstance(v, Heap):
        if id(v) in seen:
            return False
        seen.add(id(v))
        if isinstance(v, (Obj, PyList, PyDict)):
            return any(value_mentions(x, c, seen) for x in v.d.values())
        return True if isinstance(v, Seg) or not hasattr(v, 't') else mentions(v.t, c)
    return False


def outcome_mentions(o, c, but=None):
    """does the outcome (its condition, or what it writes elsewhere than at `but`) depend on c"""
    if but is None and any(value_mentions(w[5], c) for w in o.writes.values() if not isinstance(w[0], Frame) and w[0].birth != -1):
        return True
    if value_mentions(o.pc, c):
        return True
    return any(value_mentions(w[5], c) for k, w in o.writes.items() if k != but and w[0].birth != -1 and w[0].birth >= 0)


def reduction(ip, seg, idx, born, normal, k, init, prev):
    """value after the loop of a variable updated from its own earlier value: maximum, minimum, counter or flag"""
    ctx = ip.ctx
    cache = {}
    outs = [(o, o.writes[k][5] if k in o.writes else prev) for o in normal]
    mem = lambda t: zb(seg.dom.member(t))

    def at(t, f):
        seg.items(ctx, t)
        return f(lambda o: inst_at(ctx, o, idx, t, born, cache)[0])
    holds = lambda o, g: not ctx.feasible(z3.And(mem(idx), zb(o.pc), *[zb(x) for x in o.assumes], z3.Not(zb(g))))
    if z3.is_bool(prev):
        v = [(o.pc, zb(x)) for o, x in outs]
        tot = ctx._ite(v)
        f1, f0 = z3.simplify(z3.substitute(tot, (prev, z3.BoolVal(True)))), z3.simplify(z3.substitute(tot, (prev, z3.BoolVal(False))))
        if any(c for o, _ in outs for c in o.fresh if not c.eq(idx)):
            raise Unsupported('flag computed with unknowns')
        sub = lambda f, t: z3.substitute(f, (idx, rv(t)))
        s2 = Seg(seg.dom, lambda ctx, t: (seg.items(ctx, t), [(True, norm(rv(t)))])[1], 'flag')
        if not ctx.feasible(z3.And(mem(idx), z3.Not(f1))):
            return bor(init, seg_exists(ip, s2, lambda t: simp(sub(f0, t))))
        if not ctx.feasible(z3.And(mem(idx), f0)):
            return band(init, bnot(seg_exists(ip, s2, lambda t: simp(z3.Not(sub(f1, t))))))
        raise Unsupported('flag of an unknown kind')
    # counters
    ds = []
    for o, v in outs:
        d = simp(rv(v) - prev)
        ds.append(d if not is_z3(d) else None)
    if all(d is not None for d in ds) and not any(mentions(o.pc, prev) for o, _ in outs if is_z3(o.pc)):
        if not isinstance(seg.dom, RangeDom) or seg.uniform is None:
            raise Unsupported('counter over an unordered collection')
        if len(set(ds)) == 1:
            return simp(rv(init) + rv(ds[0]) * seg.dom.n * (seg.uniform or 1))
        if set(ds) == {0, 1} and seg.uniform == 1:
            s2 = Seg(seg.dom, lambda ctx, t: (seg.items(ctx, t), [(True, norm(rv(t)))])[1], 'count')
            s2.uniform = 1
            hit = lambda t: bor(*[inst_at(ctx, o, idx, rv(t), born, cache)[2] for (o, _), d in zip(outs, ds) if d == 1])
            return simp(rv(init) + seg_count(ip, s2, hit, None))
        raise Unsupported('counter of an unknown kind')
    # extremes
    es = [(o, rv(v)) for o, v in outs if not rv(v).eq(prev)]
    if not es or any(mentions(e, prev) for _, e in es):
        e2 = extreme_in_value(outs, prev)
        if e2 is None:
            raise Unsupported('variable carried through a loop')
        es = e2
    o1, e = es[0]
    if any(not (z3.simplify(x - e)).eq(rv(0)) and not z3.simplify(x == e).eq(z3.BoolVal(True)) for _, x in es):
        raise Unsupported('variable carried through a loop with several sources')
    real = z3.is_real(prev)
    for name in ('max', 'min'):
        best = z3.If(e > prev, e, prev) if name == 'max' else z3.If(e < prev, e, prev)
        if all(holds(o, rv(v) == best) for o, v in outs):
            r = ctx.real(name) if real else ctx.int(name)
            le = (lambda a, b: a <= b) if name == 'max' else (lambda a, b: a >= b)
            val = lambda t: at(t, lambda ins: rv(ins(o1).val(e)))
            w = seg.dom.fresh(ctx)
            ini = as_real(init) if real else rv(init)
            ctx.assume(le(ini, r))
            ctx.assume(z3.Or(r == ini, z3.And(mem(w), r == val(w))))
            register(ip, w)
            add_fact(ip, seg.dom, lambda t: z3.Implies(mem(t), le(val(t), r)))
            return r
    raise Unsupported('variable carried through a loop')


def extreme_in_value(outs, prev):
    """max(prev, e) evaluated inside an expression: a single If whose branches are prev and e"""
    if len(outs) == 1:
        v = rv(outs[0][1])
        if z3.is_app_of(v, z3.Z3_OP_ITE):
            a, b = v.arg(1), v.arg(2)
            e = b if a.eq(prev) else a if b.eq(prev) else None
            if e is not None and not mentions(e, prev):
                return [(outs[0][0], e)]
    return None


def root_seg(seg):
    """the stretches whose elements seg hands out at the same index (enumerate, views, zip)"""
    out, todo = [], [seg]
    while todo:
        x = todo.pop()
        if x not in out:
            out.append(x)
            todo += list(getattr(x, 'srcs', ()))
    return out


class PartialSeg(Seg):
    """what earlier iterations appended; only its length may be looked at"""
    def __init__(self, ctx, l):
        super().__init__(RangeDom(z3.IntVal(0)), self._no, 'earlier iterations')
        self.idx = None
        self.uniform = None
        self.length = None

    def _no(self, ctx, i):
        raise Unsupported('reads an accumulator of a summarised loop')


class PartialDict:
    def find(self, ip, k):
        raise Unsupported('reads a dict filled by a summarised loop')

    def has(self, ip, k):
        raise Unsupported('reads a dict filled by a summarised loop')

    def viewseg(self, ip, kind):
        raise Unsupported('iterates a dict filled by a summarised loop')


def modset(outs, born, seg, idx):
    mod = {}
    for o in outs:
        for k, w in o.writes.items():
            h, slot = w[0], w[1]
            if h.birth == -1 or (isinstance(h, Seg) and (isinstance(slot, tuple) or slot == 'dirty')):
                continue            # bookkeeping
            if w.kinds == {True}:
                continue            # an update made by an earlier loop
            if True in w.kinds and h.origin is not None and (isinstance(h, (PyList, PyDict)) or not rv(h.origin[1]).eq(idx)):
                raise Unsupported('loop changes an element of another loop')
            if h.birth < born or (h.origin is not None):
                own = h.origin is not None and rv(h.origin[1]).eq(idx)
                if h.origin is not None and not own and mentions(h.origin[1], idx):
                    raise Unsupported('loop updates another element than its own')
                mod[k if not own else ('el', id(h.origin[0]), h.path, slot)] = (h, slot)
    for k in mod:
        if k[0] == 'el' and (k[2] is None or any(q[0] == 'el' and q[1] == k[1] and k[2] and q[2] is not None and k[2][:len(q[2]) + 1] == q[2] + (q[3],) for q in mod)):
            raise Unsupported('loop modifies and replaces a part of an element')
    return mod


def mentions(t, c):
    t = rv(t)
    return t.eq(c) or any(mentions(x, c) for x in t.children())


def inst_at(ctx, o, idx, to, born, cache, quiet=False):
    k = (id(o), rv(to).get_id())
    if k not in cache:
        inner = [c for c in o.fresh if not c.eq(idx)]
        ins = Inst(ctx, idx, to, inner, born)
        a = None
        pc = ins.val(o.pc)
        if ctx.hooks:
            ctx.demand([pc])
        if o.assumes:
            # what the iteration assumed holds of members only
            a = z3.Implies(zb(band(pc, o.dom.member(rv(to)))), zb(ins.val(simp(z3.And(*[zb(x) for x in o.assumes])))))
        cache[k] = (ins, rv(to), pc, a, o)
    if cache[k][3] is not None and not quiet:
        ctx.once(('inst', id(o), rv(to).get_id(), born), cache[k][3])
    return cache[k]


def summarise(ip, seg, idx, born, normal, exits, mod, counters={}):
    if exits:
        return summarise_search(ip, seg, idx, born, normal, exits, mod, counters)
    apply_effects(ip, seg, idx, born, normal, mod, seg.dom, counters)
    return NEXT


def apply_effects(ip, seg, idx, born, normal, mod, dom, counters={}):
    ctx = ip.ctx
    cache = {}
    for k, (h, slot) in mod.items():
        if k in counters:
            init, d = counters[k]
            ctx.write(h, slot, simp(rv(init) + d * rv(dom.n)))
        elif isinstance(h, Frame):
            if any(k in o.writes for o in normal):
                ctx.write(h, slot, Poison('variable assigned in a summarised loop'))
        elif isinstance(h, PyList) and slot == 'segs' and k[0] != 'el':
            adds = []
            for o in normal:
                w = o.writes.get(k)
                if w is None:
                    adds.append((o, ()))
                    continue
                old, new = w[3], w[5]
                if new[:len(old)] != old:
                    raise Unsupported('loop rewrites a list')
                adds.append((o, new[len(old):]))
            base = h.d['segs']
            uniform = len({len(a) for _, a in adds}) == 1 and not any(isinstance(x, Seg) for _, a in adds for x in a)
            one = len(adds) == 1

            def fn(ctx, i, adds=adds, uniform=uniform, one=one):
                if one:
                    o, a = adds[0]
                    ins, _, g, *_x = inst_at(ctx, o, idx, i, born, cache)
                    return [(True, ins.val(x)) for x in a]
                insts = [(inst_at(ctx, o, idx, i, born, cache), a) for o, a in adds]
                if uniform:
                    try:
                        n = len(adds[0][1])
                        return [(True, ctx.merge_vals([(it[2], it[0].val(a[q])) for it, a in insts])) for q in range(n)]
                    except CannotMerge:
                        if n != 1:
                            raise Unsupported('elements of different shape')
                return [(it[2], it[0].val(x)) for it, a in insts for x in a]
            s = Seg(dom, fn, f'loop over {seg.name}')
            if uniform and len(adds[0][1]) >= 1 and seg_uniform_src(seg):
                s.uniform = len(adds[0][1])
            if any(len(a) for _, a in adds):
                ctx.write(h, slot, base + (s,))
        elif isinstance(h, PyDict) and slot == 'ents' and k[0] != 'el':
            adds = []
            for o in normal:
                w = o.writes.get(k)
                if w is None:
                    continue
                old, new = w[3], w[5]
                if new[:len(old)] != old:
                    raise Unsupported('loop overwrites dict entries')
                adds.append((o, new[len(old):]))
            base = h.d['ents']

            def fnd(ctx, i, adds=adds):
                out = []
                for o, a in adds:
                    ins, _, g, *_x = inst_at(ctx, o, idx, i, born, cache)
                    for kv in a:
                        out.append((g if len(normal) > 1 else True, ins.val(kv)))
                return out
            s = Seg(dom, fnd, f'dict loop over {seg.name}')
            if len(normal) == 1 and len(adds[0][1]) == 1:
                s.uniform = 1
            ctx.write(h, slot, base + (DictEntries(ip, s),))
        elif k[0] == 'el':
            # update of the element itself
            src = h.origin[0]
            upd = []
            for o in normal:
                hit = [w for w in o.writes.values() if w[0].origin is not None and w[0].origin[0] is src and rv(w[0].origin[1]).eq(idx) and w[0].path == h.path and w[1] == slot]
                if len(hit) > 1:
                    raise Unsupported('loop updates several elements at once')
                upd.append((o, hit[0] if hit else None))
            oidx = [w for _, w in upd if w is not None][0][0].origin[1]
            if not rv(oidx).eq(idx):
                raise Unsupported('loop updates another element than its own')

            def ov(ctx, i, its, upd=upd, slot=slot, path=h.path):
                for g, v in its:
                    if not isinstance(v, Heap):
                        continue
                    v = at_path(v, path)
                    vals = []
                    for o, w in upd:
                        ins, _, gg, *_x = inst_at(ctx, o, idx, i, born, cache)
                        if w is None:
                            vals.append((gg, v.d.get(slot, Poison('unset'))))
                        elif isinstance(v, (PyDict, PyList)):
                            old, new = w[3], w[5]
                            if new[:len(old)] != old:
                                raise Unsupported('loop rewrites a container of an element')
                            vals.append((gg, v.d[slot] + tuple(ins.val(x) for x in new[len(old):])))
                        else:
                            vals.append((gg, ins.val(w[5])))
                    try:
                        ctx.write(v, slot, vals[0][1] if len(vals) == 1 else ctx.merge_vals(vals))
                    except CannotMerge:
                        ctx.write(v, slot, Alternatives(vals) if isinstance(v, Obj) else Poison('element attribute of several shapes'))
            # elements already looked at must be brought up to date at their next access
            ctx.write(src, 'ov', src.d['ov'] + (ov,))
            for kk, (i, its, asm) in list(src.memo.items()):
                if ('seen', src.birth, kk) in ctx.fh.d and not i.eq(idx):
                    src.items(ctx, i)
        elif isinstance(h, Model) and hasattr(h, 'loop_effect'):
            h.loop_effect(ip, slot, seg, idx, born, normal, k, lambda o, i, quiet=False: inst_at(ctx, o, idx, i, born, cache, quiet), dom)
        else:
            ctx.write(h, slot, Poison('attribute modified by a summarised loop'))


def seg_uniform_src(seg):
    return seg.uniform == 1


class DictEntries:
    """entries written by a summarised loop into a dict"""
    def __init__(self, ip, seg):
        self.seg = seg

    def find(self, ip, k):
        ctx = ip.ctx
        w = self.witness(ip, k)
        if w is None:
            return None
        return w

    def witness(self, ip, k):
        """entry with key k: some index i with key(i) == k (the last one wins; keys must be distinct)"""
        ctx = ip.ctx
        i = ctx.const('w', z3.IntSort())
        b = ctx.bool('has')
        its = self.seg.items(ctx, i)
        if len(its) != 1:
            raise Unsupported('lookup in a dict filled by a loop with several entries per step')
        g, (kk, v) = its[0]
        hit = band(self.seg.dom.member(i), g, ip.models.truth(ip, ip.models.key_eq(ip, kk, k)))
        ctx.assume(z3.Implies(b, zb(hit)))
        register(ip, i)
        add_fact(ip, self.seg.dom, lambda j: z3.Implies(z3.Not(b), z3.Not(zb(band(self.seg.dom.member(j), self.seg.items(ctx, j)[0][0], ip.models.truth(ip, ip.models.key_eq(ip, self.seg.items(ctx, j)[0][1][0], k)))))))
        if ctx.branch(b):
            return (kk, v)
        return None

    def spec_lookup(self, ip, t):
        """(has, value term) for a Text term, without forking"""
        from .spec import text_term, Val, lit_val
        ctx = ip.ctx
        i, b = self.seg.dom.fresh(ctx), ctx.bool('has')
        one = lambda j: self.seg.items(ctx, j)
        its = one(i)
        if len(its) != 1 or not self.injective(ip):
            raise Unsupported('lookup in a dict filled by a complicated loop')
        hit = lambda j: zb(band(self.seg.dom.member(j), one(j)[0][0], text_term(one(j)[0][1][0]) == t))
        ctx.assume(z3.Implies(b, hit(i)))
        register(ip, i)
        add_fact(ip, self.seg.dom, lambda j: z3.Implies(z3.Not(b), z3.Not(hit(j))))
        v = its[0][1][1]
        return b, v.t if isinstance(v, Val) else lit_val(ip, v)

    def has(self, ip, k):
        ctx = ip.ctx
        return seg_exists(ip, self.seg, lambda kv: ip.models.truth(ip, ip.models.key_eq(ip, kv[0], k)))

    def subst_ent(self, ins):
        return DictEntries(None, ins.val(self.seg))

    def injective(self, ip):
        """different indices have different keys"""
        ctx = ip.ctx
        i, j = self.seg.dom.fresh(ctx), self.seg.dom.fresh(ctx)
        a, b = self.seg.items(ctx, i), self.seg.items(ctx, j)
        if len(a) != 1:
            return False
        return ctx.must(z3.Implies(z3.And(zb(self.seg.dom.member(i)), zb(self.seg.dom.member(j)), zb(a[0][0]), zb(b[0][0]), i != j),
                                   zb(bnot(ip.truth(ip.models.key_eq(ip, a[0][1][0], b[0][1][0]))))))

    def viewseg(self, ip, kind):
        s = self.seg
        if not self.injective(ip):
            raise Unsupported('iterates a dict whose keys may coincide')
        f = {'keys': lambda kv: kv[0], 'values': lambda kv: kv[1], 'items': lambda kv: kv}[kind]
        n = Seg(s.dom, lambda ctx, i: [(g, f(kv)) for g, kv in s.items(ctx, i)], s.name + '.' + kind)
        n.uniform = s.uniform
        return n

    def map(self, ip, fk, fv):
        s = self.seg
        n = Seg(s.dom, lambda ctx, i: [(g, (fk(kv[0]), fv(kv[1]))) for g, kv in s.items(ctx, i)], s.name + '.map')
        n.uniform = s.uniform
        return DictEntries(ip, n)


# ------------------------------------------------------------------ witnesses and universal facts
def register(ip, idx):
    """an index term universal facts should be applied to"""
    ctx = ip.ctx
    idx = rv(idx)
    if not any(t.eq(idx) for t in ctx.terms):
        ctx.write(ctx.fh, 'terms', ctx.terms + (idx,))
        for f, g in list(ctx.facts):
            apply_fact(ctx, f, g, idx)


def apply_fact(ctx, f, g, t):
    """assume f(t) under the guard g; facts that f adds meanwhile get the guard too"""
    old = getattr(ctx, 'fact_guard', True)
    ctx.fact_guard = band(old, g)
    try:
        r = f(t)
        if r is not None:
            ctx.assume(z3.Implies(zb(g), zb(r)) if g is not True else r)
    finally:
        ctx.fact_guard = old


def add_fact(ip, dom, f):
    """f(t) holds for every index t"""
    ctx = ip.ctx
    g = getattr(ctx, 'fact_guard', True)
    ctx.write(ctx.fh, 'facts', ctx.facts + ((f, g),))
    for t in list(ctx.terms):
        apply_fact(ctx, f, g, t)


def forall_items(ip, seg, cond, concl):
    """for every item v of seg: cond implies concl(v)"""
    ctx = ip.ctx

    def fact(t):
        rs = []
        for g, v in seg.items(ctx, t):
            c = band(cond, seg.dom.member(t), g)
            if c is False:
                continue
            if isinstance(v, Seg):
                forall_items(ip, v, c, concl)
            else:
                rs.append(z3.Implies(zb(c), zb(concl(v))))
        return z3.And(*rs) if rs else None
    add_fact(ip, seg.dom, fact)


def witness(ip, seg, pred):
    """condition saying that some (fresh) item of seg satisfies pred"""
    ctx = ip.ctx
    if isinstance(seg, PartialSeg):
        seg._no(ctx, None)
    w = seg.dom.fresh(ctx)
    rs = []
    for g, v in seg.items(ctx, w):
        rs.append(band(g, witness(ip, v, pred) if isinstance(v, Seg) else pred(v)))
    register(ip, w)
    return band(seg.dom.member(w), bor(*rs))


def seg_exists(ip, seg, pred):
    """bool b  <->  some item of seg satisfies pred: b gives a witness, not b a universal fact"""
    ctx = ip.ctx
    if isinstance(seg, PartialSeg):
        seg._no(ctx, None)
    b = ctx.bool('ex')
    ctx.assume(z3.Implies(b, zb(witness(ip, seg, pred))))
    forall_items(ip, seg, z3.Not(b), lambda v: bnot(pred(v)))
    return b


def seg_count(ip, seg, pred, key, boolean=False):
    """number of items satisfying pred; only what the count's zero/full values say is known"""
    ctx = ip.ctx
    n = ctx.int('count')
    ex = seg_exists(ip, seg, pred)
    tot = ip.models.seg_len(ip, seg)
    nex = seg_exists(ip, seg, lambda v: bnot(pred(v)))
    ctx.abstracted('number of items satisfying a condition: only none, some and all are told apart')
    ctx.assume(z3.And(n >= 0, n <= rv(tot), (n > 0) == zb(ex), (n < rv(tot)) == zb(nex)))
    return n


def seg_where(ip, l):
    """np.where(list of bools)[0]"""
    segs = l.segs
    ctx = ip.ctx
    if l.concrete:
        out = PyList()
        for i, s in enumerate(segs):
            if ctx.branch(ip.truth(s)):
                ip.list_append(out, i)
        return out
    if len(segs) == 1 and segs[0].uniform == 1 and isinstance(segs[0].dom, RangeDom):
        s = segs[0]
        return PyList([WhereSeg(ip, s)])
    raise Unsupported('np.where over a mixed list')


class WhereSeg(Seg):
    """positions of the true items of s, ascending"""
    def __init__(self, ip, s):
        super().__init__(s.dom, lambda ctx, i: [(ip.truth(ip.models.only(s.items(ctx, i))), norm(i))], 'where')
        ctx = ip.ctx
        # exact description of how many: none, one, or at least two (with witnesses)
        n = ctx.int('nwhere')
        w1, w2 = s.dom.fresh(ctx), s.dom.fresh(ctx)
        t = lambda i: zb(band(s.dom.member(i), ip.truth(ip.models.only(s.items(ctx, i)))))
        ctx.assume(n >= 0)
        ctx.assume(z3.Implies(n >= 1, t(w1)))
        ctx.assume(z3.Implies(n >= 2, z3.And(t(w2), w1 < w2)))
        register(ip, w1)
        register(ip, w2)
        add_fact(ip, s.dom, lambda j: z3.Implies(n == 0, z3.Not(t(j))))
        add_fact(ip, s.dom, lambda j: z3.Implies(z3.And(n == 1, t(j)), j == w1))
        add_fact(ip, s.dom, lambda j: z3.Implies(z3.And(n >= 1, t(j)), j >= w1))
        self.length = n
        self.first = w1


def seg_nth(ip, s, which):
    """first or last item of a stretch known not to be empty"""
    ctx = ip.ctx
    if not s.dom.ordered:
        raise Unsupported('position in an unordered collection')
    w = s.dom.fresh(ctx)
    its = s.items(ctx, w)
    if len(its) != 1 or isinstance(its[0][1], Seg):
        raise Unsupported('position in a nested sequence')
    g = lambda i: zb(band(s.dom.member(i), s.items(ctx, i)[0][0]))
    ctx.assume(g(w))
    register(ip, w)
    add_fact(ip, s.dom, (lambda j: z3.Implies(g(j), j >= w)) if which == 'first' else (lambda j: z3.Implies(g(j), j <= w)))
    return its[0][1]


def seg_first(ip, l, default):
    ctx = ip.ctx
    tot = ip.models.segs_len(ip, l.segs)
    if ctx.branch(simp(rv(tot) <= 0)):
        if default:
            return default[0]
        raise PyRaise(ExcVal(StopIteration, ()))
    return ip.models.seq_index(ip, l, 0)


def seg_extreme(ip, segs, name):
    """max/min over stretches: m is attained and bounds every element"""
    ctx = ip.ctx
    m = None
    tot = ip.models.segs_len(ip, segs)
    if ctx.branch(simp(rv(tot) <= 0)):
        raise PyRaise(ExcVal(ValueError, (f'{name}() arg is an empty sequence',)))
    vals = []
    witnesses = []
    sample = None
    for s in segs:
        if isinstance(s, Seg):
            if s.uniform != 1 and len(segs) > 1:
                raise Unsupported('max over a filtered sequence')
            w = s.dom.fresh(ctx)
            its = s.items(ctx, w)
            if len(its) != 1 or isinstance(its[0][1], Seg) or not is_num(its[0][1]):
                raise Unsupported('max over a complicated sequence')
            witnesses.append((s, w, its[0]))
        else:
            vals.append(s)
    real = any(isinstance(rv(x), z3.ArithRef) and z3.is_real(rv(x)) for x in vals + [it[1] for _, _, it in witnesses])
    m = ctx.real(name) if real else ctx.int(name)
    cmp = (lambda a, b: a <= b) if name == 'max' else (lambda a, b: a >= b)
    alts = [m == rv(v) for v in vals]
    for v in vals:
        ctx.assume(cmp(rv(v), m))
    for s, w, (g, v) in witnesses:
        alts.append(zb(band(s.dom.member(w), g, simp(m == rv(v)))))
        register(ip, w)
        add_fact(ip, s.dom, lambda t, s=s: z3.Implies(zb(band(s.dom.member(t), s.items(ctx, t)[0][0])), cmp(rv(s.items(ctx, t)[0][1]), m)))
    ctx.assume(z3.Or(*alts))
    return m


def summarise_search(ip, seg, idx, born, normal, exits, mod, counters={}):
    """loop with an early exit: either no element exits (and the effects of all apply), or a first one does"""
    ctx = ip.ctx
    cache = {}

    def exits_at(t):
        return band(seg.dom.member(t), bor(*[inst_at(ctx, o, idx, t, born, cache)[2] for o in exits]))
    b = ctx.choice('exit')
    if ctx.branch(b):
        w = seg.dom.fresh(ctx)
        ctx.assume(zb(exits_at(w)))
        register(ip, w)
        if seg.dom.ordered:
            add_fact(ip, seg.dom, lambda t: z3.Implies(t < w, z3.Not(zb(exits_at(t)))))
            dom = BeforeDom(seg.dom, w)
        else:
            raise Unsupported('early exit from a loop over an unordered collection')
        # effects of the earlier iterations
        eff = {k: v for k, v in mod.items() if any(k in o.writes or k[0] == 'el' for o in normal)}
        apply_effects(ip, seg, idx, born, normal, mod, dom, counters)
        for o in exits[:-1]:
            if ctx.branch(inst_at(ctx, o, idx, w, born, cache)[2]):
                return finish(ip, seg, idx, born, o, w, cache)
        o = exits[-1]
        ctx.assume(zb(inst_at(ctx, o, idx, w, born, cache)[2]))
        return finish(ip, seg, idx, born, o, w, cache)
    add_fact(ip, seg.dom, lambda t: z3.Not(zb(exits_at(t))))
    apply_effects(ip, seg, idx, born, normal, mod, seg.dom, counters)
    return NEXT


def finish(ip, seg, idx, born, o, w, cache):
    """the effects and the result of the exiting iteration"""
    ctx = ip.ctx
    ins, _, g, *_x = inst_at(ctx, o, idx, w, born, cache)
    for h, slot, had, old, has, new in o.writes.values():
        if h.birth == -1 or h.birth >= born and h.origin is None or isinstance(h, Seg) and isinstance(slot, tuple):
            continue
        if h.origin is not None:
            raise Unsupported('exiting iteration updates an element')
        if isinstance(h, PyList) and slot == 'segs':
            n = len(old)
            if new[:n] != old:
                raise Unsupported('exiting iteration rewrites a list')
            ctx.write(h, slot, h.d['segs'] + tuple(ins.val(x) for x in new[n:]))
        elif isinstance(h, PyDict):
            raise Unsupported('exiting iteration writes a dict')
        elif isinstance(h, Frame) or isinstance(h, Obj):
            if has:
                ctx.write(h, slot, ins.val(new))
            else:
                ctx.delete(h, slot)
        else:
            raise Unsupported('effect of the exiting iteration')
    if o.kind == 'raise':
        raise PyRaise(o.value)
    sig, v = o.value
    return (sig, ins.val(v) if v is not None else None)


class BeforeDom(RangeDom):
    def __init__(self, dom, w):
        self.base, self.w = dom, w
        self.n = w

    def member(self, i):
        return z3.And(self.base.member(i), i < self.w)
