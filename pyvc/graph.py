"""Symbolic neighbour graphs.

SymGraph stands for a dict  node -> {direction -> list of node numbers}  with any number of nodes.  A list is known by
how often each number occurs in it.  Initially node x holds, under direction d, the number y `mult0(x, d, y)` times.
Changes are recorded in two journaled logs: contents of the original lists (appends and removals, also for every index of
a summarised loop) and structure (nodes added and removed, lists replaced)."""
import z3
from .core import *
from .interp import Model, Native, ExcVal
from . import models
from .loops import register, mentions, witness, inst_at

DIRS = (1, 2, 3, 4, -1, -2, -3, -4)


def raise_(cls, *a):
    raise PyRaise(ExcVal(cls, a))


def num_key(k, kind):
    """int term of a dict key of the given kind ('int' or 'str'); None if k is not of that kind"""
    if kind == 'int':
        if isinstance(k, bool) or not is_num(k):
            return None
        k = rv(k)
        if not z3.is_int(k):
            raise Unsupported('float as a node number')
        return k
    if isinstance(k, str):
        try:
            v = int(k)
        except ValueError:
            return None
        return z3.IntVal(v) if str(v) == k else None
    if isinstance(k, Rope):
        if len(k.parts) == 1 and k.parts[0][0] == 'n' and z3.is_int(rv(k.parts[0][1])):
            return rv(k.parts[0][1])
        raise Unsupported('composed text as a node key')
    if isinstance(k, Atom):
        raise Unsupported('unknown text as a node key')
    return None


def scratch(ctx, thunk):
    """thunk's value on every path, leaving no trace"""
    return all(o.kind == 'ok' and o.value for o in ctx.explore(thunk))


def key_of(t, kind):
    t = norm(rv(t))
    if kind == 'int':
        return t
    return str(t) if isinstance(t, int) else Rope([('n', t)])


class Op:
    """y appended (+1) to or removed (-1) from the original list of node x, direction d"""
    def __init__(self, sign, x, d, y, guard=True):
        self.sign, self.x, self.d, self.y, self.guard = sign, rv(x), rv(d), rv(y), guard

    def __repr__(self):
        return f'Op({self.sign},{self.x},{self.d},{self.y})'

    def subst_ent(self, ins):
        return Op(self.sign, ins.val(self.x), ins.val(self.d), ins.val(self.y), ins.val(self.guard))

    def guarded(self, c):
        return Op(self.sign, self.x, self.d, self.y, band(c, self.guard))

    def unfold(self, g, ip, x, y, depth=0):
        yield self.sign, self.x, self.d, self.y, self.guard, []

    def delta(self, g, ip, x, d, y):
        c = simp(z3.And(zb(self.guard), self.x == x, self.d == d, self.y == y))
        return 0 if c is False else z3.If(zb(c), z3.IntVal(self.sign), z3.IntVal(0))


class Drop:
    """every number satisfying pred removed from all lists"""
    def __init__(self, pred):
        self.pred = pred

    def delta(self, g, ip, x, d, y):
        return z3.If(zb(self.pred(y)), -rv(g.mult(ip, x, d, y, self.prefix)), z3.IntVal(0))


class Partial:
    """effects of the earlier iterations of the loop being summarised: reads are recorded and checked for interference"""
    def __init__(self):
        self.reads = []


class ForAll:
    """the operations of every iteration of a summarised loop"""
    def __init__(self, dom, idx, outs, inst, guard=True):
        self.dom, self.idx, self.outs, self.inst, self.guard = dom, idx, outs, inst, guard

    def guarded(self, c):
        return ForAll(self.dom, self.idx, self.outs, self.inst, band(c, self.guard))

    def unfold(self, g, ip, x, y, depth=0):
        """the changes to y's number in lists of node x: (sign, node, direction, entry, condition, facts) of the iterations in question"""
        for o, ops in self.outs:
            if depth and any(not c.eq(self.idx) for c in o.fresh):
                raise Unsupported('nested loop over the graph with unknowns of its own')
            for op in ops:
                for sign, cx, cd, cy, cg, facts in op.unfold(g, ip, x, y, depth + 1):
                    j = g.solve(cx, self.idx, x)
                    if j is None:
                        j = g.solve(cy, self.idx, y)
                    if j is None:
                        raise Unsupported('loop over something else than the node or the entry it changes')
                    g.geo_use(ip, j)
                    ins, _, guard, a, _o = self.inst(o, j, True)
                    here = band(self.dom.member(j), guard)
                    v = lambda t: rv(ins.val(t))
                    yield sign, v(cx), v(cd), v(cy), band(self.guard, here, ins.val(cg)), ([a] if a is not None else []) + [z3.Implies(zb(here), zb(ins.val(f))) for f in facts]

    def delta(self, g, ip, x, d, y):
        tot = 0
        for sign, cx, cd, cy, cg, facts in self.unfold(g, ip, x, y):
            for f in facts:
                ip.ctx.assume(f)
            c = simp(z3.And(zb(cg), cx == x, cd == d, cy == y))
            if c is not False:
                tot = tot + z3.If(zb(c), z3.IntVal(sign), z3.IntVal(0))
        return tot


class SymGraph(Model):
    """kind: 'int' (numbers as keys) or 'str' (their texts)"""
    def __init__(self, kind, alive, mult, geo=None):
        super().__init__()
        self.kind, self.alive, self.mult0, self.geo = kind, alive, mult, geo
        self.d['log'] = ()
        self.d['str'] = ()
        self.inverse = {}       # numbering functions without repetition -> position of a number

    def solve(self, t, idx, target):
        """the idx at which the term t can equal the target; None if t does not depend on it"""
        if not mentions(t, idx):
            return None
        if t.eq(idx):
            return target
        if z3.is_app(t) and t.num_args() == 1 and t.arg(0).eq(idx) and t.decl().name() in self.inverse:
            return self.inverse[t.decl().name()](target)
        raise Unsupported('node or entry computed from the index of a loop')

    def __repr__(self):
        return 'SymGraph'

    def typeof(self, ip):
        return models.TYPES['dict'] if 'dict' in models.TYPES else None

    def geo_use(self, ip, t):
        if self.geo is not None:
            self.geo.use(ip, t)

    # ---------------------------------------------------------------- specification view
    def mult(self, ip, x, d, y, log=None):
        """how often y occurs in the original list of node x, direction d"""
        x, d, y = rv(x), rv(d), rv(y)
        log = self.d['log'] if log is None else log
        while log and isinstance(log[-1], Partial):
            log[-1].reads.append((x, d, y))
            log = log[:-1]
        if not log:
            self.geo_use(ip, x)
            self.geo_use(ip, y)
            return self.mult0(ip, x, d, y)
        op = log[-1]
        if not hasattr(op, 'fn'):
            I = z3.IntSort()
            op.fn = z3.Function(f'mult!{next(Heap._n)}', I, I, I, I)
            op.prefix = log[:-1]
            ip.ctx.hooks[op.fn.name()] = lambda x, d, y, p=log: self.mult(ip, x, d, y, p)
        elif op.prefix != log[:-1]:
            raise Unsupported('operation on several graphs')
        t = op.fn(x, d, y)
        key = ('mult', op.fn.get_id(), x.get_id(), d.get_id(), y.get_id())
        if key not in ip.ctx.fh.d:
            ip.ctx.write(ip.ctx.fh, key, (op, t))
            ip.ctx.assume_univ(t == rv(self.mult(ip, x, d, y, log[:-1])) + op.delta(self, ip, x, d, y))
        return t

    def has_t(self, ip, t):
        """is t a node now (no forking)"""
        h = zb(self.alive(t))
        for op in self.d['str']:
            if op[0] == 'node':
                h = z3.Or(h, t == op[1])
            elif op[0] == 'del':
                h = z3.And(h, t != op[1])
            elif op[0] == 'drop':
                h = z3.And(h, z3.Not(zb(op[1](t))))
            elif op[0] == 'nodes':
                h = z3.Or(h, z3.And(zb(op[1].member(t)), z3.Or(*[zb(op[3](o, t)[2]) for o, _ in op[2]])))
        return simp(h)

    def final(self, ip, x, d, y):
        """how often y occurs in what is now the list of node x, direction d (forks over replaced nodes and lists)"""
        node = self.find_t(ip, rv(x))
        if node is None:
            return None
        l = models.getitem(ip, node, key_of(d, self.kind)) if isinstance(node, PyDict) else node.at(ip, rv(d))
        return count_in(ip, l, rv(y))

    # ---------------------------------------------------------------- dict protocol
    def find_t(self, ip, t):
        ctx = ip.ctx
        for op in reversed(self.d['str']):
            if op[0] in ('node', 'del') and ctx.branch(simp(t == op[1])):
                return op[2] if op[0] == 'node' else None
            if op[0] == 'drop' and ctx.branch(simp(zb(op[1](t)))):
                return None
            if op[0] == 'nodes':
                for o, ops in op[2]:
                    ins, _, guard, *_x = op[3](o, t)
                    if ctx.branch(simp(z3.And(zb(op[1].member(t)), zb(guard)))):
                        return ins.val(ops[-1][2])
        self.geo_use(ip, t)
        if ctx.branch(simp(zb(self.alive(t)))):
            return NodeRef(self, t)
        return None

    def find(self, ip, k):
        t = num_key(k, self.kind)
        return None if t is None else self.find_t(ip, t)

    def getitem(self, ip, k):
        n = self.find(ip, k)
        if n is None:
            raise_(KeyError, k)
        return n

    def structure(self, ip, op):
        ip.ctx.write(self, 'str', self.d['str'] + (op,))

    def setitem(self, ip, k, v):
        t = num_key(k, self.kind)
        if t is None:
            raise Unsupported('node key of another kind')
        self.structure(ip, ('node', t, v))

    def delitem(self, ip, k):
        n = self.getitem(ip, k)
        self.structure(ip, ('del', num_key(k, self.kind)))
        return n

    def contains(self, ip, k):
        t = num_key(k, self.kind)
        return False if t is None else self.has_t(ip, t)

    def iterate(self, ip):
        s = Seg(BagDom(lambda t: self.has_t(ip, t), 'nodes'), lambda ctx, t: [(True, key_of(t, self.kind))], 'nodes')
        s.keys_of = self
        return [s]

    def get(self, ip, n):
        def f(ip, a, k):
            if n == 'keys':
                return self
            if n == 'get':
                r = self.find(ip, a[0])
                return r if r is not None else (a[1] if len(a) > 1 else None)
            if n == 'pop':
                r = self.find(ip, a[0])
                if r is None:
                    if len(a) > 1:
                        return a[1]
                    raise_(KeyError, a[0])
                return self.delitem(ip, a[0])
            if n == 'update' and isinstance(a[0], PyDict) and models.plain_dict(a[0]):
                for kk, vv in a[0].ents:
                    self.setitem(ip, kk, vv)
                return None
            if n == 'items':
                return PyList([Seg(s.dom, lambda ctx, t: [(True, (key_of(t, self.kind), self.find_t(ip, t)))], 'items') for s in self.iterate(ip)])
            raise Unsupported(f'dict.{n} of a symbolic graph')
        return Native(f'graph.{n}', f)

    def merge_slot(self, ctx, slot, old, vals):
        """logs of several paths: the common part, then what each path added under its condition"""
        new = list(old)
        for c, v in vals:
            if v[:len(old)] != old:
                raise CannotMerge()
            for op in v[len(old):]:
                if slot == 'log':
                    if isinstance(op, Partial):
                        raise CannotMerge()
                    new.append(op.guarded(c))
                elif op[0] == 'list':
                    new.append(op[:4] + (band(c, op[4]),))
                else:
                    raise CannotMerge()
        return tuple(new)

    # ---------------------------------------------------------------- summarised loops
    def havoc_slot(self, ip, slot, idx, seg):
        if slot == 'str':
            self.spartial = Partial()
            ip.ctx.write(self, 'str', self.d['str'] + (('partial', self.spartial),))
            return
        self.partial = Partial()
        ip.ctx.write(self, 'log', self.d['log'] + (self.partial,))

    def loop_effect(self, ip, slot, seg, idx, born, normal, k, inst, dom):
        ctx = ip.ctx
        outs = []
        for o in normal:
            w = o.writes.get(k)
            ops = ()
            if w is not None:
                old, new = w[3], w[5]
                if new[:len(old)] != old:
                    raise Unsupported('graph log rewritten')
                ops = new[len(old):]
            if slot == 'str' and ops and all(x[0] == 'node' and x[1].eq(idx) for x in ops):
                outs.append((o, ops))
                continue
            if slot == 'str' and not all(x[0] == 'list' and x[1].eq(idx) for x in ops):
                raise Unsupported('loop replaces nodes, or lists of other nodes than its own')
            if slot == 'log' and not all(isinstance(x, (Op, ForAll)) for x in ops):
                raise Unsupported('nested loops over the graph')
            outs.append((o, ops))
        if slot == 'str':
            if any(x[0] == 'node' for _, ops in outs for x in ops):
                if self.spartial.reads or not all(x[0] == 'node' for _, ops in outs for x in ops):
                    raise Unsupported('loop adds nodes and changes others')
                ctx.write(self, 'str', self.d['str'] + (('nodes', dom, [x for x in outs if x[1]], inst),))
                return
            if not all(x.eq(idx) for x, d in self.spartial.reads):
                raise Unsupported('an iteration may read lists another one replaces')
            ctx.write(self, 'str', self.d['str'] + (('lists', dom, [x for x in outs if x[1]], inst),))
            return
        reads = list(self.partial.reads)
        if getattr(seg, 'listref', None) is not None:
            reads.append(seg.listref.read())
        if not scratch(ctx, lambda: self.no_interference(ip, seg, idx, outs, reads, inst)):
            raise Unsupported('an iteration may read what another one changes')
        ctx.write(self, 'log', self.d['log'] + (ForAll(dom, idx, [x for x in outs if x[1]], inst),))

    def no_interference(self, ip, seg, idx, outs, reads, inst):
        ctx = ip.ctx
        seen = []
        j = seg.dom.fresh(ctx)
        for x, d, y in reads:
            if any(all((a is None and b is None) or (a is not None and b is not None and a.eq(b)) for a, b in zip(q, (x, d, y))) for q in seen):
                continue
            seen.append((x, d, y))
            for o, ops in outs:
                for op in ops:
                    if not isinstance(op, Op):
                        raise Unsupported('nested loops over a graph that is being read')
                    self.geo_use(ip, j)
                    ins, _, guard, *_x = inst(o, j)
                    hit = z3.And(zb(seg.dom.member(idx)), zb(seg.dom.member(j)), idx != j, zb(guard), zb(ins.val(op.guard)), rv(ins.val(op.x)) == x, rv(ins.val(op.d)) == d,
                                 rv(ins.val(op.y)) == y if y is not None else True)
                    if ctx.feasible(hit):
                        return False
        return True

    def deep_copy(self, ip, memo):
        if self.d['log'] or self.d['str']:
            raise Unsupported('copy of a symbolic graph that was changed')
        r = SymGraph(self.kind, self.alive, self.mult0, self.geo)
        r.inverse = self.inverse
        return r


class Symmetric:
    """an arbitrary symmetric neighbour relation without self-neighbours and repeated entries, over the live nodes"""
    def __init__(self, tag, alive):
        I = z3.IntSort()
        self.M = z3.Function(tag, I, I, I, I)
        self.alive = alive

    def __call__(self, ip, x, d, y):
        ctx, M = ip.ctx, self.M
        ctx.hooks.setdefault(M.name(), lambda x, d, y: self(ip, x, d, y))
        t = M(x, d, y)
        key = ('mult', M.get_id(), x.get_id(), d.get_id(), y.get_id())
        if key not in ctx.fh.d:
            ctx.write(ctx.fh, key, (x, d, y))
            ctx.assume_univ(z3.And(t >= 0, t <= 1, z3.Implies(t == 1, z3.And(zb(self.alive(x)), zb(self.alive(y)), x != y, z3.Or(*[d == v for v in DIRS])))))
            ctx.assume_univ(t == M(y, rv(simp(-d)), x))
        return t


class NodeRef(Model):
    """original neighbour map of node x"""
    def __init__(self, g, x):
        super().__init__()
        self.g, self.x = g, rv(x)
        self.t = self.x

    def subst(self, ins):
        return NodeRef(self.g, ins.val(self.x))

    def same(self, ip, o):
        return simp(self.x == o.x) if isinstance(o, NodeRef) and o.g is self.g else False

    def at(self, ip, d):
        for op in reversed(self.g.d['str']):
            if op[0] == 'partial':
                op[1].reads.append((self.x, d))
            if op[0] == 'lists':
                for o, ops in op[2]:
                    ins, _, guard, *_x = op[3](o, self.x)
                    for w in reversed(ops):
                        if ip.ctx.branch(simp(z3.And(zb(op[1].member(self.x)), zb(guard), zb(ins.val(w[4])), rv(ins.val(w[2])) == d))):
                            return ins.val(w[3])
            if op[0] == 'list' and ip.ctx.branch(simp(z3.And(zb(op[4]), op[1] == self.x, op[2] == d))):
                return op[3]
        return ListRef(self.g, self.x, d)

    def dkey(self, ip, k):
        d = num_key(k, self.g.kind)
        if d is None:
            return None
        ok = simp(z3.Or(*[d == v for v in DIRS]))
        return d if ip.ctx.branch(ok) else None

    def getitem(self, ip, k):
        d = self.dkey(ip, k)
        if d is None:
            raise_(KeyError, k)
        return self.at(ip, d)

    def setitem(self, ip, k, v):
        d = self.dkey(ip, k)
        if d is None:
            raise Unsupported('new direction in a node')
        self.g.structure(ip, ('list', self.x, d, v, True))

    def contains(self, ip, k):
        return self.dkey(ip, k) is not None

    def iterate(self, ip):
        return [key_of(d, self.g.kind) for d in DIRS]

    def length(self, ip):
        return 8

    def get(self, ip, n):
        def f(ip, a, k):
            if n == 'keys':
                return PyList(self.iterate(ip))
            if n == 'values':
                return PyList([self.at(ip, z3.IntVal(d)) for d in DIRS])
            if n == 'items':
                return PyList([(key_of(d, self.g.kind), self.at(ip, z3.IntVal(d))) for d in DIRS])
            if n == 'get':
                d = self.dkey(ip, a[0])
                return (a[1] if len(a) > 1 else None) if d is None else self.at(ip, d)
            raise Unsupported(f'dict.{n} of a node')
        return Native(f'node.{n}', f)


class ListRef(Model):
    """original list of node x, direction d"""
    def __init__(self, g, x, d):
        super().__init__()
        self.g, self.x, self.dr = g, rv(x), rv(d)

    def __repr__(self):
        return f'ListRef({self.x},{self.dr})'

    def subst(self, ins):
        return ListRef(self.g, ins.val(self.x), ins.val(self.dr))

    def subst_ent(self, ins):
        return self.subst(ins)

    def typeof(self, ip):
        return models.TYPES['list']

    def read(self):
        return (self.x, self.dr, None)

    def same(self, ip, o):
        return simp(z3.And(self.x == o.x, self.dr == o.dr)) if isinstance(o, ListRef) and o.g is self.g else False

    def mult(self, ip, y):
        return self.g.mult(ip, self.x, self.dr, y)

    def iterate(self, ip):
        ctx = ip.ctx
        log = self.g.d['log']
        for p in log:
            if isinstance(p, Partial):
                p.reads.append(self.read())
        mm = lambda t: self.g.mult(ip, self.x, self.dr, t, tuple(p for p in log if not isinstance(p, Partial)))

        def dup():
            m1 = rv(mm(ctx.int('y')))
            return ctx.must(z3.And(m1 <= 1, m1 >= 0))
        if not scratch(ctx, dup):
            raise Unsupported('list of neighbours that may hold an entry twice')
        s = Seg(BagDom(lambda t: simp(rv(mm(t)) == 1), repr(self)), lambda ctx, t: [(True, norm(t))], repr(self))
        s.listref = self
        return [s]

    def length(self, ip):
        return models.segs_len(ip, self.iterate(ip))

    def truth(self, ip):
        return simp(rv(self.length(ip)) > 0)

    def contains(self, ip, y):
        return False if not is_num(y) else simp(rv(self.mult(ip, y)) > 0)

    def getitem(self, ip, k):
        ctx = ip.ctx
        n = self.length(ip)
        if ctx.branch(simp(rv(n) <= 0)):
            raise_(IndexError, 'list index out of range')
        if k not in (0, -1) or isinstance(k, bool):
            raise Unsupported('position in a list of neighbours')
        if k == -1 and not ctx.must(simp(rv(n) <= 1)):
            raise Unsupported('position in a list of neighbours')
        key = ('first', self.g.birth, self.x.get_id(), self.dr.get_id(), len(self.g.d['log']))
        if key not in ctx.fh.d:
            w = ctx.int('first')
            ctx.write(ctx.fh, key, (self.x, self.dr, w))
            ctx.assume(simp(rv(self.mult(ip, w)) == 1))
            register(ip, w)
        return ctx.fh.d[key][2]

    def get(self, ip, n):
        ctx = ip.ctx

        def f(ip, a, k):
            g = self.g
            if n == 'append':
                if not is_num(a[0]):
                    raise Unsupported('entry that is not a number')
                ctx.write(g, 'log', g.d['log'] + (Op(1, self.x, self.dr, a[0]),))
                return None
            if n == 'extend':
                for v in ip.segments(a[0]):
                    if isinstance(v, Seg):
                        raise Unsupported('extension of a list of neighbours')
                    ctx.write(g, 'log', g.d['log'] + (Op(1, self.x, self.dr, v),))
                return None
            if n == 'remove':
                if not is_num(a[0]) or not ctx.branch(simp(rv(self.mult(ip, a[0])) >= 1)):
                    raise_(ValueError, 'list.remove(x): x not in list')
                ctx.write(g, 'log', g.d['log'] + (Op(-1, self.x, self.dr, a[0]),))
                return None
            if n == 'copy':
                return PyList(self.iterate(ip))
            if n == 'count':
                return self.mult(ip, a[0])
            raise Unsupported(f'list.{n} of a list of neighbours')
        return Native(f'neighbours.{n}', f)


def count_in(ip, l, y):
    """how often the number y occurs in the list l, as a term"""
    ctx = ip.ctx
    if isinstance(l, ListRef):
        return l.mult(ip, y)
    if not isinstance(l, PyList):
        raise Unsupported(f'{l!r} as a list of neighbours')

    tot = z3.IntVal(0)
    for s in l.segs:
        if isinstance(s, Seg):
            tot = tot + seg_mult(ip, s, y)
        elif is_num(s):
            tot = tot + z3.If(rv(s) == y, z3.IntVal(1), z3.IntVal(0))
        else:
            raise Unsupported(f'{s!r} in a list of neighbours')
    return simp(tot)


def seg_mult(ip, s, y):
    """occurrences of y in a stretch whose items are its own index"""
    ctx = ip.ctx
    i = s.dom.fresh(ctx)
    tot = z3.IntVal(0)
    its = s.items(ctx, i)
    for n, (g, v) in enumerate(its):
        if isinstance(v, Seg) or not is_num(v):
            raise Unsupported('list of neighbours of a complicated loop')
        t = rv(v)
        if t.eq(i):
            j = y
        else:
            off = simp(t - i)
            if is_z3(off) and mentions(off, i):
                raise Unsupported('list of neighbours computed from the index')
            j = simp(y - off)
        g2, v2 = s.items(ctx, rv(j))[n]
        tot = tot + z3.If(zb(band(s.dom.member(rv(j)), g2, simp(rv(v2) == y))), z3.IntVal(1), z3.IntVal(0))
    return tot


class Geo:
    """positions of the cells relative to the western edge of cell c: cell k is [lat0,lat1] x [U, U+W], 0 <= U < 360.
    What holds of all cells is asserted for every cell number the proof talks about."""
    def __init__(self, tag, alive, centre, maxw=180, link=None):
        I, R = z3.IntSort(), z3.RealSort()
        f = lambda k: z3.Function(f'{tag}_{k}', I, R)
        self.tag = tag
        self.lat0, self.lat1, self.U, self.W = f('lat0'), f('lat1'), f('u'), f('w')
        self.CASE = z3.Function(tag + '_case', I, I, I)
        self.alive, self.c, self.maxw, self.link = alive, centre, maxw, link

    def ofs(self, i, j):
        d = self.U(j) - self.U(i)
        return z3.If(d >= 0, d, d + 360)

    def disjoint(self, i, j):
        o = self.ofs(i, j)
        return z3.Or(self.lat1(i) <= self.lat0(j), self.lat1(j) <= self.lat0(i), z3.And(o >= self.W(i), o + self.W(j) <= 360))

    def valid(self, k):
        w = z3.And(self.lat0(k) < self.lat1(k), self.lat0(k) >= -90, self.lat1(k) <= 90, self.W(k) > 0, self.W(k) < self.maxw, self.U(k) >= 0, self.U(k) < 360)
        return w if self.link is None else z3.And(w, self.link(k))

    def use(self, ip, k):
        ctx = ip.ctx
        k = rv(k)
        key = ('geo', self.tag, k.get_id())
        if key in ctx.fh.d:
            return
        others = [v for q, v in ctx.fh.d.items() if isinstance(q, tuple) and q[:2] == ('geo', self.tag)]
        ctx.write(ctx.fh, key, k)
        ctx.abstracted('what holds of all cells is applied to the cells the proof talks about')
        a = zb(self.alive(k))
        ctx.assume_univ(z3.Implies(a, self.valid(k)))
        for j in others:
            ctx.assume_univ(z3.Implies(z3.And(a, zb(self.alive(j)), j != k), self.disjoint(j, k)))

    def define(self, ip, k, lat0, lat1, u, w):
        """a new cell k"""
        ip.ctx.assume(z3.And(self.lat0(k) == lat0, self.lat1(k) == lat1, self.U(k) == u, self.W(k) == w))

    def ren(self, k):
        return self.lat0(k), self.lat1(k), self.U(k), self.W(k)

    def case(self, ip, i, j):
        """direction in which j touches i"""
        from .spec import case_spec
        i, j = rv(i), rv(j)
        self.use(ip, i)
        self.use(ip, j)
        t = self.CASE(i, j)
        key = ('case', self.tag, i.get_id(), j.get_id())
        if key not in ip.ctx.fh.d:
            ip.ctx.write(ip.ctx.fh, key, (i, j))
            ip.ctx.hooks[self.CASE.name()] = lambda i, j: self.case(ip, i, j)
            ip.ctx.assume_univ(t == case_spec(ip.ctx, self.ren(i), self.ren(j), d=self.ofs(i, j)))
        return t

    def exact(self, ip, x, d, y):
        """1 if y is listed exactly: both alive and y touches x in direction d"""
        return z3.If(z3.And(zb(self.alive(x)), zb(self.alive(y)), self.case(ip, x, y) == d), z3.IntVal(1), z3.IntVal(0))
