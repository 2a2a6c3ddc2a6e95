"""C06: the neighbour graph stays exact when a cell is split during construction (MeshBuilder.split_and_replace)."""
from ..task import task
from ..spec import *
from ..loops import register, Inst
from ..graph import SymGraph, Geo, DIRS, count_in

MB, NG, CB = MG + 'mesh_builder', MG + 'neighbour_graph', MG + 'cellbox'
F = CellFns('b', 180)
LIVE = z3.Function('live', z3.IntSort(), z3.BoolSort())


def link(c):
    """relative position and width as the stored longitudes give them"""
    def f(k):
        d = F.lo(k) - F.lo(c)
        return lambda geo: z3.And(geo.lat0(k) == F.lat0(k), geo.lat1(k) == F.lat1(k), geo.W(k) == width_of(F.lo(k), F.hi(k)),
                                  geo.U(k) == z3.If(d >= 360, d - 360, z3.If(d >= 0, d, z3.If(d > -360, d + 360, R(0)))))
    return f


class State:
    """a builder with any number of cells, any of them already split, and an exact neighbour graph"""
    def __init__(self, T, ip):
        ctx = ip.ctx
        self.T, self.ip, self.ctx = T, ip, ctx
        self.n, self.c = ctx.int('ncells'), ctx.int('split')
        n, c = self.n, self.c
        self.glob = ctx.bool('global')
        alive = lambda t: z3.And(t >= 0, t < n, LIVE(t))
        self.alive = alive
        geo = self.geo = Geo('bg', alive, c, 180)
        geo.link = lambda k: z3.And(link(c)(k)(geo), self.rect_ok(k), z3.Implies(self.glob, F.lo(k) < F.hi(k)))
        ctx.assume(z3.And(n >= 1, alive(c)))
        self.kids = {}
        self.seg = self.cells_seg()
        self.cells = PyList([self.seg])
        self.graph = SymGraph('int', alive, lambda ip, x, d, y: geo.exact(ip, x, d, y), geo)
        geo.use(ip, c)
        self.ng = ip.call(ip.find(NG, 'NeighbourGraph'))
        ip.setattr(self.ng, 'neighbour_graph', self.graph)
        ip.setattr(self.ng, '_is_global_mesh', self.glob)
        mesh = ip.call(ip.find(MG + 'mesh', 'Mesh'), [None, self.cells, self.ng, 3])
        self.b = Obj(ip.find(MB, 'MeshBuilder'), dict(neighbour_graph=self.ng, mesh=mesh, config=PyDict()))
        self.mesh = mesh

    def rect_ok(self, k):
        a, b, lo, hi = F.rect(k)
        return z3.And(lo >= -180, lo <= 180, hi >= -180, hi <= 180, z3.Not(z3.And(lo == 180, hi == -180)))

    def new_cell(self, k):
        ip = self.ip
        return any_cell(ip, ip.call(ip.find(CB, 'CellBox'), [boundary(ip, RectOf(F, k)), Rope([('n', k)])]), k)

    def cells_seg(self):
        ip, ctx = self.ip, self.ctx
        t = ctx.int('cell')
        ctx.assume(z3.And(self.geo.valid(t)))
        born = next(Heap._n)
        obj = self.new_cell(t)

        def fn(ctx, i):
            self.geo.use(ip, i)
            a = simp(self.alive(i))
            ins = Inst(ctx, t, i, [], born)
            return [(a, ins.val(obj)), (bnot(a), None)]
        s = Seg(RangeDom(self.n), fn, 'cells')
        s.uniform = 1
        return s

    def key(self, o):
        """cell number of a CellBox or of its boundary"""
        if o is None:
            raise PyRaise(ExcVal(AttributeError, ('None',)))
        if id(o) in self.kids:
            return self.kids[id(o)][1]
        if isinstance(o, Heap) and o.origin is not None and o.origin[0] is self.seg and o.path in ((), ('bounds',)):
            return rv(o.origin[1])
        raise Unsupported(f'cell {o!r}')

    # contracts of the callees
    def split(self, ip, f, a, kw):
        """contract of CellBox.split (C01)"""
        ctx = self.ctx
        cell, start = a[0], rv(a[1] if len(a) > 1 else kw['start_id'])
        k = self.key(cell)
        g = self.geo
        g.use(ip, k)
        ctx.oblige('split.precondition: a live cell', zb(self.alive(k)))
        hw, mid = g.W(k) / 2, (g.lat0(k) + g.lat1(k)) / 2
        u2 = z3.If(g.U(k) + hw >= 360, g.U(k) + hw - 360, g.U(k) + hw)
        out = []
        for q, (l0, l1, u) in enumerate([(mid, g.lat1(k), g.U(k)), (mid, g.lat1(k), u2), (g.lat0(k), mid, g.U(k)), (g.lat0(k), mid, u2)]):
            i = self.n + q
            g.define(ip, i, l0, l1, u, hw)
            ctx.assume(g.valid(i))
            o = self.new_cell(i)
            m(ip, o, 'set_id', Rope([('n', simp(start + q))]))
            m(ip, o, 'set_parent', cell)
            m(ip, o, 'set_split_depth', models.binop(ip, 'Add', m(ip, cell, 'get_split_depth'), 1))
            self.kids[id(o)] = (o, i)
            self.kids[id(ip.getattr(o, 'bounds'))] = (ip.getattr(o, 'bounds'), i)
            out.append(o)
        self.newcells = out
        self.start = start
        return PyList(out)

    def case(self, ip, f, a, kw):
        """contract of get_neighbour_case / get_neighbour_case_bounds (C04)"""
        i, j = self.key(a[1]), self.key(a[2])
        self.geo.use(ip, i)
        self.geo.use(ip, j)
        self.ctx.oblige('case.precondition: two different cells', i != j)
        self.ctx.oblige('case.precondition: no crossing cell in a global mesh', z3.Implies(self.glob, z3.And(F.lo(i) < F.hi(i), F.lo(j) < F.hi(j))))
        return self.geo.case(ip, i, j)

    def contracts(self):
        return {CB + ':CellBox.split': self.split, NG + ':NeighbourGraph.get_neighbour_case': self.case, NG + ':NeighbourGraph.get_neighbour_case_bounds': self.case}


def lemma_offset(T):
    """(wj - wi) mod 360 follows from the positions relative to a third cell"""
    ctx = T.ctx

    def go():
        wc, wi, wj = [ctx.real(x) for x in ('wc', 'wi', 'wj')]
        ctx.assume(z3.And(*[z3.And(x >= -180, x <= 180) for x in (wc, wi, wj)]))
        mod = lambda x: floor_divide(ctx, simp_r(x), R(360))[1]
        ui, uj = mod(wi - wc), mod(wj - wc)
        d = uj - ui
        ctx.oblige('offset', mod(wj - wi) == z3.If(d >= 0, d, d + 360))
    T.run(go)


task('C06', 'lemma-relative-positions', 'lemma: the eastward offset of two cells follows from their offsets to a third one')(lemma_offset)


def exact_after(S, x, d, y, kids, c):
    """what the graph must say about (x, d, y) afterwards"""
    isk = lambda t: z3.Or(*[t == k for k in kids])
    al = lambda t: z3.Or(isk(t), z3.And(zb(S.alive(t)), t != c))
    return z3.If(z3.And(al(x), al(y), S.geo.case(S.ip, x, y) == d), z3.IntVal(1), z3.IntVal(0))


def check_graph(S, kids, c, parts=('old', 'new')):
    T, ip, ctx, g = S.T, S.ip, S.ctx, S.graph
    ctx.oblige('graph.split-cell-gone', z3.Not(zb(g.has_t(ip, c))))
    for k in kids:
        ctx.oblige('graph.children-present', zb(g.has_t(ip, rv(k))))

    def old_node(yk):
        x = ctx.int('x')
        ctx.assume(z3.And(S.alive(x), x != c))
        S.geo.use(ip, x)
        register(ip, x)
        T.cover('another node')
        if yk is None:
            y = ctx.int('y')
            ctx.assume(z3.And(*[y != k for k in kids]))
        else:
            y = rv(kids[yk])
        for d in DIRS:
            def one(d=d):
                v = g.final(ip, x, d, y)
                ctx.oblige('graph.old-node' + ('.old-entries' if yk is None else '.children'), False if v is None else rv(v) == exact_after(S, x, d, y, kids, c))
            ctx.explore(one)

    def new_node(q, yk):
        x = rv(kids[q])
        if yk is None:
            y = ctx.int('y')
            ctx.assume(z3.And(*[y != k for k in kids]))
        else:
            y = rv(kids[yk])
        for d in DIRS:
            def one(d=d):
                v = g.final(ip, x, d, y)
                ctx.oblige('graph.child' + ('.old-entries' if yk is None else '.siblings'), False if v is None else rv(v) == exact_after(S, x, d, y, kids, c))
            ctx.explore(one)

    def dead():
        x = ctx.int('x')
        ctx.assume(z3.And(z3.Not(zb(S.alive(x))), *[x != k for k in kids]))
        ctx.oblige('graph.no-other-nodes', z3.Not(zb(g.has_t(ip, x))))
    if 'old' in parts:
        for yk in (None, 0, 1, 2, 3):
            ctx.explore(lambda: old_node(yk))
        ctx.explore(dead)
    if 'new' in parts:
        for q in range(4):
            for yk in (None, 0, 1, 2, 3):
                ctx.explore(lambda: new_node(q, yk))


def splitting(part):
    def run(T):
        ip, ctx = T.interp(), T.ctx

        def go():
            S = State(T, ip)
            ip.contracts = S.contracts()
            cell = models.seq_index(ip, S.cells, S.c)
            k, out = T.calls(ip, (MB, 'MeshBuilder.split_and_replace'), [S.b, cell])
            ctx.oblige('split.no-exception', k == 'ok', info=str(out))
            if k != 'ok':
                return
            kids = [S.n, S.n + 1, S.n + 2, S.n + 3]
            if part == 'cells':
                l = ip.getattr(S.mesh, 'cellboxes')
                ctx.oblige('cells.number', rv(models.length(ip, l)) == S.n + 4)
                ctx.oblige('cells.first-id', S.start == S.n)
                for q in range(4):
                    ctx.oblige('cells.children-in-order', models.seq_index(ip, l, simp(S.n + q)) is S.newcells[q])
                ctx.oblige('cells.split-cell-gone', models.seq_index(ip, l, S.c) is None)

                def other():
                    x = ctx.int('x')
                    ctx.assume(z3.And(x >= 0, x < S.n, x != S.c))
                    T.cover('another cell')
                    o = models.seq_index(ip, l, x)
                    want = models.seq_index(ip, PyList([S.seg]), x)
                    ctx.oblige('cells.others-unchanged', o is want)
                    if o is not None:
                        ctx.oblige('cells.others-rectangles', z3.And(*[a == b for a, b in zip(read_rect(ip, m(ip, o, 'get_bounds')), F.rect(x))]))
                ctx.explore(other)
            else:
                check_graph(S, kids, S.c, (part,))
        T.run(go)
    return run


C = ('requires: any number of cells, some already split, live cells narrower than 180 degrees with disjoint interiors, the graph lists exactly the touching live cells; '
     'ensures: exactly the touching cells again, over the live cells without the split one and with its four quarters; contracts used: CellBox.split (C01), get_neighbour_case (C04)')
for part in ('cells', 'old', 'new'):  # noqa
    task('C06', f'split_and_replace ({ {"cells": "cell list", "old": "lists of the other cells", "new": "lists of the children"}[part] })', C, seconds=400)(splitting(part))
