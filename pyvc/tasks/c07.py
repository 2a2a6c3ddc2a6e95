"""C07: splitting a cell of a finished mesh (EnvironmentMesh.split_and_replace) keeps list of cells and neighbour graph exact."""
from ..task import task
from ..spec import *
from ..loops import register, Inst, forall_items
from ..graph import SymGraph, Geo, num_key
from .c06 import check_graph

EM, NG, AC = MG + 'environment_mesh', MG + 'neighbour_graph', MG + 'aggregated_cellbox'
ID = z3.Function('idat', _I := z3.IntSort(), _I)          # id of the cell at a position
POS = z3.Function('posof', _I, _I)                        # position of the cell with an id
F = CellFns('e', 180)                                     # rectangles by id
DATA = DictFns('edata')


class State:
    """a finished mesh with any number of cells and an exact neighbour graph; cells and nodes are known by their ids"""
    def __init__(self, T, ip, maxw=180, mult=None):
        ctx = ip.ctx
        self.T, self.ip, self.ctx = T, ip, ctx
        self.n, self.c, self.base = ctx.int('ncells'), ctx.int('split'), ctx.int('maxid')
        n, c = self.n, self.c
        self.alive = alive = lambda k: z3.And(POS(k) >= 0, POS(k) < n, ID(POS(k)) == k)
        geo = self.geo = Geo('eg', alive, c, maxw)
        geo.link = lambda k: z3.And(self.linked(k), self.rect_ok(k), k >= 0, z3.Implies(alive(k), k <= self.base))
        ctx.assume(z3.And(n >= 1, alive(c), alive(self.base)))
        self.kids = {}
        self.seg = self.cells_seg()
        self.cells = PyList([self.seg])
        self.graph = SymGraph('str', alive, mult(alive) if mult else lambda ip, x, d, y: geo.exact(ip, x, d, y), geo)
        geo.use(ip, c)
        geo.use(ip, self.base)
        self.ng = ip.call(ip.find(NG, 'NeighbourGraph'))
        ip.setattr(self.ng, 'neighbour_graph', self.graph)
        self.mesh = mesh_of(ip, [self.seg], self.ng)
        self.cells = ip.getattr(self.mesh, 'agg_cellboxes')

    def linked(self, k):
        g, d = self.geo, F.lo(k) - F.lo(self.c)
        return z3.And(g.lat0(k) == F.lat0(k), g.lat1(k) == F.lat1(k), g.W(k) == width_of(F.lo(k), F.hi(k)),
                      g.U(k) == z3.If(d >= 360, d - 360, z3.If(d >= 0, d, z3.If(d > -360, d + 360, R(0)))))

    def rect_ok(self, k):
        a, b, lo, hi = F.rect(k)
        return z3.And(lo >= -180, lo <= 180, hi >= -180, hi <= 180, z3.Not(z3.And(lo == 180, hi == -180)))

    def new_cell(self, k, data):
        ip = self.ip
        return ip.call(ip.find(AC, 'AggregatedCellBox'), [boundary(ip, RectOf(F, k)), data, Rope([('n', k)])])

    def cells_seg(self):
        ip, ctx = self.ip, self.ctx
        t = ctx.int('cell')
        k = ID(t)
        ctx.assume(z3.And(self.geo.valid(k), POS(k) == t, t >= 0, t < self.n))
        born = next(Heap._n)
        obj = self.new_cell(k, PyDict([BaseEntries(DATA, k)]))

        def fn(ctx, i):
            ctx.assume_univ(z3.Implies(z3.And(i >= 0, i < self.n), POS(ID(i)) == i))
            self.geo.use(ip, ID(i))
            return [(True, Inst(ctx, t, i, [], born).val(obj))]
        s = Seg(RangeDom(self.n), fn, 'cells')
        s.uniform = 1
        return s

    def at(self, k):
        """object of the live cell with id k"""
        return self.seg.items(self.ctx, POS(rv(k)))[0][1]

    def key(self, o):
        if o is None:
            raise PyRaise(ExcVal(AttributeError, ('None',)))
        if id(o) in self.kids:
            return self.kids[id(o)][1]
        if isinstance(o, Heap) and o.origin is not None and o.origin[0] is self.seg and o.path in ((), ('boundary',)):
            p = rv(o.origin[1])
            if z3.is_app(p) and p.decl().eq(POS):
                return p.arg(0)
            return ID(p)
        raise Unsupported(f'cell {o!r}')

    # contracts of the callees
    def get_cellbox(self, ip, f, a, kw):
        """first cell of the list with that id (own task below)"""
        ctx = self.ctx
        l = ip.getattr(a[0], 'agg_cellboxes')
        q = a[1] if len(a) > 1 else kw['cellbox_id']
        t = num_key(q, 'int' if is_num(q) else 'str')
        if t is None:
            raise Unsupported('id that is not a number')
        for s in l.segs:
            if s is self.seg:
                self.geo.use(ip, t)
                if ctx.branch(simp(self.alive(t))):
                    return self.at(t)
            elif id(s) in self.kids:
                if ctx.branch(simp(self.kids[id(s)][1] == t)):
                    return s
            else:
                raise Unsupported('list of cells of another shape')
        return None

    def sim_split(self, ip, f, a, kw):
        """contract of sim_split_cellbox (C02)"""
        ctx, g = self.ctx, self.geo
        q = a[1] if len(a) > 1 else kw['cellbox_id']
        k = num_key(q, 'int' if is_num(q) else 'str')
        if k is None or ip.getattr(a[0], 'agg_cellboxes').segs != (self.seg,):
            raise Unsupported('sim_split_cellbox in another state')
        g.use(ip, k)
        ctx.oblige('sim_split.precondition: a cell of the mesh', zb(self.alive(k)))
        hw, mid = g.W(k) / 2, (g.lat0(k) + g.lat1(k)) / 2
        u2 = z3.If(g.U(k) + hw >= 360, g.U(k) + hw - 360, g.U(k) + hw)
        out = []
        for j, (l0, l1, u) in enumerate([(g.lat0(k), mid, g.U(k)), (mid, g.lat1(k), g.U(k)), (g.lat0(k), mid, u2), (mid, g.lat1(k), u2)]):
            i = simp(self.base + 1 + j)
            g.define(ip, i, l0, l1, u, hw)
            ctx.assume(z3.And(g.valid(i), z3.Not(zb(self.alive(i)))))
            o = self.new_cell(i, PyDict([BaseEntries(DATA, k), ('id', Rope([('n', i)]))]))
            self.kids[id(o)] = (o, i)
            b = ip.getattr(o, 'boundary')
            self.kids[id(b)] = (b, i)
            out.append(o)
        self.newcells = out
        return PyList(out)

    def case(self, ip, f, a, kw):
        """contract of get_neighbour_case_bounds (C04)"""
        i, j = self.key(a[1]), self.key(a[2])
        self.geo.use(ip, i)
        self.geo.use(ip, j)
        self.ctx.oblige('case.precondition: two different cells', i != j)
        return self.geo.case(ip, i, j)

    def contracts(self):
        return {EM + ':EnvironmentMesh.get_cellbox': self.get_cellbox, EM + ':EnvironmentMesh.sim_split_cellbox': self.sim_split,
                NG + ':NeighbourGraph.get_neighbour_case_bounds': self.case}


def check_cells(S, l, extra, gone):
    """l holds exactly the live cells other than `gone` and the cells `extra`, each once (order irrelevant)"""
    ip, ctx, T = S.ip, S.ctx, S.T
    ctx.oblige('cells.number', rv(models.length(ip, l)) == S.n - (1 if gone is not None else 0) + len(extra))
    for e in extra:
        ctx.oblige('cells.children-present', any(s is e for s in l.segs))

    def only():
        p = ctx.int('p')
        ctx.assume(z3.And(p >= 0, p < rv(models.length(ip, l))))
        register(ip, p)
        o = models.seq_index(ip, l, p)
        if any(o is e for e in extra):
            return
        k = S.key(o)
        T.cover('another cell')
        ctx.oblige('cells.nothing-else', z3.And(S.alive(k), k != gone if gone is not None else True))
        ctx.oblige('cells.same-rectangle', z3.And(*[a == b for a, b in zip(read_rect(ip, m(ip, o, 'get_bounds')), F.rect(k))]))
        i = m(ip, o, 'get_id')
        ctx.oblige('cells.same-id', isinstance(i, Rope) and len(i.parts) == 1 and i.parts[0][0] == 'n' and rv(i.parts[0][1]) == k)
        key = z3.Const('somekey', TextSort)
        h, v = lookup_term(ip, m(ip, o, 'get_agg_data'), key)
        ctx.oblige('cells.same-data', z3.And(h == DATA.HAS(k, key), z3.Implies(h, v == DATA.VAL(k, key))))
    ctx.explore(only)

    def present():
        k = ctx.int('k')
        S.geo.use(ip, k)
        ctx.assume(z3.And(S.alive(k), k != gone if gone is not None else True))
        register(ip, POS(k))
        for s in l.segs:
            if isinstance(s, Seg):
                root, shift = getattr(s, 'base', (s, 0))
                register(ip, rv(simp(POS(k) - shift)))
                forall_items(ip, s, True, lambda o: bnot(simp(S.key(o) == k)))
        ctx.oblige('cells.others-present', False)
    ctx.explore(present)


def splitting(part):
    def run(T):
        ip, ctx = T.interp(), T.ctx

        def go():
            S = State(T, ip)
            ip.contracts = S.contracts()
            k, out = T.calls(ip, (EM, 'EnvironmentMesh.split_and_replace'), [S.mesh, Rope([('n', S.c)])])
            ctx.oblige('split.no-exception', k == 'ok', info=str(out))
            if k != 'ok':
                return
            kids = [rv(simp(S.base + 1 + q)) for q in range(4)]
            if part == 'cells':
                check_cells(S, ip.getattr(S.mesh, 'agg_cellboxes'), S.newcells, S.c)
            else:
                check_graph(S, kids, S.c, (part,))
        T.run(go)
    return run


C = ('requires: any finished mesh with distinct ids, cells narrower than 180 degrees with disjoint interiors, the graph lists exactly the touching cells; '
     'ensures: the same cells without the split one and with its four quarters, the graph lists exactly the touching ones; contracts used: sim_split_cellbox (C02), get_cellbox, get_neighbour_case_bounds (C04)')
for part in ('cells', 'old', 'new'):  # noqa
    task('C07', f'split_and_replace ({ {"cells": "list of cells", "old": "lists of the other cells", "new": "lists of the children"}[part] })', C, seconds=500)(splitting(part))


@task('C07', 'get_cellbox', 'requires: any list of cells with distinct ids (some of them appended later), any number or its text; ensures: the cell with that id, None if there is none; nothing changes')
def get_cellbox(T):
    ip, ctx = T.interp(), T.ctx

    def go():
        S = State(T, ip)
        extra = []
        for q in range(4):
            k = rv(simp(S.base + 1 + q))
            ctx.assume(z3.And(S.geo.valid(k), z3.Not(zb(S.alive(k)))))
            o = S.new_cell(k, PyDict([BaseEntries(DATA, k)]))
            S.kids[id(o)] = (o, k)
            extra.append(o)
        for late in (False, True):
            def one():
                if late:
                    for o in extra:
                        m(ip, S.mesh, 'add_cellbox', o)
                t = ctx.int('wanted')
                S.geo.use(ip, t)
                register(ip, t)
                register(ip, POS(t))
                segs = ip.getattr(S.mesh, 'agg_cellboxes').segs
                for q in (norm(t), Rope([('n', t)])):
                    def ask():
                        k, out = T.calls(ip, (EM, 'EnvironmentMesh.get_cellbox'), [S.mesh, q])
                        ctx.oblige('get_cellbox.no-exception', k == 'ok', info=str(out))
                        here = z3.Or(S.alive(t), *[t == S.kids[id(o)][1] for o in extra] if late else [])
                        if out is None:
                            T.cover('absent')
                            ctx.oblige('get_cellbox.found-if-there', z3.Not(here))
                        else:
                            T.cover('found')
                            ctx.oblige('get_cellbox.right-cell', z3.And(here, S.key(out) == t))
                        ctx.oblige('get_cellbox.list-unchanged', ip.getattr(S.mesh, 'agg_cellboxes').segs == segs)
                    ctx.explore(ask)
            ctx.explore(one)
    T.run(go)
