"""C05: the initial neighbour graph."""
from ..task import task
from ..spec import *
from ..scale import Scale, lemma
from ..inv import Inv, InvSeq
from ..loops import register
from ..interp import RangeVal, Opaque
from .c06 import MB, NG, CB

STEP = {2: (0, 1), -2: (0, -1), -4: (1, 0), 4: (-1, 0), 1: (1, 1), 3: (-1, 1), -1: (-1, -1), -3: (1, -1)}      # rows run south to north

task('C05', 'lemma-multiples', 'lemma: the facts used about products k*y hold of the product')(lemma)


class Grid:
    def __init__(self, ctx, least=1):
        self.R, self.w = ctx.int('rows'), ctx.int('cols')
        ctx.assume(z3.And(self.R >= 1, self.w >= least))
        self.s = Scale(ctx, self.w, 'cols')
        self.N = self.s.times(self.R)

    def cell(self, ctx, name=''):
        r, c = ctx.int(name + 'row'), ctx.int(name + 'col')
        ctx.assume(z3.And(r >= 0, r < self.R, c >= 0, c < self.w))
        self.s.use(r)
        self.s.use(r + 1)
        self.s.use(r - 1)
        return r, c, self.s.times(r) + c

    def next(self, r, c, d):
        dr, dc = STEP[d]
        return z3.And(r + dr >= 0, r + dr < self.R, c + dc >= 0, c + dc < self.w)


def check_map(T, ip, g, r, c, i, mp, tag):
    ctx = ip.ctx
    ok = isinstance(mp, PyDict) and all(isinstance(e, tuple) and isinstance(e[0], int) for e in mp.ents) and sorted(k for k, _ in mp.ents) == sorted(STEP)
    ctx.oblige(tag + '.eight-directions', ok)
    if not ok:
        return
    ls = [v for _, v in mp.ents]
    ctx.oblige(tag + '.separate-lists', all(isinstance(v, PyList) for v in ls) and len({id(v) for v in ls}) == 8)
    for d, l in mp.ents:
        def one():
            n = rv(models.length(ip, l))
            if ctx.branch(g.next(r, c, d)):
                T.cover(f'neighbour in direction {d}')
                ctx.oblige(tag + '.one-neighbour', n == 1)
                ctx.assume(n == 1)
                v = models.seq_index(ip, l, 0)
                dr, dc = STEP[d]
                ctx.oblige(tag + '.the-right-neighbour', rv(v) == i + dr * g.w + dc)
                ctx.oblige(tag + '.number-is-an-int', isinstance(v, int) or z3.is_int(v))
            else:
                ctx.oblige(tag + '.no-neighbour', n == 0)
        ctx.explore(one)


def imap(kind):
    def run(T):
        ip, ctx = T.interp(), T.ctx

        def go():
            g = Grid(ctx)
            r, c, i = g.cell(ctx)
            for k, t in (('rows', g.R), ('cols', g.w), ('row', r), ('col', c)):
                T.input(k, t)
            ng = Obj(ip.find(NG, 'NeighbourGraph'), dict(neighbour_graph=PyDict(), _is_global_mesh=False))
            k, out = T.calls(ip, (NG, 'NeighbourGraph.initialise_map'), [ng, simp(i), g.w if kind == 'int' else z3.ToReal(g.w), g.N])
            ctx.oblige('map.no-exception', k == 'ok', info=str(out))
            if k == 'ok':
                check_map(T, ip, g, r, c, i, out, 'map')
        T.run(go)
        T.replay = None
    return run


for kind in ('int', 'float'):  # noqa
    task('C05', f'initialise_map ({kind} width)', 'requires: any grid of rows x columns, any cell of it (number row*columns+column); ensures: a new map with the eight directions and separate lists, '
         'listing under each direction exactly the grid cell next to it, if there is one')(imap(kind))


@task('C05', 'NeighbourGraph(cells, width)', 'requires: a list of any number of cells (a whole number of rows); ensures: one node per cell number, each holding the map made by initialise_map for that number, '
      'the given width and the number of cells; not global; contract used: initialise_map')
def construct(T):
    ip, ctx = T.interp(), T.ctx

    def go():
        g = Grid(ctx)
        width = z3.ToReal(g.w)

        def fn(ctx, i):
            return [(True, any_cell(ip, ip.call(ip.find(CB, 'CellBox'), [boundary(ip, RectOf(F, i)), Rope([('n', i)])]), i))]
        F = CellFns('init')
        seg = Seg(RangeDom(g.N), lambda ctx, i: (ctx.assume(F.valid(i)), fn(ctx, i))[1], 'cells')
        seg.uniform = 1

        def imap(ip, f, a, kw):
            a = list(a) + [None] * 3
            i, w, n = [kw.get(k, v) for k, v in zip(('cellbox_indx', 'grid_width', 'cellboxes_length'), a[1:4])]
            ctx.oblige('initialise_map.arguments', z3.And(as_real(rv(w)) == width, rv(n) == g.N, rv(i) >= 0, rv(i) < g.N))
            return Term('map', i)
        ip.contracts = {NG + ':NeighbourGraph.initialise_map': imap}
        T.under_contract.add(NG + ':NeighbourGraph.initialise_neighbour_graph')
        cells = PyList([seg])
        try:
            ng = ip.call(ip.find(NG, 'NeighbourGraph'), [cells, width])
        except PyRaise as e:
            ctx.oblige('graph.no-exception', False, info=str(e.exc))
            return
        ctx.oblige('graph.not-global', bnot(ip.truth(m(ip, ng, 'is_global_mesh'))))
        gr = m(ip, ng, 'get_graph')
        ctx.oblige('graph.cells-unchanged', cells.segs == (seg,))

        def node():
            i = ctx.int('i')
            ctx.assume(z3.And(i >= 0, i < g.N))
            register(ip, i)
            T.cover('a node')
            e = models.dict_find(ip, gr, i)
            ctx.oblige('graph.node-per-cell', e is not None)
            if e is not None:
                ctx.oblige('graph.map-of-the-cell', isinstance(e[1], Term) and e[1].kind == 'map')
                ctx.oblige('graph.map-of-the-cell', rv(e[1].args[0]) == i)

        def other():
            i = ctx.int('i')
            ctx.assume(z3.Or(i < 0, i >= g.N))
            register(ip, i)
            ctx.oblige('graph.no-other-node', models.dict_find(ip, gr, i) is None)
        ctx.explore(node)
        ctx.explore(other)
    T.run(go)


class Ghost(Heap):
    pass


class Rows(Inv):
    """the rows joined so far: (X, D, Y) is listed once per grid adjacency, plus, for X in an earlier row, once if the columns wrap"""
    name = 'check_global_mesh, rows'

    def __init__(self, S):
        self.S = S

    def owns(self, h, slot):
        return h is self.S.g

    def start(self, ip):
        ip.ctx.write(self.S.g, 'turn', 0)

    def havoc(self, ip):
        S, ctx = self.S, ip.ctx
        ctx.write(S.g, 'turn', ctx.int('turn'))
        ctx.write(S.g, 'count', ctx.int('count'))
        t = S.g.d['turn']
        for k in (t, t + 1, t - 1):
            S.grid.s.use(k)
        ctx.assume(z3.And(t >= 0, t <= S.grid.R))

    def holds(self, ip):
        S = self.S
        return [('entries so far', rv(S.g.d['count']) == S.listed(z3.BoolVal(False)) + z3.If(S.x[0] < rv(S.g.d['turn']), S.wrapped(), 0))]

    def step(self, ip):
        ip.ctx.write(self.S.g, 'turn', simp(rv(self.S.g.d['turn']) + 1))

    def after(self, ip):
        ip.ctx.assume(self.S.g.d['turn'] == self.S.grid.R)


class Wrap:
    def __init__(self, T, ip, d):
        ctx = ip.ctx
        self.T, self.ip, self.ctx, self.D = T, ip, ctx, d
        grid = self.grid = Grid(ctx, 1)
        self.x, self.y = grid.cell(ctx, 'x'), grid.cell(ctx, 'y')
        for t, n in ((self.x, 'x'), (self.y, 'y')):
            T.input(n + 'row', t[0])
            T.input(n + 'col', t[1])
        self.lo, self.hi = ctx.real('long_min'), ctx.real('long_max')
        self.g = Ghost()
        self.g.d.update(turn=0, count=self.listed(z3.BoolVal(False)))
        F = self.F = CellFns('init')

        def fn(ctx, i):
            ctx.assume(F.valid(i))
            return [(True, any_cell(ip, ip.call(ip.find(CB, 'CellBox'), [boundary(ip, RectOf(F, i)), Rope([('n', i)])]), i))]
        s = Seg(RangeDom(grid.N), fn, 'cells')
        s.uniform = 1
        self.cells = PyList([s])
        self.ng = Obj(ip.find(NG, 'NeighbourGraph'), dict(neighbour_graph=Opaque('graph'), _is_global_mesh=False))

    def listed(self, wrap):
        """is y the grid cell next to x in direction D?"""
        (rx, cx, _), (ry, cy, _) = self.x, self.y
        dr, dc = STEP[self.D]
        return z3.If(z3.And(ry == rx + dr, cy == cx + dc), z3.IntVal(1), z3.IntVal(0))

    def wrapped(self):
        (rx, cx, _), (ry, cy, _) = self.x, self.y
        dr, dc = STEP[self.D]
        if dc == 0:
            return z3.IntVal(0)
        return z3.If(z3.And(ry == rx + dr, cx + dc == (self.grid.w if dc == 1 else -1), cy == (0 if dc == 1 else self.grid.w - 1)), z3.IntVal(1), z3.IntVal(0))

    def add(self, ip, f, a, kw):
        ctx = self.ctx
        a = list(a) + [None] * 3
        i, d, j = [kw.get(k, v) for k, v in zip(('index', 'direction', 'neighbour_indx'), a[1:4])]
        if not isinstance(d, int):
            raise Unsupported('direction')
        ctx.oblige('add_neighbour.precondition: an existing cell, by number', z3.And(*[z3.And(rv(x) >= 0, rv(x) < self.grid.N) for x in (i, j)]) if all(isinstance(x, int) or is_z3(x) and z3.is_int(x) for x in (i, j)) else False)
        ctx.oblige('add_neighbour.precondition: a direction', d in STEP)
        if d == self.D:
            hit = z3.And(rv(i) == self.x[2], rv(j) == self.y[2])
            ctx.write(self.g, 'count', simp(rv(self.g.d['count']) + z3.If(hit, z3.IntVal(1), z3.IntVal(0))))
        return None


def over_rows(S):
    def rule(ip, it, body, fr):
        segs = list(ip.segments(it)) if isinstance(it, (RangeVal, PyList)) else []
        if len(segs) != 1 or not isinstance(segs[0], Seg) or segs[0].uniform != 1 or not isinstance(segs[0].dom, RangeDom) or not ip.ctx.must(simp(rv(segs[0].dom.n) == S.grid.R)):
            return None

        def element(ip):
            t = S.g.d['turn']
            ip.ctx.assume(t < S.grid.R)
            register(ip, t)
            its = segs[0].items(ip.ctx, t)
            if len(its) != 1:
                raise Unsupported('element')
            return its[0][1]
        return InvSeq(Rows(S), element).run_loop(ip, body, fr)
    return rule


def glob(d):
    def run(T):
        ip, ctx = T.interp(), T.ctx

        def go():
            S = Wrap(T, ip, d)
            lo, hi = S.lo, S.hi
            ctx.assume(z3.And(lo >= -180, lo <= 180, hi >= -180, hi <= 180, lo != hi))
            b = boundary(ip, RectOf4(z3.RealVal(-90), z3.RealVal(90), lo, hi))
            bld = Obj(ip.find(MB, 'MeshBuilder'), dict(neighbour_graph=S.ng, config=PyDict()))
            ip.contracts = {NG + ':NeighbourGraph.add_neighbour': S.add}
            ip.seq_rules = [over_rows(S)]
            k, out = T.calls(ip, (MB, 'MeshBuilder.check_global_mesh'), [bld, b, S.cells, S.grid.w])
            ctx.oblige('global.no-exception', k == 'ok', info=str(out))
            if k != 'ok':
                return
            isg = z3.And(lo == -180, hi == 180)
            r = ip.truth(out)
            ctx.oblige('global.marked-exactly-if-all-longitudes', zb(r) == isg)
            ctx.oblige('global.result-is-bool', isinstance(out, (bool, z3.BoolRef)))
            n = rv(S.g.d['count'])
            w = ctx.branch(isg)
            T.cover('global' if w else 'not global')
            if w:
                ctx.oblige('global.listed-once-if-adjacent-with-wrapping', n == S.listed(None) + S.wrapped())
                ctx.oblige('global.at-most-once', n <= 1)
            else:
                ctx.oblige('global.otherwise-unchanged', n == S.listed(None))
        T.run(go)
    return run


for d in STEP:  # noqa
    task('C05', f'check_global_mesh (direction {d})', 'requires: a grid of any number of rows and columns, the graph of grid adjacencies, any region longitudes; ensures: True exactly for -180 to 180; then every pair of cells is listed '
         'in this direction exactly once if adjacent when columns wrap, else not; otherwise the graph is unchanged; contract used: NeighbourGraph.add_neighbour')(glob(d))


@task('C05', 'add_neighbour', 'requires: a graph with the node; ensures: the number is appended to the list of that node and direction, nothing else changes')
def add_neighbour(T):
    ip, ctx = T.interp(), T.ctx

    def go():
        i, j, o = ctx.int('i'), ctx.int('j'), ctx.int('o')
        ctx.assume(i != o)
        for d in STEP:
            def one():
                old = {(x, e): [ctx.int('n')] for x in 'io' for e in STEP}
                nodes = {x: PyDict([(e, PyList(old[x, e])) for e in STEP]) for x in 'io'}
                ng = Obj(ip.find(NG, 'NeighbourGraph'), dict(neighbour_graph=PyDict([(i, nodes['i']), (o, nodes['o'])]), _is_global_mesh=False))
                lists = {(x, e): dict(nodes[x].ents)[e] for x in 'io' for e in STEP}
                k, out = T.calls(ip, (NG, 'NeighbourGraph.add_neighbour'), [ng, i, d, j])
                ctx.oblige('add.no-exception', k == 'ok', info=str(out))
                gr = m(ip, ng, 'get_graph')
                ctx.oblige('add.same-nodes', len(gr.ents) == 2)
                for x, key in (('i', i), ('o', o)):
                    for e in STEP:
                        l = m(ip, ng, 'get_neighbours', key, e)
                        want = old[x, e] + ([j] if (x, e) == ('i', d) else [])
                        ctx.oblige('add.lists', len(l.segs) == len(want) and z3.And(*[rv(a) == rv(b) for a, b in zip(l.segs, want)]))
            ctx.explore(one)
    T.run(go)
