"""C15: merging one finished mesh into another."""
from ..task import task
from ..spec import *
from ..loops import register, Inst, mentions
from ..graph import SymGraph, Drop, DIRS, key_of
from ..inv import Inv, InvSeq
from ..scale import Scale, lemma

EM, NG, AC = MG + 'environment_mesh', MG + 'neighbour_graph', MG + 'aggregated_cellbox'
I, B = z3.IntSort(), z3.BoolSort()
DATA = DictFns('mdata')


class Cells:
    """a list of any number of cells with distinct ids, known by their ids; their rectangles do not cross the antimeridian"""
    def __init__(self, ip, tag, fns, n=None):
        ctx = ip.ctx
        self.ip, self.ctx, self.tag, self.F = ip, ctx, tag, fns
        self.ID, self.POS = z3.Function('id_' + tag, I, I), z3.Function('pos_' + tag, I, I)
        self.n = ctx.int('n_' + tag) if n is None else n
        ctx.assume(self.n >= 0)
        t = ctx.int('cell_' + tag)
        k = self.ID(t)
        self.used = {}
        ctx.assume(self.ok(t))
        born = next(Heap._n)
        obj = self.make(k)

        def fn(ctx, i):
            self.use(i)
            return [(True, Inst(ctx, t, i, [], born).val(obj))]
        self.seg = Seg(RangeDom(self.n), fn, tag)
        self.seg.uniform = 1

    def make(self, k):
        ip = self.ip
        return ip.call(ip.find(AC, 'AggregatedCellBox'), [boundary(ip, RectOf(self.F, k)), PyDict([BaseEntries(DATA, k)]), Rope([('n', k)])])

    def ok(self, i):
        a, b, lo, hi = self.F.rect(self.ID(i))
        return z3.And(self.POS(self.ID(i)) == i, self.ID(i) >= 0, a < b, a >= -90, b <= 90, lo >= -180, hi <= 180, lo < hi)

    def use(self, i):
        self.ctx.assume_univ(z3.Implies(z3.And(rv(i) >= 0, rv(i) < self.n), self.ok(rv(i))))

    def has(self, k):
        """is k the id of one of them?"""
        self.use(self.POS(k))
        return z3.And(self.POS(k) >= 0, self.POS(k) < self.n, self.ID(self.POS(k)) == k)

    def id_of(self, o):
        """the id of an element (or of the element a boundary belongs to)"""
        if isinstance(o, Heap) and o.origin is not None and o.origin[0] is self.seg and o.path in ((), ('boundary',)):
            return self.ID(rv(o.origin[1]))
        return None


def unchanged(ip, C, o, k):
    key = z3.Const('somekey', TextSort)
    h, v = lookup_term(ip, m(ip, o, 'get_agg_data'), key)
    i = m(ip, o, 'get_id')
    return z3.And(*[a == b for a, b in zip(read_rect(ip, m(ip, o, 'get_bounds')), C.F.rect(k))], zb(isinstance(i, Rope) and len(i.parts) == 1 and i.parts[0][0] == 'n' and rv(i.parts[0][1]) == k),
                  h == DATA.HAS(k, key), z3.Implies(h, v == DATA.VAL(k, key)))


# ------------------------------------------------------------------ which meshes may be merged
@task('C15', 'validate_merge_compatibility', 'requires: any two regions, any positive cell size of the first; ensures: True exactly if height and width of the second region, and the distances between the southern and between the western edges, '
      'are whole multiples of cell height and width')
def validate(T):
    ip, ctx = T.interp(), T.ctx

    def go():
        a, b = Rect(ctx, 'first'), Rect(ctx, 'second')
        ctx.assume(z3.And(a.lo < a.hi, b.lo < b.hi))
        cw, ch = ctx.real('cell_width'), ctx.real('cell_height')
        ctx.assume(z3.And(cw > 0, ch > 0))
        cfg = PyDict([('region', PyDict([('cell_width', cw), ('cell_height', ch)]))])
        m1, m2 = [mesh_of(ip, [], None, boundary(ip, r), c) for r, c in ((a, cfg), (b, PyDict()))]
        k, out = T.calls(ip, (EM, 'EnvironmentMesh.validate_merge_compatibility'), [m1, m2])
        ctx.oblige('compatible.no-exception', k == 'ok', info=str(out))
        if k != 'ok':
            return
        rem = lambda x, y: floor_divide(ctx, simp_r(x), y)[1]
        want = z3.And(rem(b.h, ch) == 0, rem(b.w, cw) == 0, rem(a.lat0 - b.lat0, ch) == 0, rem(a.lo - b.lo, cw) == 0)
        T.cover('refused') if ctx.feasible(z3.Not(want)) else None
        T.cover('accepted') if ctx.feasible(want) else None
        ctx.oblige('compatible.exactly-if-aligned-and-divisible', zb(ip.truth(out)) == want)
    T.run(go)


task('C15', 'lemma-multiples', 'lemma: the facts used about products k*y hold of the product')(lemma)


@task('C15', 'lemma-aligned', 'lemma: if the edges of a compatible region (difference of the lower edges and extent whole multiples of the cell size) and a cell lies within a cell of the grid, it does not reach across the edges')
def aligned(T):
    ctx = T.ctx

    def go():
        y, g0, e0, ext = ctx.real('size'), ctx.real('grid_edge'), ctx.real('region_edge'), ctx.real('extent')
        ctx.assume(z3.And(y > 0, ext > 0))
        S = Scale(ctx, y, 'size')
        m, n, k = ctx.int('m'), ctx.int('n'), ctx.int('k')
        # a remainder of 0: whole multiples (of either sign)
        p, q, r = S.times(m), S.times(n), S.times(m + n)
        ctx.assume(z3.And(e0 - g0 == p, ext == q, r == p + q))
        c, d = ctx.real('cell_from'), ctx.real('cell_to')
        ctx.assume(z3.And(c < d, c >= g0 + S.times(k), d <= g0 + S.times(k) + y))
        for e in (e0, e0 + ext):
            if ctx.feasible(d <= e) and ctx.feasible(c >= e):
                T.cover('either side')
            ctx.oblige('aligned.not-across', z3.Or(d <= e, c >= e))
    T.run(go)


@task('C15', 'lemma-sum-of-multiples', 'lemma: the sum of two whole multiples is the multiple of the sum')
def sums(T):
    def go():
        m, n, y = T.ctx.int('m'), T.ctx.int('n'), T.ctx.real('y')
        T.ctx.oblige('sum-of-multiples', z3.ToReal(m + n) * y == z3.ToReal(m) * y + z3.ToReal(n) * y)
    T.run(go)


# ------------------------------------------------------------------ selections
def inside(r, b):
    return z3.And(r[0] >= b[0], r[1] <= b[1], r[2] >= b[2], r[3] <= b[3])


SELECT = {
    'get_cellboxes_within_bounds': inside,
    'get_cellboxes_north_of_bounds': lambda r, b: z3.And(r[0] == b[1], r[3] >= b[2], r[2] <= b[3]),
    'get_cellboxes_south_of_bounds': lambda r, b: z3.And(r[1] == b[0], r[3] >= b[2], r[2] <= b[3]),
    'get_cellboxes_east_of_bounds': lambda r, b: z3.And(r[2] == b[3], r[0] >= b[0], r[1] <= b[1]),
    'get_cellboxes_west_of_bounds': lambda r, b: z3.And(r[3] == b[2], r[0] >= b[0], r[1] <= b[1]),
    'get_top_edge_cellboxes': lambda r, b: r[1] == b[1],
    'get_bottom_edge_cellboxes': lambda r, b: r[0] == b[0],
    'get_right_edge_cellboxes': lambda r, b: r[3] == b[3],
    'get_left_edge_cellboxes': lambda r, b: r[2] == b[2],
}
WORDS = dict(within='lying inside the region', north='touching the northern edge from outside, corners included', south='touching the southern edge from outside, corners included',
             east='touching the eastern edge from outside, between its corners', west='touching the western edge from outside, between its corners',
             top='reaching the northern edge', bottom='reaching the southern edge', right='reaching the eastern edge', left='reaching the western edge')


def check_selection(T, ip, C, l, pred, tag):
    """l holds exactly the cells satisfying pred, each once, unchanged"""
    ctx = ip.ctx

    def items():
        for s in l.segs:
            its = [(True, s)]
            if isinstance(s, Seg):
                i = s.dom.fresh(ctx)
                ctx.assume(s.dom.member(i))
                its = s.items(ctx, i)
            for g, o in its:
                def one():
                    ctx.assume(g)
                    k = C.id_of(o)
                    if k is None:
                        raise Unsupported('selection of other objects')
                    T.cover('selected')
                    ctx.oblige(tag + '.cells-unchanged', unchanged(ip, C, o, k))
                ctx.explore(one)
    ctx.explore(items)
    k = ctx.int('k')
    n = occurrences(ip, C, l, k)
    ctx.oblige(tag + '.exactly-those-once', n == z3.If(z3.And(C.has(k), pred(k)), z3.IntVal(1), z3.IntVal(0)))


def occurrences(ip, C, l, k):
    """how often the cell with id k is in the list l"""
    ctx, tot = ip.ctx, z3.IntVal(0)
    for s in l.segs:
        if not isinstance(s, Seg):
            tot = tot + z3.If(C.id_of(s) == k, z3.IntVal(1), z3.IntVal(0))
            continue
        i = s.dom.fresh(ctx)
        for n, (g, o) in enumerate(s.items(ctx, i)):
            t = C.id_of(o)
            if t is None or not t.eq(C.ID(i)):
                raise Unsupported('list of cells of another shape')
            g2, o2 = s.items(ctx, C.POS(k))[n]
            tot = tot + z3.If(zb(band(s.dom.member(C.POS(k)), g2, C.id_of(o2) == k)), z3.IntVal(1), z3.IntVal(0))
    return tot


def select(name):
    def run(T):
        ip, ctx = T.interp(), T.ctx

        def go():
            r = Rect(ctx, 'region')
            ctx.assume(r.lo < r.hi)
            b = boundary(ip, r)
            C = Cells(ip, 'cells', CellFns('m'))
            mesh = mesh_of(ip, [C.seg], None, b if 'edge' in name else None, PyDict())
            l0 = ip.getattr(mesh, 'agg_cellboxes')
            k, out = T.calls(ip, (EM, 'EnvironmentMesh.' + name), [mesh] + ([] if 'edge' in name else [b]))
            ctx.oblige('select.no-exception', k == 'ok', info=str(out))
            if k != 'ok':
                return
            ctx.oblige('select.mesh-unchanged', ip.getattr(mesh, 'agg_cellboxes') is l0 and l0.segs == (C.seg,) and out is not l0)
            check_selection(T, ip, C, out, lambda k: SELECT[name](C.F.rect(k), (r.lat0, r.lat1, r.lo, r.hi)), 'select')
        T.run(go)
    return run


for name in SELECT:  # noqa
    task('C15', name, f'requires: any list of cells with distinct ids, any region; ensures: a new list of exactly the cells {WORDS[name.split("_")[2 if "edge" not in name and "within" in name or "_of_" in name else 1]]}, each once; nothing changes')(select(name))


@task('C15', 'get_max_cellbox_id', 'requires: any list of cells with ids that are not negative; ensures: the number returned is at least every id, and 0 or one of them')
def max_id(T):
    ip, ctx = T.interp(), T.ctx

    def go():
        C = Cells(ip, 'cells', CellFns('m'))
        mesh = mesh_of(ip, [C.seg], None, None, PyDict())
        k, out = T.calls(ip, (EM, 'EnvironmentMesh.get_max_cellbox_id'), [mesh])
        ctx.oblige('max.no-exception', k == 'ok', info=str(out))
        if k != 'ok':
            return
        ctx.oblige('max.a-number', is_num(out) and z3.is_int(rv(out)))
        i = ctx.int('i')
        ctx.assume(z3.And(i >= 0, i < C.n))
        register(ip, i)
        C.use(i)
        T.cover('some cell')
        ctx.oblige('max.bounds-every-id', rv(out) >= C.ID(i))
    T.run(go)


# ------------------------------------------------------------------ tying the graphs
SIDES = {'northern': (4, -1, 3), 'southern': (-4, -3, 1), 'eastern': (-2, -1, -3), 'western': (2, 3, 1)}


def tie(side):
    towards = SIDES[side]

    def run(T):
        ip, ctx = T.interp(), T.ctx

        def go():
            F = CellFns('m')
            ext, inn = Cells(ip, 'ext', F), Cells(ip, 'int', F)
            LIVE, M, CASE = z3.Function('node', I, B), z3.Function('entries', I, I, I, I), z3.Function('case', I, I, I)
            def alive(k):
                key = ('node', rv(k).get_id())
                if key not in ctx.fh.d:
                    ctx.write(ctx.fh, key, k)
                    ctx.assume_univ(z3.Implies(z3.Or(ext.has(k), inn.has(k)), LIVE(k)))
                    ctx.assume_univ(z3.Not(z3.And(ext.has(k), inn.has(k))))
                return LIVE(k)
            g = SymGraph('str', alive, lambda ip, x, d, y: M(x, d, y))
            g.inverse = {c.ID.name(): c.POS for c in (ext, inn)}
            ng = ip.call(ip.find(NG, 'NeighbourGraph'))
            ip.setattr(ng, 'neighbour_graph', g)
            mesh = mesh_of(ip, [], ng, None, PyDict())

            def facts(x, y):
                c = CASE(x, y)
                for a, b, s in ((ext, inn, 1), (inn, ext, -1)):
                    ctx.assume_univ(z3.Implies(z3.And(a.has(x), b.has(y)), z3.Or(c == 0, *[c == s * d for d in towards])))
                return c

            def case(ip, f, a, kw):
                ks = []
                for o in [*a[1:], *kw.values()]:
                    k = [c.id_of(o) for c in (ext, inn)]
                    k = [x for x in k if x is not None]
                    if len(k) != 1:
                        raise Unsupported('case of other boundaries')
                    ks.append(k[0])
                    alive(k[0])
                return facts(*ks)
            ip.contracts = {NG + ':NeighbourGraph.get_neighbour_case_bounds': case}
            le, li = PyList([ext.seg]), PyList([inn.seg])
            k, out = T.calls(ip, (EM, f'EnvironmentMesh.tie_{side}_cellbox_ng'), [mesh, le, li])
            ctx.oblige('tie.no-exception', k == 'ok', info=str(out))
            if k != 'ok':
                return
            ctx.oblige('tie.lists-unchanged', le.segs == (ext.seg,) and li.segs == (inn.seg,))
            ctx.oblige('tie.same-graph', ip.getattr(mesh, 'neighbour_graph') is ng and ip.getattr(ng, 'neighbour_graph') is g)
            x, y = ctx.int('x'), ctx.int('y')
            for q in (x, y):
                alive(q)
                register(ip, q)
            register(ip, ext.POS(x))
            ctx.assume(LIVE(x))
            ctx.oblige('tie.nodes', g.d['str'] == ())
            c = facts(x, y)
            pair = z3.Or(z3.And(ext.has(x), inn.has(y)), z3.And(inn.has(x), ext.has(y)))
            T.cover('a pair') if ctx.feasible(z3.And(pair, c != 0)) else None
            T.cover('no pair') if ctx.feasible(z3.Not(pair)) else None
            for d in DIRS:
                def one(d=d):
                    v = g.final(ip, x, z3.IntVal(d), y)
                    ctx.oblige(f'tie.entries', False if v is None else rv(v) == M(x, z3.IntVal(d), y) + z3.If(z3.And(pair, c == d), z3.IntVal(1), z3.IntVal(0)))
                ctx.explore(one)
        T.run(go)
    return run


for side in SIDES:  # noqa
    task('C15', f'tie_{side}_cellbox_ng', f'requires: any graph; two lists of any number of its cells with different ids, one outside and one inside that edge, so that they can touch only across it; ensures: every pair of an outer and an inner cell '
         'that touch gets listed once more in both directions, under the right direction, and nothing else changes; contract used: get_neighbour_case_bounds (C04)')(tie(side))


# ------------------------------------------------------------------ removing the overlapped cells
class Ghost(Heap):
    pass


class Removing(Inv):
    """after looking at the first `turn` cells of the list, exactly those among them inside the region are removed"""
    name = 'removal'

    def __init__(self, C, inside):
        self.C, self.inside, self.g = C, inside, Ghost()
        self.g.d.update(turn=z3.IntVal(0), gone=())

    def owns(self, h, slot):
        return h is self.g

    def closed(self, k):
        return z3.And(self.C.has(k), self.inside(k), self.C.POS(k) < self.g.d['turn'])

    def gone(self, ip, k):
        """is the cell with id k removed now?"""
        out = z3.BoolVal(False)
        for f in self.g.d['gone']:
            if isinstance(f, z3.FuncDeclRef):
                ip.ctx.assume_univ(f(k) == self.start_gone(k, f))
                out = f(k)
            else:
                out = z3.Or(out, k == f)
        return out

    def start_gone(self, k, f):
        return z3.And(self.C.has(k), self.inside(k), self.C.POS(k) < self.turns[f.name()])

    turns = {}

    def start(self, ip):
        ip.ctx.write(self.g, 'turn', z3.IntVal(0))

    def havoc(self, ip):
        ctx = ip.ctx
        t = ctx.int('turn')
        ctx.assume(z3.And(t >= 0, t <= self.C.n))
        f = z3.Function(f'gone!{next(Heap._n)}', I, B)
        self.turns[f.name()] = t
        ctx.write(self.g, 'turn', t)
        ctx.write(self.g, 'gone', (f,))

    def holds(self, ip):
        k = ip.ctx.int('anyid')
        return [('exactly the cells inside the region seen so far are removed', self.gone(ip, k) == self.closed(k))]

    def step(self, ip):
        ip.ctx.write(self.g, 'turn', simp(rv(self.g.d['turn']) + 1))

    def after(self, ip):
        ip.ctx.assume(self.g.d['turn'] == self.C.n)


@task('C15', 'remove_cellboxes_within_bounds', 'requires: any mesh with distinct ids, any region; ensures: remove_cellbox is called exactly once for each cell lying inside the region and for no other (its contract, C21: that cell leaves list and graph, nothing else changes)')
def remove_within(T):
    ip, ctx = T.interp(), T.ctx

    def go():
        r = Rect(ctx, 'region')
        ctx.assume(r.lo < r.hi)
        C = Cells(ip, 'cells', CellFns('m'))
        mesh = mesh_of(ip, [C.seg], None, None, PyDict())
        inv = Removing(C, lambda k: inside(C.F.rect(k), (r.lat0, r.lat1, r.lo, r.hi)))

        def remove(ip, f, a, kw):
            o = a[1] if len(a) > 1 else kw['cellbox']
            k = C.id_of(o)
            if k is None or a[0] is not mesh:
                raise Unsupported('removal of another object')
            ctx.oblige('remove_cellbox.precondition: a cell of the mesh, not removed before', z3.And(C.has(k), z3.Not(inv.gone(ip, k))))
            ctx.write(inv.g, 'gone', inv.g.d['gone'] + (k,))
            T.cover('a removal')

        def rule(ip, it, body, fr):
            if not isinstance(it, PyList) or it is ip.getattr(mesh, 'agg_cellboxes') or len(it.segs) != 1 or not isinstance(it.segs[0], Seg):
                return None
            s = it.segs[0]
            if not isinstance(s.dom, RangeDom) or not ip.ctx.must(simp(rv(s.dom.n) == C.n)):
                return None

            def element(ip):
                t = inv.g.d['turn']
                ctx.assume(t < C.n)
                register(ip, t)
                return s.items(ctx, t)

            def each(its):
                for g, v in its:
                    if ctx.branch(g):
                        q = body(v)
                        if q[0] in ('break', 'return'):
                            return q
                return NEXT
            return InvSeq(inv, element).run_loop(ip, each, fr)
        ip.contracts = {EM + ':EnvironmentMesh.remove_cellbox': remove}
        ip.seq_rules = [rule]
        k, out = T.calls(ip, (EM, 'EnvironmentMesh.remove_cellboxes_within_bounds'), [mesh, boundary(ip, r)])
        ctx.oblige('remove.no-exception', k == 'ok', info=str(out))
        if k != 'ok':
            return
        ctx.oblige('remove.by-remove_cellbox-only', ip.getattr(mesh, 'agg_cellboxes').segs == (C.seg,))
        x = ctx.int('x')
        ctx.oblige('remove.exactly-the-cells-inside', inv.gone(ip, x) == z3.And(C.has(x), inv.inside(x)))
    T.run(go)


# ------------------------------------------------------------------ merging
def number(ip, o):
    """the number an element's id text stands for"""
    t = m(ip, o, 'get_id')
    if not (isinstance(t, Rope) and len(t.parts) == 1 and t.parts[0][0] == 'n'):
        raise Unsupported('id that is not the text of a number')
    return rv(t.parts[0][1])


class Tie:
    """every touching pair of an element of ext and one of int gets listed once more, in both directions"""
    def __init__(self, S, ext, inn):
        self.S, self.ext, self.inn = S, ext, inn

    def delta(self, g, ip, x, d, y):
        tot = z3.IntVal(0)
        for a, b in ((self.ext, self.inn), (self.inn, self.ext)):
            for ca, oa in a(x):
                for cb, ob in b(y):
                    c = simp(z3.And(zb(ca), zb(cb)))
                    if c is not False:
                        tot = tot + z3.If(z3.And(zb(c), self.S.case_of(oa, ob) == d), z3.IntVal(1), z3.IntVal(0))
        return tot


class Merging:
    def __init__(self, T, ip, before):
        ctx = ip.ctx
        self.T, self.ip, self.ctx = T, ip, ctx
        self.r1, self.r2 = Rect(ctx, 'first'), Rect(ctx, 'second')
        for r in (self.r1, self.r2):
            ctx.assume(z3.And(r.lo < r.hi, r.lo > -180, r.hi < 180))
        self.b2 = (self.r2.lat0, self.r2.lat1, self.r2.lo, self.r2.hi)
        self.ok = ctx.bool('compatible')
        self.C1, self.C2 = [Cells(ip, t, CellFns(t)) for t in ('m1', 'm2')]
        self.CASE1, self.CASE2 = [z3.Function('case_' + t, I, I, I) for t in ('m1', 'm2')]
        self.tagged = {self.C1.tag: self.fact1, self.C2.tag: self.fact2}
        self.g1, self.g2 = [SymGraph('str', lambda k, C=C: C.has(k), lambda ip, x, d, y, C=C, f=f: z3.If(z3.And(C.has(x), C.has(y), f(x, y) == d), z3.IntVal(1), z3.IntVal(0)))
                            for C, f in ((self.C1, self.CASE1), (self.C2, self.CASE2))]
        self.ngs = []
        for g in (self.g1, self.g2):
            ng = ip.call(ip.find(NG, 'NeighbourGraph'))
            ip.setattr(ng, 'neighbour_graph', g)
            self.ngs.append(ng)
        self.nold = ctx.int('earlier merges')
        ctx.assume(self.nold >= 0)
        oldseg = Seg(RangeDom(self.nold), lambda ctx, i: [(True, Term('earlier', i))], 'earlier')
        oldseg.uniform = 1
        self.old = PyList([oldseg]) if before else None
        self.cfg1 = PyDict([('region', Term('region1'))] + ([('merged', self.old)] if before else []))
        self.cfg2 = PyDict([('region', Term('region2')), ('sources', PyList([Term('s')]))])
        self.m1 = mesh_of(ip, [self.C1.seg], self.ngs[0], boundary(ip, self.r1), self.cfg1)
        self.m2 = mesh_of(ip, [self.C2.seg], self.ngs[1], boundary(ip, self.r2), self.cfg2)
        self.list1, self.list2 = [ip.getattr(q, 'agg_cellboxes') for q in (self.m1, self.m2)]
        self.inc = None

    # what is known of every cell
    def fact1(self, k):
        a, b, lo, hi = self.C1.F.rect(k)
        B2 = self.b2
        off = lambda p, q, e: z3.Or(q <= e, p >= e)
        self.ctx.assume_univ(z3.Implies(self.C1.has(k), z3.And(lo > -180, hi < 180, z3.Implies(self.ok, z3.And(off(a, b, B2[0]), off(a, b, B2[1]), off(lo, hi, B2[2]), off(lo, hi, B2[3]))))))

    def fact2(self, k):
        self.ctx.assume_univ(z3.Implies(self.C2.has(k), inside(self.C2.F.rect(k), self.b2)))

    def inside(self, k):
        return inside(self.C1.F.rect(k), self.b2)

    def case_of(self, a, b):
        """direction in which the rectangle of b touches that of a"""
        ctx, ip = self.ctx, self.ip
        ra, rb = [read_rect(ip, m(ip, o, 'get_bounds')) for o in (a, b)]
        return self.case_rect(ra, rb)

    def case_rect(self, ra, rb):
        d = rb[2] - ra[2]
        return case_spec(self.ctx, (ra[0], ra[1], ra[2], ra[3] - ra[2]), (rb[0], rb[1], rb[2], rb[3] - rb[2]), d=z3.If(d >= 0, d, d + 360))

    def members(self, l):
        """function: number -> [(condition, element)] of the list l"""
        ip, ctx = self.ip, self.ctx
        segs = l.segs

        def f(x):
            out = []
            for s in segs:
                if not isinstance(s, Seg):
                    out.append((simp(number(ip, s) == x), s))
                    continue
                i = s.dom.fresh(ctx)
                for n, (g, o) in enumerate(s.items(ctx, i)):
                    t = number(ip, o)
                    j = None
                    for C in (self.C1, self.C2):
                        off = simp(t - C.ID(i))
                        if not mentions(off, i):
                            j = C.POS(x - rv(off))
                            C.use(j)
                            self.tagged[C.tag](x - rv(off))
                    if j is None:
                        raise Unsupported('numbering of a list of cells')
                    j = rv(simp(j))
                    g2, o2 = s.items(ctx, j)[n]
                    out.append((simp(z3.And(zb(s.dom.member(j)), zb(g2), number(ip, o2) == x)), o2))
            return out
        return f

    # contracts of the callees
    def validate(self, ip, f, a, kw):
        if a[0] is not self.m1 or (a[1] if len(a) > 1 else kw['mesh2']) is not self.m2:
            raise Unsupported('compatibility of other meshes')
        return self.ok

    def remove(self, ip, f, a, kw):
        ctx = self.ctx
        b = a[1] if len(a) > 1 else kw['bounds']
        l = ip.getattr(self.m1, 'agg_cellboxes')
        if a[0] is not self.m1 or l is not self.list1 or l.segs != (self.C1.seg,) or self.g1.d['log'] or self.g1.d['str']:
            raise Unsupported('removal in another state')
        ctx.oblige('merge.region-removed', z3.And(*[x == y for x, y in zip(read_rect(ip, b), self.b2)]))
        C = self.C1

        def fn(ctx, i):
            its = C.seg.items(ctx, i)
            self.fact1(C.ID(i))
            return [(simp(z3.Not(self.inside(C.ID(i)))), its[0][1])]
        s = Seg(C.seg.dom, fn, 'kept')
        s.base = (C.seg, 0)
        ctx.write(l, 'segs', (s,))
        gone = lambda k: z3.And(C.has(k), self.inside(k))
        ctx.write(self.g1, 'log', (Drop(gone),))
        ctx.write(self.g1, 'str', (('drop', gone),))
        self.T.cover('removal')

    def max_id(self, ip, f, a, kw):
        ctx = self.ctx
        mem = self.members(ip.getattr(a[0], 'agg_cellboxes'))
        r = ctx.int('maxid')
        ctx.assume(r >= 0)
        self.maxfact = lambda k: ctx.assume_univ(z3.Implies(z3.Or(*[zb(c) for c, _ in mem(k)]), k <= r))
        return r

    def shift(self, ip, f, a, kw):
        ng, inc = a[0], rv(a[1] if len(a) > 1 else kw['inc'])
        if ng in self.ngs:
            self.ctx.oblige('merge.argument-not-modified', ng is self.ngs[0])
        g = ip.getattr(ng, 'neighbour_graph')
        if not isinstance(g, SymGraph) or g.d['log'] or g.d['str'] or self.inc is not None:
            raise Unsupported('shift of a changed graph')
        self.ctx.write(self.sh, 'inc', inc)
        h = SymGraph('str', lambda k: g.alive(k - inc), lambda ip, x, d, y: g.mult0(ip, x - inc, d, y - inc))
        ip.setattr(ng, 'neighbour_graph', h)
        self.g2s = h

    def tie(self, side):
        towards = SIDES[side]

        def f(ip, fn, a, kw):
            ctx = self.ctx
            a = list(a) + list(kw.values())
            if a[0] is not self.m1:
                raise Unsupported('ties of another mesh')
            E, N = self.members(a[1]), self.members(a[2])
            x, y = ctx.int('x'), ctx.int('y')

            def pre():
                for t in (x, y):
                    self.maxfact(t)
                ex, ix, iy = E(x), N(x), N(y)
                s = lambda l: z3.Sum([z3.If(zb(c), z3.IntVal(1), z3.IntVal(0)) for c, _ in l] + [z3.IntVal(0)])
                ctx.oblige(f'{side} tie.precondition: no cell twice', s(ex) + s(ix) <= 1)
                ctx.oblige(f'{side} tie.precondition: nodes of the graph', z3.Implies(s(ex) + s(ix) > 0, zb(self.g1.has_t(ip, x))))
                for ca, oa in ex:
                    for cb, ob in iy:
                        c, r = self.case_of(oa, ob), self.case_of(ob, oa)
                        both = z3.And(zb(ca), zb(cb))
                        if ctx.feasible(both):
                            self.T.cover(f'{side} pair')
                        ctx.oblige(f'{side} tie.precondition: they touch only across that edge', z3.Implies(both, z3.And(z3.Or(c == 0, *[c == d for d in towards]), z3.Or(r == 0, *[r == -d for d in towards]))))
            ctx.explore(pre)
            t = [Tie(self, E, N) for _ in range(2)]
            for g, op in zip((self.g1, self.g2s), t):
                ctx.write(g, 'log', g.d['log'] + (op,))
        return f

    def contracts(self):
        E = EM + ':EnvironmentMesh.'
        return {E + 'validate_merge_compatibility': self.validate, E + 'remove_cellboxes_within_bounds': self.remove, E + 'get_max_cellbox_id': self.max_id,
                NG + ':NeighbourGraph.increment_ids': self.shift, **{E + f'tie_{s}_cellbox_ng': self.tie(s) for s in SIDES}}


def merging(part, before):
    def run(T):
        ip, ctx = T.interp(), T.ctx

        def go():
            S = Merging(T, ip, before)
            S.sh = Ghost()
            S.sh.d['inc'] = None
            ip.contracts = S.contracts()
            k, out = T.calls(ip, (EM, 'EnvironmentMesh.merge_mesh'), [S.m1, S.m2])
            good = ctx.branch(S.ok)
            ctx.oblige('merge.refused-exactly-if-incompatible', (k == 'ok') == good, info=str(out))
            if k != 'ok' or not good:
                T.cover('refused')
                ctx.oblige('merge.refused: nothing changes', ip.getattr(S.m1, 'agg_cellboxes') is S.list1 and S.list1.segs == (S.C1.seg,) and not S.g1.d['log'] and not S.g1.d['str'] and len(S.cfg1.ents) == (2 if before else 1)
                           and not S.C1.seg.d['ov'] and (not before or len(S.old.segs) == 1))
                argument(S)
                return
            T.cover('merged')
            inc = rv(S.sh.d['inc'])
            {'cells': cells, 'rest': rest}.get(part, lambda S, inc: graph(S, inc, part))(S, inc)
        T.run(go)
    return run


def argument(S):
    """the mesh given as argument is as before"""
    ip, ctx = S.ip, S.ctx
    same = ip.getattr(S.m2, 'agg_cellboxes') is S.list2 and S.list2.segs == (S.C2.seg,) and not S.C2.seg.d['dirty']
    same = same and ip.getattr(S.m2, 'neighbour_graph') is S.ngs[1] and ip.getattr(S.ngs[1], 'neighbour_graph') is S.g2 and not S.g2.d['log'] and not S.g2.d['str']
    ctx.oblige('merge.argument-not-modified', same)
    i = ctx.int('i')
    ctx.assume(z3.And(i >= 0, i < S.C2.n))
    o = S.C2.seg.items(ctx, i)[0][1]
    ctx.oblige('merge.argument-not-modified', unchanged(ip, S.C2, o, S.C2.ID(i)))
    ctx.oblige('merge.argument-not-modified', z3.And(*[x == y for x, y in zip(read_rect(ip, ip.getattr(S.m2, 'bounds')), S.b2)]))
    ctx.oblige('merge.argument-not-modified', ip.getattr(S.m2, 'config') is S.cfg2 and [k for k, _ in S.cfg2.ents] == ['region', 'sources'] and len(S.cfg2.ents[1][1].segs) == 1)


def cells(S, inc):
    ip, ctx, T = S.ip, S.ctx, S.T
    l = ip.getattr(S.m1, 'agg_cellboxes')
    ids = []

    def of(C, s, i):
        """elements of stretch s at i with the cell of C they are"""
        return [(g, o) for g, o in s.items(ctx, i)]

    def origin(s):
        while True:
            for q in ('copy_of', 'base'):
                b = getattr(s, q, None)
                if b is not None:
                    s = b[0] if isinstance(b, tuple) else b
                    break
            else:
                return s
    tot = {}
    k = ctx.int('k')
    for C in (S.C1, S.C2):
        S.tagged[C.tag](k)
        tot[C.tag] = z3.IntVal(0)
    for s in l.segs:
        if not isinstance(s, Seg):
            raise Unsupported('list of cells of another shape')

        def each():
            i = ctx.int('i')
            ctx.assume(s.dom.member(i))
            for g, o in s.items(ctx, i):
                def one():
                    ctx.assume(g)
                    C, q = which(S, o)
                    new = C is S.C2
                    T.cover('a new cell' if new else 'a kept cell')
                    ctx.oblige('merge.ids', number(ip, o) == (q + inc if new else q))
                    ctx.oblige('merge.rectangles-kept', z3.And(*[x == y for x, y in zip(read_rect(ip, m(ip, o, 'get_bounds')), C.F.rect(q))]))
                    key = z3.Const('somekey', TextSort)
                    h, v = lookup_term(ip, m(ip, o, 'get_agg_data'), key)
                    isid = key == text_lit('id')
                    same = z3.And(h == DATA.HAS(q, key), z3.Implies(h, v == DATA.VAL(q, key)))
                    ctx.oblige('merge.data-kept', z3.If(isid, z3.And(h, v == IDTXT(q + inc)), same) if new else same)
                ctx.explore(one)
        ctx.explore(each)
        i = s.dom.fresh(ctx)
        for n, (g, o) in enumerate(s.items(ctx, i)):
            C, q = which(S, o)
            if not q.eq(C.ID(i)):
                raise Unsupported('list of cells of another shape')
            g2, o2 = s.items(ctx, C.POS(k))[n]
            tot[C.tag] = tot[C.tag] + z3.If(zb(band(s.dom.member(C.POS(k)), g2, which(S, o2)[1] == k)), z3.IntVal(1), z3.IntVal(0))
    one = lambda c: z3.If(c, z3.IntVal(1), z3.IntVal(0))
    ctx.oblige('merge.old-cells-outside-the-region-once', tot['m1'] == one(z3.And(S.C1.has(k), z3.Not(S.inside(k)))))
    ctx.oblige('merge.new-cells-once', tot['m2'] == one(S.C2.has(k)))
    x, y = ctx.int('x'), ctx.int('y')
    S.maxfact(x)
    ctx.assume(z3.And(S.C1.has(x), z3.Not(S.inside(x)), S.C2.has(y)))
    ctx.oblige('merge.ids-unique', x != y + inc)


def which(S, o):
    for C in (S.C1, S.C2):
        if isinstance(o, Heap) and o.origin is not None and o.path == ():
            s = o.origin[0]
            if s is C.seg or getattr(s, 'copy_of', None) is C.seg:
                return C, C.ID(rv(o.origin[1]))
    raise Unsupported('cell from elsewhere')


def rest(S, inc):
    ip, ctx = S.ip, S.ctx
    argument(S)
    ctx.oblige('merge.same-objects', ip.getattr(S.m1, 'neighbour_graph') is S.ngs[0] and ip.getattr(S.ngs[0], 'neighbour_graph') is S.g1 and ip.getattr(S.m1, 'config') is S.cfg1)
    ctx.oblige('merge.bounds-kept', z3.And(*[x == y for x, y in zip(read_rect(ip, ip.getattr(S.m1, 'bounds')), (S.r1.lat0, S.r1.lat1, S.r1.lo, S.r1.hi))]))
    ents = dict(S.cfg1.ents)
    ctx.oblige('merge.config-entries', sorted(ents) == ['merged', 'region'])
    l = ents.get('merged')
    ok = isinstance(l, PyList) and len(l.segs) == (2 if S.old else 1)
    if ok and S.old:
        s = l.segs[0]
        ok = isinstance(s, Seg) and s.uniform == 1 and isinstance(s.dom, RangeDom)
        if ok:
            ctx.oblige('merge.earlier-configs-kept', rv(s.dom.n) == S.nold)
            i = ctx.int('i')
            ctx.assume(z3.And(i >= 0, i < S.nold))
            its = s.items(ctx, i)
            v = its[0][1] if len(its) == 1 else None
            ctx.oblige('merge.earlier-configs-kept', isinstance(v, Term) and v.kind == 'earlier' and simp(rv(v.args[0]) == i))
    ctx.oblige('merge.config-recorded-last', ok)
    if ok:
        ctx.oblige('merge.config-recorded', not isinstance(l.segs[-1], Seg) and ip.truth(models.eq(ip, l.segs[-1], S.cfg2)))


def graph(S, inc, part):
    ip, ctx, T = S.ip, S.ctx, S.T
    a, b = ctx.int('a'), ctx.int('b')
    for k in (a, b):
        S.fact1(k)
        S.fact2(k)
        S.maxfact(k)
        register(ip, k)
    kept = lambda k: z3.And(S.C1.has(k), z3.Not(S.inside(k)))
    if part == 'nodes':
        ctx.oblige('merge.nodes', zb(S.g1.has_t(ip, a)) == z3.Or(kept(a), S.C2.has(a - inc)))
        return
    n1, n2 = part
    side = lambda q, k: (kept(k), k, S.C1.F.rect(k)) if q == 'old' else (S.C2.has(k), k + inc, S.C2.F.rect(k))
    (c1, x, rx), (c2, y, ry) = side(n1, a), side(n2, b)
    ctx.assume(z3.And(c1, c2))
    for t in (x, y):
        S.maxfact(rv(simp(t)))
    T.cover('a pair')
    if part == ('old', 'old'):
        want = S.CASE1(a, b)
    elif part == ('new', 'new'):
        want = S.CASE2(a, b)
    else:
        want = ctx.int('case')
        ctx.assume(want == S.case_rect(rx, ry))
    for d in DIRS:
        def one(d=d):
            v = S.g1.final(ip, rv(simp(x)), z3.IntVal(d), rv(simp(y)))
            ctx.oblige('merge.lists-exact', False if v is None else rv(v) == z3.If(want == d, z3.IntVal(1), z3.IntVal(0)))
        ctx.explore(one)


W = 'requires: two meshes of any size with distinct ids and exact graphs, not touching the antimeridian, cells of the second inside its region, no cell of the first across an edge line of that region (lemma-aligned); '
U = '; contracts used: validate_merge_compatibility, remove_cellboxes_within_bounds, get_max_cellbox_id, tie_*_cellbox_ng, NeighbourGraph.increment_ids (C21)'
ENS = {'cells': 'ensures: the list holds exactly the cells of the first mesh outside the region and all of the second, each once, with shifted, unique ids, otherwise unchanged',
       'rest': 'ensures: refused exactly if incompatible, leaving everything as it was; the configuration of the second mesh is recorded; the mesh given is not modified',
       'nodes': 'ensures: the graph has exactly the nodes of those cells',
       ('old', 'old'): 'ensures: exact lists between cells of the first mesh', ('new', 'new'): 'ensures: exact lists between cells of the second mesh',
       ('old', 'new'): 'ensures: the lists of cells of the first mesh hold exactly the touching cells of the second', ('new', 'old'): 'ensures: the lists of cells of the second mesh hold exactly the touching cells of the first'}
for part in ENS:  # noqa
    for before in ((False, True) if part == 'rest' else (False,)):
        task('C15', f'merge_mesh ({" to ".join(part) if isinstance(part, tuple) else part}{", merged before" if before else ""})', W + ENS[part] + U, seconds=300)(merging(part, before))
