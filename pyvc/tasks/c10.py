"""C10: adaptive refinement (MeshBuilder.split_to_depth)."""
from ..task import task
from ..spec import *
from ..inv import Inv, InvSeq
from ..loops import register
from ..interp import RangeVal
from .c06 import State as BuilderState, MB, CB

I, B = z3.IntSort(), z3.BoolSort()
DEPTH = z3.Function('depth', I, I)          # split depth of the cell stored at a position (a position is filled once)
ASK = z3.Function('asks', I, I, B)          # verdict of should_split for the cell at a position, for a number of sources
NC = z3.Function('nconds', I, I)            # number of splitting conditions of a data source
LAST = z3.Function('last', I, I)            # the last of the first k sources that has conditions, -1: none
W = z3.Function('weight', I, I)             # cells visited for one of the given depth, at most


class Ghost(Heap):
    pass


class S:
    """a mesh under refinement, seen through one arbitrary position J of its cell list"""
    def __init__(self, T, ip):
        ctx = ip.ctx
        self.T, self.ip, self.ctx = T, ip, ctx
        g = self.g = Ghost()
        n0, self.ns, self.limit, self.J = ctx.int('ncells'), ctx.int('nsources'), ctx.int('limit'), ctx.int('J')
        ctx.assume(z3.And(n0 >= 1, self.ns >= 0, self.limit >= 0, self.J >= 0, LAST(0) == -1))
        # the initial mesh: every position filled with a cell of depth zero
        g.d.update(n=n0, live=simp(self.J < n0), turn=0, pos=0, added=0)
        ctx.assume(z3.Implies(self.J < n0, DEPTH(self.J) == 0))
        self.inner = False
        self.cells = {}
        self.list = Cells(self)
        self.mesh = ip.call(ip.find(MG + 'mesh', 'Mesh'), [None, self.list, None, self.limit])
        self.b = Obj(ip.find(MB, 'MeshBuilder'), dict(mesh=self.mesh, config=PyDict(), neighbour_graph=None))

    def cell(self, i):
        ip, ctx = self.ip, self.ctx
        o = any_cell(ip, ip.call(ip.find(CB, 'CellBox'), [boundary(ip, Rect(ctx, 'c')), Rope([('n', i)])]), i)
        m(ip, o, 'set_split_depth', DEPTH(i))
        m(ip, o, 'set_data_source', PyList([self.sources()]))
        self.cells[id(o)] = (o, i)
        return o

    def sources(self):
        ip = self.ip
        MD = ip.find(MG + 'metadata', 'Metadata')

        def fn(ctx, i):
            ctx.assume(NC(i) >= 0)
            cs = Seg(RangeDom(NC(i)), lambda ctx, j: [(True, Term('cond', i, j))], 'conditions')
            cs.uniform = 1
            ld = Term('loader', i, dataloader_name=lambda ip, s: Atom(DNAME(rv(s.args[0]))), data_name=lambda ip, s: Atom(DNAME(rv(s.args[0]))))
            return [(True, ip.call(MD, [ld, PyList([cs]), Term('fill', i), Term('data', i)]))]
        s = Seg(RangeDom(self.ns), fn, 'data sources')
        s.uniform = 1
        return s

    def at(self, o):
        if id(o) not in self.cells:
            raise Unsupported(f'cell {o!r}')
        return rv(self.cells[id(o)][1])

    def unfold(self, k):
        self.ctx.assume(z3.And(NC(k) >= 0, LAST(k + 1) == z3.If(NC(k) > 0, k, LAST(k))))

    # contracts
    def should_split(self, ip, f, a, kw):
        """C08"""
        stop = rv(a[1] if len(a) > 1 else kw['stop_index'])
        self.ctx.oblige('should_split.precondition: as many sources exist', z3.And(stop >= 0, stop <= self.ns))
        return ASK(self.at(a[0]), stop)

    def split(self, ip, f, a, kw):
        """C06: the cell goes, four cells one level deeper are appended to the same list"""
        ctx, g = self.ctx, self.g
        if not self.inner:
            raise Unsupported('split outside the loop over the cells')
        k = self.at(a[1] if len(a) > 1 else kw['cellbox'])
        t = rv(g.d['turn'])
        ctx.oblige('split.the cell under consideration', k == rv(g.d['pos']))
        ctx.oblige('split.is still there', z3.Implies(k == self.J, zb(g.d['live'])))
        ctx.oblige('split.only below the limit', DEPTH(k) < self.limit)
        ctx.oblige('split.only if it asks, under the sources so far', ASK(k, t + 1))
        ctx.oblige('split.only for a source with conditions', NC(t) > 0)
        n = rv(g.d['n'])
        d = DEPTH(k)
        new = z3.And(self.J >= n, self.J < n + 4)
        ctx.assume(z3.Implies(new, DEPTH(self.J) == d + 1))
        ctx.assume(z3.And(W(d) == z3.If(d < self.limit, 1 + 4 * W(d + 1), z3.IntVal(1)), W(d) >= 1, W(d + 1) >= 1))
        ctx.write(g, 'added', simp(rv(g.d['added']) + 4 * W(d + 1)))
        ctx.write(g, 'live', simp(z3.If(self.J == k, False, z3.Or(zb(g.d['live']), new))))
        ctx.write(g, 'n', simp(n + 4))
        self.T.cover('a cell is split')
        return None

    def done(self, last):
        return z3.Not(z3.And(DEPTH(self.J) < self.limit, ASK(self.J, last + 1)))

    def basic(self):
        g = self.g
        live, n = zb(g.d['live']), rv(g.d['n'])
        return [('a cell is in the list', z3.Implies(live, self.J < n)),
                ('no cell deeper than the limit', z3.Implies(live, z3.And(DEPTH(self.J) >= 0, DEPTH(self.J) <= self.limit))), ('never empty', n >= 1)]

    def havoc(self):
        ctx, g = self.ctx, self.g
        ctx.write(g, 'n', ctx.int('n'))
        ctx.write(g, 'live', ctx.bool('liveJ'))


class Cells(Model):
    """the growing list of cells"""
    typename = 'list'

    def __init__(self, s):
        super().__init__()
        self.s = s

    def length(self, ip):
        return self.s.g.d['n']

    def getitem(self, ip, k):
        if is_num(k) and ip.ctx.must(simp(rv(k) == 0)) and rv(self.s.g.d['n']).eq(rv(self.s.n0)) and not self.s.inner:
            ip.ctx.assume(DEPTH(0) == 0)
            return self.s.cell(z3.IntVal(0))
        raise Unsupported('cell by position during refinement')

    def enumerate(self, ip, start):
        return InvSeq(PerCell(self.s), lambda ip: (models.binop(ip, 'Add', self.s.g.d['pos'], start), self.element(ip)))

    def run_loop(self, ip, body, fr):
        return InvSeq(PerCell(self.s), self.element).run_loop(ip, body, fr)

    def element(self, ip):
        s, ctx = self.s, ip.ctx
        p = s.g.d['pos']
        ctx.assume(z3.And(p >= 0, p < s.g.d['n']))
        other = ctx.bool('live')
        if ctx.branch(z3.If(p == s.J, zb(s.g.d['live']), other)):
            ctx.assume(z3.And(DEPTH(p) >= 0, DEPTH(p) <= s.limit))      # the invariant, for position p
            return s.cell(p)
        return None


class PerCell(Inv):
    """J before the cursor: the cell at J, if still there, does not ask to be split (or is at the limit)"""
    name = 'split_to_depth, cells'

    def __init__(self, s):
        self.s = s

    def owns(self, h, slot):
        return h is self.s.g

    def start(self, ip):
        if self.s.inner:
            raise Unsupported('nested loops over the cells')
        if self.s.turn is None:
            raise Unsupported('loop over the cells outside the loop over the sources')
        ip.ctx.write(self.s.g, 'pos', 0)

    def havoc(self, ip):
        s, ctx = self.s, ip.ctx
        s.havoc()
        ctx.write(s.g, 'pos', ctx.int('pos'))
        ctx.write(s.g, 'added', 0)
        ctx.assume(s.g.d['pos'] >= 0)
        s.inner = True

    def holds(self, ip):
        s, g = self.s, self.s.g
        return s.basic() + [('cells already considered do not ask', z3.Implies(z3.And(zb(g.d['live']), s.J < rv(g.d['pos'])), s.done(rv(g.d['turn']))))]

    def measure(self, ip):
        return self.s.g.d['pos']

    def progress(self, ip, p):
        s = self.s
        d = DEPTH(p)
        ax = z3.And(W(d) == z3.If(d < s.limit, 1 + 4 * W(d + 1), z3.IntVal(1)), W(d) >= 1)
        return [('the work left shrinks (so the loop ends)', z3.Implies(ax, rv(s.g.d['added']) < W(d)))]

    def step(self, ip):
        ip.ctx.write(self.s.g, 'pos', simp(rv(self.s.g.d['pos']) + 1))

    def after(self, ip):
        s, ctx = self.s, ip.ctx
        ctx.assume(s.g.d['pos'] >= s.g.d['n'])
        s.inner = False


class PerSource(Inv):
    name = 'split_to_depth, sources'

    def __init__(self, s):
        self.s = s

    def owns(self, h, slot):
        return h is self.s.g

    def start(self, ip):
        ip.ctx.write(self.s.g, 'turn', 0)

    def havoc(self, ip):
        s, ctx = self.s, ip.ctx
        s.havoc()
        t = ctx.int('turn')
        ctx.write(s.g, 'turn', t)
        ctx.assume(z3.And(t >= 0, t <= s.ns))
        s.inner = False
        s.turn = t

    def holds(self, ip):
        s, g = self.s, self.s.g
        k = rv(g.d['turn'])
        return s.basic() + [('no cell below the limit asks, under the sources up to the last one with conditions', z3.Implies(z3.And(zb(g.d['live']), LAST(k) >= 0), s.done(LAST(k))))]

    def step(self, ip):
        s = self.s
        s.unfold(s.turn)
        ip.ctx.write(s.g, 'turn', simp(rv(s.turn) + 1))

    def after(self, ip):
        s = self.s
        ip.ctx.assume(s.g.d['turn'] == s.ns)
        s.turn = None


def over_sources(s):
    """a loop over the data sources, or over their numbers, in order"""
    def rule(ip, it, body, fr):
        if isinstance(it, models.Tqdm):
            it = it.it
        if isinstance(it, Poison):
            raise Unsupported('progress bar')
        if not isinstance(it, (RangeVal, PyList)):
            return None
        segs = list(ip.segments(it))
        if len(segs) != 1 or not isinstance(segs[0], Seg) or segs[0].uniform != 1 or not isinstance(segs[0].dom, RangeDom) or not ip.ctx.must(simp(rv(segs[0].dom.n) == s.ns)):
            return None
        if s.turn is not None or s.inner or s.looped:
            return None
        s.looped = True

        def element(ip):
            t = s.turn
            ip.ctx.assume(t < s.ns)
            register(ip, t)
            return only(segs[0].items(ip.ctx, t))
        return InvSeq(PerSource(s), element).run_loop(ip, body, fr)
    return rule


def only(items):
    items = [v for g, v in items if not z3.is_false(zb(g))]
    if len(items) != 1:
        raise Unsupported('element')
    return items[0]


@task('C10', 'split_to_depth', 'requires: initial cells of depth zero, any number of data sources with any number of conditions, any split verdicts (a function of the cell and the number of sources), a limit of at least zero; '
      'ensures: no failure; only cells that exist, are below the limit and ask to be split are split, and only for a source with conditions; afterwards no cell is deeper than the limit and none below it asks to be split under the '
      'sources up to the last one with conditions; the loop over the cells ends; contracts used: should_split (C08), split_and_replace (C06)')
def split_to_depth(T):
    ip, ctx = T.interp(), T.ctx

    def go():
        s = S(T, ip)
        s.turn, s.looped = None, False
        s.n0 = s.g.d['n']
        ip.contracts = {CB + ':CellBox.should_split': s.should_split, MB + ':MeshBuilder.split_and_replace': s.split}
        ip.seq_rules = [over_sources(s)]
        k, out = T.calls(ip, (MB, 'MeshBuilder.split_to_depth'), [s.b, s.limit])
        ctx.oblige('refine.no-exception', k == 'ok', info=str(out))
        if k != 'ok':
            return
        live = zb(s.g.d['live'])
        ctx.oblige('refine.same-list', ip.getattr(s.mesh, 'cellboxes') is s.list)
        ctx.oblige('refine.no-cell-deeper-than-the-limit', z3.Implies(live, DEPTH(s.J) <= s.limit))
        l = LAST(s.ns)
        ctx.oblige('refine.no-cell-left-that-asks', z3.Implies(z3.And(live, l >= 0), s.done(l)))
        if ctx.feasible(z3.And(live, l >= 0)):
            T.cover('a cell of the result')
    T.run(go)


@task('C10', 'split_and_replace (list)', 'requires: as for C06; ensures: the children are appended to the list being iterated (the same object), one level deeper than the split cell, whose place is emptied, every other place unchanged; '
      'contracts used: CellBox.split (C01), get_neighbour_case (C04)', seconds=400)
def in_place(T):
    ip, ctx = T.interp(), T.ctx

    def go():
        S = BuilderState(T, ip)
        ip.contracts = S.contracts()
        cell = models.seq_index(ip, S.cells, S.c)
        d = m(ip, cell, 'get_split_depth')
        k, out = T.calls(ip, (MB, 'MeshBuilder.split_and_replace'), [S.b, cell])
        ctx.oblige('split.no-exception', k == 'ok', info=str(out))
        if k != 'ok':
            return
        l = ip.getattr(S.mesh, 'cellboxes')
        ctx.oblige('list.same-object', l is S.cells)
        ctx.oblige('list.number', rv(models.length(ip, l)) == S.n + 4)
        for q in range(4):
            o = models.seq_index(ip, l, simp(S.n + q))
            ctx.oblige('list.child-depth', False if o is None else rv(m(ip, o, 'get_split_depth')) == rv(d) + 1)
        ctx.oblige('list.split-cell-gone', models.seq_index(ip, l, S.c) is None)

        def other():
            x = ctx.int('x')
            ctx.assume(z3.And(x >= 0, x < S.n, x != S.c))
            ctx.oblige('list.others-unchanged', models.seq_index(ip, l, x) is models.seq_index(ip, PyList([S.seg]), x))
        ctx.explore(other)
    T.run(go)
