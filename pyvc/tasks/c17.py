"""C17: splitting a finished mesh around points."""
from ..task import task
from ..spec import *
from ..loops import register
from ..inv import Inv, InvSeq, while_rule
from ..graph import num_key
from .c02 import quarter

EM = MG + 'environment_mesh'
I = z3.IntSort()
FS = [CellFns('p'), CellFns('q')]          # cell containing the tracked point, by version of the mesh
CONT = [z3.Function(f'contained_{k}', I, z3.BoolSort()) for k in 'pq']


class Pt(Model):
    """one of the tracked points, as handed to split_points: a pair of numbers"""
    def __init__(self, t, la, lo):
        super().__init__()
        self.t, self.la, self.lo = t, la, lo

    def getitem(self, ip, k):
        return [self.la, self.lo][k]

    def unpack(self, ip):
        return [self.la, self.lo]


class Ghost(Heap):
    pass


class State:
    """a mesh known by what it says about two points p and q, through its lookup and splitting methods; `ver` counts its states"""
    def __init__(self, T, ip):
        ctx = ip.ctx
        self.ip, self.ctx, self.T = ip, ctx, T
        self.g = Ghost()
        self.g.d['ver'] = ctx.int('ver')
        self.g.d['splits'] = 0
        self.g.d['earlier'] = False         # has the turn of q come?  (an earlier point is one that was so before, or the current one)
        self.cw, self.ch, self.depth = ctx.real('cell_width'), ctx.real('cell_height'), ctx.int('split_depth')
        ctx.assume(z3.And(self.cw > 0, self.ch > 0, self.depth >= 0))
        self.p, self.q = [Pt(t, ctx.real('lat'), ctx.real('lon')) for t in (0, 1)]
        cfg = PyDict([('region', PyDict([('cell_width', self.cw), ('cell_height', self.ch)])), ('splitting', PyDict([('split_depth', self.depth)]))])
        self.mesh = mesh_of(ip, [], config=cfg)
        two = models.binop(ip, 'Pow', 2, self.depth)
        self.mw, self.mh = self.cw / as_real(rv(two)), self.ch / as_real(rv(two))
        self.fresh_version()

    @property
    def v(self):
        return self.g.d['ver']

    def fresh_version(self):
        """any mesh with disjoint cells and distinct ids"""
        ctx = self.ctx
        v = ctx.int('ver')
        ctx.write(self.g, 'ver', v)
        for t in (0, 1):
            ctx.assume(z3.Implies(CONT[t](v), FS[t].valid(v)))
        # two points in cells with the same id are in the same cell
        ctx.assume(z3.Implies(z3.And(CONT[0](v), CONT[1](v), FS[0].id(v) == FS[1].id(v)), z3.And(*[a == b for a, b in zip(FS[0].rect(v), FS[1].rect(v))])))
        return v

    def size(self, t, v):
        a, b, lo, hi = FS[t].rect(v)
        return width_of(lo, hi), b - a

    def fine(self, t, v):
        w, h = self.size(t, v)
        return z3.Implies(CONT[t](v), z3.Or(w <= self.mw, h <= self.mh))

    def which(self, pt):
        if isinstance(pt, Pt):
            return pt.t
        if isinstance(pt, tuple) and len(pt) == 2:
            for x in (self.p, self.q):
                if rv(pt[0]).eq(x.la) and rv(pt[1]).eq(x.lo):
                    return x.t
        raise Unsupported('another point')

    # contracts
    def inside(self, ip, f, a, kw):
        return CONT[self.which(a[1])](self.v)

    def index(self, ip, f, a, kw):
        t = self.which(a[1])
        if not self.ctx.branch(CONT[t](self.v)):
            raise PyRaise(ExcVal(Exception, ('Point not within the mesh',)))
        return Rope([('n', FS[t].id(self.v))])

    def cellbox(self, ip, f, a, kw):
        k = num_key(a[1], 'int' if is_num(a[1]) else 'str')
        for t in (0, 1):
            if k is not None and self.ctx.branch(simp(z3.And(CONT[t](self.v), FS[t].id(self.v) == k))):
                return agg_cell(ip, FS[t], self.v)
        raise Unsupported('lookup of another cell')

    def split(self, ip, f, a, kw):
        ctx, v = self.ctx, self.v
        k = num_key(a[1], 'int' if is_num(a[1]) else 'str')
        ctx.oblige('split.only-the-cell-with-the-point', False if k is None else z3.And(CONT[self.cur](v), FS[self.cur].id(v) == k))
        w, h = self.size(self.cur, v)
        ctx.oblige('split.only-if-larger-in-both-directions', z3.And(w > self.mw, h > self.mh))
        n = self.fresh_version()
        ctx.assume(n > v)
        for t in (0, 1):
            hit = z3.And(CONT[t](v), FS[t].id(v) == k)
            (w0, h0), (w1, h1) = self.size(t, v), self.size(t, n)
            ctx.assume(z3.If(hit, z3.Implies(CONT[t](n), z3.And(w1 == w0 / 2, h1 == h0 / 2)),
                             z3.And(CONT[t](n) == CONT[t](v), z3.Implies(CONT[t](n), z3.And(FS[t].id(n) == FS[t].id(v), *[x == y for x, y in zip(FS[t].rect(n), FS[t].rect(v))])))))
        ctx.write(self.g, 'splits', self.g.d['splits'] + 1)
        return None

    def contracts(self):
        E = EM + ':EnvironmentMesh.'
        return {E + 'query_inside_mesh': self.inside, E + 'query_index': self.index, E + 'get_cellbox': self.cellbox, E + 'split_and_replace': self.split}

    cur = 0


@task('C17', '_split_loc', 'requires: a point in a cell of the mesh; ensures: a cell already fine enough (width or height at most the initial one divided by 2^depth) is left alone and False returned, otherwise that cell, '
      'and no other, is split once and True returned; contracts used: query_index (C16), get_cellbox, split_and_replace (C07)')
def split_loc(T):
    ip, ctx = T.interp(), T.ctx

    def go():
        S = State(T, ip)
        ip.contracts = S.contracts()
        v = S.v
        ctx.assume(CONT[0](v))
        k, out = T.calls(ip, (EM, 'EnvironmentMesh._split_loc'), [S.mesh, S.p])
        ctx.oblige('split_loc.no-exception', k == 'ok', info=str(out))
        if k != 'ok':
            return
        fine = ctx.branch(S.fine(0, v))
        T.cover('fine' if fine else 'coarse')
        r = ip.truth(out)
        ctx.oblige('split_loc.splits-exactly-when-coarse', S.g.d['splits'] == (0 if fine else 1))
        ctx.oblige('split_loc.reports-whether-it-split', z3.Not(zb(r)) if fine else zb(r))
    T.run(go)


class While(Inv):
    """the loop around one point: the other point's cell stays fine, the containing cell is halved in every round that goes on"""
    name = 'split_points, rounds'

    def __init__(self, S):
        self.S = S

    def owns(self, h, slot):
        return h is self.S.g

    def havoc(self, ip):
        S = self.S
        S.fresh_version()
        S.ctx.assume(S.v >= S.start)
        S.ctx.write(S.g, 'splits', 0)

    def holds(self, ip):
        S = self.S
        # nothing happens for a point in no cell or in a fine one
        return [('the cells of earlier points stay fine', z3.Implies(zb(S.g.d['earlier']), S.fine(1, S.v))),
                ('the point was in a cell not fine enough, or nothing has changed', z3.Or(S.v == S.start, z3.Not(S.fine(0, S.start))))]

    def measure(self, ip):
        return self.S.v

    def progress(self, ip, v):
        S = self.S
        n = S.v
        (w0, h0), (w1, h1) = S.size(0, v), S.size(0, n)
        return [('the cell containing the point was too wide and is halved (so the loop ends)', z3.And(w0 > S.mw, z3.Implies(CONT[0](n), 2 * w1 <= w0)))]


class Points(Inv):
    name = 'split_points, points'

    def __init__(self, S):
        self.S = S

    def owns(self, h, slot):
        return h is self.S.g

    def havoc(self, ip):
        S = self.S
        S.fresh_version()
        S.start = S.v
        S.ctx.write(S.g, 'splits', 0)
        S.ctx.write(S.g, 'earlier', S.ctx.bool('q_is_an_earlier_point'))

    def holds(self, ip):
        S = self.S
        return [('the cell of an earlier point is fine', z3.Implies(zb(S.g.d['earlier']), S.fine(1, S.v)))]

    def measure(self, ip):
        return self.S.v

    def progress(self, ip, v):
        S = self.S
        same = z3.BoolVal(True) if S.v is v else S.v == v
        S.T.cover('a point in a coarse cell' if S.ctx.feasible(z3.Not(S.fine(0, v))) else 'a point in no cell or in a fine one')
        return [('the cell of the point is fine', S.fine(0, S.v)),
                ('no change for a point in no cell or in a fine one', z3.Implies(z3.Or(z3.Not(CONT[0](v)), S.fine(0, v)), same))]


@task('C17', 'split_points', 'requires: any mesh, any list of points; ensures: no failure; afterwards the cell containing any given point, if any, is fine; in every round only the cell containing the point is split and only if it is too large '
      'in both directions; every round that continues halves the cell containing the point, so it ends; points outside or in fine cells change nothing; contracts used: query_inside_mesh, query_index (C16), get_cellbox, split_and_replace (C07)')
def split_points(T):
    ip, ctx = T.interp(), T.ctx

    def go():
        S = State(T, ip)
        ip.contracts = S.contracts()
        S.start = S.v
        inv = Points(S)
        ip.loop_rules = [while_rule(While(S))]
        seq = InvSeq(inv, lambda ip: S.p)
        k, out = T.calls(ip, (EM, 'EnvironmentMesh.split_points'), [S.mesh, seq])
        ctx.oblige('split_points.no-exception', k == 'ok', info=str(out))
    T.run(go)


@task('C17', 'lemma-quarters', 'lemma: a point strictly inside a quarter of a cell is strictly inside the cell, and the quarter has half its width and height')
def lemma(T):
    ctx = T.ctx

    def go():
        r = Rect(ctx, 'cell')
        la = ctx.real('la')
        dr = ctx.real('dr')           # eastward offset of the point from the cell's western edge, in [0, 360)
        ctx.assume(z3.And(dr >= 0, dr < 360))
        for i in range(4):
            def one():
                a, b, west, w = quarter((r.lat0, r.lat1, r.lo, r.w), i)
                q = Rect(ctx, f'quarter{i}')
                ctx.assume(z3.And(q.lat0 == a, q.lat1 == b, q.w == w))
                dq, k = ctx.real('dq'), ctx.int('k')      # from the quarter's western edge (which is `west` modulo 360): the offsets differ by whole turns
                ctx.assume(z3.And(dq >= 0, dq < 360, dr == dq + (west - r.lo) + 360 * z3.ToReal(k)))
                ctx.oblige('quarter.inside-the-cell', z3.Implies(z3.And(q.lat0 < la, la < q.lat1, dq > 0, dq < q.w), z3.And(r.lat0 < la, la < r.lat1, dr > 0, dr < r.w)))
                ctx.oblige('quarter.half-size', z3.And(q.w == r.w / 2, q.h == r.h / 2))
            ctx.explore(one)
    T.run(go)
