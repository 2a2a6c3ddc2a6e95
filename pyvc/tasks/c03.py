"""C03: the initial grid (MeshBuilder.initialize_cellboxes)."""
from ..task import task
from ..spec import *
from ..scale import Scale, lemma
from ..inv import Inv, InvSeq
from .c06 import MB, CB

task('C03', 'lemma-multiples', 'lemma: the facts used about products k*y hold of the product')(lemma)


class Prefix(Seg):
    """the first n cells of the grid, each checked when it was added; not looked at again"""
    def __init__(self, n):
        super().__init__(RangeDom(n), self.no, 'cells so far')
        self.uniform = 1

    def no(self, ctx, i):
        raise Unsupported('cell of the grid under construction')


class Ghost(Heap):
    pass


class S:
    def __init__(self, T, ip, timed):
        ctx = ip.ctx
        self.T, self.ip, self.ctx = T, ip, ctx
        self.R, self.C, self.h, self.w = ctx.int('rows'), ctx.int('cols'), ctx.real('cell_height'), ctx.real('cell_width')
        ctx.assume(z3.And(self.R >= 1, self.C >= 1, self.h > 0, self.w > 0))
        self.n, self.ph, self.pw = Scale(ctx, self.C, 'cols'), Scale(ctx, self.h, 'height'), Scale(ctx, self.w, 'width')
        self.lat0, self.lo, self.hi = ctx.real('lat_min'), ctx.real('long_min'), ctx.real('long_max')
        lat1 = ctx.real('lat_max')
        wide = self.pw.times(self.C)
        ctx.assume(z3.And(self.lat0 >= -90, lat1 <= 90, lat1 == self.lat0 + self.ph.times(self.R)))
        ctx.assume(z3.And(self.lo >= -180, self.lo <= 180, self.hi >= -180, self.hi <= 180, width_of(self.lo, self.hi) == wide, wide > 0, wide <= 360,
                          z3.Implies(wide == 360, z3.And(self.lo == -180, self.hi == 180)), z3.Not(z3.And(self.lo == 180, self.hi == -180))))
        self.time = times(ctx) if timed else None
        self.region = boundary(ip, RectOf4(self.lat0, lat1, self.lo, self.hi), self.time)
        self.tlist = m(ip, self.region, 'get_time_range')
        self.t0 = tuple(self.tlist.segs)
        self.g = Ghost()
        self.g.d.update(row=None, col=None)
        self.A = None
        for k, t in (('rows', self.R), ('cols', self.C), ('h', self.h), ('w', self.w), ('lat0', self.lat0), ('lo', self.lo), ('hi', self.hi)):
            T.input(k, t)

    def is_prefix(self, n):
        segs = self.A.segs
        if segs == ():
            return n == 0
        if len(segs) == 1 and isinstance(segs[0], Prefix):
            return rv(segs[0].dom.n) == n
        return z3.BoolVal(False)

    def times_kept(self):
        l = m(self.ip, self.region, 'get_time_range')
        return l is self.tlist and len(l.segs) == len(self.t0) and zb(band(*[self.ip.truth(models.eq(self.ip, a, b)) for a, b in zip(l.segs, self.t0)]))

    def check_cell(self, o, r, c, number):
        ip, ctx = self.ip, self.ctx
        ok = isinstance(o, Obj) and getattr(o.cls, 'name', '') == 'CellBox'
        ctx.oblige('cell.is-a-CellBox', ok)
        if not ok:
            return
        b = m(ip, o, 'get_bounds')
        self.T.cover('a cell')
        ctx.oblige('cell.rectangle', is_rect(ctx, read_rect(ip, b), self.lat0 + self.ph.times(r), self.lat0 + self.ph.times(r) + self.h, self.lo + self.pw.times(c), self.w))
        ctx.oblige('cell.id', ip.truth(models.eq(ip, m(ip, o, 'get_id'), Rope([('n', number)]))))
        ctx.oblige('cell.depth', rv(m(ip, o, 'get_split_depth')) == 0)
        t = m(ip, b, 'get_time_range')
        ctx.oblige('cell.time-range', isinstance(t, PyList) and len(t.segs) == len(self.t0) and zb(band(*[ip.truth(models.eq(ip, x, y)) for x, y in zip(t.segs, self.t0)])))


class Rows(Inv):
    name = 'initialize_cellboxes, rows'
    slot, other = 'row', None

    def __init__(self, s):
        self.s = s
        self.n = s.R

    def owns(self, h, slot):
        s = self.s
        return h is s.g or h is s.A or h is s.tlist

    def start(self, ip):
        self.at(ip, 0)

    def at(self, ip, k):
        s = self.s
        ip.ctx.write(s.g, self.slot, k)

    def havoc(self, ip):
        s, ctx = self.s, ip.ctx
        k = ctx.int(self.slot)
        ctx.assume(z3.And(k >= 0, k <= self.n))
        for x in (k, k + 1):
            (s.ph if self.slot == 'row' else s.pw).use(x)
            if self.slot == 'row':
                s.n.use(x)
        self.at(ip, k)
        ctx.write(s.A, 'segs', (Prefix(simp_i(self.number())),))

    def number(self):
        s = self.s
        return s.n.times(rv(s.g.d['row']))

    def holds(self, ip):
        return [('the cells so far are the first ones of the grid', self.s.is_prefix(self.number())), ("the region's time range is unchanged", self.s.times_kept())]

    def step(self, ip):
        self.at(ip, simp(rv(self.s.g.d[self.slot]) + 1))

    def after(self, ip):
        ip.ctx.assume(rv(self.s.g.d[self.slot]) == self.n)


class Cols(Rows):
    name = 'initialize_cellboxes, columns'
    slot = 'col'

    def __init__(self, s):
        self.s = s
        self.n = s.C

    def number(self):
        s = self.s
        return s.n.times(rv(s.g.d['row'])) + rv(s.g.d['col'])

    def step(self, ip):
        s, ctx = self.s, ip.ctx
        segs = s.A.segs
        one = len(segs) == 2 and isinstance(segs[0], Prefix) and not isinstance(segs[1], Seg)
        ctx.oblige('grid.one-cell-per-position', one)
        if one:
            r, c = rv(s.g.d['row']), rv(s.g.d['col'])
            s.check_cell(segs[1], r, c, simp_i(self.number()))
            ctx.write(s.A, 'segs', (Prefix(simp_i(rv(segs[0].dom.n) + 1)),))
        super().step(ip)

    def after(self, ip):
        super().after(ip)
        ip.ctx.write(self.s.g, 'col', None)


def simp_i(x):
    return rv(simp(x))


def rule_for(s):
    def rule(ip, it, body, fr):
        it = it.l if isinstance(it, models.NdArray) else it
        if not isinstance(it, PyList):
            return None
        segs = it.segs
        if len(segs) != 1 or not isinstance(segs[0], Seg) or segs[0].uniform != 1 or not isinstance(segs[0].dom, RangeDom) or fr.name != 'MeshBuilder.initialize_cellboxes':
            return None
        inner = s.g.d['row'] is not None
        if s.g.d['col'] is not None:
            return None
        inv = Cols(s) if inner else Rows(s)
        if not ip.ctx.must(simp(rv(segs[0].dom.n) == inv.n)):
            ip.ctx.oblige('grid.number-of-' + ('columns' if inner else 'rows'), rv(segs[0].dom.n) == inv.n)
            return None
        if not inner:
            acc = [v for v in fr.d.values() if isinstance(v, PyList) and v.segs == ()]
            if len(acc) != 1:
                raise Unsupported('grid collected in another way')
            s.A = acc[0]

        def element(ip):
            t = rv(s.g.d[inv.slot])
            ip.ctx.assume(t < inv.n)
            its = segs[0].items(ip.ctx, t)
            if len(its) != 1:
                raise Unsupported('element')
            return its[0][1]
        r = InvSeq(inv, element).run_loop(ip, body, fr)
        if not inner:
            ip.ctx.write(s.g, 'row', 'done')
        return r
    return rule


def grid(timed):
    def run(T):
        ip, ctx = T.interp(), T.ctx

        def go():
            s = S(T, ip, timed)
            ip.seq_rules = [rule_for(s)]
            b = Obj(ip.find(MB, 'MeshBuilder'), dict(config=PyDict()))
            k, out = T.calls(ip, (MB, 'MeshBuilder.initialize_cellboxes'), [b, s.region, s.w, s.h])
            ctx.oblige('grid.no-exception', k == 'ok', info=str(out))
            if k != 'ok':
                return
            if s.A is None:
                raise Unsupported('grid built without loops over rows and columns')
            ctx.oblige('grid.is-the-list', out is s.A)
            ctx.oblige('grid.complete', zb(s.is_prefix(s.n.times(s.R))))
            ctx.oblige('grid.region-unchanged', z3.And(*[a == b for a, b in zip(read_rect(ip, s.region), (s.lat0, s.lat0 + s.ph.times(s.R), s.lo, s.hi))]))
            T.cover('crossing' if not ctx.branch(s.lo < s.hi) else 'not crossing')
        T.run(go)
    return run


for timed in (False, True):  # noqa
    task('C03', 'initialize_cellboxes' + (' (with time)' if timed else ''), 'requires: any region within the globe, narrower than 360 degrees or from -180 to 180, whose height and width are whole multiples (rows, columns) of the cell height and width; '
         'ensures: a list of rows*columns cells; number row*columns+column has that id as text, depth zero, the region\'s time range and the rectangle of that grid position, longitudes within -180..180',
         assumptions=['np.arange(a, b, s) has ceil((b-a)/s) elements a + i*s, in exact arithmetic'])(grid(timed))
