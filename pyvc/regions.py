"""Look-up tables: pandas tables whose rows carry a polygonal region (shapely geometry), as assumed contracts.

A row is a point of a Space (data.py); its region is known only through relations with axis-parallel rectangles, which are
unknown functions of the row and the rectangle: whether they share a point, whether the region's edge and the rectangle do,
the area they share, and any other spatial predicate by its name."""
from .core import *
from .interp import Model, Native, TYPES
from . import models
from .models import raise_
from .data import Space, Data, Arr, Mask, Names, Loc, Label, DF, SERIES, restrict, const_of, concrete, I_, R_, B_
from .geom import PolygonM, MultiPolygonM

REL = {}


def rel(name, sort):
    if name not in REL:
        REL[name] = z3.Function('region_' + name, I_, R_, R_, R_, R_, sort)
    return REL[name]


RAREA = z3.Function('rectangle_area', R_, R_, R_, R_, R_)


def rects(ip, poly):
    """the rectangles (x0, y0, x1, y1) an area consists of"""
    ps = [poly] if isinstance(poly, PolygonM) else poly.polys if isinstance(poly, MultiPolygonM) else None
    if ps is None:
        raise Unsupported('area that is no rectangle')
    out = []
    for p in ps:
        try:
            out.append(tuple(as_real(rv(v)) for v in p.rect(ip)))
        except Unsupported:
            ip.ctx.abstracted('areas that are no rectangles are uninterpreted')
            out.append(tuple(ip.ctx.real('corner') for _ in range(4)))
    return out


def some(name, p, rs):
    f = rel(name, B_)
    return z3.Or(*[f(p, *r) for r in rs])


def shared(p, rs):
    f = rel('shared_area', R_)
    return z3.Sum(*[f(p, *r) for r in rs]) if len(rs) > 1 else f(p, *rs[0])


def rect_area(ctx, r):
    t = RAREA(*r)
    ctx.assume_univ(z3.Implies(z3.And(r[0] < r[2], r[1] < r[3]), t > 0))
    return t


def poly_area(ip, poly):
    ts = [rect_area(ip.ctx, r) for r in rects(ip, poly)]
    return z3.Sum(*ts) if len(ts) > 1 else ts[0]


class Region(Model):
    def __init__(self, space, p):
        super().__init__()
        self.space, self.p = space, p

    def get(self, ip, n):
        if n == 'geom_type':
            raise Unsupported('kind of a region')
        if n in ('boundary', 'exterior'):
            return Edge(self)
        if n in ('intersects', 'overlaps', 'touches', 'contains', 'within', 'crosses', 'covers', 'covered_by', 'disjoint'):
            def f(ip, a, k):
                rs = rects(ip, a[0])
                if n == 'disjoint':
                    return z3.Not(some('intersects', self.p, rs))
                if n != 'intersects' and len(rs) > 1:
                    raise Unsupported(f'{n} of an area in two parts')
                return some(n, self.p, rs)
            return Native(n, f)
        if n == 'intersection':
            return Native(n, lambda ip, a, k: Overlap(self, rects(ip, a[0])))
        raise Unsupported(f'region.{n}')


class Edge(Model):
    def __init__(self, region):
        super().__init__()
        self.region = region

    def get(self, ip, n):
        if n in ('intersects', 'touches', 'crosses'):
            def f(ip, a, k):
                rs = rects(ip, a[0])
                if n != 'intersects' and len(rs) > 1:
                    raise Unsupported(f'{n} of an area in two parts')
                return some('edge_' + n, self.region.p, rs)
            return Native(n, f)
        raise Unsupported(f'edge.{n}')


class Overlap(Model):
    def __init__(self, region, rs):
        super().__init__()
        self.region, self.rs = region, rs

    def get(self, ip, n):
        if n == 'area':
            sp = self.region.space
            rs = self.rs
            sp.forall(lambda p: z3.And(*[rel('shared_area', R_)(p, *r) >= 0 for r in rs]))
            ip.ctx.assume(z3.And(*[rel('shared_area', R_)(self.region.p, *r) >= 0 for r in rs]))
            return norm(shared(self.region.p, rs))
        if n == 'is_empty':
            return z3.Not(some('intersects', self.region.p, self.rs))
        raise Unsupported(f'overlap.{n}')


class RowDom(BagDom):
    pass


class Geoms(Model):
    """the column of regions"""
    def __init__(self, table):
        super().__init__()
        self.table = table

    def typeof(self, ip):
        return SERIES

    def truth(self, ip):
        raise_(ValueError, 'truth value of a Series')

    def seg(self, ip):
        t = self.table
        sp = t.space
        if len(t.pieces) != 1:
            raise Unsupported('rows of a table in pieces')
        q = t.pieces[0]

        def fn(ctx, i):
            ctx.assume(z3.Implies(zb(band(sp.live(i), q(i))), sp.facts(i)))
            return [(True, Region(sp, i))]
        s = Seg(RowDom(lambda i: zb(band(sp.live(i), q(i))), 'rows'), fn, 'regions')
        s.rows = t
        return s

    def iterate(self, ip):
        return [self.seg(ip)]

    def length(self, ip):
        return self.table.length(ip)

    def get(self, ip, n):
        if n in ('tolist', 'to_list'):
            return Native(n, lambda ip, a, k: PyList([self.seg(ip)]))
        if n in ('values', 'array'):
            return PyList([self.seg(ip)])
        if n in ('apply', 'map'):
            return Native(n, self.apply)
        if n == 'empty':
            return simp(rv(self.table.length(ip)) == 0)
        raise Unsupported(f'geometry column.{n}')

    def apply(self, ip, a, k):
        ctx, t = ip.ctx, self.table
        sp = t.space
        if len(a) != 1 or k:
            raise Unsupported('apply with arguments')
        q = ctx.int('row')
        ctx.assume(z3.Implies(sp.live(q), sp.facts(q)))
        nb = len(ctx.trails[-1].fresh) if ctx.trails else 0
        out = ip.call(a[0], [Region(sp, q)])
        new = list(ctx.trails[-1].fresh[nb:]) if ctx.trails else []
        na, v = const_of(ip, out)
        na, v = zb(na), as_real(rv(v))
        if any(mentions(x, c) for x in (na, v) for c in new):
            raise Unsupported('result of apply introduces unknowns')
        return Arr(sp, t.pieces, lambda p: (simp(z3.substitute(na, (q, rv(p)))), z3.substitute(v, (q, rv(p)))), SERIES)


def mentions(t, c):
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.eq(c):
            return True
        todo += x.children()
    return False


class Few(Model):
    """Series of given regions"""
    def __init__(self, l):
        super().__init__()
        self.l = list(l)

    def typeof(self, ip):
        return SERIES

    def iterate(self, ip):
        return list(self.l)

    def length(self, ip):
        return len(self.l)

    def get(self, ip, n):
        if n == 'empty':
            return len(self.l) == 0
        if n in ('tolist', 'to_list'):
            return Native(n, lambda ip, a, k: PyList(list(self.l)))
        if n in ('values', 'array'):
            return PyList(list(self.l))
        if n == 'iloc':
            raise Unsupported('iloc')
        raise Unsupported(f'series.{n}')


class Tree(Model):
    def __init__(self, rows):
        super().__init__()
        self.rows = rows

    def get(self, ip, n):
        if n == 'query':
            def f(ip, a, k):
                pr = k.get('predicate', a[1] if len(a) > 1 else None)
                rs = rects(ip, a[0])
                name = 'box_overlap' if pr is None else pr
                if not isinstance(name, str) or (len(rs) > 1 and name != 'intersects'):
                    raise Unsupported('query of an area in two parts')
                return Positions(self.rows, lambda p: some(name, p, rs))
            return Native(n, f)
        raise Unsupported(f'STRtree.{n}')


class Positions(Model):
    """positions of the rows of a table satisfying a condition, in some order"""
    def __init__(self, rows, *preds):
        super().__init__()
        self.rows, self.preds = rows, preds

    def length(self, ip):
        return self.rows.space.count([q for f in self.preds for q in restrict(self.rows.pieces, f)])

    def iterate(self, ip):
        raise Unsupported('iteration over positions')

    def get(self, ip, n):
        if n in ('tolist', 'copy'):
            return Native(n, lambda ip, a, k: self)
        if n == 'size':
            return self.length(ip)
        raise Unsupported(f'positions.{n}')


class Table(Data):
    """DataFrame with a column of regions, in the order of its rows or sorted by a column; vals: name -> column"""
    def __init__(self, space, pieces, vals, index=(None,), order=None):
        super().__init__(space, pieces, DF, (), tuple(vals))
        self.vals, self.index, self.order = dict(vals), tuple(index), order

    def like(self, pieces, vals=None, order='same'):
        return Table(self.space, pieces, self.vals if vals is None else vals, self.index, self.order if order == 'same' else order)

    def column(self, n):
        if n == 'geometry':
            return Geoms(self)
        if isinstance(n, str) and n in self.vals:
            c = Arr(self.space, self.pieces, self.vals[n], SERIES)
            return OrdArr(c, self)

    def contains(self, ip, x):
        return Names(('geometry',) + tuple(self.vals)).contains(ip, x)

    def getitem(self, ip, k):
        if isinstance(k, Atom):
            for n in self.vals:
                if n is k or (isinstance(n, Atom) and n.t.eq(k.t)):
                    return OrdArr(Arr(self.space, self.pieces, self.vals[n], SERIES), self)
            raise Unsupported('column of unknown name')
        if isinstance(k, str) and k not in self.vals and k != 'geometry' and any(isinstance(n, Atom) for n in self.vals):
            raise Unsupported('column of unknown name')
        return super().getitem(ip, k)

    def setitem(self, ip, k, v):
        if not isinstance(k, str) or k == 'geometry' or not isinstance(v, Arr) or not Arr.same_shape(self, v):
            raise Unsupported('column assignment')
        if not getattr(self, 'fresh', False):
            ip.ctx.oblige('table.not-modified', False, info='a column of a table that is not a new one is assigned')
        ip.ctx.write(self, 'vals', dict(self.vals, **{k: v.val}))

    @property
    def vals(self):
        return self.d['vals']

    @vals.setter
    def vals(self, v):
        self.d['vals'] = v

    def get(self, ip, n):
        nat = lambda f: Native(n, f)
        if n == 'columns':
            return Names(('geometry',) + tuple(self.vals))
        if n == 'index':
            return models.ExtModule('index', dict(names=PyList(list(self.index)), name=self.index[0] if len(self.index) == 1 else None))
        if n == 'iloc':
            return ILoc(self)
        if n == 'loc':
            return TLoc(self)
        if n == 'assign':
            def f(ip, a, k):
                new = dict(self.vals)
                for c, v in k.items():
                    if not isinstance(v, Arr) or not Arr.same_shape(self, v) or c == 'geometry':
                        raise Unsupported('assign')
                    new[c] = v.val
                t = self.like(self.pieces, new)
                t.fresh = True
                return t
            return nat(f)
        if n == 'rename':
            def f(ip, a, k):
                if a or set(k) != {'columns'} or not isinstance(k['columns'], PyDict):
                    if set(k) <= {'index', 'axis', 'mapper'} or a:
                        return self          # renames labels of rows, which no one looks at
                    raise Unsupported('rename')
                mp = k['columns']
                new = {}
                for c, v in self.vals.items():
                    for o, w in mp.ents:
                        if o == c:
                            c = w
                            break
                    new[c] = v
                return self.like(self.pieces, new)
            return nat(f)
        if n == 'dropna':
            def f(ip, a, k):
                if a or k:
                    raise Unsupported('dropna with arguments')
                vs = list(self.vals.values())
                t = self.like(restrict(self.pieces, lambda p: bnot(bor(*[v(p)[0] for v in vs]))))
                t.fresh = True
                return t
            return nat(f)
        if n == 'sort_values':
            def f(ip, a, k):
                by = k.get('by', a[0] if a else None)
                if len(a) > 1 or set(k) - {'by', 'ascending'} or by not in self.vals:
                    raise Unsupported('sort_values')
                t = self.like(self.pieces, order=(self.vals[by], concrete(ip, k.get('ascending', True))))
                t.fresh = True
                return t
            return nat(f)
        if n == 'copy':
            def f(ip, a, k):
                t = self.like(self.pieces)
                t.fresh = True
                return t
            return nat(f)
        if n in ('empty', 'shape'):
            return super().get(ip, n)
        c = self.column(n)
        if c is not None:
            return c
        raise Unsupported(f'table.{n}')


class OrdArr(Arr):
    """column of a table that knows the order of its rows"""
    def __init__(self, c, table):
        super().__init__(c.space, c.pieces, c.val, SERIES)
        self.table = table

    def like(self, val=None, pieces=None, dims=None):
        return Arr(self.space, self.pieces if pieces is None else pieces, val or self.val, SERIES)

    def get(self, ip, n):
        if n == 'cumsum':
            return Native(n, self.cumsum)
        if n == 'iloc' and self.table.order is not None:
            return First(self)
        return super().get(ip, n)

    def cumsum(self, ip, a, k):
        o = self.table.order
        if o is None:
            raise Unsupported('running total over rows in no known order')
        f = cumulative(ip.ctx, self.space, self.pieces, self.val, o)
        v = self.val
        return Arr(self.space, self.pieces, lambda p: (v(p)[0], f(p)), SERIES)


def cumulative(ctx, sp, pieces, val, order):
    """the function giving the running total of val over the rows sorted by order; its last value is the sum"""
    p = sp.p0
    mult = sp.mult(pieces, p)
    for pc, v, (ov, asc), f in sp.d.get('cums', ()):
        if asc == order[1] and sp.always(z3.And(mult == sp.mult(pc, p), z3.Implies(mult > 0, z3.And(as_real(rv(v(p)[1])) == as_real(rv(val(p)[1])), as_real(rv(ov(p)[1])) == as_real(rv(order[0](p)[1])))))):
            return f
    f = z3.Function(f'running_total{len(sp.d.get("cums", ()))}', I_, R_)
    ctx.write(sp, 'cums', sp.d.get('cums', ()) + ((pieces, val, order, f),))
    n = rv(sp.count(pieces))
    last = ctx.int('last_row')
    tot = sp.stat('sum', pieces, lambda p: val(p)[1])
    ctx.assume(z3.Implies(n > 0, z3.And(sp.live(last), sp.facts(last), zb(bor(*[q(last) for q in pieces])), f(last) == tot)))
    ctx.write(sp, 'labels', sp.d['labels'] + (last,))
    # totals of non-negative numbers
    if sp.always(z3.Implies(mult > 0, as_real(rv(val(p)[1])) >= 0)):
        ctx.assume(tot >= 0)
    return f


class First(Model):
    """rows of a sorted column by position: only the first"""
    def __init__(self, col):
        super().__init__()
        self.col = col

    def getitem(self, ip, k):
        ctx, c = ip.ctx, self.col
        sp = c.space
        if k != 0 or isinstance(k, bool):
            raise Unsupported('iloc of another position')
        n = rv(c.size())
        # an empty selection: a known row would have to be outside
        inn = lambda p: zb(band(sp.live(p), bor(*[q(p) for q in c.pieces])))
        known = z3.Or(*[inn(q) for q in sp.d['labels']], z3.BoolVal(False))
        ctx.assume(z3.Implies(known, n > 0))
        if ctx.branch(simp(n == 0)):
            raise_(IndexError, 'single positional indexer is out-of-bounds')
        q = ctx.int('first_row')
        ov, asc = c.table.order
        ctx.assume(z3.And(sp.facts(q), inn(q)))
        key = lambda p: as_real(rv(ov(p)[1]))
        sp.forall(lambda p: z3.Implies(inn(p), key(q) <= key(p) if asc else key(q) >= key(p)))
        ctx.write(sp, 'labels', sp.d['labels'] + (q,))
        na, v = c.val(q)
        return NaNable(simp(zb(na)), v)


class ILoc(Model):
    def __init__(self, t):
        super().__init__()
        self.t = t

    def getitem(self, ip, k):
        if isinstance(k, Positions):
            if not Arr.same_shape(self.t, k.rows):
                raise Unsupported('positions in another table')
            t = self.t.like(tuple(q for f in k.preds for q in restrict(self.t.pieces, f)), order=None)
            t.fresh = True
            return t
        raise Unsupported('iloc')


class TLoc(Loc):
    def getitem(self, ip, k):
        t = self.data
        if isinstance(k, slice):
            if t.index != ('time',) or k.step is not None:
                raise Unsupported('rows by label')
            f = t.space.coord('time')
            out = t.pieces
            for e, lo in ((k.start, True), (k.stop, False)):
                if e is not None:
                    na, c = const_of(ip, e)
                    out = restrict(out, (lambda c, lo: lambda p: as_arith(f(p)[1]) >= as_arith(c) if lo else as_arith(f(p)[1]) <= as_arith(c))(c, lo))
            return t.like(out)
        r = super().getitem(ip, k)
        if isinstance(r, Table):
            r.fresh = True
        return r


def stree(ip, a, k):
    l = a[0]
    if isinstance(l, Geoms):
        return Tree(l.table)
    if isinstance(l, PyList) and not l.concrete and len(l.segs) == 1 and hasattr(l.segs[0], 'rows'):
        return Tree(l.segs[0].rows)
    raise Unsupported('STRtree')


def union(ip, a, k):
    l = ip.unpack(a[0])
    if len(l) == 1 and isinstance(l[0], Region):
        return l[0]
    raise Unsupported('union of regions')


def average(ip, a, k):
    """np.average(values, weights=...)"""
    w = k.get('weights', None)
    if len(a) != 1 or set(k) - {'weights'} or not isinstance(a[0], Arr):
        raise Unsupported('np.average')
    x = a[0]
    if w is None:
        return x.stat(ip, 'mean', False, 0, 'nan')
    if not isinstance(w, Arr) or not x.same_shape(w):
        raise Unsupported('np.average with other weights')
    ctx = ip.ctx
    tot = w.stat(ip, 'sum', False)
    if ctx.branch(simp(z3.And(z3.Not(zb(tot.nan)), as_real(rv(tot.val)) == 0))):
        raise_(ZeroDivisionError, "Weights sum to zero, can't be normalized")
    return NaNable(simp(z3.Or(zb(tot.nan), rv(x.size()) != rv(x.nonmissing()))), weighted(ctx, x.space, x.pieces, lambda p: x.val(p)[1], lambda p: w.val(p)[1]))


def weighted(ctx, sp, pieces, val, w):
    """the weighted mean of val over a selection (an unknown number depending on values and weights only)"""
    p = sp.p0
    mult = sp.mult(pieces, p)
    same = lambda f, g: as_real(rv(f(p))) == as_real(rv(g(p)))
    for pc, v, u, t in sp.d.get('wavgs', ()):
        if sp.always(z3.And(mult == sp.mult(pc, p), z3.Implies(mult > 0, z3.And(same(v, val), same(u, w))))):
            return t
    t = ctx.real('weighted_mean')
    ctx.write(sp, 'wavgs', sp.d.get('wavgs', ()) + ((pieces, val, w, t),))
    return t


def np_extra(ns):
    conc = ns.get('concatenate')

    def concatenate(ip, a, k):
        l = ip.unpack(a[0])
        if l and all(isinstance(x, Positions) and x.rows is l[0].rows for x in l):
            return Positions(l[0].rows, *[f for x in l for f in x.preds])
        if conc is None:
            raise Unsupported('np.concatenate')
        return conc.fn(ip, a, k)
    ns['concatenate'] = ns['hstack'] = Native('np.concatenate', concatenate)

    def unique(ip, a, k):
        if isinstance(a[0], Positions):
            fs = a[0].preds
            return Positions(a[0].rows, lambda p: bor(*[f(p) for f in fs]))
        raise Unsupported('np.unique')
    if 'unique' not in ns:
        ns['unique'] = Native('np.unique', unique)
    ns['average'] = Native('np.average', average)

    def power(ip, a, k):
        return ip.binop('Pow', a[0], a[1])
    ns['power'] = Native('np.power', power)
    old = ns.get('square')
    ns['square'] = Native('np.square', lambda ip, a, k: ip.binop('Pow', a[0], 2))
    sq = ns.get('sqrt')

    def sqrt(ip, a, k):
        if isinstance(a[0], NaNable):
            r = sqrt_(ip, a[0].val)
            return NaNable(a[0].nan, r)
        return sqrt_(ip, a[0])

    def sqrt_(ip, x):
        if sq is not None:
            return sq.fn(ip, [x], {})
        return models.real_fn(ip.ctx, 'sqrt', rv(x))
    ns['sqrt'] = Native('np.sqrt', sqrt)
