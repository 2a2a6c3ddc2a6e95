"""shapely polygons (axis-parallel rectangles given as text) for the pyvc interpreter"""
import re
from fractions import Fraction
import z3
from .core import *
from .interp import Model, Native, Opaque, ExcVal
from . import models


def num(ip, r):
    return ip.call(ip.builtins['float'], [r])


class PolygonM(Model):
    geom = 'Polygon'

    def __init__(self, pts):
        super().__init__()
        self.pts = pts

    def ring(self):
        out = []
        for i, (x, y) in enumerate(self.pts):
            if i:
                out.append(', ')
            out += [('n', rv(x)), ' ', ('n', rv(y))]
        return out

    def get(self, ip, n):
        if n == 'wkt':
            return Rope(['POLYGON (('] + self.ring() + ['))'])
        if n == 'bounds':
            xs, ys = [p[0] for p in self.pts], [p[1] for p in self.pts]
            mn, mx = ip.builtins['min'], ip.builtins['max']
            return (ip.call(mn, xs), ip.call(mn, ys), ip.call(mx, xs), ip.call(mx, ys))
        if n == 'geom_type':
            return 'Polygon'
        if n == 'contains':
            return Native('contains', lambda ip, a, k: self.contains_pt(ip, a[0]))
        if n == 'area':
            from .regions import poly_area
            return poly_area(ip, self)
        if n == 'intersects':
            return Native(n, lambda ip, a, k: ip.call(ip.getattr(a[0], 'intersects'), [self]))
        if n == 'intersection':
            return Native(n, lambda ip, a, k: ip.call(ip.getattr(a[0], 'intersection'), [self]))
        raise Unsupported(f'polygon.{n}')

    def rect(self, ip):
        """(x0,y0,x1,y1) if the ring is an axis-parallel rectangle"""
        p = self.pts
        ctx = ip.ctx
        if len(p) != 5:
            raise Unsupported('ring with other than five points')
        eqs = lambda a, b: simp(as_real(rv(a)) == as_real(rv(b)))
        c1 = band(eqs(p[0][0], p[1][0]), eqs(p[1][1], p[2][1]), eqs(p[2][0], p[3][0]), eqs(p[3][1], p[0][1]))
        c2 = band(eqs(p[0][1], p[1][1]), eqs(p[1][0], p[2][0]), eqs(p[2][1], p[3][1]), eqs(p[3][0], p[0][0]))
        closed = band(eqs(p[0][0], p[4][0]), eqs(p[0][1], p[4][1]))
        if not ctx.must(band(closed, bor(c1, c2))):
            raise Unsupported('ring is not known to be a rectangle')
        return self.get(ip, 'bounds')

    def contains_pt(self, ip, pt):
        if not isinstance(pt, PointM):
            raise Unsupported('contains of a non-point')
        x0, y0, x1, y1 = [as_real(rv(v)) for v in self.rect(ip)]
        x, y = as_real(rv(pt.x)), as_real(rv(pt.y))
        return simp(z3.And(x0 < x, x < x1, y0 < y, y < y1))


class MultiPolygonM(Model):
    def __init__(self, polys):
        super().__init__()
        self.polys = polys

    def get(self, ip, n):
        if n == 'wkt':
            parts = ['MULTIPOLYGON (']
            for i, p in enumerate(self.polys):
                if i:
                    parts.append(', ')
                parts += ['(('] + p.ring() + ['))']
            return Rope(parts + [')'])
        if n == 'geom_type':
            return 'MultiPolygon'
        if n == 'geoms':
            return PyList(self.polys)
        if n == 'contains':
            return Native('contains', lambda ip, a, k: bor(*[p.contains_pt(ip, a[0]) for p in self.polys]))
        if n == 'bounds':
            bs = [p.get(ip, 'bounds') for p in self.polys]
            mn, mx = ip.builtins['min'], ip.builtins['max']
            return (ip.call(mn, [b[0] for b in bs]), ip.call(mn, [b[1] for b in bs]), ip.call(mx, [b[2] for b in bs]), ip.call(mx, [b[3] for b in bs]))
        if n == 'area':
            from .regions import poly_area
            return poly_area(ip, self)
        if n in ('intersects', 'intersection'):
            return Native(n, lambda ip, a, k: ip.call(ip.getattr(a[0], n), [self]))
        raise Unsupported(f'multipolygon.{n}')


class PointM(Model):
    def __init__(self, x, y):
        super().__init__()
        self.x, self.y = x, y

    def get(self, ip, n):
        if n in ('x', 'y'):
            return getattr(self, n)
        if n == 'within':
            return Native('within', lambda ip, a, k: ip.call(ip.getattr(a[0], 'contains'), [self]))
        raise Unsupported(f'point.{n}')


def loads(ip, a, k):
    """wkt.loads of a POLYGON or MULTIPOLYGON text whose coordinates are numbers"""
    t = a[0]
    if isinstance(t, str):
        t = Rope([t])
    if not isinstance(t, Rope):
        raise Unsupported('wkt.loads of opaque text')
    toks = []
    for p in t.parts:
        if isinstance(p, str):
            toks += re.findall(r'[A-Za-z]+|[(),]|[-+]?\d+(?:\.\d*)?(?:[eE][-+]?\d+)?', p)
            if re.sub(r'[A-Za-z]+|[(),\s]|[-+]?\d+(?:\.\d*)?(?:[eE][-+]?\d+)?', '', p):
                raise Unsupported('wkt text')
        elif p[0] == 'n':
            toks.append(p)
        else:
            raise Unsupported('wkt.loads of opaque text')
    pos = [0]

    def nxt():
        pos[0] += 1
        return toks[pos[0] - 1] if pos[0] <= len(toks) else None

    def expect(s):
        if nxt() != s:
            raise PyRaise(ExcVal(ValueError, ('malformed WKT',)))

    def number():
        x = nxt()
        if isinstance(x, tuple):
            return norm(rv(x[1]))
        try:
            return Fraction(x)
        except Exception:
            raise PyRaise(ExcVal(ValueError, ('malformed WKT',)))

    def ring():
        expect('(')
        pts = []
        while True:
            x = number()
            pts.append((x, number()))
            s = nxt()
            if s == ')':
                return pts
            if s != ',':
                raise PyRaise(ExcVal(ValueError, ('malformed WKT',)))

    def poly():
        expect('(')
        r = ring()
        expect(')')
        return PolygonM(r)
    kind = nxt()
    if kind == 'POLYGON':
        p = poly()
        if pos[0] != len(toks):
            raise PyRaise(ExcVal(ValueError, ('malformed WKT',)))
        return p
    if kind == 'MULTIPOLYGON':
        expect('(')
        ps = []
        while True:
            ps.append(poly())
            s = nxt()
            if s == ')':
                break
            if s != ',':
                raise PyRaise(ExcVal(ValueError, ('malformed WKT',)))
        return MultiPolygonM(ps)
    raise Unsupported(f'wkt {kind}')


def shapely_module(ip, name):
    ld = Native('shapely.wkt.loads', loads)
    wkt = models.ExtModule('shapely.wkt', dict(loads=ld, dumps=Native('dumps', lambda ip, a, k: a[0].get(ip, 'wkt'))))
    mp = Native('MultiPolygon', lambda ip, a, k: MultiPolygonM(ip.unpack(a[0])))
    pt = Native('Point', lambda ip, a, k: PointM(*(a if len(a) == 2 else ip.unpack(a[0]))))

    def pg(ip, a, k):
        pts = [tuple(ip.unpack(p)) for p in ip.unpack(a[0])]
        if not (pts[0][0] is pts[-1][0] and pts[0][1] is pts[-1][1]) or len(pts) == 4:
            c = band(ip.truth(ip.compare('Eq', pts[0][0], pts[-1][0])), ip.truth(ip.compare('Eq', pts[0][1], pts[-1][1])))
            if len(pts) < 5 or not ip.ctx.must(c):
                pts = pts + [pts[0]]
        return PolygonM(pts)

    def box(ip, a, k):
        x0, y0, x1, y1 = a[:4]
        return PolygonM([(x1, y0), (x1, y1), (x0, y1), (x0, y0), (x1, y0)])
    ns = dict(wkt=wkt, MultiPolygon=mp, Point=pt, Polygon=Native('Polygon', pg), box=Native('box', box))
    if name == 'shapely.wkt':
        return wkt
    from . import regions
    tr = models.ExtModule('shapely.strtree', dict(STRtree=Native('STRtree', regions.stree)))
    ops = models.ExtModule('shapely.ops', dict(unary_union=Native('unary_union', regions.union)))
    if name in ('shapely.strtree', 'shapely.ops'):
        return tr if name == 'shapely.strtree' else ops
    ns.update(strtree=tr, ops=ops, STRtree=tr.ns['STRtree'], unary_union=ops.ns['unary_union'])
    g = models.ExtModule('shapely.geometry', ns)
    if name == 'shapely.geometry':
        return g
    return models.ExtModule('shapely', dict(ns, geometry=g))
