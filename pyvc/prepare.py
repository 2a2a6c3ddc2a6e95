"""Preparation of source data: blocks of a grid (xarray coarsen / thin) and map projections (pyproj), as assumed contracts."""
from .core import *
from .interp import Model, Native, TYPES
from . import models
from .models import raise_
from .data import Arr, DSET

R_ = z3.RealSort()


class Grid(Model):
    """a grid, and what was done to it: ops is a sequence of (statistic, {axis: block length}); statistics of a block skip missing values, the last
    block of an axis may be shorter (boundary='pad'), the coordinate of a block is the mean of its coordinates; 'first' keeps the first node of each block"""
    def __init__(self, base=None, ops=()):
        super().__init__()
        self.base, self.ops = base or self, tuple(ops)

    def typeof(self, ip):
        return DSET

    def then(self, stat, f):
        # the minimum of minima is the minimum over both axes; the same for the first node
        if self.ops and stat in ('min', 'max', 'first') and self.ops[-1][0] == stat and not set(f) & set(self.ops[-1][1]):
            return Grid(self.base, self.ops[:-1] + ((stat, {**self.ops[-1][1], **f}),))
        return Grid(self.base, self.ops + ((stat, dict(f)),))

    def factors(self, ip, a, k):
        f = {}
        for d in a:
            if not isinstance(d, PyDict):
                raise Unsupported('blocks')
            f.update(dict(d.ents))
        f.update(k)
        if not set(f) <= {'lat', 'long'} or not f:
            raise Unsupported('blocks along other axes')
        return f

    def get(self, ip, n):
        if n == 'coarsen':
            def coarsen(ip, a, k):
                k = dict(k)
                pad = k.pop('boundary', 'exact')
                return Coarse(self, self.factors(ip, list(a) + ([k.pop('dim')] if 'dim' in k else []), k), pad)
            return Native(n, coarsen)
        if n == 'thin':
            return Native(n, lambda ip, a, k: self.then('first', self.factors(ip, a, k)))
        if n == 'copy':
            return Native(n, lambda ip, a, k: self)
        raise Unsupported(f'grid.{n}')


class Coarse(Model):
    def __init__(self, g, f, pad):
        super().__init__()
        self.g, self.f, self.pad = g, f, pad

    def get(self, ip, n):
        if n in ('min', 'max', 'mean', 'median', 'std', 'sum', 'count', 'var', 'prod'):
            def f(ip, a, k):
                if a or k:
                    raise Unsupported('statistic of a block with arguments')
                return self.g.then(n if self.pad == 'pad' else f'{n} ({self.pad})', self.f)
            return Native(n, f)
        raise Unsupported(f'blocks.{n}')


class Crs(Model):
    def __init__(self, t):
        super().__init__()
        self.t = t


def pyproj():
    def crs(ip, a, k):
        return Crs(a[0].t if isinstance(a[0], Crs) else a[0])

    def from_crs(ip, a, k):
        a = list(a)
        src, dst = k.get('crs_from', a[0] if a else None), k.get('crs_to', a[1] if len(a) > 1 else None)
        xy = k.get('always_xy', a[2] if len(a) > 2 else False)
        if set(k) - {'crs_from', 'crs_to', 'always_xy'} or not isinstance(xy, bool):
            raise Unsupported('Transformer.from_crs')
        return Transformer(*[x.t if isinstance(x, Crs) else x for x in (src, dst)], xy)
    T = models.ExtModule('pyproj.Transformer', dict(from_crs=Native('from_crs', from_crs)))
    C = Native('CRS', crs)
    return models.ExtModule('pyproj', dict(Transformer=T, CRS=C))


def project(src, dst, xy, n):
    return z3.Function(f'project_{src}_{dst}{"" if xy else "_by_authority"}_{n}', R_, R_, R_)


class Transformer(Model):
    def __init__(self, src, dst, xy):
        super().__init__()
        self.src, self.dst, self.xy = src, dst, xy

    def get(self, ip, n):
        if n == 'transform':
            def f(ip, a, k):
                if len(a) != 2 or k or not all(isinstance(x, Arr) for x in a) or not all(isinstance(x, str) for x in (self.src, self.dst)):
                    raise Unsupported('transform')
                out = []
                for n in 'xy':
                    g = project(self.src, self.dst, self.xy, n)
                    v, dims = a[0].pointwise(ip, 'f', a[1], False, lambda s, t, g=g: (bor(s[0], t[0]), g(as_real(rv(s[1])), as_real(rv(t[1])))))
                    out.append(a[0].like(v, dims=dims))
                return tuple(out)
            return Native(n, f)
        raise Unsupported(f'Transformer.{n}')
