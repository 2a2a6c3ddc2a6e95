"""Arrays with axes (numpy arrays, tables spread out by position, grids): what the flow quantities of vector data are computed with.

A Field has named axes, each with its (unknown) length, and a value for every index tuple; the names are those of the
coordinates the axis runs along, so an operation that confuses two axes gives a different function of the position.  The
operations are assumed contracts of numpy / pandas / xarray:

* table.pivot(index=a, columns=b, values=c): axes (a, b), in ascending order of both coordinates, missing where there is no row
* grid[c].values / .data: axes in the order in which the grid stores them; .transpose(names) changes the order
* np.stack / np.dstack / np.swapaxes / np.transpose / .T / indexing with slices and numbers: as documented
* np.gradient(f, axis=k): central differences inside, one-sided at both ends, unit spacing; ValueError if shorter than 2
* np.linalg.norm of components: NORM(x, y), uninterpreted and shared by np.hypot and np.sqrt(x*x+y*y); np.arctan2 uninterpreted"""
from .core import *
from .interp import Model, Native, Obj, TypeVal, TYPES
from . import models
from .models import raise_
from .data import Data, Arr, DF, DSET, DARRAY, SERIES, const_of

I_, R_, B_ = z3.IntSort(), z3.RealSort(), z3.BoolSort()
SQRT = z3.Function('SQRT', R_, R_)
ATAN2 = z3.Function('ATAN2', R_, R_, R_)


def norm(x, y):
    return SQRT(as_real(rv(x)) * as_real(rv(x)) + as_real(rv(y)) * as_real(rv(y)))


class Field(Model):
    def __init__(self, axes, lens, val, kind=None, doms=None, sel=None):
        super().__init__()
        self.sel = sel      # (space, selection): the single axis runs over the selected points
        self.axes, self.lens, self.val, self.kind, self.doms = tuple(axes), dict(lens), val, kind or TYPES['ndarray'], doms or {}

    def typeof(self, ip):
        return self.kind

    def truth(self, ip):
        raise_(ValueError, 'truth value of an array')

    def like(self, axes=None, val=None, kind=None):
        ax = self.axes if axes is None else tuple(axes)
        return Field(ax, {a: self.lens[a] for a in ax}, val or self.val, kind or self.kind, self.doms, self.sel)

    def nd(self):
        return self.like(kind=TYPES['ndarray'])

    def perm(self, order):
        return self.like(axes=order)

    def length(self, ip):
        return self.lens[self.axes[0]]

    def axis(self, k):
        k = k if not is_z3(k) else None
        if not isinstance(k, int) or isinstance(k, bool):
            raise Unsupported('axis of an array')
        if not -len(self.axes) <= k < len(self.axes):
            raise_(ValueError, 'axis out of range')
        return self.axes[k]

    # -------------------------------------------------------------- elements
    def inside(self, ix):
        return z3.And(*[zb(self.doms[a](ix[a])) if a in self.doms else z3.And(ix[a] >= 0, ix[a] < rv(self.lens[a])) for a in self.axes if not isinstance(ix[a], int)] + [z3.BoolVal(True)])

    def anyindex(self, ctx):
        return {a: ctx.int(f'i_{a}') for a in self.axes}

    def require(self, ip, f):
        """assume f(missing, value) for every element"""
        if self.sel:
            if self.axes != ('row',):
                raise Unsupported('reduction of rows')
            sp, q = self.sel
            sp.forall(lambda p: z3.Implies(z3.And(sp.live(p), zb(q(p))), f(zb(self.val({'row': p})[0]), self.val({'row': p})[1])))
        else:
            ip.ctx.assume(self.every(f))

    def every(self, f):
        """for all index tuples: inside -> f"""
        if any(isinstance(self.lens[a], int) and a not in self.doms for a in self.axes):
            raise Unsupported('quantification over a concrete axis')
        ix = {a: z3.Int(f'q_{a}') for a in self.axes}
        na, v = self.val(ix)
        return z3.ForAll(list(ix.values()), z3.Implies(self.inside(ix), f(zb(na), v)))

    def missing_everywhere(self, ip):
        """is every element missing?  (decided by a case distinction)"""
        ctx = ip.ctx
        if self.sel and self.axes == ('row',):
            sp, q = self.sel
            some = sp.count([q], lambda p: bnot(self.val({'row': p})[0]))
            none = simp(rv(some) == 0)
        else:
            none = ctx.bool('all_missing')
        if ctx.branch(none):
            self.require(ip, lambda na, v: na)
            return True
        ix = self.anyindex(ctx)
        na, v = self.val(ix)
        ctx.assume(z3.And(self.inside(ix), z3.Not(zb(na))))
        return False

    def getitem(self, ip, k):
        k = k if isinstance(k, tuple) else (k,)
        if Ellipsis in [x for x in k if x is Ellipsis]:
            i = [n for n, x in enumerate(k) if x is Ellipsis][0]
            k = k[:i] + (slice(None),) * (len(self.axes) - len(k) + 1) + k[i + 1:]
        if len(k) > len(self.axes):
            raise_(IndexError, 'too many indices')
        fix, keep = {}, []
        for a, x in zip(self.axes, k + (slice(None),) * (len(self.axes) - len(k))):
            if isinstance(x, slice):
                if (x.start, x.stop, x.step) != (None, None, None):
                    raise Unsupported('slice of an array')
                keep.append(a)
            elif isinstance(x, int) and not isinstance(x, bool) and isinstance(self.lens[a], int):
                if not -self.lens[a] <= x < self.lens[a]:
                    raise_(IndexError, 'index out of bounds')
                fix[a] = x % self.lens[a]
            else:
                raise Unsupported('index of an array')
        v = self.val
        return self.like(axes=keep, val=lambda ix: v({**ix, **fix}))

    # -------------------------------------------------------------- arithmetic
    def align(self, ip, o):
        """value function of the other operand over my index tuples (numpy: axes by position from the end)"""
        if isinstance(o, Field):
            if len(o.axes) != len(self.axes):
                raise Unsupported('arrays of different rank')
            for a, b in zip(self.axes, o.axes):
                if a != b and not (isinstance(self.lens[a], int) and self.lens[a] == o.lens[b]):
                    raise Unsupported(f'operation on arrays along different axes ({a}, {b})')
                if a == b and a in self.doms and self.doms[a] is o.doms.get(a):
                    continue
                if a == b and self.lens[a] is not o.lens[b] and not ip.ctx.must(rv(self.lens[a]) == rv(o.lens[b])):
                    raise Unsupported('arrays of different length')
            return lambda ix: o.val({b: ix[a] for a, b in zip(self.axes, o.axes)})
        if isinstance(o, (PyList, tuple)) or type(o).__name__ == 'NdArray':
            l = ip.unpack(o.l if type(o).__name__ == 'NdArray' else o)
            a = self.axes[-1]
            if self.lens[a] != len(l):
                raise Unsupported('array and list of different length')
            cs = [const_of(ip, x) for x in l]

            def pick(ix):
                i = ix[a]
                if not isinstance(i, int):
                    raise Unsupported('list along an unknown axis')
                return cs[i]
            return pick
        c = const_of(ip, o)
        return lambda ix: c

    def pointwise(self, ip, o, sw, f):
        g, v = self.align(ip, o), self.val
        return lambda ix: f(g(ix), v(ix)) if sw else f(v(ix), g(ix))

    def binop(self, ip, op, o, sw):
        v = self.val
        if o is None and op in ('USub', 'Abs', 'UAdd'):
            def g(ix):
                na, x = v(ix)
                x = as_real(rv(x))
                return na, (-x if op == 'USub' else z3.If(x < 0, -x, x) if op == 'Abs' else x)
            return self.like(val=g)

        def f(a, b):
            x, y = as_real(rv(a[1])), as_real(rv(b[1]))
            if op == 'Pow':
                return a[0], x * x
            return bor(a[0], b[0]), {'Add': lambda: x + y, 'Sub': lambda: x - y, 'Mult': lambda: x * y}[op]()
        if op == 'Pow' and o == 2 and not sw:
            return self.like(val=lambda ix: f(v(ix), (False, 0)))
        if op not in ('Add', 'Sub', 'Mult'):
            raise Unsupported(f'array {op}')
        return self.like(val=self.pointwise(ip, o, sw, f))

    def cmp(self, ip, op, o, sw):
        raise Unsupported('comparison of an array')

    def isnan(self, ip):
        return FMask(self)

    # -------------------------------------------------------------- reductions
    def extreme(self, ip, low):
        """largest / smallest element that is not missing; every element missing -> not a number"""
        ctx = ip.ctx
        if self.missing_everywhere(ip):
            return NaNable(True, 0)
        ix = self.anyindex(ctx)
        na, x = self.val(ix)
        x = as_real(rv(x))
        r = ctx.real('extreme')
        ctx.assume(z3.And(self.inside(ix), z3.Not(zb(na)), r == x))
        self.require(ip, lambda na, v: z3.Implies(z3.Not(na), r <= as_real(rv(v)) if low else r >= as_real(rv(v))))
        return NaNable(False, r)

    def mean(self, ip, skipna=True):
        return FStat(self, 'nanmean' if skipna else 'mean')

    def grad(self, ip, a):
        ctx = ip.ctx
        n = rv(self.lens[a])
        if ctx.branch(simp(n < 2)):
            raise_(ValueError, 'Shape of array too small to calculate a numerical gradient')
        v = self.val

        def g(ix):
            i = ix[a]
            at = lambda j: v({**ix, a: j})
            (n0, v0), (np_, vp), (nm, vm), = at(i), at(i + 1), at(i - 1)
            first, last = i == 0, i == n - 1
            na = z3.If(first, z3.Or(zb(np_), zb(n0)), z3.If(last, z3.Or(zb(nm), zb(n0)), z3.Or(zb(np_), zb(nm))))
            v0, vp, vm = (as_real(rv(x)) for x in (v0, vp, vm))
            return na, z3.If(first, vp - v0, z3.If(last, v0 - vm, (vp - vm) / 2))
        return self.like(val=g)

    def get(self, ip, n):
        nat = lambda f: Native(n, f)
        arr = self.kind is TYPES['ndarray']
        if n in ('values', 'data') and not arr:
            return self.nd()
        if n in ('to_numpy', 'copy', '__array__', 'astype'):
            return nat(lambda ip, a, k: self.nd() if n != 'copy' else self)
        if n == 'shape':
            return tuple(self.lens[a] for a in self.axes)
        if n == 'ndim':
            return len(self.axes)
        if n == 'dims' and self.kind is DARRAY:
            return self.axes
        if n == 'size':
            raise Unsupported('size of an array')
        if n == 'T':
            return self.perm(self.axes[::-1])
        if n == 'transpose':
            return nat(lambda ip, a, k: transpose(ip, [self] + list(a), k))
        if n == 'swapaxes':
            return nat(lambda ip, a, k: swapaxes(ip, [self] + list(a), k))
        raise Unsupported(f'array.{n}')


class FStat(Model):
    """mean of the elements of a field"""
    def __init__(self, field, kind):
        super().__init__()
        self.field, self.kind = field, kind

    def typeof(self, ip):
        return TYPES['float']


class FMask(Model):
    """the missing elements of a field"""
    def __init__(self, f, neg=False):
        super().__init__()
        self.f, self.neg = f, neg

    def typeof(self, ip):
        return TYPES['ndarray']

    def binop(self, ip, op, o, sw):
        if op == 'Invert':
            return FMask(self.f, not self.neg)
        raise Unsupported('mask')

    def get(self, ip, n):
        if (n == 'all' and not self.neg) or (n == 'any' and self.neg):
            return Native(n, lambda ip, a, k: self.f.missing_everywhere(ip) == (n == 'all'))
        raise Unsupported(f'mask.{n}')


# ------------------------------------------------------------------ sources of fields
class Vectors(Model):
    """table (DF) or grid (DSET) with one vector per position: entry(c, ilat, ilong) -> (missing, value); cols: names of the components"""
    def __init__(self, kind, entry, nlat, nlong, order=('lat', 'long'), cols=('u', 'w')):
        super().__init__()
        self.kind, self.entry, self.order, self.cols, self.lens = kind, entry, order, cols, dict(lat=nlat, long=nlong)

    def typeof(self, ip):
        return self.kind

    def field(self, c, order, kind):
        return Field(order, self.lens, lambda ix: self.entry(c, ix['lat'], ix['long']), kind)

    def getitem(self, ip, k):
        if self.kind is DSET and isinstance(k, str):
            if k not in self.cols:
                raise_(KeyError, k)
            return self.field(k, self.order, DARRAY)
        raise Unsupported('data[..]')

    def get(self, ip, n):
        if n == 'pivot' and self.kind is DF:
            def f(ip, a, k):
                i, c, v = (k.get(x) for x in ('index', 'columns', 'values'))
                if a or {i, c} != {'lat', 'long'} or v not in self.cols:
                    raise Unsupported('pivot')
                return self.field(v, (i, c), DF)
            return Native(n, f)
        if n == 'transpose' and self.kind is DSET:
            def f(ip, a, k):
                l = names(ip, a, self.order)
                return Vectors(DSET, self.entry, self.lens['lat'], self.lens['long'], l, self.cols)
            return Native(n, f)
        if n == 'dims' and self.kind is DSET:
            return self.order
        raise Unsupported(f'data.{n}')


def names(ip, a, have):
    if not a:
        return have[::-1]
    if Ellipsis in a:
        rest = [x for x in have if x not in a]
        i = list(a).index(Ellipsis)
        a = list(a[:i]) + rest + list(a[i + 1:])
    if sorted(a) != sorted(have):
        raise_(ValueError, 'dimensions')
    return tuple(a)


def transpose(ip, a, k):
    f, r = a[0], list(a[1:])
    if f.kind is DARRAY:
        return f.perm(names(ip, r, f.axes))
    if 'axes' in k:
        r = [k['axes']]
    if len(r) == 1 and isinstance(r[0], (tuple, PyList)):
        r = ip.unpack(r[0])
    return f.perm([f.axis(x) for x in r] if r else f.axes[::-1])


def swapaxes(ip, a, k):
    f = a[0]
    x, y = f.axis(a[1] if len(a) > 1 else k['axis1']), f.axis(a[2] if len(a) > 2 else k['axis2'])
    return f.nd().perm([y if z == x else x if z == y else z for z in f.axes])


def stack(ip, l, pos):
    """new axis with one element per array"""
    l = ip.unpack(l)
    if not l or not all(isinstance(x, Field) for x in l) or any(x.axes != l[0].axes for x in l):
        raise Unsupported('np.stack')
    l = [x.nd() for x in l]
    ax = 'part'
    if ax in l[0].axes:
        raise Unsupported('np.stack twice')
    n = len(l[0].axes) + 1
    pos = pos + n if pos < 0 else pos
    axes = l[0].axes[:pos] + (ax,) + l[0].axes[pos:]

    def val(ix):
        if not isinstance(ix[ax], int):
            raise Unsupported('unknown component')
        return l[ix[ax]].val(ix)
    return Field(axes, {**l[0].lens, ax: len(l)}, val, doms=l[0].doms)


def rows(data):
    """a table as an array: one line per row (numbered by its point), one column per name"""
    sp, pieces = data.space, data.pieces
    if len(pieces) != 1:
        raise Unsupported('table of several pieces as an array')
    cs = [sp.col(c) if c in data.cols else sp.coord(c) for c in data.order]

    def val(ix):
        if not isinstance(ix['column'], int):
            raise Unsupported('unknown column')
        return cs[ix['column']](ix['row'])
    return Field(('row', 'column'), dict(row=sp.count(pieces), column=len(cs)), val, doms=dict(row=lambda p: z3.And(sp.facts(p), sp.live(p), zb(pieces[0](p)))), sel=(sp, pieces[0]))


def components(ip, x, axis):
    """the two arrays whose norm is taken"""
    if isinstance(x, (PyList, tuple)) or type(x).__name__ == 'NdArray':
        l = ip.unpack(x.l if type(x).__name__ == 'NdArray' else x)
        if axis == 0 and len(l) == 2 and all(isinstance(y, (Field, Arr)) for y in l):
            return l
    if isinstance(x, Field) and axis is not None:
        a = x.axis(axis)
        if x.lens[a] == 2:
            i = x.axes.index(a)
            return [x.getitem(ip, (slice(None),) * i + (c,)) for c in (0, 1)]
    raise Unsupported('norm')


def pair(ip, x, y, f):
    """pointwise function of two arrays; missing where one of them is"""
    g = lambda a, b: (bor(a[0], b[0]), f(as_real(rv(a[1])), as_real(rv(b[1]))))
    if isinstance(x, Field):
        return x.nd().like(val=x.pointwise(ip, y, False, g))
    v, dims = x.pointwise(ip, 'f', y, False, g)
    return x.like(v, dims=dims)


def np_functions(ns):
    def over(name, test, f):
        old = ns.get(name)

        def h(ip, a, k):
            if test(a):
                return f(ip, a, k)
            if old is None:
                raise Unsupported(f'np.{name}')
            return old.fn(ip, a, k)
        ns[name] = Native('np.' + name, h)
    isf = lambda a: bool(a) and isinstance(a[0], Field)
    seqf = lambda a: bool(a) and isinstance(a[0], (tuple, PyList)) and not (isinstance(a[0], PyList) and not a[0].concrete) and any(isinstance(x, Field) for x in (a[0] if isinstance(a[0], tuple) else a[0].segs))

    def gradient(ip, a, k):
        if len(a) > 1 or set(k) - {'axis'}:
            raise Unsupported('np.gradient with a spacing')
        f, ax = a[0], k.get('axis')
        if ax is None:
            ax = tuple(range(len(f.axes)))
        if isinstance(ax, (tuple, PyList)):
            return PyList([f.nd().grad(ip, f.axis(x)) for x in ip.unpack(ax)])
        return f.nd().grad(ip, f.axis(ax))
    over('gradient', isf, gradient)
    over('stack', seqf, lambda ip, a, k: stack(ip, a[0], k.get('axis', a[1] if len(a) > 1 else 0)))

    def dstack(ip, a, k):
        l = ip.unpack(a[0])
        if any(len(x.axes) != 2 for x in l):
            raise Unsupported('np.dstack')
        return stack(ip, a[0], 2)
    over('dstack', seqf, dstack)
    over('array', seqf, lambda ip, a, k: stack(ip, a[0], 0))
    over('swapaxes', isf, swapaxes)
    over('transpose', isf, lambda ip, a, k: transpose(ip, [a[0].nd()] + list(a[1:]), k))
    over('nanmax', isf, lambda ip, a, k: a[0].extreme(ip, False))
    over('nanmin', isf, lambda ip, a, k: a[0].extreme(ip, True))
    over('nanmean', isf, lambda ip, a, k: a[0].mean(ip))
    over('hypot', lambda a: len(a) == 2 and isinstance(a[0], (Field, Arr)), lambda ip, a, k: pair(ip, a[0], a[1], norm))
    over('arctan2', lambda a: len(a) == 2 and isinstance(a[0], (Field, Arr)), lambda ip, a, k: pair(ip, a[0], a[1], lambda y, x: ATAN2(y, x)))
    over('all', lambda a: bool(a) and isinstance(a[0], FMask), lambda ip, a, k: ip.call(ip.getattr(a[0], 'all'), []))
    over('any', lambda a: bool(a) and isinstance(a[0], FMask), lambda ip, a, k: ip.call(ip.getattr(a[0], 'any'), []))

    def sqrt(ip, a, k):
        x = a[0]
        g = lambda t: (t[0], SQRT(as_real(rv(t[1]))))
        v = x.val
        return x.like(val=lambda p: g(v(p)))
    over('sqrt', lambda a: bool(a) and isinstance(a[0], (Field, Arr)), sqrt)

    def lnorm(ip, a, k):
        if len(a) > 2 or set(k) - {'axis', 'ord'} or k.get('ord') not in (None, 2) or (len(a) > 1 and a[1] not in (None, 2)):
            raise Unsupported('np.linalg.norm')
        x, y = components(ip, a[0], k.get('axis'))
        return pair(ip, x, y, norm)
    old = ns.get('linalg')
    if old is not None:
        raise Unsupported('np.linalg is there already')
    ns['linalg'] = models.ExtModule('numpy.linalg', dict(norm=Native('np.linalg.norm', lnorm)))
