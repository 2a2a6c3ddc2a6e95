"""Symbolic inputs and specification functions shared by the contracts.

Specification geometry: a cell is [lat0,lat1] x [west, west+width] on the longitude circle."""
from fractions import Fraction
import z3
from .core import *
from .interp import Model, Native, Obj, Bound, ClassVal, ExcVal, TYPES, NEXT
from . import models
from .models import floor_divide

MG = 'meshiphi.mesh_generation.'
R = z3.RealVal


def fl(v):
    """model value -> float"""
    if isinstance(v, list):
        return [fl(x) for x in v]
    return float(Fraction(v))


def reduced(ctx, x):
    """representative of x modulo 360 in [-180, 180)"""
    k, r = floor_divide(ctx, simp_r(x) + 180, R(360))
    return r - 180


def simp_r(x):
    return as_real(rv(simp(x)))


def cong(ctx, a, b):
    """equal longitudes modulo 360"""
    return reduced(ctx, a) == reduced(ctx, b)


def width_of(lo, hi):
    lo, hi = as_real(lo), as_real(hi)
    return z3.If(hi > lo, hi - lo, hi - lo + 360)


class Rect:
    """symbolic cell rectangle (specification side)"""
    def __init__(self, ctx, name, maxw=360, T=None):
        self.lat0, self.lat1, self.lo, self.hi = [ctx.real(f'{name}_{k}') for k in ('lat0', 'lat1', 'lo', 'hi')]
        self.w = width_of(self.lo, self.hi)
        ctx.assume(z3.And(self.lat0 < self.lat1, self.lat0 >= -90, self.lat1 <= 90, self.lo >= -180, self.lo <= 180, self.hi >= -180, self.hi <= 180,
                          self.w > 0, self.w < maxw, z3.Not(z3.And(self.lo == 180, self.hi == -180))))
        self.h = self.lat1 - self.lat0
        if T is not None:
            T.input(name, [self.lat0, self.lat1, self.lo, self.hi])

    def lat_list(self):
        return PyList([self.lat0, self.lat1])

    def long_list(self):
        return PyList([self.lo, self.hi])


def m(ip, o, name, *args):
    """o.name(*args)"""
    return ip.call(ip.getattr(o, name), list(args))


def times(ctx, name='t'):
    """a symbolic valid time range as a fresh two-element list of date texts, and the ordinals"""
    a, b = ctx.int(name + '0'), ctx.int(name + '1')
    ctx.assume(z3.And(a >= 1, a <= b))
    return [Rope([('d', a)]), Rope([('d', b)])]


def boundary(ip, rect, time=None):
    B = ip.find(MG + 'boundary', 'Boundary')
    args = [rect.lat_list(), rect.long_list()]
    if time is not None:
        args.append(PyList(time))
    return ip.call(B, args)


def read_rect(ip, b):
    """what the getters of a Boundary say"""
    return tuple(as_real(rv(m(ip, b, n))) for n in ('get_lat_min', 'get_lat_max', 'get_long_min', 'get_long_max'))


def is_rect(ctx, got, lat0, lat1, west, w):
    """the rectangle `got` is [lat0,lat1] x [west, west+w], written with longitudes in [-180,180]"""
    a, b, lo, hi = got
    return z3.And(a == lat0, b == lat1, lo >= -180, lo <= 180, hi >= -180, hi <= 180, width_of(lo, hi) == w, cong(ctx, lo, west))


def same_rect(got, r):
    a, b, lo, hi = got
    return z3.And(a == r.lat0, b == r.lat1, lo == r.lo, hi == r.hi)


class Term(Model):
    """an opaque immutable value built from other values; compared structurally"""
    def __init__(self, kind, *args, **attrs):
        super().__init__()
        self.kind, self.args, self.attrs = kind, args, attrs

    def __repr__(self):
        return f'{self.kind}{self.args}'

    def subst(self, ins):
        return Term(self.kind, *[ins.val(a) for a in self.args], **self.attrs)

    def get(self, ip, n):
        if n in self.attrs:
            f = self.attrs[n]
            return f(ip, self)
        raise Unsupported(f'{self.kind}.{n}')

    def eq(self, ip, o):
        if self is o:
            return True
        if not isinstance(o, Term) or o.kind != self.kind or len(o.args) != len(self.args):
            return False
        return band(*[ip.truth(models.eq(ip, a, b)) for a, b in zip(self.args, o.args)])

    def same(self, ip, o):
        return self.eq(ip, o)

    def truth(self, ip):
        if 'truth' in self.attrs:
            return self.attrs['truth'](ip, self)
        raise Unsupported(f'truth of {self.kind}')

    def deep_copy(self, ip, memo):
        return self

    def json_copy(self, ip):
        return self


def method(fn):
    """attribute of a Term that is a method: fn(ip, self, args, kw)"""
    return lambda ip, s: Native('method', lambda ip, a, k: fn(ip, s, a, k))


def case_spec(ctx, a, b, d=None):
    """direction in which rectangle b touches a (0: not), longitudes modulo 360; a, b: (lat0, lat1, west, width)"""
    a0, a1, aw, wa = a
    b0, b1, bw, wb = b
    if d is None:
        d = floor_divide(ctx, simp_r(bw - aw), R(360))[1]
    lat_over = z3.And(a0 < b1, b0 < a1)
    north, south = a1 == b0, b1 == a0
    east, west = d == wa, z3.Or(d + wb == 360, z3.And(d == 0, wb == 360))
    lon_over = z3.Or(d < wa, d + wb > 360)
    out = z3.IntVal(0)
    for c, k in reversed([(z3.And(east, lat_over), 2), (z3.And(west, lat_over), -2), (z3.And(north, lon_over), -4), (z3.And(south, lon_over), 4),
                          (z3.And(east, north), 1), (z3.And(east, south), 3), (z3.And(west, south), -1), (z3.And(west, north), -3)]):
        out = z3.If(c, z3.IntVal(k), out)
    return out


def disjoint_spec(ctx, a, b):
    """open interiors do not meet"""
    d = floor_divide(ctx, simp_r(b[2] - a[2]), R(360))[1]
    return z3.Or(a[1] <= b[0], b[1] <= a[0], z3.And(d >= a[3], d + b[3] <= 360))


def ren(r):
    return (r.lat0, r.lat1, r.lo, r.w)


DNAME = z3.Function('dname', z3.IntSort(), TextSort)


def loader_term(i, **methods):
    """a data loader known only by its number and what the given methods return"""
    return Term('loader', i, data_name=lambda ip, s: Atom(DNAME(rv(s.args[0]))), **{k: method(f) for k, f in methods.items()})


# ------------------------------------------------------------------ finished meshes
_I, _R = z3.IntSort(), z3.RealSort()
CLAT0, CLAT1, CLO, CHI = [z3.Function('cell_' + k, _I, _R) for k in ('lat0', 'lat1', 'lo', 'hi')]
CID = z3.Function('cell_id', _I, _I)


class CellFns:
    """rectangle and id of cell number i of a symbolic mesh"""
    def __init__(self, tag='', maxw=360):
        f = lambda k, s: z3.Function(f'cell{tag}_{k}', _I, s)
        self.lat0, self.lat1, self.lo, self.hi, self.id = f('lat0', _R), f('lat1', _R), f('lo', _R), f('hi', _R), f('id', _I)
        self.pos = f('pos', _I)
        self.maxw, self.tag = maxw, tag

    def rect(self, i):
        return self.lat0(i), self.lat1(i), self.lo(i), self.hi(i)

    def ren(self, i):
        return self.lat0(i), self.lat1(i), self.lo(i), width_of(self.lo(i), self.hi(i))

    def valid(self, i):
        a, b, lo, hi = self.rect(i)
        w = width_of(lo, hi)
        return z3.And(a < b, a >= -90, b <= 90, lo >= -180, lo <= 180, hi >= -180, hi <= 180, w < self.maxw, z3.Not(z3.And(lo == 180, hi == -180)),
                      self.id(i) >= 0, self.pos(self.id(i)) == i)


class RectOf:
    def __init__(self, fns, i):
        self.lat0, self.lat1, self.lo, self.hi = fns.rect(i)

    lat_list, long_list = Rect.lat_list, Rect.long_list


class RectOf4(RectOf):
    def __init__(self, *r):
        self.lat0, self.lat1, self.lo, self.hi = r


def template_seg(ip, n, build, valid, name):
    """stretch of n objects: build(t) is run once for a fresh t with valid(t) assumed, its result instantiated per index"""
    from .loops import Inst
    ctx = ip.ctx
    t = ctx.int('cell')
    ctx.assume(valid(t))
    born = next(Heap._n)
    nf = len(ctx.trails[-1].fresh)
    obj = build(t)
    inner = list(ctx.trails[-1].fresh[nf:])
    if inner:
        raise Unsupported(f'construction of an element introduces unknowns: {inner}')

    def fn(ctx, i):
        ctx.once(('valid', name, i.get_id()), valid(i))
        ins = Inst(ctx, t, i, [], born)
        return [(True, ins.val(obj))]
    s = Seg(RangeDom(n), fn, name)
    s.uniform = 1
    return s


def any_cell(ip, c, t):
    """a cell under construction in any state: depth, minimum number of points and parent are arbitrary"""
    d, k = z3.Function('depth_of', z3.IntSort(), z3.IntSort())(rv(t)), z3.Function('min_points_of', z3.IntSort(), z3.IntSort())(rv(t))
    ip.setattr(c, 'split_depth', z3.If(d > 0, d, 0))
    ip.setattr(c, 'minimum_datapoints', z3.If(k > 0, k, 0))
    ip.setattr(c, 'parent', Term('parent of', rv(t)))
    return c


def agg_cell(ip, fns, t, data=None, time=None):
    A = ip.find(MG + 'aggregated_cellbox', 'AggregatedCellBox')
    return ip.call(A, [boundary(ip, RectOf(fns, t), time), data(t) if data else Term('data of', rv(t)), Rope([('n', fns.id(t))])])


def mesh_of(ip, seg, graph=None, bounds=None, config=None):
    E = ip.find(MG + 'environment_mesh', 'EnvironmentMesh')
    segs = seg if isinstance(seg, list) else [seg]
    return ip.call(E, [bounds, PyList(segs), graph, config])


def inside_spec(ctx, got, lat, lon):
    """the point lies strictly inside the rectangle (longitudes modulo 360)"""
    a, b, lo, hi = got
    d = floor_divide(ctx, simp_r(as_real(lon) - as_real(lo)), R(360))[1]
    return z3.And(a < lat, lat < b, d > 0, d < width_of(lo, hi))


# ------------------------------------------------------------------ opaque values and dictionaries
ValSort = z3.DeclareSort('Val')


class Val(Model):
    """an opaque immutable value"""
    def __init__(self, t):
        super().__init__()
        self.t = t

    def __repr__(self):
        return f'Val({self.t})'

    def subst(self, ins):
        return Val(z3.substitute(self.t, *ins.map))

    def merge(self, ctx, cv):
        if not all(isinstance(v, Val) for _, v in cv):
            raise CannotMerge()
        return Val(ctx._ite([(c, v.t) for c, v in cv]))

    def eq(self, ip, o):
        raise Unsupported('comparison of opaque data values')

    def deep_copy(self, ip, memo):
        return self

    def json_copy(self, ip):
        return self


def val_eq(a, b):
    """specification equality of stored values"""
    if isinstance(a, Val) and isinstance(b, Val):
        return simp(a.t == b.t)
    return None


class DictFns:
    """uninterpreted content of a family of dictionaries with text keys"""
    def __init__(self, tag, arity=1):
        ix = [_I] * arity
        self.tag = tag
        self.HAS = z3.Function(tag + '_has', *ix, TextSort, z3.BoolSort())
        self.VAL = z3.Function(tag + '_val', *ix, TextSort, ValSort)
        self.KEY = z3.Function(tag + '_key', *ix, _I, TextSort)
        self.IDX = z3.Function(tag + '_idx', *ix, TextSort, _I)
        self.N = z3.Function(tag + '_n', *ix, _I)


def text_term(k):
    if isinstance(k, str):
        return text_lit(k)
    if isinstance(k, Atom):
        return k.t
    return None


class BaseEntries:
    """unknown initial entries of dictionary number ix: any number of text keys with any values"""
    immutable = True

    def __init__(self, fns, *ix):
        self.f, self.ix = fns, tuple(rv(i) for i in ix)

    def __repr__(self):
        return f'BaseEntries({self.f.tag}{self.ix})'

    def subst_ent(self, ins):
        return BaseEntries(self.f, *[ins.val(i) for i in self.ix])

    def __eq__(self, o):
        return isinstance(o, BaseEntries) and o.f is self.f and all(a.eq(b) for a, b in zip(self.ix, o.ix))

    def __hash__(self):
        return hash(self.f.tag)

    def has_t(self, ip, t):
        f, ix = self.f, self.ix
        from .loops import register
        if ('dict', f.tag, tuple(i.get_id() for i in ix), t.get_id()) not in ip.ctx.fh.d:
            register(ip, f.IDX(*ix, t))
        ip.ctx.once(('dict', f.tag, tuple(i.get_id() for i in ix), t.get_id()),
                    z3.Implies(f.HAS(*ix, t), z3.And(f.IDX(*ix, t) >= 0, f.IDX(*ix, t) < f.N(*ix), f.KEY(*ix, f.IDX(*ix, t)) == t)))
        return f.HAS(*ix, t)

    def has(self, ip, k):
        t = text_term(k)
        if t is None:
            if isinstance(k, Rope):
                raise Unsupported('composed text as a key of an unknown dict')
            return False
        return self.has_t(ip, t)

    def find(self, ip, k):
        h = self.has(ip, k)
        if ip.ctx.branch(h):
            return (k, Val(self.f.VAL(*self.ix, text_term(k))))
        return None

    def viewseg(self, ip, kind):
        f, ix = self.f, self.ix

        def fn(ctx, j):
            t = f.KEY(*ix, j)
            ctx.once(('dictkey', f.tag, tuple(i.get_id() for i in ix), j.get_id()), z3.Implies(z3.And(j >= 0, j < f.N(*ix)), z3.And(f.HAS(*ix, t), f.IDX(*ix, t) == j)))
            k, v = Atom(t), Val(f.VAL(*ix, t))
            return [(True, k if kind == 'keys' else v if kind == 'values' else (k, v))]
        ip.ctx.once(('dictn', f.tag, tuple(i.get_id() for i in ix)), f.N(*ix) >= 0)
        s = Seg(RangeDom(f.N(*ix)), fn, f.tag)
        s.uniform = 1
        return s


def lookup_term(ip, d, t):
    """specification view of a dict with text keys: (has, value term or None) for the Text term t, no forking;
    values that are not opaque are injected through lit_val"""
    has, val = z3.BoolVal(False), None
    for e in d.ents:
        if isinstance(e, tuple):
            kt = text_term(e[0])
            if kt is None:
                raise Unsupported('other than text keys')
            h = kt == t
            if e[1] is models.TOMB:
                has = z3.And(has, z3.Not(h))
                continue
            v = e[1].t if isinstance(e[1], Val) else lit_val(ip, e[1])
        elif isinstance(e, BaseEntries):
            h, v = e.has_t(ip, t), e.f.VAL(*e.ix, t)
        else:
            h, v = e.spec_lookup(ip, t)
        val = v if val is None else z3.If(h, v, val)
        has = z3.Or(has, h)
    return has, val


NUMVAL = z3.Function('num_val', _R, ValSort)
TXTVAL = z3.Function('text_val', TextSort, ValSort)
IDTXT = z3.Function('id_val', _I, ValSort)


def lit_val(ip, v):
    """the opaque value standing for a known one (injective on numbers, texts and id texts)"""
    if isinstance(v, Rope) and len(v.parts) == 1 and v.parts[0][0] == 'n' and z3.is_int(rv(v.parts[0][1])):
        return IDTXT(rv(v.parts[0][1]))
    if isinstance(v, (str, Atom)):
        return TXTVAL(text_term(v))
    if is_num(v):
        return NUMVAL(as_real(v))
    raise Unsupported(f'{v!r} as a data value')
