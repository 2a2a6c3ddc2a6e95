"""Tabular and gridded data (the pandas and xarray operations the loaders use), as assumed contracts.

A Space is an arbitrary finite collection of points (rows of a table, nodes of a grid) numbered by integers; every column is
a function of the point (a real number and whether it is missing).  A table or data set is a selection: a tuple of predicates
(pieces) over the points of its space; a point occurs once for every piece it satisfies.  Numbers of points are sums over
the regions of a Venn diagram of the predicates in use, so every linear relation between counts is available to the solver;
a statistic is an unknown number depending only on the selected points and their values."""
from .core import *
from .interp import Model, Native, Obj, TypeVal, TYPES
from . import models
from .models import raise_

DF, SERIES, DSET, DARRAY = TypeVal('pandas.DataFrame'), TypeVal('pandas.Series'), TypeVal('xarray.Dataset'), TypeVal('xarray.DataArray')
I_, R_, B_ = z3.IntSort(), z3.RealSort(), z3.BoolSort()
COORDS = ('lat', 'long', 'time')


class Space(Heap):
    def __init__(self, ctx, name, cols=(), valid=None, live=None):
        super().__init__()
        self.ctx, self.name = ctx, name
        self.lat, self.long, self.time = z3.Function(f'{name}_lat', I_, R_), z3.Function(f'{name}_long', I_, R_), z3.Function(f'{name}_time', I_, I_)
        self.cols = {c: (z3.Function(f'{name}_{c}_missing', I_, B_), z3.Function(f'{name}_{c}', I_, R_)) for c in cols}
        self.valid = valid or (lambda p: z3.BoolVal(True))
        self.p0 = z3.Const(f'{name}_any', I_)
        self.live = live or z3.Function(f'{name}_has', I_, B_)
        n = ctx.int(f'{name}_n')
        ctx.assume(n >= 0)
        self.d['regions'] = (((), n),)
        self.d['foralls'] = ()
        self.d['stats'] = ()
        self.d['labels'] = ()

    def coord(self, c):
        f = {'lat': self.lat, 'long': self.long, 'time': self.time}[c] if c in COORDS else z3.Function(f'{self.name}_coord_{c}', I_, R_)
        return lambda p: (False, f(p))

    def col(self, c):
        na, v = self.cols[c]
        return lambda p: (na(p), v(p))

    # -------------------------------------------------------------- facts about every point
    def facts(self, p):
        return z3.And(self.valid(p), *[f(p) for f in self.d['foralls']])

    def forall(self, f):
        self.ctx.write(self, 'foralls', self.d['foralls'] + (f,))

    def never(self, f):
        """no point satisfies f"""
        f = simp(f)
        if f is False:
            return True
        return not self.ctx.feasible(z3.And(self.facts(self.p0), self.live(self.p0), zb(f)))

    def always(self, f):
        return self.never(bnot(f))

    # -------------------------------------------------------------- counting
    def count1(self, pred):
        """number of live points satisfying pred"""
        ctx = self.ctx
        P = zb(simp(pred(self.p0)))
        out, regs, changed = [], [], False
        for lits, n in self.d['regions']:
            r = z3.And(*[l(self.p0) for l in lits]) if lits else z3.BoolVal(True)
            if self.never(z3.And(r, P)):
                regs.append((lits, n))
            elif self.never(z3.And(r, z3.Not(P))):
                regs.append((lits, n))
                out.append(n)
            else:
                a, b = ctx.int(f'{self.name}_n'), ctx.int(f'{self.name}_n')
                ctx.assume(z3.And(a >= 0, b >= 0, a + b == n))
                regs += [(lits + (lambda p: zb(pred(p)),), a), (lits + (lambda p: z3.Not(zb(pred(p))),), b)]
                out.append(a)
                changed = True
        if changed:
            ctx.write(self, 'regions', tuple(regs))
        return simp(z3.Sum(*out)) if len(out) > 1 else out[0] if out else 0

    def count(self, pieces, pred=None):
        tot = 0
        for q in pieces:
            n = self.count1((lambda q: lambda p: band(q(p), pred(p)))(q) if pred else q)
            tot = simp(rv(tot) + rv(n))
        return norm(tot) if is_z3(tot) else tot

    # -------------------------------------------------------------- statistics
    def stat(self, kind, pieces, val):
        """the unknown value of a statistic of the (non-missing) values of a selection"""
        p = self.p0
        mult = self.mult(pieces, p)
        for k, pc, v, t in self.d['stats']:
            if k == kind and self.always(z3.And(mult == self.mult(pc, p), z3.Implies(mult > 0, as_real(rv(v(p))) == as_real(rv(val(p)))))):
                return t
        t = self.ctx.real(f'{kind}_of_{self.name}')
        self.ctx.write(self, 'stats', self.d['stats'] + ((kind, pieces, val, t),))
        return t

    def mult(self, pieces, p):
        return z3.Sum(*[z3.If(zb(q(p)), 1, 0) for q in pieces], z3.IntVal(0))


def truth_of(ip, v):
    return zb(ip.truth(v))


class Arr(Model):
    """Series / DataArray / ndarray: a selection of points with a value each.  val(p) -> (missing, number)"""
    def __init__(self, space, pieces, val, kind, dims=()):
        super().__init__()
        self.space, self.pieces, self.val, self.kind, self.dims = space, tuple(pieces), val, kind, frozenset(dims)

    def typeof(self, ip):
        return self.kind

    def like(self, val=None, pieces=None, dims=None):
        return Arr(self.space, self.pieces if pieces is None else pieces, val or self.val, self.kind, self.dims if dims is None else dims)

    def truth(self, ip):
        raise_(ValueError, 'truth value of an array')

    def same_shape(self, o):
        return self.space is o.space and (self.pieces == o.pieces or self.space.always(z3.And(*[zb(a(self.space.p0)) == zb(b(self.space.p0)) for a, b in zip(self.pieces, o.pieces)])) if len(self.pieces) == len(o.pieces) else False)

    def pointwise(self, ip, op, o, sw, f):
        if isinstance(o, (Arr, Mask)):
            if not self.same_shape(o) or isinstance(o, Mask):
                raise Unsupported('operation on arrays of different shape')
            g = o.val
            dims = self.dims | o.dims
        else:
            c = const_of(ip, o)
            if is_z3(c[0]):
                c = (ip.ctx.branch(c[0]), c[1])
            g, dims = (lambda p: c), self.dims
        return (lambda p: f(g(p), self.val(p)) if sw else f(self.val(p), g(p))), dims

    def cmp(self, ip, op, o, sw):
        def f(a, b):
            x, y = as_arith(a[1]), as_arith(b[1])
            r = {'Lt': lambda: x < y, 'LtE': lambda: x <= y, 'Gt': lambda: x > y, 'GtE': lambda: x >= y, 'Eq': lambda: x == y, 'NotEq': lambda: x != y}[op]()
            r = band(bnot(a[0]), bnot(b[0]), r) if op != 'NotEq' else bor(a[0], b[0], r)
            return r
        v, dims = self.pointwise(ip, op, o, sw, f)
        return Mask(self.space, self.pieces, v, self.kind, dims)

    def binop(self, ip, op, o, sw):
        if o is None and op in ('USub', 'Abs'):
            return self.like(lambda p: (self.val(p)[0], -as_arith(self.val(p)[1]) if op == 'USub' else z3.If(as_arith(self.val(p)[1]) < 0, -as_arith(self.val(p)[1]), as_arith(self.val(p)[1]))))
        if op not in ('Add', 'Sub', 'Mult', 'Pow') or (op == 'Pow' and o != 2):
            raise Unsupported(f'array {op}')

        def f(a, b):
            x, y = as_arith(a[1]), as_arith(b[1])
            r = x + y if op == 'Add' else x - y if op == 'Sub' else x * y if op == 'Mult' else x * x
            return bor(a[0], b[0]), r
        v, dims = self.pointwise(ip, op, o, sw, f)
        return self.like(v, dims=dims)

    def isnan(self, ip):
        return Mask(self.space, self.pieces, lambda p: self.val(p)[0], self.kind, self.dims)

    # -- sizes
    def size(self):
        return self.space.count(self.pieces)

    def nonmissing(self):
        return self.space.count(self.pieces, lambda p: bnot(self.val(p)[0]))

    def length(self, ip):
        if self.kind is not SERIES:
            raise Unsupported('len of a grid')
        return self.size()

    def present(self):
        """the selection without its missing points"""
        v = self.val
        return tuple((lambda q: lambda p: band(q(p), bnot(v(p)[0])))(q) for q in self.pieces)

    def stat(self, ip, kind, skipna, ddof=0, empty='nan'):
        ctx = ip.ctx
        n, k = self.size(), self.nonmissing()
        if kind in ('min', 'max') and empty == 'raise' and ctx.branch(simp(rv(n) == 0)):
            raise_(ValueError, 'zero-size array')
        nan = rv(k) == 0
        if kind == 'sum':
            nan = z3.BoolVal(False)
        if kind == 'std' and ddof:
            nan = rv(k) <= ddof
            kind = f'std{ddof}'
        if not skipna:
            nan = z3.Or(nan, rv(n) != rv(k))
        v = self.val
        return NaNable(simp(nan), self.space.stat(kind, self.present(), lambda p: v(p)[1]))

    def extreme(self, ip, low, skipna, pandas):
        """the position of the smallest / largest value"""
        ctx, sp = ip.ctx, self.space
        n, k = self.size(), self.nonmissing()
        if ctx.branch(simp(rv(n) == 0)):
            raise_(ValueError, 'attempt to get argmin of an empty sequence')
        if not skipna and ctx.branch(simp(rv(n) != rv(k))):
            if pandas:
                return NaNable(True, 0)
            raise Unsupported('position of a missing value')
        if ctx.branch(simp(rv(k) == 0)):
            if pandas:
                return NaNable(True, 0)
            raise_(ValueError, 'All-NaN slice encountered')
        q = ctx.int(f'{sp.name}_pos')
        inn = lambda p: band(sp.live(p), bor(*[c(p) for c in self.pieces]), bnot(self.val(p)[0]))
        v = self.val
        vq = as_arith(v(q)[1])
        ctx.assume(z3.And(sp.facts(q), zb(inn(q))))
        sp.forall(lambda p: z3.Implies(zb(inn(p)), vq <= as_arith(v(p)[1]) if low else vq >= as_arith(v(p)[1])))
        ctx.write(sp, 'labels', sp.d['labels'] + (q,))
        return Label(sp, q)

    def at(self, ip, lab):
        if lab.space is not self.space:
            raise Unsupported('label of another data set')
        na, v = self.val(lab.q)
        if not ip.ctx.must(zb(bor(*[c(lab.q) for c in self.pieces]))):
            raise Unsupported('label outside the selection')
        return NaNable(simp(zb(na)), v)

    def getitem(self, ip, k):
        if isinstance(k, Mask):
            if not self.same_shape(k):
                raise Unsupported('mask of another shape')
            return self.like(pieces=restrict(self.pieces, k.pred))
        if isinstance(k, Label):
            return self.at(ip, k)
        raise Unsupported('array indexing')

    def contains(self, ip, x):
        if self.kind is SERIES:
            raise Unsupported('in Series')
        ctx, sp = ip.ctx, self.space
        c = const_of(ip, x)
        inn = lambda p: band(bor(*[q(p) for q in self.pieces]), bnot(self.val(p)[0]), as_arith(self.val(p)[1]) == as_arith(c[1]), bnot(c[0]))
        if sp.never(zb(inn(sp.p0))):
            return False
        b = ctx.bool('found')
        if ctx.branch(b):
            return True
        sp.forall(lambda p: z3.Implies(sp.live(p), z3.Not(zb(inn(p)))))
        return False

    def get(self, ip, n):
        nat = lambda f: Native(n, f)
        arg = lambda a, k, name, d: k.get(name, a[0] if a else d)
        if n in ('values',):
            return Arr(self.space, self.pieces, self.val, TYPES['ndarray'], self.dims)
        if n in ('to_numpy', 'ravel', 'flatten'):
            return nat(lambda ip, a, k: Arr(self.space, self.pieces, self.val, TYPES['ndarray'], self.dims))
        if n == 'data' and self.kind is DARRAY:
            return Arr(self.space, self.pieces, self.val, TYPES['ndarray'], self.dims)
        if n == 'dropna' and self.kind is SERIES:
            return nat(lambda ip, a, k: self.like(pieces=self.present()))
        if n in ('isna', 'isnull'):
            return nat(lambda ip, a, k: self.isnan(ip))
        if n in ('notna', 'notnull'):
            return nat(lambda ip, a, k: self.isnan(ip).binop(ip, 'Invert', None, False))
        if n == 'count':
            return nat(lambda ip, a, k: self.nonmissing())
        if n == 'size':
            return self.size()
        if n == 'empty' and self.kind is SERIES:
            return simp(rv(self.size()) == 0)
        if n == 'shape':
            return (self.size(),) if self.kind is SERIES else Shape(self)
        if n in ('min', 'max', 'mean', 'median', 'std', 'sum'):
            def f(ip, a, k):
                if a or set(k) - {'skipna', 'ddof'}:
                    raise Unsupported(f'{n} with arguments')
                lib = self.kind is not TYPES['ndarray']
                sk = k.get('skipna', True) if lib else False
                dd = k.get('ddof', 1 if self.kind is SERIES else 0)
                return self.stat(ip, n, concrete(ip, sk), dd, 'nan' if self.kind is SERIES else 'raise')
            return nat(f)
        if n in ('idxmin', 'idxmax') and self.kind is SERIES:
            return nat(lambda ip, a, k: self.extreme(ip, n == 'idxmin', concrete(ip, k.get('skipna', True)), True))
        if n in ('argmin', 'argmax') and self.kind is DARRAY:
            return nat(lambda ip, a, k: self.extreme(ip, n == 'argmin', concrete(ip, k.get('skipna', True)), False))
        if n == 'item':
            raise Unsupported('item of an array')
        if n == 'copy':
            return nat(lambda ip, a, k: self)
        raise Unsupported(f'array.{n}')


def concrete(ip, b):
    b = ip.truth(b)
    return b if isinstance(b, bool) else ip.ctx.branch(b)


def const_of(ip, o):
    """a scalar as (missing, number); dates as day numbers"""
    if isinstance(o, NaNable):
        return o.nan, o.val
    if is_num(o) or isinstance(o, bool):
        return False, rv(o)
    if isinstance(o, Rope) and len(o.parts) == 1 and o.parts[0][0] == 'd':
        return False, o.parts[0][1]
    raise Unsupported(f'array operation with {o!r}')


def restrict(pieces, pred):
    return tuple((lambda q: lambda p: band(q(p), pred(p)))(q) for q in pieces)


class Box:
    """piece of a grid: a condition per axis"""
    def __init__(self, base, axes):
        self.base, self.axes = base, axes

    def __call__(self, p):
        return band(self.base(p), *[f(p) for f in self.axes.values()])

    def cut(self, dim, pred):
        old = self.axes.get(dim)
        return Box(self.base, dict(self.axes, **{dim: (lambda p: band(old(p), pred(p))) if old else pred}))


def cut(pieces, dim, pred):
    return tuple(q.cut(dim, pred) if isinstance(q, Box) else Box(q, {}).cut(dim, pred) for q in pieces)


class Label(Model):
    def __init__(self, space, q):
        super().__init__()
        self.space, self.q = space, q

    def isnan(self, ip):
        return False

    def get(self, ip, n):
        if n in ('item',):
            return Native(n, lambda ip, a, k: self)
        raise Unsupported(f'label.{n}')


class Shape(Model):
    def __init__(self, arr):
        super().__init__()
        self.arr = arr


class Mask(Model):
    """array of truth values"""
    def __init__(self, space, pieces, pred, kind, dims=()):
        super().__init__()
        self.space, self.pieces, self.pred, self.kind, self.dims = space, tuple(pieces), pred, kind, frozenset(dims)

    same_shape = Arr.same_shape

    def truth(self, ip):
        raise_(ValueError, 'truth value of an array')

    def typeof(self, ip):
        return self.kind

    def binop(self, ip, op, o, sw):
        mk = lambda f, d: Mask(self.space, self.pieces, f, self.kind, d)
        if o is None and op == 'Invert':
            return mk(lambda p: bnot(self.pred(p)), self.dims)
        if op in ('BitAnd', 'BitOr', 'BitXor', 'Mult', 'Add'):
            if isinstance(o, Mask):
                if not self.same_shape(o):
                    raise Unsupported('masks of different shape')
                g, d = o.pred, self.dims | o.dims
            elif isinstance(o, (bool, z3.BoolRef)):
                g, d = (lambda p: o), self.dims
            else:
                raise Unsupported('mask operation')
            if op in ('BitAnd', 'Mult'):
                return mk(lambda p: band(self.pred(p), g(p)), d)
            if op in ('BitOr', 'Add'):
                return mk(lambda p: bor(self.pred(p), g(p)), d)
            return mk(lambda p: z3.Xor(zb(self.pred(p)), zb(g(p))), d)
        raise Unsupported(f'mask {op}')

    def cmp(self, ip, op, o, sw):
        if isinstance(o, bool) and op in ('Eq', 'NotEq'):
            return self if o == (op == 'Eq') else self.binop(ip, 'Invert', None, False)
        raise Unsupported('mask comparison')

    def count_true(self, ip):
        return self.space.count(self.pieces, self.pred)

    def getitem(self, ip, k):
        if isinstance(k, Mask) and self.same_shape(k):
            return Mask(self.space, restrict(self.pieces, k.pred), self.pred, self.kind, self.dims)
        raise Unsupported('mask indexing')

    def length(self, ip):
        if self.kind is not SERIES:
            raise Unsupported('len of a grid')
        return self.space.count(self.pieces)

    def get(self, ip, n):
        nat = lambda f: Native(n, f)
        if n in ('sum', 'count_nonzero'):
            return nat(lambda ip, a, k: self.count_true(ip))
        if n == 'all':
            return nat(lambda ip, a, k: simp(rv(self.space.count(self.pieces, lambda p: bnot(self.pred(p)))) == 0))
        if n == 'any':
            return nat(lambda ip, a, k: simp(rv(self.count_true(ip)) > 0))
        if n in ('values',):
            return Mask(self.space, self.pieces, self.pred, TYPES['ndarray'], self.dims)
        if n == 'to_numpy':
            return nat(lambda ip, a, k: Mask(self.space, self.pieces, self.pred, TYPES['ndarray'], self.dims))
        if n == 'size':
            return self.space.count(self.pieces)
        if n == 'mean':
            raise Unsupported('mean of a mask')
        raise Unsupported(f'mask.{n}')


class Names(Model):
    """column or coordinate names"""
    def __init__(self, names):
        super().__init__()
        self.names = tuple(names)

    def contains(self, ip, x):
        return bor(*[ip.truth(models.eq(ip, n, x)) for n in self.names])

    def iterate(self, ip):
        return list(self.names)

    def unpack(self, ip):
        return list(self.names)

    def length(self, ip):
        return len(self.names)

    def get(self, ip, n):
        if n in ('keys', 'tolist', 'to_list'):
            return Native(n, lambda ip, a, k: self)
        raise Unsupported(f'names.{n}')


class Data(Model):
    """DataFrame (kind DF) or Dataset (kind DSET)"""
    def __init__(self, space, pieces, kind, coords, cols):
        super().__init__()
        self.space, self.pieces, self.kind, self.coords, self.cols = space, tuple(pieces), kind, tuple(coords), tuple(cols)
        self.order = self.coords + self.cols    # columns from left to right
        self.index = ()                         # coordinates that are the index of a table, not columns

    def typeof(self, ip):
        return self.kind

    def like(self, pieces):
        d = Data(self.space, pieces, self.kind, self.coords, self.cols)
        d.order, d.index = self.order, self.index
        d.d['extra'] = self.extra
        return d

    @property
    def extra(self):
        """columns added by assignment: name -> value function"""
        return self.d.get('extra') or {}

    def setitem(self, ip, k, v):
        if self.kind is DSET and isinstance(v, tuple) and len(v) == 2:
            dims, v = v
            dims = dims.names if isinstance(dims, Names) else tuple(ip.unpack(dims)) if isinstance(dims, (tuple, PyList)) else None
            if dims != self.coords or not isinstance(v, Arr) or v.dims != frozenset(dims):
                raise Unsupported('assignment of a variable with other dimensions')
        if not isinstance(k, str) or not isinstance(v, Arr) or not Arr.same_shape(self, v):
            raise Unsupported('assignment of a column')
        ip.ctx.write(self, 'extra', {**self.extra, k: v.val})

    def truth(self, ip):
        if self.kind is DF:
            raise_(ValueError, 'truth value of a DataFrame')
        return len(self.cols) > 0

    def column(self, n):
        k = SERIES if self.kind is DF else DARRAY
        if n in self.extra:
            return Arr(self.space, self.pieces, self.extra[n], k, self.coords)
        if n in self.coords:
            return Arr(self.space, self.pieces, self.space.coord(n), k, (n,))
        if n in self.cols:
            return Arr(self.space, self.pieces, self.space.col(n), k, self.coords)

    def names(self):
        return self.coords + self.cols + tuple(x for x in self.extra if x not in self.cols + self.coords)

    def without(self, l):
        d = Data(self.space, self.pieces, self.kind, [c for c in self.coords if c not in l], [c for c in self.cols if c not in l])
        d.index = self.index
        d.d['extra'] = {k: v for k, v in self.extra.items() if k not in l}
        return d

    def renamed(self, m):
        vals = {new: self.column(old).val for old, new in m.items() if old in self.names()}
        if any(o in self.coords or n in self.coords for o, n in m.items() if o in self.names()):
            raise Unsupported('rename of a coordinate')
        left = [m.get(c, c) for c in self.names() if c not in self.coords]
        if len(set(left)) != len(left):
            raise Unsupported('two columns of one name')
        d = Data(self.space, self.pieces, self.kind, self.coords, left)
        d.index = self.index
        d.d['extra'] = {**{k: v for k, v in self.extra.items() if k not in m}, **vals}
        return d

    def getitem(self, ip, k):
        if isinstance(k, str):
            c = self.column(k)
            if c is None:
                raise_(KeyError, k)
            return c
        if isinstance(k, Mask) and self.kind is DF:
            return self.masked(k)
        if isinstance(k, (PyList, tuple)):
            names = ip.unpack(k)
            if all(isinstance(x, str) and (x in self.cols or x in self.coords) for x in names):
                if self.kind is DF:
                    d = Data(self.space, self.pieces, DF, [c for c in self.coords if c in names], [c for c in self.cols if c in names])
                    d.order, d.index = tuple(names), self.index
                    return d
                return Data(self.space, self.pieces, DSET, self.coords, [c for c in self.cols if c in names])
        raise Unsupported(f'data[{k!r}]')

    def masked(self, k):
        if not Arr.same_shape(self, k):
            raise Unsupported('mask of another shape')
        return self.like(restrict(self.pieces, k.pred))

    def length(self, ip):
        if self.kind is DF:
            return self.space.count(self.pieces)
        return len(self.cols)

    def contains(self, ip, x):
        return Names(self.coords + self.cols).contains(ip, x)

    def sel(self, ip, a, k):
        k = dict(k)
        if a:
            for n, v in a[0].ents:
                k[n] = v
        if k.pop('drop', False) is not False:
            raise Unsupported('sel(drop)')
        out = self.pieces
        for n, s in k.items():
            if n not in self.coords or not isinstance(s, slice) or s.step is not None:
                raise Unsupported(f'sel({n}=..)')
            f = self.space.coord(n)
            for e, lo in ((s.start, True), (s.stop, False)):
                if e is not None:
                    na, c = const_of(ip, e)
                    if na is not False:
                        raise Unsupported('sel with a missing bound')
                    out = cut(out, n, (lambda f, c, lo: lambda p: (as_arith(f(p)[1]) >= as_arith(c)) if lo else (as_arith(f(p)[1]) <= as_arith(c)))(f, c, lo))
        return self.like(out)

    def get(self, ip, n):
        nat = lambda f: Native(n, f)
        if self.kind is DF:
            if n == 'columns':
                return Names(self.names())
            if n == 'drop':
                def drop(ip, a, k):
                    l = k.get('columns', a[0] if a and (k.get('axis', a[1] if len(a) > 1 else 0) in (1, 'columns')) else None)
                    l = [l] if isinstance(l, str) else ip.unpack(l) if isinstance(l, (PyList, tuple)) else None
                    if l is None or set(k) - {'columns', 'axis'}:
                        raise Unsupported('drop')
                    if any(x not in self.names() for x in l):
                        raise_(KeyError, l)
                    return self.without(l)
                return nat(drop)
            if n == 'dropna':
                def dropna(ip, a, k):
                    if a or k:
                        raise Unsupported('dropna with arguments')
                    vs = [self.column(c).val for c in self.names()]
                    return self.like(restrict(self.pieces, lambda p: band(*[bnot(v(p)[0]) for v in vs])))
                return nat(dropna)
            if n == 'loc':
                return Loc(self)
            if n == 'reset_index' and self.index:
                def back(ip, a, k):
                    d = Data(self.space, self.pieces, DF, self.coords + (self.index if k.get('drop') is not True else ()), self.cols)
                    return d
                return nat(back)
            if n in ('copy', 'reset_index'):
                return nat(lambda ip, a, k: self.like(self.pieces))
            if n in ('to_numpy', 'values'):
                from .field import rows
                return rows(self) if n == 'values' else nat(lambda ip, a, k: rows(self))
            if n == 'empty':
                return simp(rv(self.space.count(self.pieces)) == 0)
            if n == 'shape':
                return (self.space.count(self.pieces), len(self.coords) + len(self.cols))
        else:
            if n == 'sel':
                return nat(lambda ip, a, k: self.sel(ip, a, k))
            if n in ('coords', 'dims', 'indexes'):
                return Names(self.coords)
            if n == 'data_vars':
                return Names(self.cols)
            if n == 'variables':
                return Names(self.coords + self.cols)
            if n == 'count':
                return nat(lambda ip, a, k: PyDict([(c, self.column(c).nonmissing()) for c in self.cols]))
            if n == 'copy':
                return nat(lambda ip, a, k: self.like(self.pieces))
            if n == 'where':
                return nat(self.where)
            if n == 'to_dataframe':
                def flat(ip, a, k):
                    d = Data(self.space, self.pieces, DF, (), self.cols)
                    d.index = self.coords
                    return d
                return nat(flat)
        if n == 'keys':
            return nat(lambda ip, a, k: Names(self.names() if self.kind is DF else tuple(c for c in self.names() if c not in self.coords)))
        if n == 'rename':
            def rename(ip, a, k):
                m = k.get('columns', a[0] if a else k.get('name_dict')) if self.kind is DF else (a[0] if a else k.get('name_dict'))
                if not isinstance(m, PyDict) or (self.kind is DF and a) or set(k) - {'columns', 'name_dict'}:
                    raise Unsupported('rename')
                m = dict(m.ents)
                if not all(isinstance(x, str) for x in list(m) + list(m.values())):
                    raise Unsupported('rename to an unknown name')
                if self.kind is DSET and any(x not in self.names() for x in m):
                    raise_(ValueError, 'cannot rename')
                return self.renamed(m)
            return nat(rename)
        if n == 'assign':
            def assign(ip, a, k):
                d = self.like(self.pieces)
                for x, v in k.items():
                    d.setitem(ip, x, v)
                return d
            return nat(assign)
        c = self.column(n)
        if c is not None:
            return c
        if n in ('time', 'lat', 'long'):
            raise_(AttributeError, n)
        raise Unsupported(f'data.{n}')

    def where(self, ip, a, k):
        c = k.get('cond', a[0] if a else None)
        if not isinstance(c, Mask) or k.get('drop') is not True or len(a) > 1 or len(c.dims) != 1:
            raise Unsupported('Dataset.where')
        if not Arr.same_shape(self, c):
            raise Unsupported('mask of another shape')
        return self.like(cut(self.pieces, next(iter(c.dims)), c.pred))


class Loc(Model):
    def __init__(self, d):
        super().__init__()
        self.data = d

    def getitem(self, ip, k):
        if isinstance(k, Mask):
            return self.data.masked(k)
        if isinstance(k, tuple) and len(k) == 2 and isinstance(k[0], Mask) and isinstance(k[1], str):
            return self.data.masked(k[0]).getitem(ip, k[1])
        raise Unsupported('loc')


def concat(ip, a, k):
    l = ip.unpack(a[0])
    dim = k.get('dim', a[1] if len(a) > 1 else None)
    if not l or not all(isinstance(x, Data) and x.kind is DSET and x.space is l[0].space and x.cols == l[0].cols for x in l) or dim not in l[0].coords:
        raise Unsupported('xr.concat')
    # pieces joined along one axis: the other axes have to agree (otherwise xarray pads with missing values)
    sp, ps = l[0].space, [q if isinstance(q, Box) else Box(q, {}) for x in l for q in x.pieces]
    for q in ps[1:]:
        if q.base is not ps[0].base:
            raise Unsupported('xr.concat of unrelated data')
        for d in l[0].coords:
            if d != dim:
                f, g = q.axes.get(d), ps[0].axes.get(d)
                if f is not g and not sp.always(zb(f(sp.p0) if f else True) == zb(g(sp.p0) if g else True)):
                    raise Unsupported('xr.concat pads with missing values')
    return l[0].like(tuple(q for x in l for q in x.pieces))


def ext(ip, name):
    if name.split('.')[0] == 'pandas':
        fr = models.ExtModule('pandas.core.frame', dict(DataFrame=DF))
        se = models.ExtModule('pandas.core.series', dict(Series=SERIES))
        co = models.ExtModule('pandas.core', dict(frame=fr, series=se))
        return models.ExtModule('pandas', dict(DataFrame=DF, Series=SERIES, core=co))
    ds = models.ExtModule('xarray.core.dataset', dict(Dataset=DSET))
    da = models.ExtModule('xarray.core.dataarray', dict(DataArray=DARRAY))
    return models.ExtModule('xarray', dict(Dataset=DSET, DataArray=DARRAY, concat=Native('xr.concat', concat), core=models.ExtModule('xarray.core', dict(dataset=ds, dataarray=da))))


def np_functions(ns):
    """numpy functions on the arrays of this module; other arguments go to what was there before"""
    def st(name, kind, skipna):
        old = ns.get(name)

        def f(ip, a, k):
            if isinstance(a[0], Arr):
                if len(a) > 1 or set(k) - {'ddof'}:
                    raise Unsupported(f'np.{name} with arguments')
                return a[0].stat(ip, kind, skipna, k.get('ddof', 0), 'raise')
            if kind == 'mean' and isinstance(a[0], (PyList, tuple)) and not (isinstance(a[0], PyList) and not a[0].concrete) and len(a) == 1 and not k:
                l = ip.unpack(a[0])
                if l and all(is_num(x) for x in l):
                    t = l[0]
                    for x in l[1:]:
                        t = ip.binop('Add', t, x)
                    return ip.binop('Div', t, len(l))
            if old is None:
                raise Unsupported(f'np.{name}')
            return old.fn(ip, a, k)
        ns[name] = Native('np.' + name, f)
    for kind in ('min', 'max', 'mean', 'median', 'std', 'sum'):
        st(kind, kind, False)
        st('nan' + kind, kind, True)
    for al, n in (('amin', 'min'), ('amax', 'max')):
        ns[al] = ns[n]

    def unravel(ip, a, k):
        if isinstance(a[0], Label) and isinstance(a[1], Shape):
            return a[0]
        raise Unsupported('np.unravel_index')
    ns['unravel_index'] = Native('np.unravel_index', unravel)

    def size(ip, a, k):
        if isinstance(a[0], (Arr, Mask)):
            return ip.getattr(a[0], 'size')
        return models.length(ip, a[0])
    ns['size'] = Native('np.size', size)
    for n in ('any', 'all'):
        old = ns[n]
        ns[n] = Native('np.' + n, (lambda n, old: lambda ip, a, k: ip.call(ip.getattr(a[0], n), []) if isinstance(a[0], Mask) else old.fn(ip, a, k))(n, old))
