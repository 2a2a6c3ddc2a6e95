"""C11: restricting data to a boundary keeps exactly the points in it; the children of a cell share out its points."""
from ..task import task
from ..spec import *
from ..data import Space, Data, DF, DSET

SC, VC = 'meshiphi.dataloaders.scalar.abstract_scalar', 'meshiphi.dataloaders.vector.abstract_vector'
CB = MG + 'cellbox'
CLS = {'scalar': (SC, 'ScalarDataLoader', ('v',)), 'vector': (VC, 'VectorDataLoader', ('w', 'u', '_magnitude', '_direction'))}
ASM = ['pandas: comparison of a column with a number or date, & | on masks and .loc[mask] act row by row and keep the order of rows and all values',
       'xarray: .sel with a slice keeps the nodes whose coordinate is between both ends inclusive (coordinates in ascending order), xr.concat along an axis joins the nodes, '
       '`x in data.axis` says whether the coordinate occurs, .where(condition on one axis, drop=True) keeps the nodes satisfying it; times are whole days',
       'longitudes of points are within -180..180']


def in_rect(sp, p, r):
    a, b, lo, hi = r
    x = sp.long(p)
    return z3.And(sp.lat(p) > a, sp.lat(p) <= b, z3.If(lo < hi, z3.And(x > lo, x <= hi), z3.Or(x > lo, x <= hi)))


def in_time(sp, p, t):
    return z3.And(sp.time(p) >= t[0], sp.time(p) <= t[1])


def points(ctx, name, cols):
    return Space(ctx, name, cols, valid=None if False else (lambda f: lambda p: z3.And(f(p) >= -180, f(p) <= 180))(z3.Function(f'{name}_long', z3.IntSort(), z3.RealSort())))


def day_texts(ctx):
    a, b = ctx.int('t0'), ctx.int('t1')
    ctx.assume(z3.And(a >= 1, a <= b))
    return [Rope([('d', a)]), Rope([('d', b)])], (a, b)


def loader(ip, kind, data, **kw):
    mod, cls, cols = CLS[kind]
    at = dict(data=data, data_name='v' if kind == 'scalar' else 'w,u', data_name_list=PyList(['v'] if kind == 'scalar' else ['w', 'u']))
    at.update(kw)
    return Obj(ip.find(mod, cls), at)


def east_180(ctx, r):
    ctx.assume(r.hi != -180)


def trim(T, kind, form, time, given):
    ip, ctx = T.interp(), T.ctx

    def go():
        r = Rect(ctx, 'cell', T=T)
        east_180(ctx, r)
        ts, t = day_texts(ctx)
        b = boundary(ip, r, ts)
        sp = points(ctx, 'pt', CLS[kind][2])
        coords = ('lat', 'long') + (('time',) if time else ())
        has = z3.Function('pt_in_data', z3.IntSort(), z3.BoolSort())
        data = Data(sp, [lambda p: has(p)], form, coords, CLS[kind][2])
        other = Data(sp, [lambda p: z3.BoolVal(False)], form, coords, CLS[kind][2])
        L = loader(ip, kind, other if given else data)
        k, out = T.calls(ip, (CLS[kind][0], CLS[kind][1] + '.trim_datapoints'), [L, b] + ([data] if given else []))
        ctx.oblige('trim.no-exception', k == 'ok', info=str(out))
        if k != 'ok':
            return
        ctx.oblige('trim.same-kind-and-columns', isinstance(out, Data) and out.kind is form and out.space is sp and out.coords == coords and out.cols == CLS[kind][2])
        if not isinstance(out, Data):
            return
        p = ctx.int('point')
        ctx.assume(sp.facts(p))
        ctx.assume(sp.live(p))
        want = z3.And(has(p), in_rect(sp, p, (r.lat0, r.lat1, r.lo, r.hi)), in_time(sp, p, t) if time else z3.BoolVal(True))
        T.cover('trimmed')
        T.input('p', [sp.lat(p), sp.long(p)])
        n = sp.mult(out.pieces, p)
        ctx.oblige('trim.keeps-every-point-of-the-boundary', z3.Implies(want, n >= 1))
        ctx.oblige('trim.keeps-no-other-point', z3.Implies(z3.Not(want), n == 0))
        ctx.oblige('trim.keeps-each-point-once', n <= 1)
        ctx.oblige('trim.source-unchanged', L.d['data'] is (other if given else data))

    def case(mv):
        c, p = fl(mv['cell']), fl(mv.get('p', [0, 0]))
        days = ['2020-01-01', '2020-01-02', '2020-01-03', '2020-01-04', '2020-01-05']
        lats = sorted({p[0], c[0], c[1], (c[0] + c[1]) / 2})
        lons = sorted({max(-180., min(180., x)) for x in (p[1], c[2], c[3], -180.0, 180.0)})
        return [dict(checker='Trim', case=dict(rect=c, lats=lats, lons=lons, kind=kind[0] + ('df' if form is DF else 'xr'), time=time, t=[days[1], days[3]], split=False, pre=False))]
    T.replay = case
    T.run(go)


for kind in ('scalar', 'vector'):
    for form, fn in ((DF, 'table'), (DSET, 'grid')):
        for time in (False, True):
            for given in (False, True):
                task('C11', f'{kind} {fn}{" with time" if time else ""}{", data given" if given else ""}',
                     'requires: any boundary with its eastern edge not written as -180, any data set of points; ensures: the result holds, once each and with all columns, exactly the points of the data with lat_min < lat <= lat_max, '
                     'longitude after the western edge up to and including the eastern edge (through the antimeridian when it crosses it)' + (' and day within the time range' if time else ''),
                     assumptions=ASM)(lambda T, a=(kind, form, time, given): trim(T, *a))


def children(T, form):
    ip, ctx = T.interp(), T.ctx

    def trim_c(ip, f, a, k):
        """contract of trim_datapoints, discharged by the tasks above"""
        a = list(a) + [None] * (3 - len(a))
        b, d = k.get('bounds', a[1]), k.get('data', a[2])
        if d is None:
            d = a[0].d['data']
        rr = read_rect(ip, b)
        from ..data import restrict
        return d.like(restrict(d.pieces, lambda p: in_rect(d.space, p, rr)))
    ip.contracts = {SC + ':ScalarDataLoader.trim_datapoints': trim_c}

    def go():
        r = Rect(ctx, 'cell', T=T)
        east_180(ctx, r)
        sp = points(ctx, 'pt', ('v',))
        has = z3.Function('pt_in_data', z3.IntSort(), z3.BoolSort())
        inn = lambda p: in_rect(sp, p, (r.lat0, r.lat1, r.lo, r.hi))
        data = Data(sp, [lambda p: z3.And(has(p), inn(p))], form, ('lat', 'long'), ('v',))
        whole = Data(sp, [lambda p: has(p)], form, ('lat', 'long'), ('v',))
        L = loader(ip, 'scalar', whole)
        cell = any_cell(ip, ip.call(ip.find(CB, 'CellBox'), [boundary(ip, r), 'P']), z3.IntVal(0))
        md = ip.call(ip.find(MG + 'metadata', 'Metadata'), [L, PyList([]), 'parent', data])
        m(ip, cell, 'set_data_source', PyList([md]))
        k, kids = T.calls(ip, (CB, 'CellBox.split'), [cell, 7])
        ctx.oblige('children.no-exception', k == 'ok', info=str(kids))
        if k != 'ok':
            return
        kids = ip.unpack(kids)
        ctx.oblige('children.four', len(kids) == 4)
        p = ctx.int('point')
        ctx.assume(z3.And(sp.facts(p), sp.live(p)))
        tot = z3.IntVal(0)
        for c in kids:
            src = ip.unpack(m(ip, c, 'get_data_source'))
            ctx.oblige('children.one-source-each', len(src) == 1)
            d = m(ip, src[0], 'get_data_subset')
            ctx.oblige('children.data', isinstance(d, Data) and d.space is sp)
            tot = tot + sp.mult(d.pieces, p)
            ctx.oblige('children.data-in-bounds', z3.Implies(sp.mult(d.pieces, p) > 0, in_rect(sp, p, read_rect(ip, m(ip, c, 'get_bounds')))))
        T.cover('split')
        ctx.oblige('children.each-point-of-the-cell-in-exactly-one', z3.Implies(z3.And(has(p), inn(p)), tot == 1))
        ctx.oblige('children.no-other-point', z3.Implies(z3.Not(z3.And(has(p), inn(p))), tot == 0))

    def case(mv):
        c = fl(mv['cell'])
        lats = sorted({c[0] + (c[1] - c[0]) * k / 4 for k in range(5)})
        w = (c[3] - c[2]) % 360 or 360
        lons = sorted({(c[2] + w * k / 4 + 180) % 360 - 180 for k in range(5)} | {180.0})
        return [dict(checker='Trim', case=dict(rect=c, lats=lats, lons=lons, kind='sdf', time=False, t=['2020-01-01', '2020-01-05'], split=True, pre=False))]
    T.replay = case
    T.run(go)


for form, fn in ((DF, 'table'), (DSET, 'grid')):
    task('C11', f'children share out the points ({fn})',
         'requires: any cell (eastern edge not written as -180) with any data subset inside it; ensures: after CellBox.split every point of the subset is in exactly one child\'s data and nothing else is, each child\'s data lie in its bounds; contract used: trim_datapoints',
         assumptions=ASM[2:])(lambda T, f=form: children(T, f))
