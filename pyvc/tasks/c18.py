"""C18: malformed regions are rejected (Boundary construction, MeshBuilder construction)."""
import datetime as _dt
from ..task import task
from ..spec import *
from ..loops import forall_items, register

BD, MB = MG + 'boundary', MG + 'mesh_builder'
VALID = z3.Function('validdate', TextSort, z3.BoolSort())
ORD = z3.Function('dateord', TextSort, z3.IntSort())


def parse_contract(ip, f, a, k):
    """parse_datetime: the canonical text of the date the argument denotes, or ValueError (C19)"""
    s = a[0]
    if not isinstance(s, Atom):
        raise Unsupported('parse_datetime of another argument')
    if not ip.ctx.branch(VALID(s.t)):
        models.raise_(ValueError, 'not a date')
    return Rope([('d', ORD(s.t))])


CON = {BD + ':Boundary.parse_datetime': parse_contract}


def texts(ctx, n):
    return [Atom(ctx.const('date', TextSort)) for _ in range(n)]


def ok_time(ts):
    if not ts:
        return z3.BoolVal(True)
    if len(ts) != 2:
        return z3.BoolVal(False)
    a, b = ts
    return z3.And(VALID(a.t), VALID(b.t), ORD(a.t) <= ORD(b.t))


def tcase(mo, nt):
    if nt is None:
        return None
    out = []
    for v, o in mo['times']:
        out.append(_dt.date.fromordinal(737000 + max(-3000, min(3000, o))).isoformat() if v else '2020-02-30')
    return out


def run_init(T, nla, nlo, nt, tail):
    ip, ctx = T.interp(CON), T.ctx
    T.replay = lambda mo: [dict(checker='BoundsOk', case=dict(la=fl(mo['la']), lo=fl(mo['lo']), t=tcase(mo, nt)))]

    def go():
        la = [ctx.real(f'lat{i}') for i in range(nla)]
        lo = [ctx.real(f'lon{i}') for i in range(nlo)]
        ts = texts(ctx, nt or 0)
        T.input('la', la), T.input('lo', lo), T.input('times', [[VALID(t.t), ORD(t.t)] for t in ts])
        L0, L1 = PyList(la), PyList(lo)
        n = nla
        if tail:
            f, n2 = z3.Function('morelat', z3.IntSort(), z3.RealSort()), ctx.int('n')
            ctx.assume(n2 >= 0)
            s = Seg(RangeDom(n2), lambda ctx, i: [(True, f(i))], 'further latitudes')
            s.uniform = 1
            L0 = PyList(la + [s])
        tl = PyList(ts)
        k, b = 'ok', None
        try:
            b = ip.call(ip.find(BD, 'Boundary'), [L0, L1] + ([tl] if nt is not None else []))
        except PyRaise as e:
            k = 'raise'
        ok = z3.BoolVal(False)
        if nla >= 2 and nlo >= 2:
            ok = z3.And(la[0] <= la[1], *[z3.And(x >= -180, x <= 180) for x in lo], ok_time(ts))
        ctx.oblige('boundary.accepted-exactly-when-wellformed', ok if k == 'ok' else z3.Not(ok))
        if k == 'ok':
            ctx.oblige('boundary.stores-ranges', z3.And(*[as_real(rv(m(ip, b, g))) == x for g, x in zip(('get_lat_min', 'get_lat_max', 'get_long_min', 'get_long_max'), la[:2] + lo[:2])]))
            tr = m(ip, b, 'get_time_range')
            ctx.oblige('boundary.stores-times', zb(ip.truth(models.eq(ip, tr, PyList([Rope([('d', ORD(t.t))]) for t in ts])))))
    T.under_contract |= {BD + ':Boundary.__init__', BD + ':Boundary.validate_bounds'}
    T.run(go)


PRE = 'requires: any numbers in the ranges, any texts as dates; '
for nla, nlo, nt, tail in [(0, 2, None, 0), (1, 2, None, 0), (2, 0, None, 0), (2, 1, None, 0), (2, 2, None, 0), (2, 3, None, 0), (2, 2, None, 1), (2, 2, 0, 0), (2, 2, 1, 0), (2, 2, 2, 0), (2, 2, 3, 0), (1, 1, 2, 0)]:
    task('C18', f'Boundary({nla}{"+" if tail else ""} latitudes, {nlo} longitudes, {"no" if nt is None else nt} dates)',
         PRE + 'ensures: no exception exactly when both ranges have at least two values, latitudes ordered, longitudes in [-180,180], no dates or two valid ordered dates; the ranges are stored')(
        lambda T, a=(nla, nlo, nt, tail): run_init(T, *a))


def sizes(T, ctx):
    cw, ch = T.input('cw', ctx.real('cw')), T.input('ch', ctx.real('ch'))
    ctx.assume(z3.And(cw > 0, ch > 0))
    return cw, ch


def divides(ctx, c, x):
    return floor_divide(ctx, simp_r(x), c)[1] == 0


def grid_case(mo, r):
    r = fl(mo['region'])
    return dict(kind='x', lat_min=r[0], lat_max=r[1], long_min=r[2], long_max=r[3], cw=fl(mo['cw']), ch=fl(mo['ch']))


@task('C18', 'MeshBuilder.validate_bounds', 'requires: a boundary, positive cell sizes; ensures: no exception exactly when width (through the antimeridian if it crosses) and height are whole multiples of the cell size')
def vb(T):
    ip, ctx = T.interp(), T.ctx
    T.replay = lambda mo: [dict(checker='BuildOk', case=dict(g=grid_case(mo, None), t=['2020-01-01', '2020-02-01'], f='proof'))]

    def go():
        r = Rect(ctx, 'region', 361, T)
        cw, ch = sizes(T, ctx)
        b = boundary(ip, r)
        mb = Obj(ip.find(MB, 'MeshBuilder'))
        k, out = T.calls(ip, (MB, 'MeshBuilder.validate_bounds'), [mb, b, cw, ch])
        ok = z3.And(divides(ctx, cw, r.w), divides(ctx, ch, r.h))
        ctx.oblige('region.accepted-exactly-when-multiple', ok if k == 'ok' else z3.Not(ok), info=str(out))
    T.run(go)


@task('C18', 'MeshBuilder.__init__', 'requires: any region values, any texts as dates, positive cell sizes; ensures: returning normally implies ordered latitudes, longitudes in [-180,180], valid ordered dates, width and height whole multiples',
      assumptions=['validate_mesh_config may raise or return (jsonschema, re and date parsing are external): only what the builder itself enforces is used',
                   'later construction steps (cells, loaders, graph) are assumed to return: a failure there only rejects more'])
def mb_init(T):
    def havoc(what):
        def con(ip, f, a, k):
            if what == 'config' and ip.ctx.branch(ip.ctx.bool('raises')):
                models.raise_(ValueError, what)
            return Opaque_list() if what == 'cells' else None if what in ('none', 'config') else Term(what)
        return con

    def Opaque_list():
        return PyList([])
    from ..interp import Opaque
    con = dict(CON)
    con['meshiphi.config_validation.config_validator:validate_mesh_config'] = havoc('config')
    P = MB + ':MeshBuilder.'
    con[P + 'initialize_cellboxes'] = havoc('cells')
    con[P + 'initialize_meta_data'] = havoc('cells')
    con[P + 'initialize_meta_data_subsets'] = havoc('cells')
    con[P + 'check_global_mesh'] = havoc('flag')
    con[MG + 'neighbour_graph:NeighbourGraph.__init__'] = havoc('none')
    con[MG + 'neighbour_graph:NeighbourGraph.set_global_mesh'] = havoc('none')
    con[MG + 'mesh:Mesh.__init__'] = havoc('none')
    con[MG + 'mesh:Mesh.set_config'] = havoc('none')
    ip, ctx = T.interp(con), T.ctx

    def dates(mo):
        return tcase(mo, 2)
    T.replay = lambda mo: [dict(checker='BuildOk', case=dict(g=grid_case(mo, None), t=dates(mo), f='proof'))]

    def go():
        vals = [ctx.real(n) for n in ('lat0', 'lat1', 'lo', 'hi')]
        T.input('region', vals)
        cw, ch = sizes(T, ctx)
        ts = texts(ctx, 2)
        T.input('times', [[VALID(t.t), ORD(t.t)] for t in ts])
        reg = PyDict(list(zip(('lat_min', 'lat_max', 'long_min', 'long_max', 'cell_width', 'cell_height', 'start_time', 'end_time'), vals + [cw, ch] + ts)))
        cfg = PyDict([('region', reg), ('data_sources', PyList([])), ('splitting', PyDict([('split_depth', ctx.int('sd')), ('minimum_datapoints', ctx.int('mdp'))]))])
        k = 'ok'
        try:
            ip.call(ip.find(MB, 'MeshBuilder'), [cfg])
        except PyRaise as e:
            k = 'raise'
        if k != 'ok':
            return
        T.cover('accepted')
        la, lb, lo, hi = vals
        ctx.oblige('build.accepted-implies-region-wellformed', z3.And(la <= lb, lo >= -180, lo <= 180, hi >= -180, hi <= 180, ok_time(ts)))
        ctx.oblige('build.accepted-implies-whole-multiples', z3.And(divides(ctx, cw, width_of(lo, hi)), divides(ctx, ch, lb - la)))
    T.under_contract.add(MB + ':MeshBuilder.__init__')
    T.run(go)
