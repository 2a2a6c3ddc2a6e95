"""C16: point lookup."""
from ..task import task
from ..spec import *
from ..loops import forall_items, register

AC, EM = MG + 'aggregated_cellbox', MG + 'environment_mesh'
TRUST = ['shapely: a rectangle given by its ring contains exactly its strictly interior points']


def point(ctx, T):
    lat, lon = ctx.real('lat'), ctx.real('lon')
    ctx.assume(z3.And(lat >= -90, lat <= 90, lon >= -180, lon <= 180))
    T.input('pt', [lat, lon])
    return lat, lon


@task('C16', 'contains_point', 'requires: a cell with any rectangle, a point with longitude in [-180,180]; ensures: True exactly when the point is strictly inside the rectangle, longitudes taken modulo 360',
      assumptions=TRUST)
def contains_point(T):
    ip, ctx = T.interp(), T.ctx

    def go():
        r = Rect(ctx, 'cell', T=T)
        lat, lon = point(ctx, T)
        c = ip.call(ip.find(AC, 'AggregatedCellBox'), [boundary(ip, r), Term('data of', z3.IntVal(0)), '0'])
        k, out = T.calls(ip, (AC, 'AggregatedCellBox.contains_point'), [c, lat, lon])
        ctx.oblige('contains.no-exception', k == 'ok', info=str(out))
        if k == 'ok':
            T.cover('in') if ctx.feasible(zb(out)) else None
            ctx.oblige('contains.exactly-strict-interior', zb(ip.truth(out)) == inside_spec(ctx, (r.lat0, r.lat1, r.lo, r.hi), lat, lon))
    T.replay = lambda mv: [dict(checker='Lookup', case=dict(g=dict(kind='plain', lat_min=fl(mv['cell'][0]), lat_max=fl(mv['cell'][1]), long_min=fl(mv['cell'][2]), long_max=fl(mv['cell'][3]), cw=1, ch=1, rows=1, cols=1),
                                                            cells=[fl(mv['cell'])], ids=['0'], pts=[fl(mv['pt'])]))]
    T.run(go)


def contract(ip, f, args, kw):
    s, lat, lon = args
    return simp(inside_spec(ip.ctx, read_rect(ip, m(ip, s, 'get_bounds')), as_real(lat), as_real(lon)))


def lookup(T, entry):
    ip, ctx = T.interp({AC + ':AggregatedCellBox.contains_point': contract}), T.ctx
    F = CellFns()

    def go():
        n = ctx.int('n')
        ctx.assume(n >= 0)
        lat, lon = point(ctx, T)
        seg = template_seg(ip, n, lambda t: agg_cell(ip, F, t), F.valid, 'cells')
        mesh = mesh_of(ip, seg)
        pt = PyList([lat, lon])
        k, out = T.calls(ip, (EM, 'EnvironmentMesh.' + entry), [mesh, pt])
        ins = lambda i: inside_spec(ctx, F.rect(i), lat, lon)
        allc = Seg(RangeDom(n), lambda ctx, i: [(True, i)], 'all')
        i, j = ctx.int('a'), ctx.int('b')

        def at(x):
            ctx.assume(z3.And(x >= 0, x < n, F.valid(x)))
            register(ip, x)

        def none_inside():
            forall_items(ip, allc, True, lambda x: z3.Not(ins(x)))
        if entry == 'query_inside_mesh':
            ctx.oblige('inside.no-exception', k == 'ok', info=str(out))
            if k != 'ok':
                return
            out = ip.truth(out)

            def yes():
                ctx.assume(zb(out))
                T.cover('inside')
                none_inside()
                ctx.oblige('inside.true-only-if-some-cell-contains-it', False)

            def no():
                ctx.assume(zb(bnot(out)))
                at(i)
                T.cover('outside')
                ctx.oblige('inside.false-only-if-no-cell-contains-it', z3.Not(ins(i)))
            ctx.explore(yes)
            ctx.explore(no)
            return
        if k == 'raise':
            ctx.oblige('index.error-type', isinstance(out, ExcVal) and isinstance(out.cls, type) and issubclass(out.cls, Exception), info=str(out))

            def one():
                at(i)
                ctx.assume(ins(i))
                forall_items(ip, allc, True, lambda x: z3.Implies(ins(x), x == i))
                ctx.oblige('index.no-error-if-in-exactly-one-cell', False)
            ctx.explore(one)
        else:
            def some():
                none_inside()
                ctx.oblige('index.found-only-if-some-cell-contains-it', False)

            def right():
                at(i)
                ctx.assume(ins(i))
                T.cover('found')
                ctx.oblige('index.returns-id-of-containing-cell', ip.truth(models.eq(ip, out, Rope([('n', F.id(i))]))))
                at(j)
                ctx.assume(ins(j))
                ctx.oblige('index.error-if-in-several-cells', i == j)
            ctx.explore(some)
            ctx.explore(right)
    T.run(go)


CQ = {'query_inside_mesh': 'requires: any number of cells with any rectangles, any point with longitude in [-180,180]; ensures: True exactly when some cell contains the point (contract of contains_point)',
      'query_index': 'requires: as before, distinct ids; ensures: returns the id of the cell that contains the point if there is exactly one, raises otherwise'}
for e, c in CQ.items():
    task('C16', e, c)(lambda T, e=e: lookup(T, e))
