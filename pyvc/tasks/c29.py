"""C29: a data source is prepared as configured: downsampled by blocks, reprojected point by point, named, restricted to the region."""
from ..task import task
from ..spec import *
from ..interp import Model, Opaque
from ..data import Data, DF, DSET
from ..prepare import Grid, pyproj, project
from .c11 import SC, VC, CLS, points

ASM = ['xarray: coarsen(axis=n, boundary="pad").statistic() gives the statistic of the values present in each block of n nodes (the last may be shorter), at the mean coordinate; thin keeps the first node of each block',
       'pyproj: Transformer.transform acts point by point']
I_, B_ = z3.IntSort(), z3.BoolSort()
STAT = {'MIN': 'min', 'MAX': 'max', 'MEAN': 'mean', 'MEDIAN': 'median', 'STD': 'std', 'COUNT': 'first'}


def make(ip, kind, **at):
    mod, cls, _ = CLS[kind]
    return Obj(ip.find(mod, cls), at)


# ------------------------------------------------------------------ downsampling
def downsample(T, kind, agg, given, astuple):
    ip, ctx = T.interp(), T.ctx

    def go():
        m, n = ctx.int('per_long'), ctx.int('per_lat')
        ctx.assume(z3.And(m >= 1, n >= 1))
        g = Grid()
        L = make(ip, kind, data=g, downsample_factors=(m, n) if astuple else PyList([m, n]), aggregate_type='MEAN' if given and agg != 'MEAN' else 'MAX' if given else agg)
        k, out = T.calls(ip, (CLS[kind][0], CLS[kind][1] + '.downsample'), [L], dict(agg_type=agg) if given else {})
        ctx.oblige('downsample.no-error', k == 'ok')
        if k != 'ok':
            return
        ctx.oblige('downsample.a-grid-from-the-source', isinstance(out, Grid) and out.base is g)
        if not isinstance(out, Grid):
            return
        one = z3.And(m == 1, n == 1)
        if not out.ops:
            ctx.oblige('downsample.unchanged-only-for-1x1', one)
            T.cover('unchanged')
            return
        ctx.oblige('downsample.blocks-only-when-asked', z3.Or(z3.Not(one), z3.BoolVal(all(s in ('min', 'max', 'mean', 'median', 'first') for s, _ in out.ops))))
        ctx.oblige('downsample.one-statistic-per-block', len(out.ops) == 1)
        s, f = out.ops[0]
        ctx.oblige('downsample.the-configured-statistic', s == STAT[agg])
        ctx.oblige('downsample.block-of-latitudes', rv(f.get('lat', 1)) == n)
        ctx.oblige('downsample.block-of-longitudes', rv(f.get('long', 1)) == m)
        T.cover('blocks')
    T.run(go)


C = 'with factors (m, n) every block of m longitudes x n latitudes becomes its statistic (COUNT: its first node); factors 1, 1 leave the grid as it is'
for kind in ('scalar', 'vector'):
    for agg in STAT:
        for given in (False, True):
            task('C29', f'downsample {kind} grid, {agg}{", statistic given" if given else ""}', C, assumptions=ASM[:1])(lambda T, x=(kind, agg, given, given): downsample(T, *x))


def downsample_table(T, kind):
    ip, ctx = T.interp(), T.ctx

    def go():
        cols = CLS[kind][2][:2]
        sp = points(ctx, 'pt', cols)
        has = z3.Function('pt_in_data', I_, B_)
        data = Data(sp, [lambda p: has(p)], DF, ('lat', 'long'), cols)
        L = make(ip, kind, data=data, downsample_factors=PyList([ctx.int('m'), ctx.int('n')]), aggregate_type='MEAN')
        k, out = T.calls(ip, (CLS[kind][0], CLS[kind][1] + '.downsample'), [L])
        ctx.oblige('downsample.no-error', k == 'ok')
        ctx.oblige('downsample.table-unchanged', k == 'ok' and isinstance(out, Data) and out.space is sp and out.names() == data.names())
        p = ctx.int('point')
        if k == 'ok' and isinstance(out, Data):
            ctx.oblige('downsample.table-points', z3.Implies(sp.facts(p), sp.mult(out.pieces, p) == z3.If(has(p), 1, 0)))
    T.run(go)


for kind in ('scalar', 'vector'):
    task('C29', f'downsample {kind} table', 'tables are not downsampled: every row stays')(lambda T, k=kind: downsample_table(T, k))


# ------------------------------------------------------------------ reprojection
def reproject(T, kind, form, xy, same):
    ip, ctx = T.interp(None, {'pyproj': pyproj()}), T.ctx

    def go():
        cols = CLS[kind][2][:2]
        crd = xy if form is DSET or set(xy) == {'lat', 'long'} else ()
        extra = tuple(c for c in xy if c not in crd)
        sp = points(ctx, 'pt', cols + extra)
        if extra:
            old = sp.valid
            sp.valid = lambda p: z3.And(old(p), *[z3.Not(sp.cols[c][0](p)) for c in extra])
        has = z3.Function('pt_in_data', I_, B_)
        data = Data(sp, [lambda p: has(p)], form, crd, extra + cols)
        L = make(ip, kind, data=data, fast_reprojection=False)
        kw = dict(in_proj='EPSG:3031', out_proj='EPSG:3031' if same else 'EPSG:4326', x_col=xy[0], y_col=xy[1])
        val = {c: data.column(c).val for c in data.names()}
        k, out = T.calls(ip, (CLS[kind][0], CLS[kind][1] + '.reproject'), [L], kw)
        ctx.oblige('reproject.no-error', k == 'ok')
        if k != 'ok':
            return
        ctx.oblige('reproject.data-of-the-source', isinstance(out, Data) and out.space is sp)
        if not isinstance(out, Data):
            return
        if same:
            ctx.oblige('reproject.nothing-to-do', set(out.names()) == set(data.names()) and out.kind is form)
        p = ctx.int('point')
        pre = z3.And(sp.facts(p), sp.live(p))
        n = sp.mult(out.pieces, p)
        present = z3.And(has(p), *[z3.Not(sp.cols[c][0](p)) for c in cols])
        if form is DF or same:
            ctx.oblige('reproject.every-point', z3.Implies(pre, n == z3.If(has(p), 1, 0)))
        else:
            ctx.oblige('reproject.every-point-with-data', z3.Implies(z3.And(pre, present), n == 1))
            ctx.oblige('reproject.no-other-point', z3.Implies(pre, n <= z3.If(has(p), 1, 0)))
        if not same:
            ctx.oblige('reproject.columns', set(out.names()) == {'lat', 'long'} | set(cols))
            x, y = (as_real(rv(val[c](p)[1])) for c in xy)
            want = dict(long=project('EPSG:3031', 'EPSG:4326', True, 'x')(x, y), lat=project('EPSG:3031', 'EPSG:4326', True, 'y')(x, y))
            for c, w in want.items():
                got = out.column(c)
                ctx.oblige(f'reproject.{c}', z3.And(got is not None, z3.Implies(z3.And(pre, n == 1), z3.And(z3.Not(zb(got.val(p)[0])), as_real(rv(got.val(p)[1])) == w))) if got is not None else False)
        for c in cols:
            got = out.column(c)
            ctx.oblige('reproject.values-stay', got is not None)
            if got is not None:
                a, b = got.val(p), val[c](p)
                ctx.oblige('reproject.values-stay', z3.Implies(z3.And(pre, n == 1), z3.And(zb(a[0]) == zb(b[0]), as_real(rv(a[1])) == as_real(rv(b[1])))))
        T.cover('end')
    T.run(go)


C = 'every point gets the projected position of its own two coordinates (first coordinate is x, second y; x becomes the longitude, y the latitude) and keeps its values; ' \
    'points of a grid without data may be dropped; the original coordinate columns are gone'
for kind in ('scalar', 'vector'):
    for form, fn in ((DF, 'table'), (DSET, 'grid')):
        for xy in (('px', 'py'), ('long', 'lat'), ('lat', 'long')):
            task('C29', f'reproject {kind} {fn}, {xy[0]}/{xy[1]}', C, assumptions=ASM[1:] + (['accurate reprojection (not fast_reprojection) for grids'] if form is DSET else []))(
                lambda T, x=(kind, form, xy, False): reproject(T, *x))
        task('C29', f'reproject {kind} {fn}, nothing to do', 'equal projections: the data is unchanged', assumptions=ASM[1:])(lambda T, x=(kind, form, ('px', 'py'), True): reproject(T, *x))


# ------------------------------------------------------------------ names
def names(T, kind, form, cols, new):
    ip, ctx = T.interp(), T.ctx

    def go():
        sp = points(ctx, 'pt', cols)
        has = z3.Function('pt_in_data', I_, B_)
        data = Data(sp, [lambda p: has(p)], form, ('lat', 'long', 'time'), cols)
        L = make(ip, kind, data=data)
        bad = kind == 'scalar' and len(cols) != 1
        if new is None:
            k, out = T.calls(ip, (CLS[kind][0], CLS[kind][1] + '.get_data_col_name'), [L])
            if bad:
                ctx.oblige('names.several-columns-refused', k == 'raise' and out.cls is ValueError)
            else:
                ctx.oblige('names.of-the-data-columns', k == 'ok' and isinstance(out, str) and out == ','.join(cols))
            T.cover('end')
            return
        k, out = T.calls(ip, (CLS[kind][0], CLS[kind][1] + '.set_data_col_name'), [L, new[0] if kind == 'scalar' else PyList(list(new))])
        T.cover('end')
        if bad or len(new) != len(cols):
            ctx.oblige('names.cannot-be-assigned', k == 'raise')
            return
        ctx.oblige('names.no-error', k == 'ok')
        if k != 'ok':
            return
        ctx.oblige('names.columns', isinstance(out, Data) and out.space is sp and set(out.names()) == {'lat', 'long', 'time'} | set(new))
        p = ctx.int('point')
        pre = z3.And(sp.facts(p), sp.live(p))
        ctx.oblige('names.same-points', z3.Implies(pre, sp.mult(out.pieces, p) == z3.If(has(p), 1, 0)))
        for o, n in zip(cols, new):
            got = out.column(n)
            ctx.oblige('names.same-values', got is not None)
            if got is not None:
                a, b = got.val(p), sp.col(o)(p)
                ctx.oblige('names.same-values', z3.Implies(pre, z3.And(zb(a[0]) == b[0], as_real(rv(a[1])) == b[1])))
    T.run(go)


for form, fn in ((DF, 'table'), (DSET, 'grid')):
    for kind, cases in (('scalar', ((('v',), None), (('v', 'x'), None), (('v',), ('n',)), (('v',), ('v',)))),
                        ('vector', ((('u', 'w'), None), (('u', 'w'), ('a', 'b')), (('u', 'w'), ('w', 'u')), (('u', 'w'), ('a',)), (('u', 'w'), ('u', 'b')),
                                    (('w', 'u'), None), (('w', 'u'), ('a', 'b')), (('w', 'U'), ('b', 'a')), (('longer', 'c'), ('c', 'longer'))))):
        for cols, new in cases:
            task('C29', f'name of {kind} {fn} {",".join(cols)}{" -> " + ",".join(new) if new else ""}',
                 'the data columns are those other than lat, long and time; renaming gives each the new name at its place, with its values')(lambda T, x=(kind, form, cols, new): names(T, *x))


# ------------------------------------------------------------------ construction
class Stage(Model):
    def __init__(self, what, prev=None):
        super().__init__()
        self.what, self.prev = what, prev

    def chain(self):
        return (self.prev.chain() if self.prev else ()) + (self.what,)

    def typeof(self, ip):
        return DF


class Covered(Model):
    """fraction of the region covered by the data"""
    def __init__(self, z):
        super().__init__()
        self.z = z

    def binop(self, ip, op, o, sw):
        return Opaque('number for a message')

    def cmp(self, ip, op, o, sw):
        if op in ('Eq', 'NotEq') and o == 0:
            return self.z if op == 'Eq' else z3.Not(self.z)
        if o == 0 and (op, sw) in (('Gt', False), ('Lt', True)):
            return z3.Not(self.z)
        if o == 0 and (op, sw) in (('LtE', False), ('GtE', True)):
            return self.z
        raise Unsupported('comparison of the coverage')

    def eq(self, ip, o):
        return self.cmp(ip, 'Eq', o, False)

    def get(self, ip, n):
        return Opaque('number for a message')


def construct(T, kind, named, proj, dflt):
    mod, cls, _ = CLS[kind]
    Q = f'{mod}:{cls}.'
    names = 'v' if kind == 'scalar' else 'u,w'

    def stage(what, check=None):
        def f(ip, fn, a, k):
            L = a[0]
            d = k.get('data') if what != 'import' else None
            prev = None if what == 'import' else (d or ip.getattr(L, 'data'))
            if check:
                check(ip, list(a), dict(k))
            return Stage(what, prev)
        return f
    ip = T.interp()
    ctx = T.ctx

    def go():
        r = Rect(ctx, 'region', T=T)
        b = boundary(ip, r)
        zero = ctx.bool('no_coverage')
        at = lambda what, x: ctx.oblige(what, same_rect(read_rect(ip, x), r))
        arg = lambda a, k, n, i: k.get(n, a[i] if len(a) > i else None)

        def chk_imp(ip, a, k):
            at('construct.import-for-the-region', arg(a, k, 'bounds', 1))

        def chk_ds(ip, a, k):
            ctx.oblige('construct.downsample-as-configured', arg(a, k, 'agg_type', 1) in (None, 'MAX'))

        def chk_re(ip, a, k):
            ctx.oblige('construct.projection', [arg(a, k, n, i + 1) for i, n in enumerate(('in_proj', 'out_proj', 'x_col', 'y_col'))] == ['EPSG:3031', 'EPSG:4326', 'px', 'py'])

        def chk_name(ip, a, k):
            got = a[1] if len(a) > 1 else next(iter(k.values()), None)
            got = ','.join(ip.unpack(got)) if isinstance(got, (PyList, tuple)) else got
            ctx.oblige('construct.the-configured-name', got == ('n' if kind == 'scalar' else 'n,o'))

        def chk_trim(ip, a, k):
            at('construct.trimmed-to-the-region', arg(a, k, 'bounds', 1))
        ip.contracts.update({Q + 'import_data': stage('import', chk_imp), Q + 'downsample': stage('downsample', chk_ds), Q + 'reproject': stage('reproject', chk_re),
                             Q + 'set_data_col_name': stage('name', chk_name), Q + 'add_mag_dir': stage('magnitude'), Q + 'trim_datapoints': stage('trim', chk_trim),
                             Q + 'get_data_col_name': lambda ip, f, a, k: names, Q + 'calculate_coverage': lambda ip, f, a, k: Covered(zero)})
        pr = [('dataloader_name', 'x'), ('aggregate_type', 'MAX')] if not dflt else []
        if named:
            pr.append(('data_name', 'n' if kind == 'scalar' else 'n,o'))
        if proj:
            pr += [('in_proj', 'EPSG:3031'), ('x_col', 'px'), ('y_col', 'py')]
        if not dflt:
            pr += [('min_dp', ctx.int('min_dp')), ('downsample_factors', PyList([ctx.int('m'), ctx.int('n')])), ('extra_setting', 'kept')]
        want = dict(pr)
        L = Obj(ip.find(mod, cls), {})
        k, out = T.calls(ip, (mod, cls + '.__init__'), [L, b, PyDict(pr)])
        ctx.oblige('construct.no-error', k == 'ok')
        if k != 'ok':
            return
        d = L.d.get('data')
        steps = ('import', 'downsample') + (('reproject',) if proj else ()) + (('name',) if named else ()) + (('magnitude',) if kind == 'vector' else ())
        ch = d.chain() if isinstance(d, Stage) else None
        ctx.oblige('construct.every-step-in-order', ch in (steps, steps + ('trim',)))
        if ch == steps:
            ctx.oblige('construct.untrimmed-only-without-coverage', zero)
        nm = want.get('data_name', names)
        ctx.oblige('construct.data-name', L.d.get('data_name') == nm)
        if kind == 'vector':
            ctx.oblige('construct.component-names', ip.unpack(L.d['data_name_list']) == nm.split(','))
        for c, v in dict(dict(min_dp=5, aggregate_type='MEAN', in_proj='EPSG:4326', out_proj='EPSG:4326'), **{c: v for c, v in want.items() if c != 'data_name'}).items():
            ctx.oblige('construct.settings', c in L.d)
            if c in L.d:
                g = L.d[c]
                if isinstance(v, PyList):
                    ctx.oblige('construct.settings', isinstance(g, (PyList, tuple)) and len(ip.unpack(g)) == 2)
                    for s, t in zip(ip.unpack(g), ip.unpack(v)):
                        ctx.oblige('construct.settings', rv(s) == rv(t))
                else:
                    ctx.oblige('construct.settings', (g == v) if isinstance(v, (str, int)) and isinstance(g, (str, int)) else rv(g) == rv(v))
        if dflt:
            ctx.oblige('construct.no-downsampling-by-default', [x for x in ip.unpack(L.d['downsample_factors'])] == [1, 1])
        T.cover('end')
    T.run(go)


C = 'the data of a loader is that of its source, downsampled, reprojected if the projections differ, renamed if a name is configured, (vectors: with magnitude and direction), trimmed to the region; ' \
    'settings are taken over, defaults filled in'
for kind in ('scalar', 'vector'):
    for named in (False, True):
        for proj in (False, True):
            task('C29', f'construct {kind} loader{", named" if named else ""}{", projected" if proj else ""}', C, assumptions=['the steps by their contracts (C11, C28, C29)'])(
                lambda T, x=(kind, named, proj, False): construct(T, *x))
    task('C29', f'construct {kind} loader, defaults', C, assumptions=['the steps by their contracts (C11, C28, C29)'])(lambda T, x=(kind, False, False, True): construct(T, *x))
