"""C23: the raster of a GeoTIFF export."""
from ..task import task
from ..spec import *
from ..interp import Native, Opaque, Model
from ..loops import register, forall_items
from ..models import Grid2, ExtModule, JsonText
from .c13 import is_val
from .c16 import contract as contains_c

AC, EM = MG + 'aggregated_cellbox', MG + 'environment_mesh'
TIF = EM + ':EnvironmentMesh.to_tif.'
ASM = ['GDAL: GTiff Create(name, columns, lines, 1, Float32), SetGeoTransform, WriteArray and CreateCopy write a raster with that shape, position and values; reprojection (transform_proj) and colouring (set_colour) are '
       'outside the contracts', 'float32 rounding of values is ignored', 'np.reshape of lines x columns values puts value number line * columns + column at (line, column)']
_R = z3.RealSort()
V, MISS = z3.Function('value_at', _R, _R, _R), z3.Function('missing_at', _R, _R, z3.BoolSort())


class Any(Model):
    """part of a library nobody depends on"""
    def get(self, ip, n):
        return self

    def call(self, ip, a, k):
        return self


class Raster(Model):
    def __init__(self):
        super().__init__()
        for k in ('shape', 'gt', 'array'):
            self.d[k] = None

    def get(self, ip, n):
        def one(key):
            def f(ip, a, k):
                ip.ctx.write(self, key, a[0])
            return Native(n, f)
        if n == 'SetGeoTransform':
            return one('gt')
        if n == 'SetProjection':
            return Native(n, lambda ip, a, k: None)
        if n == 'GetRasterBand':
            return Native(n, lambda ip, a, k: self)
        if n == 'WriteArray':
            return one('array')
        if n in ('FlushCache', 'SetNoDataValue'):
            return Native(n, lambda ip, a, k: None)
        raise Unsupported(f'raster.{n}')


class Driver(Model):
    def __init__(self):
        super().__init__()
        self.d['made'] = ()
        self.d['saved'] = ()

    def get(self, ip, n):
        if n == 'Create':
            def f(ip, a, k):
                r = Raster()
                r.d['shape'] = (a[1], a[2])
                ip.ctx.write(self, 'made', self.d['made'] + (r,))
                return r
            return Native(n, f)
        if n == 'CreateCopy':
            def g(ip, a, k):
                ip.ctx.write(self, 'saved', self.d['saved'] + ((a[0], a[1], {x: a[1].d[x] for x in ('shape', 'gt', 'array')}),))
                return Opaque('copy')
            return Native(n, g)
        raise Unsupported(f'driver.{n}')


def world(ip, drv):
    g = ExtModule('osgeo.gdal', dict(GetDriverByName=Native('GetDriverByName', lambda ip, a, k: drv), GDT_Float32='Float32'))
    ip.externals['osgeo'] = ExtModule('osgeo', dict(gdal=g, ogr=Opaque('ogr'), osr=Any()))


def given(res):
    return lambda ip, f, a, k: PyDict([('data_name', 'v'), ('sampling_resolution', PyList(list(res))), ('projection', '4326')])


SKIP = {TIF + 'transform_proj': lambda ip, f, a, k: None, TIF + 'set_colour': lambda ip, f, a, k: None}


def cases(T):
    def case(mv):
        out = []
        for lo in (0.0, 177.0, 179.0):
            for res in ([1, 1], [2, 3], [3, 2], [5, 4], [4, 9]):
                for v in ([1.0, 2.0, 3.0], [[2.0, 4.0], 5.0, None]):
                    out.append(dict(checker='Tif', case=dict(lat=[0.0, 3.0], lo=lo, w=4.0, cells=[[0.0, 1.0, 0.0, 4.0], [1.0, 3.0, 0.0, 3.0], [1.0, 3.0, 3.0, 4.0]], vals=v, res=res, other=True)))
        return out
    T.replay = case


def only_raster(ctx, drv, path, pre):
    ok = len(drv.d['saved']) == 1 and drv.d['saved'][0][0] is path and isinstance(drv.d['saved'][0][1], Raster)
    ctx.oblige(pre + '.one-raster-is-saved-under-the-path', ok)
    if not ok:
        return None
    r = drv.d['saved'][0][2]
    ok = isinstance(r['array'], Grid2) and isinstance(r['gt'], (PyList, tuple)) and isinstance(drv.d['saved'][0][1].d['array'], Grid2)
    ctx.oblige(pre + '.values-and-position-written-before-saving', ok)
    return r if ok else None


@task('C23', 'pixels', 'requires: any region and resolution, values given by any function of position; ensures: the raster has the requested lines and columns, starts at the north-west corner of the region with pixels of '
      'width/columns x height/lines, and the pixel in line i and column j has the value at the position (north - (i+1/2) height/lines, west + (j+1/2) width/columns modulo 360)', assumptions=ASM)
def pixels(T):
    ip, ctx = T.interp(), T.ctx

    def sample(ip, f, a, k):
        lat, lon = ip.unpack(a[0])
        lat, lon = as_real(rv(lat)), as_real(rv(lon))
        return NaNable(MISS(lat, lon), V(lat, lon))

    def go():
        r = Rect(ctx, 'region', 361, T=T)
        nl, nc = ctx.int('lines'), ctx.int('columns')
        ctx.assume(z3.And(nl >= 1, nc >= 1))
        ip.contracts = dict(SKIP, **{TIF + 'load_params': given([nl, nc]), TIF + 'get_sample_value': sample})
        drv, path = Driver(), Atom(ctx.const('path', TextSort))
        world(ip, drv)
        mesh = mesh_of(ip, [], bounds=boundary(ip, r))
        k, out = T.calls(ip, (EM, 'EnvironmentMesh.to_tif'), [mesh, None, path])
        ctx.oblige('pixels.no-exception', k == 'ok', info=str(out))
        if k != 'ok':
            return
        T.cover('exported')
        ras = only_raster(ctx, drv, path, 'pixels')
        if ras is None:
            return
        ctx.oblige('pixels.shape', z3.And(rv(ras['shape'][0]) == nc, rv(ras['shape'][1]) == nl, rv(ras['array'].n) == nl, rv(ras['array'].m) == nc))
        gt = [as_real(rv(x)) for x in ip.unpack(ras['gt'])]
        ctx.oblige('pixels.position', len(gt) == 6 and z3.And(gt[0] == r.lo, gt[1] * z3.ToReal(nc) == r.w, gt[2] == 0, gt[3] == r.lat1, gt[4] == 0, gt[5] * z3.ToReal(nl) == -r.h))
        i, j = ctx.int('i'), ctx.int('j')
        ctx.assume(z3.And(i >= 0, i < nl, j >= 0, j < nc))
        register(ip, i)
        register(ip, j)
        v = ras['array'].at(ctx, i, j)
        ok = isinstance(v, NaNable) and is_z3(v.val) and v.val.num_args() == 2 and v.val.decl().eq(V) and is_z3(v.nan) and v.nan.decl().eq(MISS) and all(v.nan.arg(q).eq(v.val.arg(q)) for q in (0, 1))
        ctx.oblige('pixels.value-at-a-position', ok)
        if not ok:
            return
        lat, lon = v.val.arg(0), v.val.arg(1)
        ctx.oblige('pixels.latitude-of-the-centre', (lat - r.lat1) * z3.ToReal(2 * nl) == -z3.ToReal(2 * i + 1) * r.h)
        x = ctx.real('x')
        ctx.assume(x * z3.ToReal(2 * nc) == z3.ToReal(2 * j + 1) * r.w)
        ctx.oblige('pixels.longitude-of-the-centre', z3.Or(lon == r.lo + x, lon == r.lo + x - 360))
        ctx.oblige('pixels.longitude-in-range', z3.And(lon >= -180, lon <= 180))
    cases(T)
    T.run(go)


def value(T, kind):
    ip, ctx = T.interp(), T.ctx
    F = CellFns()
    f = lambda n, s=_R: z3.Function(f'cell_{n}', z3.IntSort(), s)
    na, a, b = f('missing', z3.BoolSort()), f('u'), f('w')
    data = {'number': lambda t: PyDict([('other', 1), ('v', NaNable(na(t), a(t)))]), 'vector': lambda t: PyDict([('v', PyList([a(t), b(t)])), ('other', 1)]), 'no entry': lambda t: PyDict([('other', a(t))])}[kind]

    def go():
        lat, lon = ctx.real('lat'), ctx.real('lon')
        ctx.assume(z3.And(lat >= -90, lat <= 90, lon >= -180, lon <= 180))
        ip.contracts = dict(SKIP, **{TIF + 'load_params': given([1, 1]), TIF + 'generate_samples': lambda ip, f, a, k: PyList([PyList([lat, lon])]), AC + ':AggregatedCellBox.contains_point': contains_c})
        n = ctx.int('n')
        ctx.assume(n >= 0)
        seg = template_seg(ip, n, lambda t: agg_cell(ip, F, t, data), F.valid, 'cells')
        drv, path = Driver(), Atom(ctx.const('path', TextSort))
        world(ip, drv)
        mesh = mesh_of(ip, seg, bounds=boundary(ip, Rect(ctx, 'region')))
        k, out = T.calls(ip, (EM, 'EnvironmentMesh.to_tif'), [mesh, None, path])
        ctx.oblige('value.no-exception', k == 'ok', info=str(out))
        if k != 'ok':
            return
        ras = only_raster(ctx, drv, path, 'value')
        if ras is None:
            return
        got = ras['array'].at(ctx, z3.IntVal(0), z3.IntVal(0))
        ins = lambda i: inside_spec(ctx, F.rect(i), lat, lon)
        i = ctx.int('i')
        allc = Seg(RangeDom(n), lambda ctx, t: [(True, t)], 'all')

        def inside():
            ctx.assume(z3.And(i >= 0, i < n, F.valid(i), ins(i)))
            register(ip, i)
            forall_items(ip, allc, True, lambda x: z3.Implies(ins(x), x == i))
            T.cover('inside')
            want = {'number': (na(i), a(i)), 'vector': (z3.BoolVal(False), (a(i) + b(i)) / 2), 'no entry': (z3.BoolVal(True), a(i))}[kind]
            ctx.oblige('value.of-the-cell-containing-the-position', is_val(got, *want))

        def outside():
            forall_items(ip, allc, True, lambda x: z3.Not(ins(x)))
            T.cover('outside')
            ctx.oblige('value.missing-outside-all-cells', is_val(got, z3.BoolVal(True), lat))
        ctx.explore(inside)
        ctx.explore(outside)
    cases(T)
    T.run(go)


for kind in ('number', 'vector', 'no entry'):
    task('C23', f'value, {kind}', 'requires: any number of disjoint cells whose data ' + {'number': 'is a number or missing', 'vector': 'is a vector of two finite components', 'no entry': 'has no such entry'}[kind] +
         ', any position; ensures: the value sampled there is ' + {'number': 'that of', 'vector': 'the mean of the components of', 'no entry': 'missing for'}[kind] +
         ' the cell with the position in its interior, missing if there is none', assumptions=ASM)(lambda T, k=kind: value(T, k))


@task('C23', 'parameters', 'requires: no parameter file, or one with any of the entries data_name and sampling_resolution (and others); ensures: the raster has the lines and columns given there (100 x 100 if not given) '
      'and the values of the data named there (SIC if not given)', assumptions=ASM + ['json.load / json.loads of the file give the parameters written in it'])
def parameters(T):
    ip, ctx = T.interp(), T.ctx
    F = CellFns()
    f = lambda n, s=_R: z3.Function(f'cell_{n}', z3.IntSort(), s)
    a, b = f('u'), f('w')

    def go():
        nl, nc = ctx.int('lines'), ctx.int('columns')
        ctx.assume(z3.And(nl >= 1, nc >= 1))
        given = [ctx.branch(ctx.bool('file'))] + [ctx.branch(ctx.bool(x)) for x in ('name_given', 'resolution_given', 'other_given')]
        name, res = given[0] and given[1], given[0] and given[2]
        ip.contracts = {TIF + n: g for n, g in (('transform_proj', SKIP[TIF + 'transform_proj']), ('set_colour', SKIP[TIF + 'set_colour']))}
        ip.contracts[AC + ':AggregatedCellBox.contains_point'] = lambda ip, f, a, k: True
        L, C = (nl, nc) if res else (z3.IntVal(100), z3.IntVal(100))
        lat, lon = [z3.Function(x, z3.IntSort(), z3.IntSort(), _R) for x in ('lat', 'lon')]
        ip.contracts[TIF + 'generate_samples'] = lambda ip, f, a, k: PyList([Seg(RangeDom(L), lambda ctx, i: [(True, Seg(RangeDom(C), lambda ctx, j: [(True, PyList([lat(i, j), lon(i, j)]))], 'line'))], 'positions')])
        ents = [('projection', '4326'), ('colour_conf', 'file')] if given[3] else []
        ents += [('data_name', 'v')] if name else []
        ents += [('sampling_resolution', PyList([nl, nc]))] if res else []
        pf = Atom(ctx.const('params', TextSort))
        ip.files = [(pf, JsonText(PyDict(ents)))]
        drv, path = Driver(), Atom(ctx.const('path', TextSort))
        world(ip, drv)
        r = Rect(ctx, 'region', 361, T=T)
        ctx.assume(F.valid(z3.IntVal(0)))
        cell = agg_cell(ip, F, z3.IntVal(0), lambda t: PyDict([('SIC', a(t)), ('v', b(t))]))
        mesh = mesh_of(ip, [cell], bounds=boundary(ip, r))
        k, out = T.calls(ip, (EM, 'EnvironmentMesh.to_tif'), [mesh, pf if given[0] else None, path])
        ctx.oblige('parameters.no-exception', k == 'ok', info=str(out))
        if k != 'ok':
            return
        T.cover('exported')
        ras = only_raster(ctx, drv, path, 'parameters')
        if ras is None:
            return
        ctx.oblige('parameters.shape', z3.And(rv(ras['shape'][0]) == C, rv(ras['shape'][1]) == L, rv(ras['array'].n) == L, rv(ras['array'].m) == C))
        i, j = ctx.int('i'), ctx.int('j')
        ctx.assume(z3.And(i >= 0, i < L, j >= 0, j < C))
        register(ip, i)
        register(ip, j)
        ctx.oblige('parameters.data-of-the-requested-name', is_val(ras['array'].at(ctx, i, j), z3.BoolVal(False), (b if name else a)(0)))
    T.replay = lambda mv: [dict(checker='Tif', case=dict(lat=[0.0, 3.0], lo=0.0, w=4.0, cells=[[0.0, 3.0, 0.0, 4.0]], vals=[2.0], res=r, other=o, keys=ks)) for ks in (None, [], ['data_name'], ['sampling_resolution'], ['data_name', 'sampling_resolution'])
                           for r in ([2, 3], [3, 2]) for o in (True, False)]
    T.run(go)
