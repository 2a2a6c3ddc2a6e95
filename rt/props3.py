"""Run-time contracts C26, C27: whole constructions from a configuration, with data files in a scratch directory."""
from common import *
from props1 import hom_oracle
from props2 import in_bounds
import contextlib, io, shutil, tempfile, copy

REG = {}
NAN = float('nan')


def prop(pid):
    def deco(cls):
        REG.setdefault(pid, []).append(cls)
        return cls
    return deco


def gen_sources(rng, g, region, conds=True):
    rects = [canon(r, 0) for r in grid_rects(g)]
    srcs = []
    for k in range(rng.choice([0, 1, 1, 2, 3])):
        vec = rng.random() < .3
        names = [f'u{k}', f'w{k}'] if vec else ['dup' if rng.random() < .3 else f's{k}']
        pts = []
        for r in rects:
            if rng.random() < .15:
                continue
            for _ in range(rng.choice([1, 4, 9])):
                la = rng.choice([r[0], r[1], r[0] + (r[1] - r[0]) * rng.randint(0, 8) / 8])
                lo = wrap(r[2] + width(r) * rng.randint(0, 8) / 8)
                if rng.random() < .1:
                    lo = rng.choice([-180.0, 180.0])
                pts.append([float(la), float(lo)] + [None if rng.random() < .1 else float(rng.randint(-3, 6)) for _ in names])
        cs = [] if vec or not conds or rng.random() < .3 else [dict(threshold=float(rng.randint(-1, 3)), lower_bound=rng.choice([0.0, .1, .25]), upper_bound=rng.choice([.75, .9, 1.0]),
                                                                    **({'split_lock': True} if rng.random() < .2 else {})) for _ in range(rng.choice([1, 1, 2, 5]))]
        srcs.append(dict(names=names, pts=pts, conds=cs, fill=rng.choice([None, 'parent', 'Nan', 0, -1.5, '2.5', 'bogus']), agg='MEAN' if vec else rng.choice(['MIN', 'MAX', 'MEAN']), how=rng.choice(['files', 'file', 'two', 'folder'])))
    return srcs


def config_with(c, d):
    """the configuration of a case, its data written below directory d"""
    import pandas as pd
    cfg = config_of(c['g'], depth=c['depth'])
    cfg['splitting']['minimum_datapoints'] = c['min_dp']
    for k, s in enumerate(c['srcs']):
        n = 2 if s['how'] in ('two', 'folder') else 1
        sub = os.path.join(d, f'source{k}')
        os.makedirs(sub, exist_ok=True)
        fs = [os.path.join(sub, ['part0.csv', 'data'][(q + k) % 2] if s['how'] == 'folder' else f'part{q}.csv') for q in range(n)]
        for q, f in enumerate(fs):
            pd.DataFrame([[NAN if x is None else x for x in p] for p in s['pts'][q::n]], columns=['lat', 'long'] + s['names'], dtype=float).to_csv(f, index=False)
        p = dict(data_name=','.join(s['names']), aggregate_type=s['agg'])
        p.update(dict(file=fs[0]) if s['how'] == 'file' else dict(folder=sub) if s['how'] == 'folder' else dict(files=fs))
        if s['conds']:
            p['splitting_conditions'] = [{p['data_name']: dict(x)} for x in s['conds']]
        if s['fill'] is not None:
            p['value_fill_types'] = s['fill']
        cfg['data_sources'].append(dict(loader=('vector_csv' if len(s['names']) > 1 else 'scalar_csv').title() if k % 2 else 'vector_csv' if len(s['names']) > 1 else 'scalar_csv', params=p))
    return cfg


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
        yield


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix='verif_')
    try:
        yield d
    finally:
        shutil.rmtree(d)


def fill_of(s):
    return 'parent' if s['fill'] in (None, 'bogus') else s['fill']


def key(p):
    return tuple('nan' if x is None or x != x else float(x) for x in p)


def inside(s, r, region):
    return [p for p in s['pts'] if in_bounds(region, p[0], p[1]) and in_bounds(r, p[0], p[1])]


def region_of(g):
    return (g['lat_min'], g['lat_max'], float(g['long_min']), float(g['long_max']))


def gen_case(rng, **kw):
    g = grid(rng, maxrows=2, maxcols=3, maxcells=6)
    return dict(g=g, srcs=gen_sources(rng, g, region_of(g), **kw), depth=rng.choice([0, 1, 2]), min_dp=rng.choice([0, 1, 3, 5]))


@prop('C26')
class Sources:
    rule = 'random configurations with 0-3 scalar or vector CSV sources, conditions, fill types (valid, invalid, missing); every cell\'s entries compared with the points inside it; then a loader is added'

    @staticmethod
    def gen(rng):
        c = gen_case(rng)
        c['new'] = gen_sources(rng, c['g'], region_of(c['g']))[:1]
        c['again'] = rng.random() < .5
        return c

    @staticmethod
    def entry(c, e, s, r, region, loader, what):
        l = e.get_data_loader()
        need(loader is None or l is loader, f'{what}: another loader than in the other cells')
        nm = ','.join(s['names'])
        need(l.data_name == nm and e.data_name == nm, f'{what}: data name {l.data_name}, {e.data_name} want {nm}')
        need(list(e.get_splitting_conditions()) == s['conds'], f'{what}: conditions {e.get_splitting_conditions()} want {s["conds"]}')
        need(e.get_value_fill_type() == fill_of(s) and type(e.get_value_fill_type()) is type(fill_of(s)), f'{what}: fill type {e.get_value_fill_type()!r} want {fill_of(s)!r}')
        d = e.get_data_subset()
        got = sorted((key(x) for x in d[['lat', 'long'] + s['names']].to_numpy().tolist()), key=str)
        want = sorted((key(p) for p in inside(s, r, region)), key=str)
        need(got == want, f'{what}: points {got} want {want}')
        return l

    @staticmethod
    def check(c):
        import pandas as pd
        from meshiphi.mesh_generation.mesh_builder import MeshBuilder
        from meshiphi.mesh_generation.cellbox import CellBox
        from meshiphi.dataloaders.scalar.abstract_scalar import ScalarDataLoader
        from meshiphi.dataloaders.vector.abstract_vector import VectorDataLoader
        region = region_of(c['g'])
        with scratch() as d, quiet():
            cfg = config_with(c, d)
            if c['again']:      # the configuration was used before, with another minimum number of points
                cfg['splitting']['minimum_datapoints'] = c['min_dp'] + 2
                MeshBuilder(cfg)
                cfg['splitting']['minimum_datapoints'] = c['min_dp']
            mb = MeshBuilder(cfg)
            if c['again']:
                mb2 = MeshBuilder(config_with(c, d))
            minimum = c['min_dp']
            loaders = [None] * len(c['srcs'])

            def all_cells(mb, srcs, loaders):
                for cell in mb.mesh.cellboxes:
                    if not isinstance(cell, CellBox):
                        continue
                    r = rect_of(cell.get_bounds())
                    ds = cell.get_data_source()
                    need(len(ds) == len(srcs), f'{len(ds)} entries for {len(srcs)} sources')
                    for k, s in enumerate(srcs):
                        loaders[k] = Sources.entry(c, ds[k], s, r, region, loaders[k], f'cell {cell.get_id()} {r} source {k}')
            all_cells(mb, c['srcs'], loaders)
            for k, l in enumerate(loaders):
                need(l is None or l.min_dp == minimum, f'source {k}: minimum number of points {getattr(l, "min_dp", None)} want {minimum}')
            need(all(x.get_minimum_datapoints() == minimum for x in mb.mesh.cellboxes), 'minimum number of points of a cell')
            for n, s in enumerate(c['new']):
                if c['again'] and any(isinstance(x, CellBox) for x in mb.mesh.cellboxes):
                    first = next(x for x in mb.mesh.cellboxes if isinstance(x, CellBox))
                    mb.split_and_replace(first)
                df = pd.DataFrame([[NAN if x is None else x for x in p] for p in s['pts']], columns=['lat', 'long'] + s['names'], dtype=float)
                made = []

                class New(VectorDataLoader if len(s['names']) > 1 else ScalarDataLoader):
                    def import_data(self, bounds):
                        made.append(self)
                        return self.trim_datapoints(bounds, data=df)
                p = dict(data_name=','.join(s['names']), aggregate_type=s['agg'], dataloader_name='new')
                if s['conds']:
                    p['splitting_conditions'] = [{p['data_name']: dict(x)} for x in s['conds']]
                if s['fill'] is not None:
                    p['value_fill_types'] = s['fill']
                out = mb.add_dataloader(New, p)
                need(out is mb, f'adding a loader returned {out!r}')
                need(len(made) == 1, f'{len(made)} loaders created')
                all_cells(mb, c['srcs'] + [s], loaders + made)
            if c['again']:
                all_cells(mb2, c['srcs'], [None] * len(c['srcs']))


@prop('C27')
class Build:
    rule = 'random configurations with 0-3 CSV sources (depth 0-2): the built mesh is compared, cell by cell and in order, with an independent simulation of refinement and aggregation'

    @staticmethod
    def gen(rng):
        c = gen_case(rng)
        for s in c['srcs']:
            # points on the antimeridian belong to one side or the other (C11); vectors with one component missing count as missing (C13)
            s['pts'] = [p for p in s['pts'] if abs(p[1]) != 180 and (len(p) == 3 or None not in p)]
            if s['fill'] in ('Nan', '2.5'):       # texts are not values to compute with
                s['fill'] = rng.choice([None, 'bogus'])
        c['min_dp'] = max(c['min_dp'], 1)     # a file without data gives columns without a type
        c['order'] = rng.random() < .5
        return c

    @staticmethod
    def check(c):
        from meshiphi.mesh_generation.mesh_builder import MeshBuilder
        region = region_of(c['g'])
        minimum = c['min_dp']
        limit = c['depth']
        # simulation
        cells = [dict(r=canon(r, 0), depth=0, parent=None) for r in grid_rects(c['g'])]

        def verdict(x, s, sc):
            vs = [NAN if p[2] is None else p[2] for p in inside(s, x['r'], region)]
            return hom_oracle(vs, len(vs), minimum, sc)

        def asks(x, stop):
            vs = [verdict(x, s, sc) for s in c['srcs'][:stop] for sc in s['conds']]
            return not any(v in ('HOM', 'MIN') for v in vs) and any(v != 'CLR' for v in vs)
        for k, s in enumerate(c['srcs']):
            if s['conds']:
                i = 0
                while i < len(cells):
                    x = cells[i]
                    if x is not None and x['depth'] < limit and asks(x, k + 1):
                        q = quarter(x['r'])
                        cells[i] = None
                        cells += [dict(r=canon(q[n], 0), depth=x['depth'] + 1, parent=x) for n in ('nw', 'ne', 'sw', 'se')]
                    i += 1

        def agg(x, s, j):
            vs = [p[2 + j] for p in inside(s, x['r'], region) if p[2 + j] is not None]
            return None if not vs else min(vs) if s['agg'] == 'MIN' else max(vs) if s['agg'] == 'MAX' else sum(vs) / len(vs)

        def value(x, s, j):
            v = agg(x, s, j)
            if v is None and fill_of(s) != 'parent':
                return fill_of(s)
            while v is None and x['parent'] is not None:
                x = x['parent']
                v = agg(x, s, j)
            return NAN if v is None else v
        want = []
        for i, x in enumerate(cells):
            if x is not None:
                data = {}
                for s in c['srcs']:
                    for j, n in enumerate(s['names']):
                        if n not in data or math.isnan(data[n]):
                            data[n] = value(x, s, j)
                want.append((str(i), x['r'], data))
        with scratch() as d, quiet():
            cfg = config_with(c, d)
            if c['order']:
                MeshBuilder(config_with(c, d))
            mb = MeshBuilder(cfg)
            m = mb.build_environmental_mesh()
        need(m.config is cfg, 'configuration of the mesh')
        need(rect_of(m.bounds) == region, f'region {rect_of(m.bounds)} want {region}')
        need(len(m.agg_cellboxes) == len(want), f'{len(m.agg_cellboxes)} cells want {len(want)}')
        for got, (i, r, data) in zip(m.agg_cellboxes, want):
            need(got.get_id() == i, f'id {got.get_id()} want {i}')
            need(same_rect(rect_of(got.get_bounds()), r), f'cell {i}: {rect_of(got.get_bounds())} want {r}')
            gd = {k: v for k, v in got.get_agg_data().items()}
            need(set(gd) == set(data), f'cell {i}: entries {sorted(gd)} want {sorted(data)}')
            for n in data:
                need(eqv(float(data[n]), float(gd[n]), 1e-9), f'cell {i} {n}: {gd[n]} want {data[n]}')
        need(m.neighbour_graph is mb.neighbour_graph, 'the graph is not the one of the builder')
        e = diff_graph(m.neighbour_graph.get_graph(), graph_of({i: r for i, r, _ in want}))
        need(e is None, e)


# ------------------------------------------------------------------ C28
def same(a, b):
    return a == b or (math.isnan(a) and math.isnan(b))


@prop('C28')
class Flow:
    rule = 'random vector samples (0-6 x 0-6 positions, missing values and rows, points outside the cell), tables and grids in both orders; curl, dmag, magnitude and direction against direct formulas'

    @staticmethod
    def gen(rng):
        ny, nx = rng.choice([(1, 1), (1, 3), (3, 1), (2, 2), (2, 5), (4, 2), (3, 3), (5, 4), (3, 6)])
        n = ny * nx
        pm = rng.choice([0, 0, 0, .1, .3, 1])
        v = lambda: None if rng.random() < pm else rng.choice([float(rng.randint(-3, 3)), dy(rng, -50, 50, 6)])
        return dict(ny=ny, nx=nx, u=[v() for _ in range(n)], w=[v() for _ in range(n)], form=rng.choice(['df', 'df', 'll', 'gl']), drop=[i for i in range(n) if rng.random() < rng.choice([0, .1])],
                    what=rng.choice(['curl', 'dmag', 'mag']), mode=rng.choice(['field', 'field', 'default', 'MAX', 'MEAN', 'BOGUS']), given=rng.random() < .4, empty=rng.random() < .1,
                    cfg=rng.choice(['MEAN', 'MAX', 'MIN']), shuffle=rng.randint(0, 99), names=rng.choice([['u', 'w'], ['w', 'u'], ['x', 'y']]), warm=rng.random() < .3, alt=rng.random() < .3,
                    step=rng.choice([1.0, 0.5, 2.0]))

    @staticmethod
    def check(c):
        import pandas as pd, xarray as xr
        ny, nx, N = c['ny'], c['nx'], c['names']
        u = np.array([NAN if v is None else v for v in c['u']], dtype=float).reshape(ny, nx)
        w = np.array([NAN if v is None else v for v in c['w']], dtype=float).reshape(ny, nx)
        lat = [1.0 + c['step'] * i for i in range(ny)]
        lon = [10.0 + c['step'] * i for i in range(nx)]
        whole = boundary((0.5, 20, 5, 60))
        b = boundary((15.5, 16, 5, 6)) if c['empty'] else boundary((0.5, 15, 5, 45))
        if c['form'] == 'df':
            rows = [(lat[i], lon[j], u[i, j], w[i, j]) for i in range(ny) for j in range(nx) if i * nx + j not in c['drop']]
            for k in c['drop']:
                u[k // nx, k % nx] = w[k // nx, k % nx] = NAN
            rows += [(19.5, 50.0, 100.0, -100.0), (19.5, 51.0, 7.0, 3.0), (18.5, 50.0, 1.0, 2.0)]
            import random
            random.Random(c['shuffle']).shuffle(rows)
            df = pd.DataFrame(rows, columns=['lat', 'long'] + N)
            l = vector_loader(whole, df=df, data_name=','.join(N), aggregate_type=c['cfg'])
            keep = [i for i in range(ny) if any(i * nx + j not in c['drop'] for j in range(nx))]
            kept = [j for j in range(nx) if any(i * nx + j not in c['drop'] for i in range(ny))]
            there = [(i, j) for i in range(ny) for j in range(nx) if i * nx + j not in c['drop']]
        else:
            g = lambda a, o: np.block([[a, np.full((ny, 1), o)], [np.full((1, nx), o), np.full((1, 1), o)]])
            order = ('lat', 'long') if c['form'] == 'll' else ('long', 'lat')
            put = lambda a: (order, a if c['form'] == 'll' else a.T)
            ds = xr.Dataset({N[0]: put(g(u, 77.0)), N[1]: put(g(w, -5.0))}, coords=dict(lat=lat + [19.5], long=lon + [50.0]))
            l = vector_loader(whole, xrd=ds, data_name=','.join(N), aggregate_type=c['cfg'])
            keep, kept = list(range(ny)), list(range(nx))
            there = [(i, j) for i in range(ny) for j in range(nx)]
        if c['empty']:
            keep, kept, there = [], [], []
        if c['warm']:
            poke([lambda: l.calc_curl(whole), lambda: l.calc_dmag(whole, collapse=False), lambda: l.calc_curl(b, agg_type='MEAN'), lambda: l.get_value(whole)])
        if c['what'] == 'mag':
            if c['alt']:
                d = l.data[['lat', 'long'] + N].rename(columns={N[0]: 'p', N[1]: 'q'}) if c['form'] == 'df' else l.data[N].rename({N[0]: 'p', N[1]: 'q'})
                d = l.add_mag_dir(data=d.copy(), data_names=['p', 'q'])
                x, y = 'p', 'q'
            else:
                d, (x, y) = l.data, N
            t = d if c['form'] == 'df' else d.to_dataframe().reset_index()
            need(len(t) > 0, 'magnitude: data lost')
            want = {(lat[i], lon[j]): (u[i, j], w[i, j]) for i, j in ([(i, j) for i in range(ny) for j in range(nx)] if c['form'] != 'df' else [p for p in [(i, j) for i in range(ny) for j in range(nx)] if p[0] * nx + p[1] not in c['drop']])}
            seen = 0
            for _, r in t.iterrows():
                k = (r['lat'], r['long'])
                if k in want:
                    seen += 1
                    need(same(float(r[x]), want[k][0]) and same(float(r[y]), want[k][1]), f'component changed at {k}')
                a, o = float(r[x]), float(r[y])
                m, dr = float(r['_magnitude']), float(r['_direction'])
                if math.isnan(a) or math.isnan(o):
                    need(math.isnan(m) and math.isnan(dr), f'magnitude of a missing vector at {k}: {m} {dr}')
                else:
                    need(abs(m - math.hypot(a, o)) < 1e-9 * (1 + m), f'magnitude at {k}: {m} want {math.hypot(a, o)}')
                    need(abs(dr - math.atan2(o, a)) < 1e-9, f'direction at {k}: {dr} want {math.atan2(o, a)}')
            need(seen == len(want), f'{seen} of {len(want)} points have a magnitude')
            return
        # the quantity at each position, by the textbook formulas
        field = {}
        if c['what'] == 'curl':
            A = [[(u[i, j], w[i, j]) for j in kept] for i in keep]
            Y, X = len(keep), len(kept)

            def diff(get, i, n):
                return get(1) - get(0) if i == 0 else get(n - 1) - get(n - 2) if i == n - 1 else (get(i + 1) - get(i - 1)) / 2
            if Y >= 2 and X >= 2:
                for i in range(Y):
                    for j in range(X):
                        field[i, j] = diff(lambda k: A[i][k][1], j, X) - diff(lambda k: A[k][j][0], i, Y)
        else:
            us = [u[p] for p in there if not math.isnan(u[p])]
            ws = [w[p] for p in there if not math.isnan(w[p])]
            mu, mw = (sum(us) / len(us) if us else NAN), (sum(ws) / len(ws) if ws else NAN)
            for p in there:
                field[p] = math.sqrt((u[p] - mu) ** 2 + (w[p] - mw) ** 2)
        vals = [v for v in field.values() if not math.isnan(v)]
        f = l.calc_curl if c['what'] == 'curl' else l.calc_dmag
        kw = dict(data=l.trim_datapoints(b)) if c['given'] else {}
        if c['mode'] == 'field':
            kw['collapse'] = False
        elif c['mode'] != 'default':
            kw['agg_type'] = c['mode']
        mode = c['mode'] if c['mode'] != 'default' else ('MAX' if c['what'] == 'curl' else 'MEAN')
        if mode == 'BOGUS' and vals:
            try:
                got = f(b, **kw)
            except ValueError:
                return
            raise Bad(f'{c["what"]}: unknown aggregate accepted: {got}')
        got = f(b, **kw)
        if not vals:
            need(np.ndim(got) == 0 and math.isnan(float(got)), f'{c["what"]} without a value: {got}')
            return
        if mode == 'field':
            g = np.sort(np.ravel(np.asarray(got, dtype=float)))
            h = np.sort(np.array(list(field.values())))
            need(g.shape == h.shape and np.allclose(g, h, rtol=1e-9, atol=1e-9, equal_nan=True), f'{c["what"]}: values {g} want {h}')
            if c['what'] == 'curl':
                a = np.asarray(got, dtype=float)
                h = np.array([[field[i, j] for j in range(len(kept))] for i in range(len(keep))])
                need(any(x.shape == h.shape and np.allclose(x, h, rtol=1e-9, atol=1e-9, equal_nan=True) for x in (a, a.T)), f'curl: {a} want {h}')
            return
        want = sum(vals) / len(vals) if mode == 'MEAN' else max(vals, key=abs)
        if mode == 'MAX' and abs(abs(float(got)) - abs(want)) < 1e-9 and any(abs(float(got) - v) < 1e-9 for v in vals):
            return
        need(abs(float(got) - want) < 1e-9 * (1 + abs(want)), f'{c["what"]} {mode}: {got} want {want}')


# ------------------------------------------------------------------ C29
@prop('C29')
class Prepare:
    rule = 'random grids and tables (missing values, factors 1-4, every statistic, several projections and coordinate names, with or without a data name); the data of the constructed loader against block statistics and pyproj point by point'

    @staticmethod
    def gen(rng):
        ny, nx = rng.randint(1, 6), rng.randint(1, 6)
        n = ny * nx
        pm = rng.choice([0, 0, .2, .5])
        mk = lambda: [None if rng.random() < pm else rng.choice([float(rng.randint(-3, 3)), dy(rng, -50, 50, 6)]) for _ in range(n)]
        return dict(ny=ny, nx=nx, u=mk(), w=mk(), vec=rng.random() < .5, form=rng.choice(['df', 'll', 'll', 'gl']), fac=rng.choice([None, [1, 1], [rng.randint(1, 4), rng.randint(1, 4)], [rng.randint(1, 4), rng.randint(1, 4)]]),
                    astuple=rng.random() < .3, agg=rng.choice(['MIN', 'MAX', 'MEAN', 'MEDIAN', 'STD', 'COUNT', None]), over=rng.choice([None, None, 'MIN', 'STD', 'MEDIAN']), proj=rng.choice([None, None, 'EPSG:3031', 'EPSG:3857']),
                    xy=rng.choice([['px', 'py'], ['y', 'x'], ['long', 'lat'], ['lat', 'long'], None]), name=rng.choice([None, 'keep', 'new', 'swap']), region=rng.choice(['all', 'all', 'some', 'none']), step=rng.choice([1.0, .25]),
                    extra=rng.random() < .1, lag=rng.choice([0, 0, 1]), time=rng.random() < .2, cols=rng.choice([['a', 'b'], ['b', 'a'], ['zonal', 'meridional'], ['U', 'a']]))

    @staticmethod
    def check(c):
        import pandas as pd, xarray as xr, random
        from pyproj import Transformer
        ny, nx, vec = c['ny'], c['nx'], c['vec']
        arr = lambda l: np.array([NAN if v is None else v for v in l], dtype=float).reshape(ny, nx)
        cols = c['cols'][:2 if vec else 1]
        vals = {k: arr(c[n]) for k, n in zip(cols, 'uw')}
        X, Y = (c['xy'] or ['lat', 'long']) if c['proj'] else ('long', 'lat')
        if c['proj']:
            base = -2.0e6 if c['proj'] == 'EPSG:3031' else -6.0e6
            xs = [base + 3.0e5 * j for j in range(nx)]
            ys = [base + 2.0e5 * i + 1.1e5 for i in range(ny)]
        else:
            xs, ys = [10.0 + c['step'] * j for j in range(nx)], [1.0 + c['step'] * i for i in range(ny)]
        whole = boundary({'all': (-90, 90, -180, 180), 'some': (0.5, 3.2, 9, 12.6), 'none': (40, 50, 100, 110)}[c['region']] if not c['proj'] else (-90, 90, -180, 180))
        fac = c['fac']
        par = {}
        if fac:
            par['downsample_factors'] = tuple(fac) if c['astuple'] else list(fac)
        if c['agg']:
            par['aggregate_type'] = c['agg']
        new = {None: cols, 'keep': cols, 'new': ['p', 'q'][:len(cols)], 'swap': cols[::-1]}[c['name']]
        if c['name']:
            par['data_name'] = ','.join(new)
        if c['proj']:
            par['in_proj'] = c['proj']
            if c['xy']:
                par['x_col'], par['y_col'] = X, Y
        if c['form'] == 'df':
            rows = [(xs[j], ys[i]) + tuple(v[i, j] for v in vals.values()) for i in range(ny) for j in range(nx)]
            random.Random(ny * 7 + nx).shuffle(rows)
            src = pd.DataFrame(rows, columns=[X, Y] + cols)
            fac = None
        else:
            lat_name, lon_name = (Y, X)
            if c['proj'] and fac and fac != [1, 1] and {X, Y} != {'lat', 'long'}:
                fac = None      # blocks are along coordinates called lat and long
                par.pop('downsample_factors')
            order = (lat_name, lon_name) if c['form'] == 'll' else (lon_name, lat_name)
            src = xr.Dataset({k: (order, v if c['form'] == 'll' else v.T) for k, v in vals.items()}, coords={lat_name: ys, lon_name: xs})
        mk = vector_loader if vec else scalar_loader
        if c['extra'] and not vec and not c['name']:
            if c['form'] == 'df':
                src['another'] = 1.0
            else:
                src['another'] = src[cols[0]] * 0
            try:
                l = mk(whole, **({'df': src} if c['form'] == 'df' else {'xrd': src}), **par)
            except ValueError:
                return
            raise Bad('a scalar source with two data columns accepted without a name')
        before = src.copy(deep=True)
        l = mk(whole, **({'df': src.copy(deep=True)} if c['form'] == 'df' else {'xrd': src if not vec else src.copy(deep=True)}), **par)
        if c['form'] != 'df' and not vec:
            need(before.identical(src), 'the source was changed')
        # ---- expected points: (x, y) -> values
        bx, by = (1, 1)
        if fac and c['form'] != 'df' and fac != [1, 1]:
            # factors are (longitude, latitude); the grid may call them the other way round
            fl, ft = fac
            bx, by = (fl, ft) if X == 'long' else (ft, fl)
        agg = c['agg'] or 'MEAN'
        stat = dict(MIN=np.nanmin, MAX=np.nanmax, MEAN=np.nanmean, MEDIAN=np.nanmedian, STD=np.nanstd)
        exp = {}
        for i in range(0, ny, by):
            for j in range(0, nx, bx):
                out = []
                for v in vals.values():
                    blk = v[i:i + by, j:j + bx]
                    if (bx, by) == (1, 1):
                        out.append(float(blk[0, 0]))
                    elif agg == 'COUNT':
                        out.append(float(blk[0, 0]))
                    else:
                        out.append(NAN if np.isnan(blk).all() else float(stat[agg](blk)))
                cx, cy = (xs[j], ys[i]) if agg == 'COUNT' else (float(np.mean(xs[j:j + bx])), float(np.mean(ys[i:i + by])))
                if c['proj']:
                    lo, la = Transformer.from_crs(c['proj'], 'EPSG:4326', always_xy=True).transform(cx, cy)
                else:
                    lo, la = (cx, cy)
                exp[round(float(la), 7), round(float(lo), 7)] = out
        if c['proj'] and c['form'] != 'df':
            exp = {k: v for k, v in exp.items() if not any(math.isnan(x) for x in v)}
        r = rect_of(whole)
        inn = {k: v for k, v in exp.items() if r[0] < k[0] <= r[1] and r[2] < k[1] <= r[3]}
        t = l.data if isinstance(l.data, pd.DataFrame) else l.data.to_dataframe().reset_index()
        need({'lat', 'long'} <= set(t.columns), f'columns {list(t.columns)}')
        need(set(t.columns) - {'_magnitude', '_direction', 'index', 'spatial_ref'} == {'lat', 'long'} | set(new), f'columns {list(t.columns)} want lat, long, {new}')
        need(l.data_name == ','.join(new), f'data_name {l.data_name!r} want {new}')
        if vec:
            need(list(l.data_name_list) == list(new), f'data_name_list {l.data_name_list}')
        got = {}
        for _, q in t.iterrows():
            k = (round(float(q['lat']), 7), round(float(q['long']), 7))
            need(k not in got, f'two points at {k}')
            got[k] = [float(q[x]) for x in new]
        for k, v in inn.items():
            need(k in got, f'point {k} is missing (of {len(inn)}; got {sorted(got)[:4]})')
            need(all((math.isnan(x) and math.isnan(y)) or abs(x - y) <= 1e-9 * (1 + abs(y)) for x, y in zip(got[k], v)), f'values at {k}: {got[k]} want {v} ({agg} of blocks {by}x{bx})')
        for k, v in got.items():
            need(k in exp, f'unexpected point {k}')
        # a different statistic on request
        if c['over'] and c['form'] != 'df' and not c['proj'] and c['region'] == 'all':
            d = dict(par, downsample_factors=[1, 1])
            d.pop('data_name', None)
            m = mk(whole, xrd=src.copy(deep=True), **d)
            m.data = src.copy(deep=True)
            m.downsample_factors = [2, 3]
            o = m.downsample(agg_type=c['over'])
            for x, v in vals.items():
                g = o[x].transpose('lat', 'long').values
                for i in range(0, ny, 3):
                    for j in range(0, nx, 2):
                        blk = v[i:i + 3, j:j + 2]
                        w = NAN if np.isnan(blk).all() else float(stat[c['over']](blk))
                        y = float(g[i // 3, j // 2])
                        need((math.isnan(w) and math.isnan(y)) or abs(w - y) <= 1e-9 * (1 + abs(w)), f'downsample({c["over"]}) block {i},{j}: {y} want {w}')


@prop('C26')
class Factory:
    rule = 'every loader name (case varied), random parameters with values that may be false, the constructors replaced by recorders; folders of files with and without extensions'

    KNOWN = dict(scalar_csv='ScalarCSVDataLoader', scalar_grf='ScalarGRFDataLoader', binary_grf='ScalarGRFDataLoader', amsr='AMSRDataLoader', bsose_sic='BSOSESeaIceDataLoader',
                 bsose_depth='BSOSEDepthDataLoader', baltic_sic='BalticSeaIceDataLoader', gebco='GEBCODataLoader', icenet='IceNetDataLoader', modis='MODISDataLoader', thickness='ThicknessDataLoader',
                 density='DensityDataLoader', circle='ShapeDataLoader', rectangle='ShapeDataLoader', gradient='ShapeDataLoader', checkerboard='ShapeDataLoader', vector_csv='VectorCSVDataLoader',
                 vector_grf='VectorGRFDataLoader', baltic_currents='BalticCurrentDataLoader', era5_wind='ERA5WindDataLoader', northsea_currents='NorthSeaCurrentDataLoader',
                 oras5_currents='ORAS5CurrentDataLoader', sose='SOSEDataLoader', duacs_currents='DuacsCurrentDataLoader', era5_wave_direction='ERA5WaveDirectionLoader', lut_csv='LutCSV',
                 lut_geojson='LutGeoJSON', lut_shapefile='LutShapefile', scotland_ncmpa='ScotlandNCMPA', visual_iced='VisualIcedDataLoader', era5_sig_wave_height='ERA5SigWaveHeightDataLoader',
                 era5_max_wave_height='ERA5MaxWaveHeightDataLoader', era5_wave_dir='ERA5MeanWaveDirDataLoader', era5_wave_period='ERA5WavePeriodDataLoader', era5_wind_mag='ERA5WindMagDataLoader',
                 era5_wind_dir='ERA5WindDirDataLoader', ecmwf_sig_wave_height='ECMWFSigWaveHeightDataLoader', vector_circle='VectorShapeDataLoader', vector_gradient='VectorShapeDataLoader',
                 vector_rectangle='VectorShapeDataLoader')
    NOFILES = ('scalar_grf', 'binary_grf', 'thickness', 'density', 'circle', 'gradient', 'checkerboard', 'rectangle', 'vector_grf', 'vector_circle', 'vector_gradient', 'vector_rectangle')

    @staticmethod
    def gen(rng):
        n = rng.choice(list(Factory.KNOWN) + ['no_such_loader', 'scalar'])
        given = {k: v for k, v in (('binary', rng.choice([False, True])), ('value', rng.choice([0, '', 'v'])), ('hemisphere', rng.choice(['north', 'south']))) if rng.random() < .7}
        given.update(rng.choice([{'files': ['a.nc']}, {'file': 'a'}, {'folder': rng.choice(['/', ''])}, {}]))
        if rng.random() < .3:
            given['data_name'] = 'x'
        return dict(name=rng.choice([n, n.upper(), n.title()]), given=given, min_dp=rng.choice([0, 5, 17]), files=rng.sample(['b.csv', 'B', 'a', 'part10.nc', 'part9.nc', 'x.tar.gz', 'sp ace.csv'], rng.randint(1, 7)))

    @staticmethod
    def check(c):
        import tempfile
        from meshiphi.dataloaders.factory import DataLoaderFactory
        from meshiphi.dataloaders.scalar.abstract_scalar import ScalarDataLoader
        from meshiphi.dataloaders.vector.abstract_vector import VectorDataLoader
        from meshiphi.dataloaders.lut.abstract_lut import LutDataLoader
        bases, saved, got = (ScalarDataLoader, VectorDataLoader, LutDataLoader), [], []

        def rec(self, bounds, params):
            got.append((self, bounds, dict(params)))
        b = boundary((0, 10, 0, 10))
        name = c['name'].lower()
        with tempfile.TemporaryDirectory() as d:
            given, want = dict(c['given']), None
            if 'folder' in given:
                for f in c['files']:
                    open(os.path.join(d, f), 'w').close()
                given['folder'] = d + given['folder']
                want = sorted(os.path.join(d, f) for f in c['files'])
            elif 'file' in given:
                want = [given['file']]
            elif 'files' in given:
                want = list(given['files'])
            for k in bases:
                saved.append(k.__init__)
                k.__init__ = rec
            try:
                try:
                    out = DataLoaderFactory.get_dataloader(c['name'], b, dict(given), c['min_dp'])
                except (ValueError, AssertionError, KeyError) as e:
                    out = e
            finally:
                for k, f in zip(bases, saved):
                    k.__init__ = f
        if name not in Factory.KNOWN:
            need(isinstance(out, ValueError), f'unknown loader {c["name"]}: {out!r}')
            return
        missing = name not in Factory.NOFILES and want is None
        missing |= name == 'amsr' and 'hemisphere' not in given or name in ('scalar_grf', 'binary_grf') and 'binary' not in given or name in ('lut_geojson', 'lut_shapefile') and 'value' not in given
        if missing:
            need(isinstance(out, Exception), f'{name} accepted without its parameters: {given}')
            return
        need(not isinstance(out, Exception), f'{name} refused: {out!r} with {given}')
        need(type(out).__name__ == Factory.KNOWN[name], f'{name} gives a {type(out).__name__}')
        need(len(got) == 1 and got[0][0] is out and got[0][1] is b, f'{name}: not made over the region')
        p = got[0][2]
        for k, v in given.items():
            if k not in ('file', 'folder'):
                need(k in p and p[k] == v, f'{name}: parameter {k} is {p.get(k)!r} want {v!r}')
        if want is not None:
            need(sorted(p.get('files', [])) == sorted(want), f'{name}: files {p.get("files")} want {want}')
        need(p.get('min_dp') == c['min_dp'], f'{name}: min_dp {p.get("min_dp")}')
