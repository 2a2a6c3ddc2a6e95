"""Run-time contracts C11-C22."""
from common import *
import copy, datetime as _dt

REG = {}


def prop(pid):
    def deco(cls):
        REG.setdefault(pid, []).append(cls)
        return cls
    return deco


# ------------------------------------------------------------------ C11
def in_bounds(r, la, lo):
    if not (r[0] < la <= r[1]):
        return False
    if r[2] < r[3]:
        return r[2] < lo <= r[3]
    return lo > r[2] or lo <= r[3]


def lat_pool(rng, r):
    h = r[1] - r[0]
    return sorted({r[0], r[1], r[0] + h / 2, r[0] + h / 4, r[1] - h / 8, r[0] - 1, r[1] + 1, dy(rng, -89, 89)})


def lon_pool(rng, r):
    w = width(r)
    xs = {r[2], r[3], wrap(r[2] + w / 2), wrap(r[2] + w / 4), wrap(r[3] - w / 8), wrap(r[2] - 1), wrap(r[3] + 1), dy(rng, -179, 179)}
    if rng.random() < .4:
        xs |= {180.0, -180.0}
    return sorted(float(x) for x in xs)


DAYS = ['2020-01-01', '2020-03-05', '2020-06-15', '2020-08-20', '2020-12-31']


@prop('C11')
class Trim:
    rule = 'random boundaries (incl. antimeridian-crossing), points on and around every edge, optional time axis; tabular/gridded, scalar/vector; plus distribution over the four children of a cell'

    @staticmethod
    def gen(rng):
        r = rand_rect(rng, 120)
        if r[3] == -180:
            r = r[:3] + (180.0,)          # an eastern edge on the antimeridian is spelled 180
        some = lambda l: l if rng.random() < .7 else sorted(rng.sample(l, rng.randint(1, 3)))
        return dict(rect=r, lats=some(lat_pool(rng, r)), lons=some(lon_pool(rng, r)), kind=rng.choice(['sdf', 'sxr', 'vdf', 'vxr']), time=rng.random() < .35,
                    t=sorted(rng.sample(DAYS, 2)) if rng.random() < .7 else [DAYS[2], DAYS[2]], split=rng.random() < .5, pre=rng.random() < .3,
                    warm=rand_rect(rng, 120) if rng.random() < .4 else None)

    @staticmethod
    def check(c):
        import pandas as pd, xarray as xr
        r = tuple(c['rect'])
        b = boundary(r, c['t'])
        pts = [(la, lo) for la in c['lats'] for lo in c['lons']]
        vec = c['kind'][0] == 'v'
        times = DAYS if c['time'] else [None]
        rec = [(la, lo, t) for t in times for la, lo in pts]
        val = {p: float(i) + .25 for i, p in enumerate(rec)}
        whole = boundary((-90, 90, -180, 180), ['2019-01-01', '2021-01-01'])
        if c['kind'].endswith('df'):
            d = dict(lat=[p[0] for p in rec], long=[p[1] for p in rec])
            if c['time']:
                d['time'] = [p[2] for p in rec]
            if vec:
                d['u'] = [val[p] for p in rec]; d['w'] = [-val[p] for p in rec]
            else:
                d['v'] = [val[p] for p in rec]
            df = pd.DataFrame(d)
            mk = (lambda: vector_loader(whole, df=df, data_name='u,w')) if vec else (lambda: scalar_loader(whole, df=df, data_name='v'))
        else:
            shape = ([len(times)] if c['time'] else []) + [len(c['lats']), len(c['lons'])]
            dims = (['time'] if c['time'] else []) + ['lat', 'long']
            arr = np.array([val[p] for p in rec]).reshape(shape)
            coords = dict(lat=c['lats'], long=c['lons'])
            if c['time']:
                coords['time'] = pd.to_datetime(times)
            ds = xr.Dataset({'u': (dims, arr), 'w': (dims, -arr)} if vec else {'v': (dims, arr)}, coords=coords)
            mk = (lambda: vector_loader(whole, xrd=ds, data_name='u,w')) if vec else (lambda: scalar_loader(whole, xrd=ds, data_name='v'))
        l = mk()
        name = 'u' if vec else 'v'

        def contents(d):
            if c['kind'].endswith('df'):
                return sorted((float(a), float(o), t, float(v)) for a, o, t, v in
                              zip(d['lat'], d['long'], d['time'] if c['time'] else [None] * len(d), d[name]))
            f = d[name].to_dataframe().reset_index() if d[name].size else None
            if f is None:
                return []
            f = f[~f[name].isna()]
            ts = [pd.Timestamp(x).strftime('%Y-%m-%d') for x in f['time']] if c['time'] else [None] * len(f)
            return sorted((float(a), float(o), t, float(v)) for a, o, t, v in zip(f['lat'], f['long'], ts, f[name]))

        def want(rr, pool):
            return sorted((la, lo, t, val[(la, lo, t)]) for la, lo, t in pool if in_bounds(rr, la, lo) and (t is None or c['t'][0] <= t <= c['t'][1]))
        if c.get('warm'):
            other = boundary(tuple(c['warm']), ['2020-02-01', '2020-07-01'])
            poke([lambda: l.trim_datapoints(boundary(r, [DAYS[1], DAYS[1]])), lambda: l.trim_datapoints(other), lambda: l.trim_datapoints(boundary(tuple(c['warm']), c['t'])),
                  lambda: l.trim_datapoints(b, data=l.trim_datapoints(other))])
        own = {x[:3] for x in contents(l.data)}        # what the loader holds; nothing else is C11's business (C29)
        got = contents(l.trim_datapoints(b))
        w = want(r, [p for p in rec if p in own])
        need(got == w, f'{c["kind"]} {r}: extra {[x for x in got if x not in w][:3]} missing {[x for x in w if x not in got][:3]}')
        l.data = df if c['kind'].endswith('df') else ds
        if vec:
            l.data = l.add_mag_dir()
        src = l.data
        got = contents(l.trim_datapoints(b, data=src))
        w = want(r, rec)
        need(got == w, f'{c["kind"]} {r} (data passed in): extra {[x for x in got if x not in w][:3]} missing {[x for x in w if x not in got][:3]}')
        if c['split']:
            from meshiphi.mesh_generation.metadata import Metadata
            from meshiphi.mesh_generation.cellbox import CellBox
            cell = CellBox(b, '0')
            cell.set_data_source([Metadata(l, [], 'parent', l.trim_datapoints(b, data=src))])
            kids = cell.split(1)
            allp = []
            for k in kids:
                cc = contents(k.get_data_source()[0].get_data_subset())
                need(all(in_bounds(rect_of(k.get_bounds()), p[0], p[1]) for p in cc), f'child {rect_of(k.get_bounds())} holds foreign points')
                allp += cc
            need(sorted(allp) == w, f'{c["kind"]} {r}: points of the cell vs of its children: lost {[x for x in w if x not in allp][:3]} gained {[x for x in allp if x not in w][:3]}, {len(allp)} vs {len(w)}')


# ------------------------------------------------------------------ C12
@prop('C12')
class Fill:
    rule = 'random ancestor chains (0-4), 1-3 scalar/vector sources in shuffled order per ancestor, random missing patterns, parent/constant fill, duplicate scalar names'

    @staticmethod
    def gen(rng):
        n = rng.randint(1, 4)
        chain = rng.randint(0, 4)
        srcs = []
        for k in range(n):
            vec = rng.random() < .4
            nm = f'u{k},w{k}' if vec else ('dup' if rng.random() < .5 else f's{k}')
            comps = nm.split(',')
            pm = rng.choice([.2, .5, .9])
            srcs.append(dict(name=nm, fill=rng.choice(['parent', 'parent', 0, 1.5, -3, 'NANF']),
                             vals=[[None if rng.random() < pm else float(rng.randint(-9, 9)) for _ in comps] for _ in range(chain + 1)]))
        return dict(rect=rand_rect(rng, 100), srcs=srcs, path=[rng.randrange(4) for _ in range(chain)], shuffle=rng.random() < .5, seed=rng.randint(0, 999), id=str(rng.randint(0, 99)))

    @staticmethod
    def check(c):
        from meshiphi.mesh_generation.metadata import Metadata
        from meshiphi.mesh_generation.cellbox import CellBox
        rects = [tuple(c['rect'])]           # rects[0] = oldest
        for q in c['path']:
            rects.append(canon(list(quarter(rects[-1]).values())[q], 1))
        rects = rects[::-1]                  # 0 = the cell itself, then parent, ...
        loaders = []
        for k, s in enumerate(c['srcs']):
            comps = s['name'].split(',')
            vals = {json.dumps([list(rect_of(boundary(rects[lv]))), ['sub', lv, k], k]): {n: (NAN if v is None else v) for n, v in zip(comps, s['vals'][lv])} for lv in range(len(rects))}
            loaders.append(FakeLoader(s['name'], vals=vals, tag=k))
        prev = None
        rr = random.Random(c['seed'])
        for lv in range(len(rects) - 1, -1, -1):
            cell = CellBox(boundary(rects[lv]), c['id'] if lv == 0 else f'anc{lv}')
            order = list(range(len(loaders)))
            if c['shuffle'] and lv > 0:
                rr.shuffle(order)
            fills = {'NANF': NAN}
            cell.set_data_source([Metadata(loaders[k], [], fills.get(c['srcs'][k]['fill'], c['srcs'][k]['fill']), ['sub', lv, k]) for k in order])
            if prev is not None:
                cell.set_parent(prev)
            prev = cell
        want = {}
        for k, s in enumerate(c['srcs']):
            comps = s['name'].split(',')
            contrib = {}
            for i, n in enumerate(comps):
                col = [v[i] for v in s['vals']]
                if s['fill'] == 'parent':
                    nn = [v for v in col if v is not None]
                    contrib[n] = nn[0] if nn else NAN
                else:
                    contrib[n] = col[0] if col[0] is not None else (NAN if s['fill'] == 'NANF' else s['fill'])
            for n, v in contrib.items():
                if n not in want or math.isnan(float(want[n])):
                    want[n] = v
        twin = CellBox(boundary(rects[0]), 'twin')       # another cell with the same sources and ancestors
        twin.set_data_source(list(prev.get_data_source()))
        twin.set_parent(prev.get_parent())
        outs = [prev.aggregate(), twin.aggregate()]
        for out in outs[::-1]:
            got = out.get_agg_data()
            need(set(got) == set(want), f'entries {sorted(got)} want {sorted(want)}')
            for n in want:
                need(eqv(float(want[n]), float(got[n])), f'{n}: got {got[n]} want {want[n]}' + (' for a cell aggregated after another one' if out is outs[1] else ''))
        need(rect_of(out.get_bounds()) == tuple(rect_of(boundary(rects[0]))) and out.get_id() == c['id'], 'bounds or id of the aggregated cell')


# ------------------------------------------------------------------ C13
def stat(vals, agg, sample):
    nn = [v for v in vals if not math.isnan(v)]
    if not nn:
        return NAN
    if agg == 'MIN': return min(nn)
    if agg == 'MAX': return max(nn)
    if agg == 'MEAN': return sum(nn) / len(nn)
    if agg == 'MEDIAN': return float(np.median(nn))
    if agg == 'STD':
        if sample and len(nn) == 1:
            return NAN
        return float(np.std(nn, ddof=1 if sample else 0))


@prop('C13')
class Agg:
    rule = 'random samples (0-12 points in the cell plus points outside, missing values), every statistic, tabular/gridded, scalar/vector, configured or overridden, unknown names'

    @staticmethod
    def gen(rng):
        kind = rng.choice(['sdf', 'sxr', 'vdf', 'vxr'])
        ny, nx = rng.choice([(1, 1), (1, 3), (2, 2), (3, 4), (2, 5)])
        n = ny * nx
        pm = rng.choice([0, 0, .3, 1]) if kind[0] == 's' else rng.choice([0, 0, .3])
        mk = lambda: [None if rng.random() < pm else dy(rng, -5, 5, 4) for _ in range(n)]
        aggs = ['MIN', 'MAX', 'MEAN', 'STD', 'COUNT'] + (['MEDIAN'] if kind[0] == 's' else [])
        return dict(kind=kind, ny=ny, nx=nx, u=mk(), w=mk(), agg=rng.choice(aggs + ['BOGUS']), cfg=rng.choice(aggs), override=rng.random() < .5, empty=rng.random() < .12, withdata=rng.random() < .7,
                    warm=[rng.choice(aggs) for _ in range(rng.choice([0, 0, 1, 2]))], time=rng.random() < .3)

    @staticmethod
    def check(c):
        import pandas as pd, xarray as xr
        ny, nx = c['ny'], c['nx']
        vec = c['kind'][0] == 'v'
        u = np.array([NAN if v is None else v for v in c['u']])
        w = np.array([NAN if v is None else v for v in c['w']])
        if vec:
            w = np.where(np.isnan(u), NAN, w); u = np.where(np.isnan(w), NAN, u)   # a point is missing as a whole
        lat = [1.0 + i for i in range(ny)]
        lon = [10.0 + i for i in range(nx)]
        tm = c.get('time') and c['kind'] != 'vxr'
        win = lambda d: ['2020-%s-01' % d, '2020-%s-20' % d]
        whole = boundary((0.5, 20, 5, 60), ['2020-01-01', '2020-12-31'] if tm else None) if tm else boundary((0.5, 20, 5, 60))
        at = lambda rr, d='06': boundary(rr, win(d)) if tm else boundary(rr)
        b = at((0.5, 15, 5, 45)) if not c['empty'] else at((15.5, 16, 5, 6))
        inside = [] if c['empty'] else list(range(ny * nx))
        agg = c['agg'] if c['override'] or c['agg'] == 'BOGUS' else c['cfg']
        par = dict(aggregate_type=c['cfg'] if c['override'] else agg)
        if c['kind'].endswith('df'):
            d = dict(lat=[la for la in lat for _ in lon] + [19.5, 19.5], long=[lo for _ in lat for lo in lon] + [50., 51.])
            if vec:
                d['u'] = list(u) + [100., -100.]; d['w'] = list(w) + [100., .01]
            else:
                d['v'] = list(u) + [100., -100.]
            df = pd.DataFrame(d)
            if tm:
                late = df.copy()
                df['time'] = '2020-06-10'
                late['time'] = '2020-09-10'
                for k in ('u', 'w', 'v'):
                    if k in late:
                        late[k] = 33.0
                df = pd.concat([df, late], ignore_index=True)
            l = (vector_loader if vec else scalar_loader)(whole, df=df, data_name='u,w' if vec else 'v', **par)
        else:
            def grow(a):
                g = np.full((ny + 1, nx + 1), 77.0); g[:ny, :nx] = a.reshape(ny, nx); return g
            dv = {'u': (('lat', 'long'), grow(u)), 'w': (('lat', 'long'), grow(w))} if vec else {'v': (('lat', 'long'), grow(u))}
            ds = xr.Dataset(dv, coords=dict(lat=lat + [19.5], long=lon + [50.0]))
            if tm:
                ds = xr.concat([ds, ds * 0 + 33.0], pd.Index(pd.to_datetime(['2020-06-10', '2020-09-10']), name='time'))
            l = (vector_loader if vec else scalar_loader)(whole, xrd=ds, data_name='u,w' if vec else 'v', **par)
        for x in c.get('warm', []):
            poke([lambda: l.get_value(at((0.5, 15, 5, 45), '09'), agg_type=x), lambda: l.get_value(b, agg_type=x), lambda: l.get_value(at((0.5, 20, 5, 60)), agg_type=x), lambda: l.get_value(at((0.5, 2.5, 5, 45))),
                  lambda: l.get_value(b, agg_type=x, skipna=False), lambda: l.get_value(b, data=l.trim_datapoints(at((0.5, 1.5, 5, 45))))])
        kw = dict(agg_type=c['agg']) if c['override'] else {}
        data = l.trim_datapoints(b) if c['withdata'] else None
        uu = [float(u[i]) for i in inside]
        ww = [float(w[i]) for i in inside]
        nonmiss = [i for i in range(len(uu)) if not math.isnan(uu[i])]
        if agg == 'BOGUS':
            if not nonmiss:
                return   # value is missing before the statistic is looked at
            try:
                got = l.get_value(b, data=data, **kw)
            except ValueError:
                return
            raise Bad(f'unknown statistic accepted: {got}')
        if vec and agg in ('MIN', 'MAX') and not nonmiss:
            return   # pandas raises on an all-missing column
        got = l.get_value(b, data=data, **kw)
        xrk = c['kind'].endswith('xr')
        if not vec:
            if agg == 'COUNT':
                want = {'v': len(uu) if xrk else len(nonmiss)}
            else:
                want = {'v': stat(uu, agg, not xrk)}
        else:
            if not uu:
                want = dict(u=NAN, w=NAN)
            elif agg == 'COUNT':
                want = dict(u=len(uu), w=len(uu)) if not (xrk and not nonmiss) else dict(u=NAN, w=NAN)
            elif agg in ('MIN', 'MAX'):
                mags = {i: math.hypot(uu[i], ww[i]) for i in nonmiss}
                best = (min if agg == 'MIN' else max)(mags.values())
                need(set(got) == {'u', 'w'}, f'entries {got}')
                need(any(mags[i] == best and got['u'] == uu[i] and got['w'] == ww[i] for i in nonmiss) or
                     any(abs(mags[i] - best) < 1e-12 and got['u'] == uu[i] and got['w'] == ww[i] for i in nonmiss),
                     f'{c["kind"]} {agg}: got {got}, extreme magnitude {best}')
                return
            else:
                want = dict(u=stat(uu, agg, not xrk), w=stat(ww, agg, not xrk))
        need(set(got) == set(want), f'entries {sorted(got)}')
        for k in want:
            need(eqv(float(got[k]), float(want[k]), 1e-9), f'{c["kind"]} {agg} {k}: got {got[k]} want {want[k]}')


# ------------------------------------------------------------------ C14
def true_centre(r):
    return r[2] + width(r) / 2, r[0] + (r[1] - r[0]) / 2


@prop('C14')
class CellJson:
    rule = 'random boundaries and data dictionaries; export, JSON text round trip, reload; boundary text round trip'

    @staticmethod
    def gen(rng):
        r = rand_rect(rng, 170)
        if rng.random() < .3:
            r = tuple(round(x + rng.random(), 6) if abs(x) < 150 else x for x in r)
            if r[1] <= r[0]:
                r = rand_rect(rng)
        data = {k: v for k, v in [('SIC', rng.random()), ('elev', -12.5), ('vec', [1.0, 2.0]), ('flag', True), ('name', 'x'), ('n', 3),
                                   (rng.choice(['c', 'x', 'y', 'd', 'dc', 'i', 'e', 'geo', 'metry', '']), 1.5), (rng.choice(['cx2', 'my_id', 'geometry2', 'ID', 'Cx', 'data', 'uC,vC', ' id', 'dcx_', 'boundary']), 2.5)] if rng.random() < .5}
        if rng.random() < .3: data['id'] = str(rng.randint(0, 9999))      # data of split cells carry an id entry
        return dict(rect=r, data=data, id=str(rng.randint(0, 9999)))

    @staticmethod
    def check(c):
        from meshiphi.mesh_generation.aggregated_cellbox import AggregatedCellBox
        from meshiphi.mesh_generation.boundary import Boundary
        r = tuple(c['rect'])
        b = boundary(r)
        cell = AggregatedCellBox(b, dict(c['data']), c['id'])
        data = {k: v for k, v in c['data'].items() if k != 'id'}
        js = json.loads(json.dumps(cell.to_json()))
        cx, cy = true_centre(r)
        tol = 1e-9
        need(abs(js['cy'] - cy) < tol and abs((js['cx'] - cx + 180) % 360 - 180) < tol and -180 <= js['cx'] <= 180, f'centre {js["cx"]},{js["cy"]} want {cx},{cy}')
        need(abs(js['dcx'] - width(r) / 2) < tol and abs(js['dcy'] - (r[1] - r[0]) / 2) < tol, f'half sizes {js["dcx"]},{js["dcy"]}')
        need(js['id'] == c['id'], 'id')
        need({k: js[k] for k in js if k not in ('geometry', 'cx', 'cy', 'dcx', 'dcy', 'id')} == data, f'data entries {js}')
        need(cell.get_agg_data() == c['data'] and rect_of(cell.get_bounds()) == r, 'export modified the cell')
        back = AggregatedCellBox.from_json(js)
        need(back.get_id() == c['id'], f'reloaded id {back.get_id()!r}')
        need({k: v for k, v in back.get_agg_data().items() if k != 'id'} == data, f'reloaded data {back.get_agg_data()}')
        got = rect_of(back.get_bounds())
        need(near_rect(got, r), f'reloaded rectangle {got} want {r}')
        got = rect_of(Boundary.from_poly_string(b.to_poly_string()))
        need(near_rect(got, r), f'text form {b.to_poly_string()} parsed as {got}')
        need(near_rect(rect_of(Boundary.from_poly_string(js['geometry'])), r), 'geometry text parsed differently')


@prop('C14')
class MeshJson:
    share = .5
    rule = 'random finished meshes exported, dumped as text and reloaded, twice'

    @staticmethod
    def gen(rng):
        g = grid(rng)
        cells = quad_mesh(rng, g, rng.randint(0, 4))
        return dict(g=g, cells=cells, ids=shuffled_ids(rng, len(cells)), data=[{k: float(rng.randint(0, 9)) for k in 'ab' if rng.random() < .8} for _ in cells])

    @staticmethod
    def check(c):
        from meshiphi.mesh_generation.environment_mesh import EnvironmentMesh
        m = env_mesh(c['g'], [tuple(x) for x in c['cells']], c['ids'], {i: d for i, d in enumerate(c['data'])})
        g0 = norm_graph(m.neighbour_graph.get_graph())
        for _ in range(2):
            js = json.loads(json.dumps(m.to_json()))
            m2 = EnvironmentMesh.load_from_json(js)
            need([x.get_id() for x in m2.agg_cellboxes] == c['ids'], 'ids or order of cells')
            for i, x in enumerate(m2.agg_cellboxes):
                need(same_rect(rect_of(x.get_bounds()), tuple(c['cells'][i])), f'cell {i}: {rect_of(x.get_bounds())} want {c["cells"][i]}')
                need(x.get_agg_data() == c['data'][i], f'cell {i} data {x.get_agg_data()}')
            need(norm_graph(m2.neighbour_graph.get_graph()) == g0 and list(m2.neighbour_graph.get_graph()) == list(m.neighbour_graph.get_graph()), 'neighbour graph')
            need(m2.neighbour_graph.get_graph() == {str(k): {str(d): v for d, v in mm.items()} for k, mm in m.neighbour_graph.get_graph().items()}, 'neighbour lists')
            need(rect_of(m2.bounds) == rect_of(m.bounds) and list(m2.bounds.get_time_range()) == list(m.bounds.get_time_range()), 'region')
            need(m2.config == m.config, 'configuration')
            m = m2


# ------------------------------------------------------------------ C15
@prop('C15')
class Merge:
    rule = 'random mesh pairs: second aligned with the first (inside, partly outside, or just next to it), both refined at random, ids shuffled; plus misaligned ones that must be refused'

    @staticmethod
    def gen(rng):
        cw, ch = rng.choice([1, 2, 4.0, 2.5]), rng.choice([1, 2, 4.0])
        rows, cols = rng.randint(1, 4), rng.randint(1, 4)
        la, lo = float(rng.randint(-40, 20)), float(rng.randint(-90, 60))
        g1 = dict(kind='plain', lat_min=la, lat_max=la + rows * ch, long_min=lo, long_max=lo + cols * cw, cw=cw, ch=ch, rows=rows, cols=cols)
        r0, c0 = rng.randint(-1, rows), rng.randint(-1, cols)
        h, w = rng.randint(1, 3), rng.randint(1, 3)
        la2, lo2 = la + r0 * ch, lo + c0 * cw
        f = rng.choice([1, 1, 2, .5])
        if f == 2 and (h % 2 or w % 2):
            f = 1
        off = rng.choice([0, 0, 0, 0, 0, 0, 1, 2, 3, 4])
        ww, hh = w * cw, h * ch
        if off == 1: la2 += ch / 2
        if off == 2: lo2 += cw / 2
        if off == 3: hh += ch / 2
        if off == 4: ww += cw / 2
        cw2, ch2 = cw * f, ch * f
        if off in (3, 4):
            cw2, ch2 = cw / 2, ch / 2
        g2 = dict(kind='plain', lat_min=la2, lat_max=la2 + hh, long_min=lo2, long_max=lo2 + ww, cw=cw2, ch=ch2, rows=int(hh / ch2), cols=int(ww / cw2))
        c1 = quad_mesh(rng, g1, rng.randint(0, 6), 1)
        c2 = quad_mesh(rng, g2, rng.randint(0, 5), 1)
        return dict(g1=g1, g2=g2, c1=c1, c2=c2, i1=shuffled_ids(rng, len(c1)), i2=shuffled_ids(rng, len(c2)), off=off, prior=rng.choice([0, 0, 0, 1, 3, 6]), withid=rng.random() < .3, again=rng.choice([None, None, True, 'east']))

    @staticmethod
    def check(c):
        c1, c2 = [tuple(x) for x in c['c1']], [tuple(x) for x in c['c2']]
        m1 = env_mesh(c['g1'], c1, c['i1'])
        m2 = env_mesh(c['g2'], c2, c['i2'], {i: {'v': 1000.0 + i, **({'id': c['i2'][i]} if c['withid'] else {})} for i in range(len(c2))})
        if c['prior']:
            m1.config['merged'] = [f'earlier{i}' for i in range(c['prior'])]
        snap2 = json.dumps([mesh_cells(m2), norm_graph(m2.neighbour_graph.get_graph()), [x.get_agg_data() for x in m2.agg_cellboxes], m2.config, rect_of(m2.bounds)], sort_keys=True)
        if c['off']:
            snap1 = json.dumps([mesh_cells(m1), norm_graph(m1.neighbour_graph.get_graph()), m1.config], sort_keys=True)
            try:
                m1.merge_mesh(m2)
            except AssertionError as e:
                if isinstance(e, Bad):
                    raise
                need(json.dumps([mesh_cells(m1), norm_graph(m1.neighbour_graph.get_graph()), m1.config], sort_keys=True) == snap1, 'refused merge changed the mesh')
                return
            raise Bad(f'incompatible mesh {c["g2"]} accepted into {c["g1"]}')
        Merge.good(c, m1, m2, c2, [(i, r, {'v': float(n)}) for n, (i, r) in enumerate(zip(c['i1'], c1))], 1, snap2)
        if c.get('again'):      # the same mesh once more: its earlier copy is replaced; or the same further east
            have = []
            for x in m1.agg_cellboxes:
                d = dict(x.get_agg_data())
                d.pop('id', None)
                have.append((x.get_id(), rect_of(x.get_bounds()), d))
            if c['again'] == 'east':
                w = c['g2']['long_max'] - c['g2']['long_min']
                c = dict(c, g2=dict(c['g2'], long_min=c['g2']['long_min'] + w, long_max=c['g2']['long_max'] + w))
                c2 = [(r[0], r[1], r[2] + w, r[3] + w) for r in c2]
                m2 = env_mesh(c['g2'], c2, c['i2'], {i: {'v': 1000.0 + i, **({'id': c['i2'][i]} if c['withid'] else {})} for i in range(len(c2))})
                snap2 = json.dumps([mesh_cells(m2), norm_graph(m2.neighbour_graph.get_graph()), [x.get_agg_data() for x in m2.agg_cellboxes], m2.config, rect_of(m2.bounds)], sort_keys=True)
            Merge.good(c, m1, m2, c2, have, 2, snap2)

    @staticmethod
    def good(c, m1, m2, c2, cells1, merged, snap2):
        keep = {(i, r) for i, r, _ in cells1 if not (r[0] >= c['g2']['lat_min'] and r[1] <= c['g2']['lat_max'] and r[2] >= c['g2']['long_min'] and r[3] <= c['g2']['long_max'])}
        data1 = {i: d for i, r, d in cells1}
        m1.merge_mesh(m2)
        need(json.dumps([mesh_cells(m2), norm_graph(m2.neighbour_graph.get_graph()), [x.get_agg_data() for x in m2.agg_cellboxes], m2.config, rect_of(m2.bounds)], sort_keys=True) == snap2, 'the given mesh was modified')
        got = {(x.get_id(), rect_of(x.get_bounds())) for x in m1.agg_cellboxes}
        ids = [x.get_id() for x in m1.agg_cellboxes]
        need(len(ids) == len(set(ids)), f'duplicate ids {ids}')
        need(keep <= got, f'cells lost: {list(keep - got)[:3]}')
        new = got - keep
        need(len(ids) == len(keep) + len(c2) and sorted(r for _, r in new) == sorted(c2), 'cells of the second mesh not taken over exactly')
        shift = {int(i) - int(c['i2'][c2.index(r)]) for i, r in new}
        need(len(shift) == 1 and min(shift) >= 0, f'ids not shifted uniformly: {shift}')
        inv = {r: k for k, r in enumerate(c2)}
        for x in m1.agg_cellboxes:
            r = rect_of(x.get_bounds())
            d = dict(x.get_agg_data()); did = d.pop('id', None)
            if (x.get_id(), r) in keep:
                need(d == data1[x.get_id()], f'data of kept cell {x.get_id()}')
            else:
                need(d == {'v': 1000.0 + inv[r]}, f'data of merged cell {x.get_id()}: {d}')
                need(did is None or str(did) == str(x.get_id()), f'merged cell {x.get_id()} records id {did}')
        exact_or_bad(m1, 'after merge')
        need(m1.config['merged'][-1] == m2.config and m1.config['merged'][:c['prior']] == [f'earlier{i}' for i in range(c['prior'])] and len(m1.config['merged']) == c['prior'] + merged, 'merged configuration not recorded')


# ------------------------------------------------------------------ C16
@prop('C16')
class Lookup:
    rule = 'random finished meshes (some with an overlapping extra cell); points inside, outside, on edges and corners'

    @staticmethod
    def gen(rng):
        g = grid(rng)
        cells = quad_mesh(rng, g, rng.randint(0, 5))
        if rng.random() < .2:
            cells.append(rng.choice(cells))
        pts = []
        for _ in range(6):
            r = rng.choice(cells)
            la = rng.choice([r[0], r[1], r[0] + (r[1] - r[0]) * rng.choice([.25, .5, .75, .03125]), r[0] - .25, dy(rng, -89, 89)])
            lo = wrap(rng.choice([r[2], r[3], r[2] + width(r) * rng.choice([.25, .5, .75, .03125]), r[3] + .25, dy(rng, -179, 179)]))
            if lo == 180 and rng.random() < .5: lo = -180.
            pts.append([la, lo])
        if len(cells) > 1 and rng.random() < .4:    # holes: drop a few cells so that a later one holds the point
            for _ in range(rng.randint(1, 2)):
                if len(cells) > 1:
                    cells.pop(rng.randrange(len(cells)))
        rng.shuffle(cells)
        return dict(g=g, cells=cells, ids=shuffled_ids(rng, len(cells)), pts=pts, drop=rng.randrange(len(cells)) if rng.random() < .5 else None)

    @staticmethod
    def check(c):
        cells = [tuple(x) for x in c['cells']]
        m = env_mesh(c['g'], cells, c['ids'])
        Lookup.points(c['pts'], m, c['ids'], cells)
        if c.get('drop') is not None and len(cells) > 1:    # the mesh changes: a cell goes, another changes its place
            k = c['drop'] % len(cells)
            m.agg_cellboxes.pop(k)
            cells.pop(k)
            ids = [x for j, x in enumerate(c['ids']) if j != k]
            Lookup.points(c['pts'], m, ids, cells)
            a, b = m.agg_cellboxes[0], m.agg_cellboxes[-1]
            ba, bb = a.get_bounds(), b.get_bounds()
            a.set_bounds(bb)
            b.set_bounds(ba)
            cells[0], cells[-1] = cells[-1], cells[0]
            Lookup.points(c['pts'][::-1], m, ids, cells)

    @staticmethod
    def points(pts, m, ids, cells):
        for la, lo in pts:
            hits = []
            for i, r in zip(ids, cells):
                d = (lo - r[2]) % 360
                if r[0] < la < r[1] and 0 < d < width(r):
                    hits.append(i)
            got = m.query_inside_mesh((la, lo))
            need(bool(got) == bool(hits), f'point {(la, lo)} inside: got {got}, containing cells {hits}')
            try:
                idx = m.query_index((la, lo))
                need(len(hits) == 1, f'point {(la, lo)} in {len(hits)} cells resolved to {idx!r} instead of an error')
                need(str(idx) == hits[0], f'point {(la, lo)}: got cell {idx!r} want {hits[0]!r}')
            except Bad:
                raise
            except Exception as e:
                need(len(hits) != 1, f'point {(la, lo)} in cell {hits} raised {e!r}')
            for i, cell in zip(ids, m.agg_cellboxes):
                need(bool(cell.contains_point(la, lo)) == (i in hits), f'cell {i} contains {(la, lo)}: {cell.contains_point(la, lo)}')


# ------------------------------------------------------------------ C17
@prop('C17')
class SplitPoints:
    rule = 'random finished meshes, 1-3 points (interior, on edges/corners/centres, outside), depth 0-3; result compared with an exact simulation'

    @staticmethod
    def gen(rng):
        g = grid(rng, maxrows=2, maxcols=3)
        depth = rng.choice([0, 1, 2, 2, 3])
        cells = [canon(r, 1) for r in grid_rects(g)]
        for _ in range(rng.randint(0, 3)):
            i = rng.randrange(len(cells))
            if width(cells[i]) > g['cw'] / 2 ** depth:
                q = quarter(cells.pop(i)); cells += [canon(x, 1) for x in q.values()]
        pts = []
        for _ in range(rng.randint(1, 3)):
            r = rng.choice(cells)
            fr = [.5, .25, .125, .3125, .7, .0625 * 3, 0, 1]
            la = r[0] + (r[1] - r[0]) * rng.choice(fr)
            lo = wrap(r[2] + width(r) * rng.choice(fr))
            if rng.random() < .1: la = r[1] + 50 if r[1] < 30 else r[0] - 50
            pts.append([la, lo])
        sc = rng.choice([[1, 1], [1, 1], [1, .5], [.5, 1], [2, 1], [1, 2], [.25, 1], [1, .25]])
        return dict(g=g, depth=depth, cells=cells, ids=shuffled_ids(rng, len(cells)), pts=pts, scale=sc, more=rng.random() < .3)

    @staticmethod
    def check(c):
        cells = [tuple(x) for x in c['cells']]
        g = dict(c['g'])
        m = env_mesh(g, cells, c['ids'], depth=c['depth'])
        sw, sh = c.get('scale', [1, 1])        # configured cell size different from that of the cells (as after a merge)
        m.config['region']['cell_width'] = g['cw'] * sw
        m.config['region']['cell_height'] = g['ch'] * sh
        mw, mh = g['cw'] * sw / 2 ** c['depth'], g['ch'] * sh / 2 ** c['depth']
        m.split_points([tuple(p) for p in c['pts']])
        cur = list(cells)
        pts = list(c['pts'])
        if c.get('more'):      # once more, around other points
            pts += [[la, wrap(lo + g['cw'] / 4)] for la, lo in c['pts']]
            m.split_points([tuple(p) for p in pts[len(c['pts']):]])
        for la, lo in pts:
            while True:
                hit = [r for r in cur if r[0] < la < r[1] and 0 < (lo - r[2]) % 360 < width(r)]
                if not hit or width(hit[0]) <= mw or hit[0][1] - hit[0][0] <= mh:
                    break
                cur.remove(hit[0])
                cur += [canon(x, 1) for x in quarter(hit[0]).values()]
        got = sorted(key_rect(rect_of(x.get_bounds())) for x in m.agg_cellboxes)
        want = sorted(key_rect(r) for r in cur)
        need(got == want, f'cells after splitting around {c["pts"]}: extra {[x for x in got if x not in want][:4]} missing {[x for x in want if x not in got][:4]}')


# ------------------------------------------------------------------ C18
@prop('C18')
class BoundsOk:
    rule = 'random boundary arguments, valid and with single defects (order, range, length, dates), around every limit'

    @staticmethod
    def gen(rng):
        la = rng.choice([[dy(rng, -90, 90), dy(rng, -90, 90)], [0., 1.], [5., 5.], [1.], [-90., 90.]])
        lon = lambda: rng.choice([dy(rng, -180, 180), -180., 180., -180.125, 180.125, 200., -200., 359., 0.])
        lo = rng.choice([[lon(), lon()], [lon(), lon()], [lon(), lon()], [10.], [-180., 180.]])
        d = lambda: f'20{rng.randint(18,22)}-{rng.randint(1,12):02d}-{rng.randint(1,28):02d}'
        a = d()
        t = rng.choice([None, [], [a, d()], [a, a], [a, d()], [a], [a, d(), d()], [a, '2020-02-30'], ['rubbish', a]])
        return dict(la=la, lo=lo, t=t)

    @staticmethod
    def check(c):
        from meshiphi.mesh_generation.boundary import Boundary
        la, lo, t = c['la'], c['lo'], c['t']
        ok = len(la) >= 2 and len(lo) >= 2
        ok = ok and la[0] <= la[1] and all(-180 <= x <= 180 for x in lo)
        if ok and t:
            ok = len(t) == 2
            if ok:
                try:
                    dd = [_dt.date.fromisoformat(x) for x in t]
                    ok = dd[0] <= dd[1]
                except ValueError:
                    ok = False
        try:
            b = Boundary(list(la), list(lo), None if t is None else list(t))
        except Exception as e:
            need(not ok, f'valid boundary {c} rejected: {e!r}')
            return
        need(ok, f'malformed boundary accepted: lat {la} long {lo} time {t}')
        need(list(b.lat_range) == la and list(b.long_range) == lo and list(b.get_time_range()) == (t or []), 'boundary stored differently')


@prop('C18')
class BuildOk:
    rule = 'random region configurations, valid and with a non-dividing cell size, bad dates or bad longitudes; construct the builder'
    share = 1.5

    @staticmethod
    def gen(rng):
        g = grid(rng, maxrows=3, maxcols=4)
        t = ['2020-01-01', '2020-02-01']
        f = rng.choice(['ok', 'ok', 'cw', 'ch', 'dates', 'order', 'lon', 'lat', 'cwg'])
        if f == 'cwg':
            g = grid(rng, kind='global', maxrows=2)
            g['cw'] = rng.choice([7.0, 11.0, 3.5, 50.0, 25.0])
        if f == 'cw': g['cw'] = rng.choice([g['cw'] * 2 * g['cols'] + 1, g['cw'] * .75, g['cw'] * g['cols'] * .75])
        if f == 'ch': g['ch'] = rng.choice([g['ch'] * 2 * g['rows'] + 1, g['ch'] * .75])
        if f == 'dates': t[rng.randrange(2)] = rng.choice(['2020-13-01', '01-02-2020', 'yesterday', '', '2020-02-30'])
        if f == 'order': t = ['2020-03-01', '2020-02-01']
        if f == 'lon': g[rng.choice(['long_min', 'long_max'])] += rng.choice([360, -360])
        if f == 'lat': g['lat_min'], g['lat_max'] = g['lat_max'], g['lat_min']
        return dict(g=g, t=t, f=f)

    @staticmethod
    def check(c):
        g, t = c['g'], c['t']
        ok = g['lat_min'] <= g['lat_max'] and -180 <= g['long_min'] <= 180 and -180 <= g['long_max'] <= 180
        try:
            dd = [_dt.date.fromisoformat(x) for x in t]
            ok = ok and dd[0] <= dd[1]
        except ValueError:
            ok = False
        if ok:
            w = g['long_max'] - g['long_min']
            if w <= 0: w += 360
            ok = (w / g['cw']) % 1 == 0 and ((g['lat_max'] - g['lat_min']) / g['ch']) % 1 == 0
        try:
            builder(g, t=tuple(t))
        except Exception as e:
            need(not ok, f'valid region {g} {t} rejected: {e!r}')
            return
        need(ok, f'malformed region accepted ({c["f"]}): {g} {t}')


# ------------------------------------------------------------------ C19
@prop('C19')
class Dates:
    rule = 'random dates, TODAY with offsets 0..4000 in varying case and spacing, malformed strings; the current date scripted'

    @staticmethod
    def gen(rng):
        now = [rng.randint(1990, 2040), rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23), rng.randint(0, 59)]
        k = rng.randrange(6)
        if k == 0:
            s = f'{rng.randint(1000, 9999)}-{rng.randint(1, 13)}-{rng.randint(1, 31)}'
        elif k == 1:
            s = rng.choice(['TODAY', 'today', ' Today ', 'TODAY  ', '  TODAY'])
        elif k in (2, 3):
            n = rng.choice([0, 1, rng.randint(0, 40), rng.randint(0, 4000)])
            n = rng.choice([n, n, n, n + rng.choice([.1, .25, .5, .75, .9])])
            s = rng.choice(['TODAY', 'today', 'ToDay', ' TODAY']) + rng.choice(['', ' ', '  ']) + ('+' if k == 2 else '-') + rng.choice(['', ' ', '  ']) + str(n) + rng.choice(['', ' '])
        elif k == 4:
            s = rng.choice(['', 'rubbish', 'TODAY 3', 'TODAY + x', 'TODAY - ', 'TODAY +', 'TODAY * 3', '2020/01/02', '2020-01-02 10:00', '02-01-2020', '2021-02-29', 'TOMORROW', 'TODAY - y', '3', '+3', '-3', '2020-00-10', 'NOW + 1', 'YESTERDAY - 2'])
        else:
            d = _dt.date(2000, 1, 1) + _dt.timedelta(days=rng.randint(-40000, 40000))
            s = d.isoformat()
        return dict(s=s, now=now)

    @staticmethod
    def check(c):
        import re
        import meshiphi.mesh_generation.boundary as bm
        now = _dt.datetime(*c['now'])
        s = c['s']
        want = None
        m = re.fullmatch(r'\s*TODAY\s*', s.upper())
        m2 = re.fullmatch(r'\s*TODAY\s*([+-])\s*(\d+)\s*', s.upper())
        m3 = re.fullmatch(r'(\d{4})-(\d{1,2})-(\d{1,2})', s)
        if m:
            want = now.date()
        elif m2:
            want = now.date() + _dt.timedelta(days=int(m2.group(2)) * (1 if m2.group(1) == '+' else -1))
        elif re.fullmatch(r'\s*TODAY\s*([+-])\s*(\d+\.\d+)\s*', s.upper()):
            # part of a day: the date of either neighbouring whole shift
            x = float(re.split('[+-]', s)[1]) * (1 if '+' in s else -1)
            want = [now.date() + _dt.timedelta(days=k) for k in (math.floor(x), math.floor(x) + 1)]
        elif m3:
            try:
                want = _dt.date(*map(int, m3.groups()))
            except ValueError:
                want = None

        class FakeDT(_dt.datetime):
            @classmethod
            def today(cls):
                return cls(*c['now'])

            @classmethod
            def now(cls, tz=None):
                return cls(*c['now'])

        class FakeD(_dt.date):
            @classmethod
            def today(cls):
                return cls(*c['now'][:3])
        saved = {}
        for nm in ('datetime', 'date'):
            if hasattr(bm, nm):
                v = getattr(bm, nm)
                if v is _dt.datetime or v is _dt.date:
                    saved[nm] = v
                    setattr(bm, nm, FakeDT if v is _dt.datetime else FakeD)
        try:
            try:
                got = bm.Boundary.parse_datetime(s)
            except ValueError as e:
                need(want is None, f'{s!r} rejected: {e}')
                return
        finally:
            for k, v in saved.items():
                setattr(bm, k, v)
        need(want is not None, f'malformed {s!r} accepted as {got!r}')
        need(got in [f'{w.year:04d}-{w.month:02d}-{w.day:02d}' for w in (want if isinstance(want, list) else [want])], f'{s!r} with today {now.date()}: got {got!r} want {want}')


# ------------------------------------------------------------------ C20
@prop('C20')
class Lon:
    rule = 'dyadic longitudes from -2000 to 2000 with emphasis on multiples of 180; scalars, lists and arrays; pairs for the distance'

    @staticmethod
    def gen(rng):
        f = lambda: rng.choice([dy(rng, -2000, 2000), 180.0 * rng.randint(-7, 7), 180.0 * rng.randint(-7, 7) + rng.choice([-.125, .125, 1, -1]), dy(rng, -180, 180)])
        return dict(x=[f() for _ in range(rng.randint(0, 5))], a=f(), b=f(), i=rng.randint(-1000, 1000))

    @staticmethod
    def check(c):
        from meshiphi.utils import longitude_domain, longitude_distance
        def one(x, y, what):
            need(-180 <= y <= 180, f'{what} of {x} is {y}')
            need((x - y) % 360 == 0, f'{what} of {x} is {y}, not equal modulo 360')
            need(not (-180 <= x <= 180) or y == x, f'{what} changes {x}, already in range, to {y}')
        one(c['a'], longitude_domain(c['a']), 'normalised value')
        one(c['i'], longitude_domain(c['i']), 'normalised integer')
        for conv in (list, np.array):
            xs = conv(c['x'])
            ys = longitude_domain(xs)
            need(len(ys) == len(c['x']) and isinstance(ys, type(xs)), f'container {type(ys)} of length {len(ys)}')
            for x, y in zip(c['x'], ys):
                one(x, float(y), 'element')
        a, b = c['a'], c['b']
        d = float(longitude_distance(a, b))
        w = abs(wrap(a - b))
        need(d == w, f'distance {a},{b}: got {d} want {w}')
        need(float(longitude_distance(b, a)) == w, f'distance {b},{a} not symmetric')


# ------------------------------------------------------------------ C21
@prop('C21')
class Remove:
    rule = 'random finished meshes; remove 1-4 cells one after another and compare cells and graph with the originals minus the removed'

    @staticmethod
    def gen(rng):
        g = grid(rng, maxrows=3, maxcols=4)
        cells = quad_mesh(rng, g, rng.randint(0, 4))
        return dict(g=g, cells=cells, ids=shuffled_ids(rng, len(cells)), picks=[rng.random() for _ in range(rng.randint(1, 4))], ints=rng.random() < .4)

    @staticmethod
    def check(c):
        cells = [tuple(x) for x in c['cells']]
        m = env_mesh(c['g'], cells, c['ids'])
        for p in c['picks']:
            if not m.agg_cellboxes:
                break
            g0 = norm_graph(m.neighbour_graph.get_graph())
            objs = list(m.agg_cellboxes)
            x = objs[int(p * len(objs))]
            cid = x.get_id()
            rest = [(y, y.get_id(), rect_of(y.get_bounds()), dict(y.get_agg_data())) for y in objs if y is not x]
            m.remove_cellbox(x)
            need(len(m.agg_cellboxes) == len(rest) and all(a is b[0] for a, b in zip(m.agg_cellboxes, rest)), 'cell list after removal')
            need([(y.get_id(), rect_of(y.get_bounds()), y.get_agg_data()) for y in m.agg_cellboxes] == [b[1:] for b in rest], 'other cells changed')
            want = {k: {d: [j for j in v if str(j) != cid] for d, v in mm.items()} for k, mm in g0.items() if k != cid}
            d = diff_graph(m.neighbour_graph.get_graph(), want)
            need(d is None, f'removing {cid}: {d}')
            need(m.get_cellbox(cid) is None and all(m.get_cellbox(y[1]) is y[0] for y in rest), f'cells found by id after removing {cid}')
        if c['ints']:
            from meshiphi.mesh_generation.neighbour_graph import NeighbourGraph
            ng = NeighbourGraph()
            full = graph_of({int(i): r for i, r in zip(c['ids'], cells)})
            ng.neighbour_graph = copy.deepcopy(full)
            i = int(c['ids'][int(c['picks'][0] * len(cells))])
            ng.remove_node_and_update_neighbours(i)
            want = {k: {d: [j for j in v if j != i] for d, v in mm.items()} for k, mm in full.items() if k != i}
            d = diff_graph(ng.get_graph(), want)
            need(d is None, f'int-keyed graph, removing {i}: {d}')


@prop('C21')
class Shift:
    rule = 'random finished meshes renumbered by random shifts'

    @staticmethod
    def gen(rng):
        g = grid(rng, maxrows=3, maxcols=4)
        cells = quad_mesh(rng, g, rng.randint(0, 4))
        return dict(g=g, cells=cells, ids=shuffled_ids(rng, len(cells)), inc=rng.choice([0, 1, 5, len(cells), 1000]), withid=rng.random() < .5, again=rng.random() < .3)

    @staticmethod
    def check(c):
        cells = [tuple(x) for x in c['cells']]
        m = env_mesh(c['g'], cells, c['ids'], {i: {'v': float(i), **({'id': c['ids'][i]} if c['withid'] else {})} for i in range(len(cells))})
        g0 = norm_graph(m.neighbour_graph.get_graph())
        inc = c['inc']
        for i in c['ids']:
            need(m.get_cellbox(i).get_id() == i, f'cell {i} not found by its id')
        m.increment_ids(inc)
        if c['again']:
            m.increment_ids(3)
            inc += 3
        for i, x in enumerate(m.agg_cellboxes):
            w = str(int(c['ids'][i]) + inc)
            need(x.get_id() == w, f'cell id {x.get_id()!r} want {w!r}')
            d = dict(x.get_agg_data()); did = d.pop('id', None)
            need(did is None or did == w, f'id recorded with the data {did!r} want {w!r}')
            need(m.get_cellbox(w) is x, f'cell {w} not found by its new id')
            need(d == {'v': float(i)} and rect_of(x.get_bounds()) == cells[i], 'cell changed otherwise')
        want = {str(int(k) + inc): {d: [j + inc for j in v] for d, v in mm.items()} for k, mm in g0.items()}
        d = diff_graph(m.neighbour_graph.get_graph(), want)
        need(d is None, f'graph: {d}')
        need(all(type(k) is str for k in m.neighbour_graph.get_graph()), 'node keys are not strings any more')


# ------------------------------------------------------------------ C22
@prop('C22')
class Update:
    rule = 'random meshes, every index from -n-1 to n+1, random values dictionaries'

    @staticmethod
    def gen(rng):
        g = grid(rng, maxrows=3, maxcols=3)
        n = len(grid_rects(g))
        return dict(g=g, idx=rng.randint(-n - 2, n + 2), values={k: rng.randint(0, 9) for k in ['v', 'speed', 'fuel', 'id2'] if rng.random() < .6})

    @staticmethod
    def check(c):
        cells = [canon(r, 1) for r in grid_rects(c['g'])]
        m = env_mesh(c['g'], cells)
        n = len(cells)
        before = [dict(x.get_agg_data()) for x in m.agg_cellboxes]
        objs = list(m.agg_cellboxes)
        ok = 0 <= c['idx'] < n
        try:
            vals = dict(c['values'])
            m.update_cellbox(c['idx'], vals)
            need(vals == c['values'], f'the dictionary passed in became {vals}')
            if ok and n > 1:    # the same values for another cell, which then changes alone
                o = (c['idx'] + 1) % n
                m.update_cellbox(o, vals)
                m.update_cellbox(o, {'own': 1})
                before[o].update(c['values'], own=1)
            need(ok, f'index {c["idx"]} of {n} cells accepted')
        except ValueError as e:
            need(not ok, f'index {c["idx"]} of {n} cells rejected: {e}')
        need(len(objs) == len(m.agg_cellboxes) and all(a is b for a, b in zip(objs, m.agg_cellboxes)), 'cell list changed')
        for i, x in enumerate(m.agg_cellboxes):
            want = dict(before[i])
            if ok and i == c['idx']:
                want.update(c['values'])
            need(x.get_agg_data() == want, f'cell {i} data {x.get_agg_data()} want {want}')
            need(rect_of(x.get_bounds()) == cells[i] and x.get_id() == str(i), f'cell {i} changed otherwise')


# ------------------------------------------------------------------ C24
@prop('C24')
class Size:
    rule = 'random rectangles, also crossing or touching the antimeridian, wide ones, tiny ones and at the poles; compared with the angle between the unit vectors of two opposite corners'

    @staticmethod
    def gen(rng):
        la = sorted(rng.choice([dy(rng, -90, 90), rng.choice([-90.0, 0.0, 90.0, 45.0]), dy(rng, -1, 1)]) for _ in range(2))
        if la[0] == la[1]:
            la = [la[0] - .125, la[0]] if la[0] > 0 else [la[0], la[0] + .125]
        lo = [rng.choice([dy(rng, -180, 180), rng.choice([-180.0, 180.0, 0.0]), dy(rng, 178, 180), dy(rng, -180, -178)]) for _ in range(2)]
        if lo[0] == lo[1]:
            lo[1] = lo[1] - 1 if lo[1] > 0 else lo[1] + 1
        return dict(r=la + lo)

    @staticmethod
    def check(c):
        from meshiphi.mesh_generation.boundary import Boundary
        a, b, lo, hi = c['r']
        got = Boundary([a, b], [lo, hi]).calc_size()

        def vec(lat, lon):
            t, p = math.radians(lat), math.radians(lon)
            return np.array([math.cos(t) * math.cos(p), math.cos(t) * math.sin(p), math.sin(t)])
        u, v = vec(a, lo), vec(b, hi)
        ang = math.atan2(np.linalg.norm(np.cross(u, v)), float(np.dot(u, v)))
        want = 6371000 * ang / math.sqrt(2)
        # near the antipode the haversine formula loses half of the digits
        tol = 1e-6 * want + 1e-3 if ang < 3.1 else 2.0
        need(abs(got - want) <= tol, f'size {got} want {want}')


# ------------------------------------------------------------------ C25
def _lparts(g):
    """region (x0, x1, x2, y0, y1, y2): a rectangle if x1 == x2, otherwise an L of two overlapping rectangles"""
    x0, x1, x2, y0, y1, y2 = g
    return [(x0, x2, y0, y1), (x0, x1, y0, y2)] if (x1, y1) != (x2, y2) else [(x0, x2, y0, y2)]


def _cparts(r):
    a, b, lo, hi = r
    if lo < hi:
        return [(lo, hi, a, b)]
    return [q for q in ((lo, 180.0, a, b), (-180.0, hi, a, b)) if q[0] < q[1]]


def _meet(p, q):
    return p[0] <= q[1] and q[0] <= p[1] and p[2] <= q[3] and q[2] <= p[3]


def _oarea(p, q):
    return max(0.0, min(p[1], q[1]) - max(p[0], q[0])) * max(0.0, min(p[3], q[3]) - max(p[2], q[2]))


def _share(g, r):
    """share of the cell that the region covers"""
    ps, tot, area = _lparts(g), 0.0, 0.0
    for c in _cparts(r):
        tot += (c[1] - c[0]) * (c[3] - c[2])
        area += sum(_oarea(p, c) for p in ps)
        if len(ps) == 2:
            x0, x1, x2, y0, y1, y2 = g
            area -= _oarea((x0, x1, y0, y1), c)
    return area / tot


def _edge(g, r):
    """does the edge of the region meet the (closed) cell"""
    ps = _lparts(g)
    inside = lambda x, y: any(p[0] < x < p[1] and p[2] < y < p[3] for p in ps)
    closed = lambda x, y: any(p[0] <= x <= p[1] and p[2] <= y <= p[3] for p in ps)
    for c in _cparts(r):
        xs = sorted({c[0], c[1], *[min(max(v, c[0]), c[1]) for p in ps for v in p[:2]]})
        ys = sorted({c[2], c[3], *[min(max(v, c[2]), c[3]) for p in ps for v in p[2:]]})
        xs += [(u + v) / 2 for u, v in zip(xs, xs[1:])]
        ys += [(u + v) / 2 for u, v in zip(ys, ys[1:])]
        if any(closed(x, y) and not inside(x, y) for x in xs for y in ys):
            return True
    return False


def _shape(g):
    from shapely.geometry import Polygon
    x0, x1, x2, y0, y1, y2 = g
    if len(_lparts(g)) == 1:
        return Polygon([(x0, y0), (x2, y0), (x2, y2), (x0, y2)])
    return Polygon([(x0, y0), (x2, y0), (x2, y1), (x1, y1), (x1, y2), (x0, y2)])


@prop('C25')
class Lut:
    rule = ('look-up tables of 0-6 rectangular or L-shaped regions (overlapping, touching, apart; dyadic coordinates; missing values; numbered anyhow; with or without a time axis) and cells, '
            'also crossing or touching the antimeridian; every statistic, verdicts with and without boundary splitting and lock; loaders made by their constructor or directly')

    @staticmethod
    def gen(rng):
        q = lambda a, b: rng.randint(int(a * 2), int(b * 2)) / 2
        anti = rng.random() < .3
        if anti:
            lo, hi = rng.choice([(176.0, -176.0), (178.0, -177.0), (180.0, -176.0), (176.0, -180.0), (179.5, -179.0)])
        else:
            lo = q(-8, 8)
            hi = lo + rng.choice([.5, 1, 2, 4, 7])
        a = q(-8, 8)
        r = [a, a + rng.choice([.5, 1, 2, 4, 7]), lo, hi]
        regs = []
        for _ in range(rng.randint(0, 6)):
            if anti:
                x0 = rng.choice([q(-180, -172), q(172, 179), -180.0])
                x2 = min(180.0, x0 + rng.choice([.5, 1, 2, 4, 8, 360, 355]))
            else:
                x0 = rng.choice([q(-12, 14), lo, hi, lo - 1])
                x2 = x0 + rng.choice([.5, 1, 2, 4, 8, 24])
            y0 = rng.choice([q(-12, 14), r[0], r[1], r[0] - 1])
            y2 = y0 + rng.choice([.5, 1, 2, 4, 8, 24])
            if rng.random() < .3:
                regs.append([x0, (x0 + x2) / 2, x2, y0, (y0 + y2) / 2, y2])
            else:
                regs.append([x0, x2, x2, y0, y2, y2])
        vals = [rng.choice([None, dy(rng, -8, 8), dy(rng, -8, 8), dy(rng, -8, 8), 2.0]) for _ in regs]
        if rng.random() < .5:
            vals = [0.5 if v is None else v for v in vals]
        return dict(r=r, regs=regs, vals=vals, agg=rng.choice(['MIN', 'MAX', 'MEAN', 'MEDIAN', 'STD', 'COUNT', 'BOGUS']), given=rng.random() < .5, skipna=rng.random() < .4,
                    override=rng.random() < .5, ctor=rng.random() < .3, time=[rng.randint(1, 9) for _ in regs] if rng.random() < .3 else None, tr=sorted([rng.randint(1, 9), rng.randint(1, 9)]),
                    order=rng.random(), boundary=rng.random() < .7, lock=rng.choice([True, False, None]))

    @staticmethod
    def check(c):
        import pandas as pd
        from meshiphi.dataloaders.lut.abstract_lut import LutDataLoader
        from meshiphi.mesh_generation.boundary import Boundary
        r, regs, vals = c['r'], c['regs'], [np.nan if v is None else v for v in c['vals']]
        df = pd.DataFrame({'geometry': [_shape(g) for g in regs], 'val': np.array(vals, dtype=float), 'nr': list(range(len(regs)))})
        rng = random.Random(c['order'])
        idx = rng.sample(range(50), len(regs))
        df.index = idx
        times = None
        ctor = c['ctor'] and regs and any(_share(g, [-90, 90, -180, 180]) > 0 for g in regs)
        if c['time'] is not None and not ctor:
            o = sorted(range(len(regs)), key=lambda i: c['time'][i])
            df = df.iloc[o]
            df.index = pd.Index([f'2020-01-0{c["time"][i]}' for i in o], name='time')
            times = [f'2020-01-0{t}' for t in c['tr']]
        b = Boundary([r[0], r[1]], [r[2], r[3]], list(times) if times else None)

        class L(LutDataLoader):
            def import_data(self, bounds):
                return df.drop(columns='nr')
        cfg = 'MAX' if c['override'] else c['agg']
        if ctor:
            l = L(Boundary([-90, 90], [-180, 180]), dict(data_name='depth', aggregate_type=cfg))
            need(l.data_name == 'depth' and 'depth' in l.data.columns and len(l.data) == len(regs), f'data after construction: columns {list(l.data.columns)}, {len(l.data)} rows')
            name, own = 'depth', l.data
            own['nr'] = [next(i for i in range(len(regs)) if df['geometry'].iloc[i].equals(g)) for g in own['geometry']]
            l.data = own
        else:
            l = L.__new__(L)
            name = l.data_name = 'val'
            l.aggregate_type, own = cfg, df
            l.data = df if not c['given'] else df.iloc[0:0]
        before = own.copy(deep=True)
        hit = [i for i, g in enumerate(regs) if any(_meet(p, q) for p in _lparts(g) for q in _cparts(r)) and (times is None or c['tr'][0] <= c['time'][i] <= c['tr'][1])]
        kw = dict(data=own) if c['given'] or ctor else {}
        got = l.trim_datapoints(b, **kw)
        key = lambda i: (regs[i], vals[i] if vals[i] == vals[i] else None)
        if not ctor:
            need(sorted(got['nr']) == sorted(hit), f'regions kept: {sorted(got["nr"])} want {sorted(hit)}')
            need(all(got['geometry'].iloc[k].equals(df['geometry'][df['nr'] == n].iloc[0]) and (got[name].iloc[k] == vals[n] or vals[n] != vals[n]) for k, n in enumerate(got['nr'])), 'rows altered')
        else:
            need(len(got) == len(hit), f'{len(got)} regions kept, want {len(hit)}')
        # value
        a = dict(kw)
        if c['override']:
            a['agg_type'] = c['agg']
        if c['skipna']:
            a['skipna'] = True
        own = own.drop(columns='nr') if 'data' in a else own
        if 'data' in a:
            a['data'] = own
        else:
            l.data = l.data.drop(columns='nr')
        vs = [(vals[i], _share(regs[i], r)) for i in hit]
        full = vs
        if c['skipna']:
            vs = [x for x in vs if x[0] == x[0]]
        miss = any(v != v for v, _ in vs)
        try:
            out = l.get_value(b, **a)
        except ValueError as e:
            need(c['agg'] == 'BOGUS' and full, f'{type(e).__name__}: {e}')
            return
        need(c['agg'] != 'BOGUS' or not full, 'unknown statistic accepted')
        need(list(out) == [name], f'entries {list(out)}')
        v = out[name]
        agg, tot = c['agg'], sum(w for _, w in vs)
        if agg == 'COUNT':
            want = len(full)
        elif not vs or miss and agg in ('MIN', 'MAX') or agg in ('MEAN', 'STD', 'MEDIAN') and tot == 0:
            want = np.nan
        elif agg in ('MIN', 'MAX'):
            want = (min if agg == 'MIN' else max)(x for x, _ in vs)
        elif agg == 'MEDIAN':
            if miss:
                return
            cum = 0
            for x, w in sorted(vs):
                cum += w
                if cum >= tot / 2 - 1e-12:
                    break
            # rounding may put the middle on either side of a boundary between two values
            lower = [x for x, w in sorted(vs) if sum(q for y, q in vs if y <= x) >= tot / 2 - 1e-9 and sum(q for y, q in vs if y < x) <= tot / 2 + 1e-9]
            need(any(v == x for x in lower), f'weighted median {v!r} want {lower}')
            return
        elif miss:
            want = np.nan
        else:
            mean = sum(x * w for x, w in vs) / tot
            want = mean if agg == 'MEAN' else math.sqrt(sum((x - mean) ** 2 * w for x, w in vs) / tot)
        need(v != v if want != want else abs(v - want) <= 1e-9 * (1 + abs(want)) + (1e-6 if agg == 'STD' else 0), f'{agg} {v!r} want {want}')
        # verdict
        cond = dict(boundary=c['boundary'])
        if c['lock'] is not None:
            cond['split_lock'] = c['lock']
        got = l.get_hom_condition(b, cond, **({'data': own} if 'data' in kw else {}))
        want = ('HOM' if c['lock'] else 'CLR') if not hit else 'HET' if c['boundary'] and any(_edge(regs[i], r) for i in hit) else 'CLR'
        need(got == want, f'verdict {got} want {want}')
        need(before.drop(columns='nr').equals(own if 'nr' not in own.columns else own.drop(columns='nr')), 'the table was modified')


# ------------------------------------------------------------------ C23
@prop('C23')
class Tif:
    rule = ('meshes of 1-12 cells (rows and columns of unequal size, some cells split or missing, also crossing the antimeridian) exported with resolutions of 1-9 lines and columns; numbers, vectors '
            '(with and without infinite components) and cells without the entry; the raster handed to GDAL, its position and the coloured file are read back')

    @staticmethod
    def gen(rng):
        nx, ny = rng.randint(1, 4), rng.randint(1, 3)
        ws, hs = [rng.choice([1.0, 2.0, 3.0]) for _ in range(nx)], [rng.choice([1.0, 2.0]) for _ in range(ny)]
        W = sum(ws)
        lo = rng.choice([dy(rng, -20, 20), 180 - ws[0], 180 - W / 2, 180.0 - W, -180.0])
        cells = []
        y = rng.choice([-60.0, 0.0, dy(rng, -5, 5)])
        lat0 = y
        for h in hs:
            x = 0.0
            for w in ws:
                if rng.random() < .2:
                    cells += [[y + h / 2 * j, y + h / 2 * (j + 1), x + w / 2 * i, x + w / 2 * (i + 1)] for j in (0, 1) for i in (0, 1)]
                elif rng.random() < .9 or not cells:
                    cells.append([y, y + h, x, x + w])
                x += w
            y += h
        rng.shuffle(cells)
        vals = [rng.choice([float(rng.randint(0, 9))] * 5 + [[2.0, 4.0], [1.0, 2.0, 9.0], ['inf', 1.0], None, 'nan']) for _ in cells]
        return dict(lat=[lat0, y], lo=lo, w=W, cells=cells, vals=vals, res=[rng.randint(1, 9), rng.randint(1, 9)], other=rng.random() < .5, keys=rng.choice([['data_name', 'sampling_resolution']] * 9 + [None, [], ['data_name'], ['sampling_resolution']]))

    @staticmethod
    def check(c):
        import tempfile, os, shutil, json as js, subprocess
        try:
            from osgeo import gdal
        except ImportError:
            return
        gdal.DontUseExceptions()
        from meshiphi.mesh_generation.boundary import Boundary
        from meshiphi.mesh_generation.aggregated_cellbox import AggregatedCellBox
        from meshiphi.mesh_generation.environment_mesh import EnvironmentMesh
        from meshiphi.mesh_generation.neighbour_graph import NeighbourGraph
        wrap = lambda x, east=False: x if x < 180 or (east and x == 180) else x - 360
        val = lambda v: np.nan if v in (None, 'nan') else (np.nan if 'inf' in v else float(np.mean(v))) if isinstance(v, list) else v
        cbs = []
        for i, (r, v) in enumerate(zip(c['cells'], c['vals'])):
            d = {'other': 99.0} if c['other'] else {}
            key = 'v' if 'data_name' in (c.get('keys', ['data_name']) or ()) else 'SIC'
            if c['other']:
                d['SIC' if key == 'v' else 'v'] = 88.0
            if v is not None:
                d[key] = float('nan') if v == 'nan' else [float('inf') if x == 'inf' else x for x in v] if isinstance(v, list) else v
            cbs.append(AggregatedCellBox(Boundary([r[0], r[1]], [wrap(c['lo'] + r[2]), wrap(c['lo'] + r[3], True)]), d, str(i)))
        hi = c['lo'] + c['w']
        m = EnvironmentMesh(Boundary(list(c['lat']), [c['lo'], wrap(hi, True)]), cbs, NeighbourGraph(), {})
        keys = c.get('keys', ['data_name', 'sampling_resolution'])
        nl, nc = c['res'] if 'sampling_resolution' in (keys or ()) else (100, 100)
        H = c['lat'][1] - c['lat'][0]
        want, loose = np.full((nl, nc), np.nan), np.zeros((nl, nc), bool)
        for i in range(nl):
            for j in range(nc):
                la, x = c['lat'][1] - (i + .5) * H / nl, (j + .5) * c['w'] / nc
                for r, v in zip(c['cells'], c['vals']):
                    near = r[0] - 1e-9 <= la <= r[1] + 1e-9 and r[2] - 1e-9 <= x <= r[3] + 1e-9
                    if near and not (r[0] + 1e-9 < la < r[1] - 1e-9 and r[2] + 1e-9 < x < r[3] - 1e-9):
                        loose[i, j] = True
                    elif near:
                        want[i, j] = val(v)
        if np.isnan(want).all():
            return
        d, cwd, gd = tempfile.mkdtemp(prefix='rt_tif'), os.getcwd(), tempfile.gettempdir()
        call = subprocess.check_call
        try:
            os.mkdir(d + '/work')
            os.mkdir(d + '/out')
            os.mkdir(d + '/tmp')
            os.chdir(d + '/work')
            tempfile.tempdir = d + '/tmp'
            conf = sorted({x for x in want[~np.isnan(want)]} | {float(val(v)) for v in c['vals'] if val(v) == val(v)})
            open('colours.txt', 'w').write('\n'.join(f'{x} {int(x * 10)} {int(x)} 7' for x in conf) + '\nnan 255 0 0\n')
            open('p.json', 'w').write(js.dumps(dict({k: dict(data_name='v', sampling_resolution=[nl, nc])[k] for k in keys or ()}, colour_conf=d + '/work/colours.txt')))
            subprocess.check_call = lambda *a, **k: call(*a, **dict(k, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL))
            m.to_tif('p.json' if keys is not None else None, d + '/out/x.tif')
            subprocess.check_call = call
            g = gdal.Open(d + '/out/x.tif')
            got = g.ReadAsArray()
            gt = g.GetGeoTransform()
            need((g.RasterXSize, g.RasterYSize) == (nc, nl), f'image of {g.RasterXSize} x {g.RasterYSize} pixels for {nl} lines and {nc} columns')
            wgt = (c['lo'], c['w'] / nc, 0, c['lat'][1], 0, -H / nl)
            need(all(abs(a - b) < 1e-9 for a, b in zip(gt, wgt)), f'image placed by {gt}, want {wgt}')
            raw = None
            if os.path.exists('grid_data'):
                rg = gdal.Open('grid_data')
                raw = rg.ReadAsArray()
                rg = None
            g = None
            for i in range(nl):
                for j in range(nc):
                    if loose[i, j]:
                        continue
                    w = want[i, j]
                    if raw is not None and raw.shape == want.shape:
                        need((w != w and raw[i, j] != raw[i, j]) or abs(raw[i, j] - w) < 1e-5, f'pixel ({i}, {j}) of the raster is {raw[i, j]}, want {w}')
                    col = (255, 0, 0) if w != w else (int(w * 10), int(w), 7)
                    if w == w and keys is not None:
                        need(tuple(int(x) for x in got[:3, i, j]) == col, f'pixel ({i}, {j}) of the image is {tuple(got[:3, i, j])}, want {col} for {w}')
        finally:
            subprocess.check_call = call
            tempfile.tempdir = gd
            os.chdir(cwd)
            shutil.rmtree(d, ignore_errors=True)
