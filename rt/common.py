"""Shared generators and independent geometric oracles for the run-time contract
checks (the bounded stand-in / counterexample replay harness).  Runs under the
repository's own interpreter (/opt/venv/bin/python) against /repo's working tree.

Nothing in here uses the repository's own geometry: longitudes are compared
modulo 360 with exact dyadic arithmetic.
"""
import sys, os, json, random, math, logging, warnings
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, REPO)
os.environ.setdefault('MPLBACKEND', 'Agg')
logging.disable(logging.CRITICAL)
warnings.filterwarnings('ignore')
import numpy as np

DIRS = [1, 2, 3, 4, -1, -2, -3, -4]


class Bad(AssertionError):
    """The property is violated by this case."""


def need(cond, msg):
    if not cond:
        raise Bad(msg)


# --------------------------------------------------------------- geometry
def wrap(x):
    """representative in (-180, 180] """
    while x > 180:
        x -= 360
    while x <= -180:
        x += 360
    return x


def width(r):
    """r = (lat0, lat1, lon0, lon1); true width, crossing if lon1 <= lon0"""
    w = r[3] - r[2]
    return w if w > 0 else w + 360


def same_lon(a, b):
    return (a - b) % 360 == 0


def rel(a, b):
    """b's western edge relative to a's, representative in (-180, 180]"""
    return wrap(b[2] - a[2])


def overlap(a, b):
    """do the open interiors intersect"""
    if a[1] <= b[0] or b[1] <= a[0]:
        return False
    d = (b[2] - a[2]) % 360
    return d < width(a) or d + width(b) > 360


def case(a, b):
    """direction of b as seen from a (0 if not touching); widths < 180"""
    wa, wb = width(a), width(b)
    d = (b[2] - a[2]) % 360
    lat_over = a[0] < b[1] and b[0] < a[1]
    north_t, south_t = a[1] == b[0], b[1] == a[0]
    east_t = d == wa % 360
    west_t = (d + wb) % 360 == 0
    lon_over = d < wa or d + wb > 360
    if east_t and lat_over: return 2
    if west_t and lat_over: return -2
    if north_t and lon_over: return -4
    if south_t and lon_over: return 4
    if east_t and north_t: return 1
    if east_t and south_t: return 3
    if west_t and south_t: return -1
    if west_t and north_t: return -3
    return 0


def graph_of(cells, key=int, dkey=int):
    """exact graph of {id: rect}; neighbour entries are ints"""
    g = {}
    for i, a in cells.items():
        m = {dkey(d): [] for d in DIRS}
        for j, b in cells.items():
            if i != j:
                c = case(a, b)
                if c:
                    m[dkey(c)].append(int(j))
        g[key(i)] = m
    return g


def norm_graph(g):
    return {str(k): {str(d): sorted(int(x) for x in v) for d, v in m.items()} for k, m in g.items()}


def diff_graph(got, want):
    got, want = norm_graph(got), norm_graph(want)
    if set(got) != set(want):
        return f'nodes differ: extra {sorted(set(got)-set(want))[:5]} missing {sorted(set(want)-set(got))[:5]}'
    for k in want:
        if set(got[k]) != set(want[k]):
            return f'node {k} directions {sorted(got[k])}'
        for d in want[k]:
            if got[k][d] != want[k][d]:
                return f'node {k} direction {d}: got {got[k][d]} want {want[k][d]}'
    return None


def quarter(r):
    """{'nw':..,'ne':..,'sw':..,'se':..} exact"""
    la0, la1, lo0, lo1 = r
    w = width(r)
    ym = la0 + (la1 - la0) / 2
    xm = lo0 + w / 2
    return dict(nw=(ym, la1, lo0, xm), ne=(ym, la1, xm, lo0 + w), sw=(la0, ym, lo0, xm), se=(la0, ym, xm, lo0 + w))


def same_rect(got, want):
    """equal as rectangles on the sphere (longitudes modulo 360)"""
    return got[0] == want[0] and got[1] == want[1] and same_lon(got[2], want[2]) and \
        same_lon(got[3], want[3]) and width(got) == (want[3] - want[2] if want[3] > want[2] else want[3] - want[2] + 360)


def near_rect(got, want, tol=1e-9):
    """same_rect up to rounding of longitudes respelled modulo 360"""
    return got[0] == want[0] and got[1] == want[1] and abs((got[2] - want[2] + 180) % 360 - 180) <= tol and \
        abs((got[3] - want[3] + 180) % 360 - 180) <= tol and abs(width(got) - width(want)) <= tol and all(-180 <= x <= 180 for x in got[2:])


def rect_of(b):
    return (b.get_lat_min(), b.get_lat_max(), b.get_long_min(), b.get_long_max())


def key_rect(r):
    return (float(r[0]), float(r[1]), float(r[2]) % 360, width(r))


# --------------------------------------------------------------- generators
def dy(rng, lo, hi, den=8):
    return rng.randint(int(math.ceil(lo * den)), int(math.floor(hi * den))) / den


def rand_rect(rng, maxw=120, maxh=40):
    h = rng.choice([dy(rng, 0.25, maxh), 2.0 ** rng.randint(-3, 4), 1.0, 2.5])
    w = rng.choice([dy(rng, 0.25, maxw), 2.0 ** rng.randint(-3, 5), 1.0, 2.5])
    h = min(h, 80)
    la = dy(rng, -90, 90 - h)
    m = rng.randrange(8)
    if m <= 2:
        lo = dy(rng, -180, 180 - w)
    elif m == 3:
        lo = 180 - w                      # ends on the antimeridian
    elif m == 4:
        lo = rng.choice([180.0, -180.0])  # starts on it
    elif m == 5:
        lo = -180.0
    else:
        lo = 180 - dy(rng, 0, w)          # crosses it
    hi = lo + w
    if hi > 180:
        hi -= 360
    if m == 3 and rng.random() < .2:
        hi = -180.0
    return (la, la + h, float(lo), float(hi))


def rand_time(rng):
    if rng.random() < .4:
        return None
    a = rng.randint(1, 28)
    b = rng.randint(a, 28)
    return [f'2020-{rng.randint(1,6):02d}-{a:02d}', f'2020-{rng.randint(6,12):02d}-{b:02d}']


def boundary(r, t=None):
    from meshiphi.mesh_generation.boundary import Boundary
    return Boundary([r[0], r[1]], [r[2], r[3]], list(t) if t else None)


def grid(rng, kind=None, maxrows=4, maxcols=5, maxcells=16):
    """region + cell size; kind in plain/global/cross"""
    kind = kind or rng.choice(['plain', 'plain', 'global', 'cross', 'cross', 'edge'])
    ch = rng.choice([0.5, 1, 2, 2.5, 5, 10])
    rows = rng.randint(1, maxrows)
    if kind == 'global':
        cols = rng.choice([3, 4, 5, 6])
        cw = 360 / cols
        la = dy(rng, -80, 80 - rows * ch, 2)
        return dict(kind=kind, lat_min=la, lat_max=la + rows * ch, long_min=-180, long_max=180, cw=cw, ch=ch, rows=rows, cols=cols)
    cw = rng.choice([0.5, 1, 2, 2.5, 5, 10, 20])
    cols = rng.randint(1, maxcols)
    la = dy(rng, -80, 80 - rows * ch, 2)
    if kind == 'plain':
        lo = dy(rng, -170, 170 - cols * cw, 2) if cols * cw < 340 else -170
    elif kind == 'edge':
        lo = rng.choice([-180.0, 180.0 - cols * cw])
    else:
        k = rng.randint(0, cols * 2) / 2
        lo = 180 - k * cw
        if lo == 180 - cols * cw:
            lo = 180 - (cols / 2) * cw
    hi = lo + cols * cw
    if hi > 180:
        hi -= 360
    return dict(kind=kind, lat_min=la, lat_max=la + rows * ch, long_min=lo, long_max=hi, cw=cw, ch=ch, rows=rows, cols=cols)


def grid_rects(g):
    out = []
    for r in range(g['rows']):
        for c in range(g['cols']):
            lo = g['long_min'] + c * g['cw']
            out.append((g['lat_min'] + r * g['ch'], g['lat_min'] + (r + 1) * g['ch'], lo, lo + g['cw']))
    return out


def config_of(g, t=('2020-01-01', '2020-02-01'), depth=3):
    return {'region': dict(lat_min=g['lat_min'], lat_max=g['lat_max'], long_min=g['long_min'], long_max=g['long_max'],
                           start_time=t[0], end_time=t[1], cell_width=g['cw'], cell_height=g['ch']),
            'data_sources': [], 'splitting': {'split_depth': depth, 'minimum_datapoints': 5}}


def builder(g, **kw):
    from meshiphi.mesh_generation.mesh_builder import MeshBuilder
    import contextlib, io
    with contextlib.redirect_stderr(io.StringIO()):
        return MeshBuilder(config_of(g, **kw))


def canon(r, pick=0):
    """(lat0,lat1,lon0,lon1) with longitudes in -180..180; pick chooses the +-180 spelling"""
    w = r[3] - r[2] if r[3] > r[2] else r[3] - r[2] + 360
    lo = wrap(r[2])            # (-180,180]
    hi = lo + w
    if lo == 180 and pick == 0:
        lo, hi = -180.0, -180.0 + w
    if hi > 180:
        hi -= 360
    return (r[0], r[1], lo, hi)


def quad_mesh(rng, g, nsplit, pick=None):
    """list of rects: a grid with nsplit random splits"""
    pick = rng.randrange(2) if pick is None else pick
    cells = [canon(r, pick) for r in grid_rects(g)]
    for _ in range(nsplit):
        i = rng.randrange(len(cells))
        q = quarter(cells[i])
        del cells[i]
        new = [canon(x, pick) for x in q.values()]
        cells += new
    return cells


def env_mesh(g, cells, ids=None, data=None, depth=3, t=('2020-01-01', '2020-02-01')):
    """EnvironmentMesh as reloaded from JSON (string keys, int entries)"""
    from meshiphi.mesh_generation.environment_mesh import EnvironmentMesh
    from meshiphi.mesh_generation.aggregated_cellbox import AggregatedCellBox
    from meshiphi.mesh_generation.neighbour_graph import NeighbourGraph
    ids = ids or [str(i) for i in range(len(cells))]
    cb = []
    for i, (cid, r) in enumerate(zip(ids, cells)):
        cb.append(AggregatedCellBox(boundary(r), dict((data or {}).get(i, {'v': float(i)})), cid))
    ng = NeighbourGraph.from_json(graph_of(dict(zip(ids, cells)), key=str, dkey=str))
    b = boundary((g['lat_min'], g['lat_max'], g['long_min'], g['long_max']), t)
    return EnvironmentMesh(b, cb, ng, config_of(g, depth=depth, t=t))


def mesh_cells(m):
    return {str(c.get_id()): rect_of(c.get_bounds()) for c in m.agg_cellboxes}


def exact_or_bad(m, what):
    ids = [str(c.get_id()) for c in m.agg_cellboxes]
    need(len(ids) == len(set(ids)), f'{what}: duplicate ids {ids}')
    d = diff_graph(m.neighbour_graph.get_graph(), graph_of(mesh_cells(m), key=str, dkey=str))
    need(d is None, f'{what}: {d}')


def shuffled_ids(rng, n):
    base = rng.sample(range(0, 3 * n + 5), n)
    if rng.random() < .5:
        base = list(range(n))
    return [str(x) for x in base]


NAN = float('nan')


def eqv(a, b, tol=0.0):
    try:
        if isinstance(a, float) and isinstance(b, (int, float)) and math.isnan(a):
            return math.isnan(float(b))
        if tol and isinstance(a, (int, float)) and isinstance(b, (int, float)):
            if math.isnan(float(a)) or math.isnan(float(b)):
                return math.isnan(float(a)) and math.isnan(float(b))
            return abs(a - b) <= tol * (1 + abs(b))
        return a == b
    except TypeError:
        return a == b


# --------------------------------------------------------------- fakes / loaders
class FakeLoader:
    """Data loader with scripted answers.  Data subsets are opaque lists of marks."""
    def __init__(self, name, vals=None, verdicts=None, tag=0):
        self.data_name = name
        self.data_name_list = name.split(',')
        self.dataloader_name = f'fake{tag}'
        self.vals = vals or {}
        self.verdicts = verdicts or {}
        self.tag = tag
        self.data = ['root', tag]

    def trim_datapoints(self, bounds, data=None):
        return ['trim', data, list(rect_of(bounds)), self.tag]

    def get_value(self, bounds, data=None, agg_type=None, skipna=True):
        k = json.dumps([list(rect_of(bounds)), data, self.tag])
        need(k in self.vals, f'value requested for bounds/data that do not belong together: {k}')
        return dict(self.vals[k])

    def get_hom_condition(self, bounds, splitting_conds, data=None, **kw):
        k = json.dumps([list(rect_of(bounds)), data, splitting_conds, self.tag])
        need(k in self.verdicts, f'verdict requested for wrong bounds/data/condition: {k}')
        return self.verdicts[k]


def scalar_loader(bounds, df=None, xrd=None, **params):
    from meshiphi.dataloaders.scalar.abstract_scalar import ScalarDataLoader
    class L(ScalarDataLoader):
        def import_data(self, bounds):
            return self._src
    p = dict(params)
    p['_src'] = df if df is not None else xrd
    return L(bounds, p)


def vector_loader(bounds, df=None, xrd=None, **params):
    from meshiphi.dataloaders.vector.abstract_vector import VectorDataLoader
    class L(VectorDataLoader):
        def import_data(self, bounds):
            return self._src
    p = dict(params)
    p['_src'] = df if df is not None else xrd
    return L(bounds, p)


def poke(calls):
    """earlier, unrelated uses of the same object: their results and errors are of no interest"""
    for f in calls:
        try:
            f()
        except Exception:
            pass
