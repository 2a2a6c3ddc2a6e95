"""Run-time contracts C01-C10.  gen(rng) yields a JSON case; check(case) raises Bad."""
from common import *
import contextlib, io

REG = {}


def prop(pid):
    def deco(cls):
        REG.setdefault(pid, []).append(cls)
        return cls
    return deco


def mk_cell(r, t, cid, depth, sources):
    from meshiphi.mesh_generation.cellbox import CellBox
    c = CellBox(boundary(r, t), cid)
    c.set_split_depth(depth)
    c.set_data_source(sources)
    return c


# ------------------------------------------------------------------ C01
NCOND = [1, 0, 6]        # number of splitting conditions of source k


@prop('C01')
class SplitCell:
    rule = 'random cell rectangles (dyadic, incl. touching/crossing the antimeridian), depth, start id, 0-3 data sources; split and compare with the exact quarters'

    @staticmethod
    def gen(rng):
        return dict(rect=rand_rect(rng, 300), time=rand_time(rng), depth=rng.randint(0, 6), start=rng.choice([0, 1, 7, 99, 12345]),
                    nsrc=rng.randint(0, 3))

    @staticmethod
    def check(c):
        from meshiphi.mesh_generation.metadata import Metadata
        r = tuple(c['rect'])
        srcs = []
        for k in range(c['nsrc']):
            ld = FakeLoader(f'd{k}', tag=k)
            srcs.append(Metadata(ld, [{'threshold': [k, i]} for i in range(NCOND[k % 3])], ['parent', 0.5, 'Nan'][k % 3], ['parent-data', k]))
        cell = mk_cell(r, c['time'], 'P', c['depth'], srcs)
        out = cell.split(c['start'])
        need(len(out) == 4, f'{len(out)} children')
        need(rect_of(cell.get_bounds()) == r and cell.get_id() == 'P' and cell.get_split_depth() == c['depth'], 'original cell modified')
        need([s.get_data_subset() for s in cell.get_data_source()] == [['parent-data', k] for k in range(c['nsrc'])], 'original data modified')
        q = quarter(r)
        for n, (name, ch) in enumerate(zip(['nw', 'ne', 'sw', 'se'], out)):
            got = rect_of(ch.get_bounds())
            need(all(-180 <= x <= 180 for x in got[2:]), f'{name} longitudes {got} outside -180..180')
            need(same_rect(got, q[name]), f'{name}: got {got} want {q[name]}')
            need(ch.get_bounds().get_width() == width(r) / 2 and ch.get_bounds().get_height() == (r[1] - r[0]) / 2, f'{name} size')
            need(ch.get_id() == str(c['start'] + n), f'{name} id {ch.get_id()!r}')
            need(ch.get_split_depth() == c['depth'] + 1, f'{name} depth {ch.get_split_depth()}')
            need(ch.get_parent() is cell, f'{name} parent')
            need(list(ch.get_bounds().get_time_range()) == list(c['time'] or []), f'{name} time range {ch.get_bounds().get_time_range()}')
            ds = ch.get_data_source()
            need(len(ds) == c['nsrc'], f'{name} has {len(ds)} data sources')
            for k, s in enumerate(ds):
                need(s.get_data_loader() is srcs[k].get_data_loader(), f'{name} loader {k}')
                need(s.get_splitting_conditions() == [{'threshold': [k, i]} for i in range(NCOND[k % 3])], f'{name} conditions {k}')
                need(s.get_value_fill_type() == ['parent', 0.5, 'Nan'][k % 3], f'{name} fill type {k}')
                need(s.get_data_subset() == ['trim', ['parent-data', k], list(got), k], f'{name} data subset {k}: {s.get_data_subset()}')


# ------------------------------------------------------------------ C02
@prop('C02')
class SplitBoundary:
    rule = 'random boundary rectangles split into quarters'

    @staticmethod
    def gen(rng):
        return dict(rect=rand_rect(rng, 300), time=rand_time(rng))

    @staticmethod
    def check(c):
        r = tuple(c['rect'])
        b = boundary(r, c['time'])
        out = b.split()
        check_quarters(r, [x for x in out])
        for x in out:
            need(list(x.get_time_range()) == list(c['time'] or []), 'time range')
        need(rect_of(b) == r, 'original modified')


def check_quarters(r, bounds):
    q = quarter(r)
    need(len(bounds) == 4, f'{len(bounds)} parts')
    for name, b in zip(['sw', 'nw', 'se', 'ne'], bounds):
        got = rect_of(b)
        need(all(-180 <= x <= 180 for x in got[2:]), f'{name} longitudes {got}')
        need(same_rect(got, q[name]), f'{name}: got {got} want {q[name]}')


@prop('C02')
class SimSplit:
    rule = 'random finished meshes with ids in random order; simulate the split of a random cell'

    @staticmethod
    def gen(rng):
        g = grid(rng)
        cells = quad_mesh(rng, g, rng.randint(0, 4))
        return dict(g=g, cells=cells, ids=shuffled_ids(rng, len(cells)), k=rng.randrange(len(cells)),
                    data=[{'a': i, 'b': [i, 2.5]} for i in range(len(cells))], withid=rng.random() < .5, then=rng.choice([None, rng.randrange(len(cells)), len(cells)]))

    @staticmethod
    def check(c):
        cells = [tuple(x) for x in c['cells']]
        data = {i: dict(d) for i, d in enumerate(c['data'])}
        if c['withid']:
            for i in data:
                data[i]['id'] = c['ids'][i]
        m = env_mesh(c['g'], cells, c['ids'], data)
        before = [(x.get_id(), dict(x.get_agg_data()), rect_of(x.get_bounds())) for x in m.agg_cellboxes]
        objs = list(m.agg_cellboxes)
        out = m.sim_split_cellbox(c['ids'][c['k']])
        need(m.agg_cellboxes == objs and len(m.agg_cellboxes) == len(objs), 'cell list modified')
        need(before == [(x.get_id(), dict(x.get_agg_data()), rect_of(x.get_bounds())) for x in m.agg_cellboxes], 'existing cells modified')
        check_quarters(cells[c['k']], [x.get_bounds() for x in out])
        mx = max(int(i) for i in c['ids'])
        par = m.agg_cellboxes[c['k']].get_agg_data()
        for n, x in enumerate(out):
            need(x.get_id() == str(mx + 1 + n), f'child {n} id {x.get_id()!r}, want {mx+1+n}')
            want = dict(data[c['k']]); want['id'] = str(mx + 1 + n)
            need(x.get_agg_data() == want, f'child {n} data {x.get_agg_data()} want {want}')
            need(x.get_agg_data() is not par and all(x.get_agg_data() is not y.get_agg_data() for y in out if y is not x), 'children share a data dictionary')
        if c.get('then') is not None:     # the mesh grows, then another split is simulated
            for x in out:
                m.add_cellbox(x)
            k = c['then'] % len(m.agg_cellboxes)
            par = m.agg_cellboxes[k]
            want = dict(par.get_agg_data())
            o2 = m.sim_split_cellbox(par.get_id())
            check_quarters(rect_of(par.get_bounds()), [x.get_bounds() for x in o2])
            for n, x in enumerate(o2):
                need(x.get_id() == str(mx + 5 + n), f'second split: child {n} id {x.get_id()!r}, want {mx+5+n}')
                need(x.get_agg_data() == dict(want, id=str(mx + 5 + n)), f'second split: child {n} data {x.get_agg_data()}')


# ------------------------------------------------------------------ C03
@prop('C03')
class InitialGrid:
    rule = 'random regions (plain, global, crossing the antimeridian) and dividing cell sizes; compare every initial cell'

    @staticmethod
    def gen(rng):
        g = grid(rng, maxrows=6, maxcols=9)
        return dict(g=g, t=rand_time(rng) or ['2020-01-01', '2020-02-01'])

    @staticmethod
    def check(c):
        g = c['g']
        from meshiphi.mesh_generation.cellbox import CellBox
        b = builder(g, t=tuple(c['t']))
        cb = b.mesh.cellboxes
        want = grid_rects(g)
        need(len(cb) == len(want), f'{len(cb)} cells, want {len(want)} for {g}')
        for k, (x, w) in enumerate(zip(cb, want)):
            got = tuple(float(v) for v in rect_of(x.get_bounds()))
            need(all(-180 <= v <= 180 for v in got[2:]), f'cell {k} longitudes {got}')
            need(same_rect(got, w), f'cell {k}: got {got} want {w}')
            need(x.get_id() == str(k), f'cell {k} id {x.get_id()!r}')
            need(x.get_split_depth() == 0, f'cell {k} depth')
            need(list(x.get_bounds().get_time_range()) == list(c['t']), f'cell {k} time {x.get_bounds().get_time_range()}')


# ------------------------------------------------------------------ C04
@prop('C04')
class Case:
    rule = 'pairs of non-overlapping rectangles, mostly placed to touch at an edge or corner, incl. both sides of the antimeridian; compared with exact geometry modulo 360, both ways round, through all three entry points'

    @staticmethod
    def gen(rng):
        while True:
            a = rand_rect(rng, 100, 30)
            wa, ha = width(a), a[1] - a[0]
            if rng.random() < .15:
                b = rand_rect(rng, 100, 30)
            else:
                wb = rng.choice([wa, wa / 2, wa * 2, dy(rng, .25, 100)])
                hb = rng.choice([ha, ha / 2, ha * 2, dy(rng, .25, 30)])
                dx = rng.choice([wa, -wb, 0, wa - wb, wa / 2, -wb / 2, wa + 1, -wb - .5, dy(rng, -wb, wa)])
                dyy = rng.choice([ha, -hb, 0, ha - hb, ha / 2, -hb / 2, ha + 1, -hb - .5, dy(rng, -hb, ha)])
                lo = a[2] + dx
                b = canon((a[0] + dyy, a[0] + dyy + hb, lo, lo + wb), rng.randrange(2))
            if width(a) >= 180 or width(b) >= 180 or overlap(a, b):
                continue
            return dict(a=a, b=b)

    @staticmethod
    def check(c):
        from meshiphi.mesh_generation.cellbox import CellBox
        from meshiphi.mesh_generation.neighbour_graph import NeighbourGraph
        a, b = tuple(c['a']), tuple(c['b'])
        for u, v in ((a, b), (b, a)):
            want = case(u, v)
            bu, bv = boundary(u), boundary(v)
            cu, cv = CellBox(bu, '0'), CellBox(bv, '1')
            ng = NeighbourGraph()
            got = ng.get_neighbour_case_bounds(bu, bv)
            need(got == want, f'boundaries {u} -> {v}: got {got} want {want}')
            got = ng.get_neighbour_case(cu, cv)
            need(got == want, f'cells {u} -> {v}: got {got} want {want}')
            if u[2] < u[3] and v[2] < v[3]:
                ng.set_global_mesh(True)
                got = ng.get_neighbour_case(cu, cv)
                need(got == want, f'global mesh cells {u} -> {v}: got {got} want {want}')
                if (u[2] == -180 and v[3] == 180) or (v[2] == -180 and u[3] == 180):
                    got = ng.get_global_mesh_neighbour_case(cu, cv)
                    need(got == want, f'global case {u} -> {v}: got {got} want {want}')


# ------------------------------------------------------------------ C05
def grid_graph(rows, cols, wrapx):
    g = {}
    for k in range(rows * cols):
        r, c = divmod(k, cols)
        m = {d: [] for d in DIRS}
        for d, (dr, dc) in {1: (1, 1), 2: (0, 1), 3: (-1, 1), 4: (-1, 0), -1: (-1, -1), -2: (0, -1), -3: (1, -1), -4: (1, 0)}.items():
            r2, c2 = r + dr, c + dc
            if wrapx:
                c2 %= cols
            if 0 <= r2 < rows and 0 <= c2 < cols:
                m[d].append(r2 * cols + c2)
        g[k] = m
    return g


@prop('C05')
class InitialGraph:
    rule = 'random grids up to 7x9, plain, crossing and global; whole initial graph compared with row/column adjacency'

    @staticmethod
    def gen(rng):
        g = grid(rng, maxrows=7, maxcols=9)
        if g['kind'] == 'global':
            g['cols'] = rng.choice([1, 2, 3, 4, 5, 6, 8, 9])
            g['cw'] = 360 / g['cols']
        return dict(g=g)

    @staticmethod
    def check(c):
        g = c['g']
        b = builder(g)
        glob = g['long_min'] == -180 and g['long_max'] == 180
        ng = b.neighbour_graph.get_graph()
        need(all(type(k) is int for k in ng), f'non-int node keys {list(ng)[:3]}')
        d = diff_graph(ng, grid_graph(g['rows'], g['cols'], glob))
        need(d is None, f'{g}: {d}')
        need(bool(b.neighbour_graph.is_global_mesh()) == glob, f'global flag {b.neighbour_graph.is_global_mesh()} for {g}')


@prop('C05')
class InitialGraphDirect:
    rule = 'neighbour graph constructed directly from a list of cells and a width (int or float)'

    @staticmethod
    def gen(rng):
        return dict(rows=rng.randint(1, 8), cols=rng.randint(1, 8), fl=rng.random() < .5)

    @staticmethod
    def check(c):
        from meshiphi.mesh_generation.cellbox import CellBox
        from meshiphi.mesh_generation.neighbour_graph import NeighbourGraph
        rows, cols = c['rows'], c['cols']
        cb = [CellBox(boundary((r, r + 1, x, x + 1)), str(r * cols + x)) for r in range(rows) for x in range(cols)]
        ng = NeighbourGraph(cb, float(cols) if c['fl'] else cols)
        d = diff_graph(ng.get_graph(), grid_graph(rows, cols, False))
        need(d is None, f'{rows}x{cols}: {d}')
        need(not ng.is_global_mesh(), 'flagged global')


# ------------------------------------------------------------------ C06
@prop('C06')
class BuilderSplits:
    rule = 'random split histories (1-14 splits) on random builder meshes (plain, global, crossing); graph compared with exact geometry after every split'

    @staticmethod
    def gen(rng):
        g = grid(rng, maxrows=4, maxcols=4)
        return dict(g=g, picks=[rng.random() for _ in range(rng.choice([1, 2, 4, 8, 14]))], deep=rng.random() < .5)

    @staticmethod
    def check(c):
        g = c['g']
        b = builder(g)
        cbs = b.mesh.cellboxes
        # start from an exact graph whatever the builder made of it
        exp0 = graph_of({i: rect_of(x.get_bounds()) for i, x in enumerate(cbs)})
        b.neighbour_graph.neighbour_graph = exp0
        b.neighbour_graph.set_global_mesh(g['kind'] == 'global')
        last = None
        for p in c['picks']:
            alive = [i for i, x in enumerate(b.mesh.cellboxes) if x is not None]
            if c['deep'] and last is not None and p < .6:
                alive = [i for i in alive if i >= last]
            i = alive[int(p * len(alive))]
            objs = list(b.mesh.cellboxes)
            n = len(objs)
            cell = objs[i]
            r = rect_of(cell.get_bounds())
            others = {k: (rect_of(x.get_bounds()), x.get_id(), x.get_split_depth()) for k, x in enumerate(objs) if x is not None and k != i}
            b.split_and_replace(cell)
            now = b.mesh.cellboxes
            need(len(now) == n + 4, f'{len(now)} cells after split of {n}')
            need(now[i] is None, 'split cell still in the mesh')
            for k in others:
                need(now[k] is objs[k] and (rect_of(now[k].get_bounds()), now[k].get_id(), now[k].get_split_depth()) == others[k], f'cell {k} changed')
            q = quarter(r)
            need(sorted(map(key_rect, [rect_of(x.get_bounds()) for x in now[n:]])) == sorted(map(key_rect, q.values())), f'children of {r}')
            for k in range(n, n + 4):
                need(now[k].get_id() == str(k), f'child id {now[k].get_id()} at {k}')
            live = {k: rect_of(x.get_bounds()) for k, x in enumerate(now) if x is not None}
            d = diff_graph(b.neighbour_graph.get_graph(), graph_of(live))
            need(d is None, f'{g["kind"]} mesh {g["rows"]}x{g["cols"]}, after splitting cell {i} {r}: {d}')
            last = n



def ladder_cells(rng):
    """A grid with the surroundings of one cell refined again and again, so that the
    cell ends up with many neighbours on some of its sides.  -> (grid, cells, index)"""
    g = grid(rng, kind=rng.choice(['plain', 'cross', 'cross', 'edge', 'global']), maxrows=3, maxcols=3)
    pick = rng.randrange(2)
    cells = [canon(r, pick) for r in grid_rects(g)]
    t = rng.choice(cells)
    side = rng.choice([[2], [-2], [4], [-4], [2, -2], [4, -4], [1, 2, 3], DIRS])
    for _ in range(rng.choice([1, 2, 3, 4, 4])):
        out = []
        for x in cells:
            if x is not t and case(t, x) in side and width(x) > 1 / 64 and len(cells) < 140:
                out += [canon(q, pick) for q in quarter(x).values()]
            else:
                out.append(x)
        cells = out
    rng.shuffle(cells)
    return g, cells, cells.index(t)


@prop('C06')
class BuilderLadder:
    rule = 'one split of a cell with up to 16 neighbours per side (its surroundings refined up to 4 times); graph compared with exact geometry'

    @staticmethod
    def gen(rng):
        g, cells, t = ladder_cells(rng)
        return dict(g=g, cells=cells, t=t)

    @staticmethod
    def check(c):
        from meshiphi.mesh_generation.cellbox import CellBox
        g, cells, t = c['g'], [tuple(x) for x in c['cells']], c['t']
        b = builder(g)
        b.mesh.cellboxes = cbs = [CellBox(boundary(r), str(i)) for i, r in enumerate(cells)]
        for x in cbs:
            x.set_data_source([])
            x.set_parent(None)
            x.set_split_depth(0)
        b.neighbour_graph.neighbour_graph = graph_of(dict(enumerate(cells)))
        b.neighbour_graph.set_global_mesh(g['kind'] == 'global')
        b.split_and_replace(cbs[t])
        live = {k: rect_of(x.get_bounds()) for k, x in enumerate(b.mesh.cellboxes) if x is not None}
        need(set(live) == set(range(len(cells) + 4)) - {t}, 'wrong set of cells after the split')
        d = diff_graph(b.neighbour_graph.get_graph(), graph_of(live))
        need(d is None, f'{g["kind"]} mesh of {len(cells)} cells, after splitting cell {t} {cells[t]}: {d}')


# ------------------------------------------------------------------ C07
@prop('C07')
class EnvSplits:
    rule = 'random split histories on random finished meshes with shuffled ids; graph compared with exact geometry after every split'

    @staticmethod
    def gen(rng):
        g = grid(rng, maxrows=3, maxcols=4)
        cells = quad_mesh(rng, g, rng.randint(0, 5))
        return dict(g=g, cells=cells, ids=shuffled_ids(rng, len(cells)), picks=[rng.random() for _ in range(rng.choice([1, 2, 4, 7]))])

    @staticmethod
    def check(c):
        cells = [tuple(x) for x in c['cells']]
        m = env_mesh(c['g'], cells, c['ids'])
        for p in c['picks']:
            objs = list(m.agg_cellboxes)
            cell = objs[int(p * len(objs))]
            cid, r = cell.get_id(), rect_of(cell.get_bounds())
            keep = [(x, x.get_id(), rect_of(x.get_bounds()), json.dumps(x.get_agg_data())) for x in objs if x is not cell]
            m.split_and_replace(cid)
            need(all(x is not cell for x in m.agg_cellboxes), 'split cell still in the mesh')
            for x, i, rr, dd in keep:
                need(any(x is y for y in m.agg_cellboxes), f'cell {i} vanished')
                need((x.get_id(), rect_of(x.get_bounds()), json.dumps(x.get_agg_data())) == (i, rr, dd), f'cell {i} changed')
            new = [x for x in m.agg_cellboxes if all(x is not k[0] for k in keep)]
            need(sorted(map(key_rect, [rect_of(x.get_bounds()) for x in new])) == sorted(map(key_rect, quarter(r).values())), f'children of {r}')
            exact_or_bad(m, f'{c["g"]["kind"]} mesh after splitting cell {cid} {r}')
            need(m.get_cellbox(cid) is None, f'cell {cid} is still found by its id after its split')
            for x in m.agg_cellboxes:
                need(m.get_cellbox(x.get_id()) is x, f'cell {x.get_id()} is not found by its id')


@prop('C07')
class EnvLadder:
    rule = 'one split of a cell with up to 16 neighbours per side in a finished mesh; graph compared with exact geometry'

    @staticmethod
    def gen(rng):
        g, cells, t = ladder_cells(rng)
        return dict(g=g, cells=cells, t=t, ids=shuffled_ids(rng, len(cells)))

    @staticmethod
    def check(c):
        cells = [tuple(x) for x in c['cells']]
        m = env_mesh(c['g'], cells, c['ids'])
        m.split_and_replace(c['ids'][c['t']])
        need(len(m.agg_cellboxes) == len(cells) + 3, 'wrong number of cells after the split')
        exact_or_bad(m, f'{c["g"]["kind"]} mesh of {len(cells)} cells after splitting {cells[c["t"]]}')


# ------------------------------------------------------------------ C08
VERD = ['CLR', 'HET', 'HOM', 'MIN']


@prop('C08')
class Decision:
    rule = 'random numbers of sources and conditions with random verdicts (exhaustive up to 3 verdicts); all stop indices and the breadth-first variant'

    @staticmethod
    def gen(rng):
        n = rng.randint(0, 4)
        wts = rng.choice([[1, 1, 1, 1], [6, 3, 1, 1], [1, 0, 0, 0], [3, 1, 0, 0], [0, 1, 0, 0]])
        return dict(rect=rand_rect(rng), v=[[rng.choices(VERD, wts)[0] for _ in range(rng.randint(0, 3))] for _ in range(n)])

    @staticmethod
    def fixed():
        import itertools
        out = []
        for k in range(0, 4):
            for vs in itertools.product(VERD, repeat=k):
                out.append(dict(rect=[0, 1, 0, 1], v=[list(vs)]))
                if k:
                    out.append(dict(rect=[0, 1, 0, 1], v=[[x] for x in vs]))
        return out

    @staticmethod
    def check(c):
        from meshiphi.mesh_generation.metadata import Metadata
        r = list(c['rect'])
        srcs = []
        for k, vs in enumerate(c['v']):
            conds = [{'threshold': 10 * k + i} for i in range(len(vs))]
            ld = FakeLoader(f'd{k}', tag=k, verdicts={json.dumps([list(rect_of(boundary(tuple(r)))), ['sub', k], cd, k]): v for cd, v in zip(conds, vs)})
            srcs.append(Metadata(ld, conds, 'parent', ['sub', k]))
        cell = mk_cell(tuple(r), None, '0', 0, srcs)

        def want(vs):
            return 'HOM' not in vs and 'MIN' not in vs and any(x != 'CLR' for x in vs)
        poke([lambda: cell.should_split(len(srcs))] + [cell.should_split_breadth_first] * (len(srcs) % 2))
        for n in list(range(0, len(srcs) + 1)) + list(range(len(srcs), -1, -1)):
            vs = [x for s in c['v'][:n] for x in s]
            got = cell.should_split(n)
            need(bool(got) == want(vs), f'first {n} sources verdicts {vs}: got {got}')
        vs = [x for s in c['v'] for x in s]
        got = cell.should_split_breadth_first()
        need(bool(got) == want(vs), f'breadth first verdicts {vs}: got {got}')


# ------------------------------------------------------------------ C09
def hom_oracle(vals, n, min_dp, sc):
    if n < min_dp:
        return 'CLR'
    nn = [v for v in vals if not math.isnan(v)]
    f = sum(v > sc['threshold'] for v in nn) / len(nn) if nn else 0
    if f <= sc['lower_bound']:
        return 'CLR'
    if f >= sc['upper_bound']:
        return 'HOM' if sc.get('split_lock', False) == True else 'CLR'
    return 'HET'


def rand_sc(rng, n):
    fr = [0, 1] + [k / max(n, 1) for k in range(n + 1)] + [.05, .5, .95, -1, 2]
    lo, hi = rng.choice(fr), rng.choice(fr)
    if rng.random() < .8 and lo > hi:
        lo, hi = hi, lo
    sc = dict(threshold=float(rng.randint(-1, 3)), lower_bound=lo, upper_bound=hi)
    if rng.random() < .7:
        sc['split_lock'] = rng.random() < .6
    return sc


@prop('C09')
class HomScalar:
    rule = 'random scalar samples (ties with the threshold, missing values, 0-12 points), tabular and gridded, bounds chosen on the attainable fractions'

    @staticmethod
    def gen(rng):
        ny, nx = rng.choice([(0, 0), (1, 1), (1, 3), (2, 2), (3, 4), (2, 5)])
        n = ny * nx
        vals = [None if rng.random() < rng.choice([0, 0, .3, 1]) else float(rng.randint(-2, 4)) for _ in range(n)]
        return dict(ny=ny, nx=nx, vals=vals, min_dp=rng.choice([0, 1, n, n + 1, max(n - 1, 0), 5]), sc=rand_sc(rng, n), withdata=rng.random() < .7,
                    warm=[rand_sc(rng, n) for _ in range(rng.choice([0, 1, 3]))])

    @staticmethod
    def check(c):
        import pandas as pd, xarray as xr
        ny, nx = c['ny'], c['nx']

        def ask(l, sub_b, kind):
            warm = [dict(x, **({'threshold': c['sc']['threshold']} if k % 2 else {})) for k, x in enumerate(c.get('warm', []))] + [dict(c['sc'], split_lock=not c['sc'].get('split_lock', False))] * bool(c.get('warm'))
            for k, x in enumerate(warm):
                poke([lambda: l.get_hom_condition(boundary((0.5, 20, 5, 60)), x), lambda: l.get_hom_condition(sub_b, x, data=l.trim_datapoints(sub_b)) if k % 3 == 2 else l.get_hom_condition(sub_b, x)])
            for _ in range(2):
                sc = dict(c['sc'])
                got = l.get_hom_condition(sub_b, sc, data=l.trim_datapoints(sub_b)) if c['withdata'] else l.get_hom_condition(sub_b, sc)
                need(got == want, f'{kind}: got {got} want {want}')
        vals = [NAN if v is None else v for v in c['vals']]
        lat = [1.0 + i for i in range(ny)]
        lon = [10.0 + i for i in range(nx)]
        b = boundary((0.5, 20, 5, 60))
        rows = [(la, lo) for la in lat for lo in lon]
        df = pd.DataFrame(dict(lat=[r[0] for r in rows], long=[r[1] for r in rows], v=np.array(vals, dtype=float)))
        want = hom_oracle(vals, len(vals), c['min_dp'], c['sc'])
        far = pd.DataFrame(dict(lat=[19.5] * 7, long=[50.0] * 7, v=[9.0] * 7))
        sub_b = boundary((0.5, 15, 5, 45))
        l = scalar_loader(b, df=pd.concat([df, far], ignore_index=True), data_name='v', min_dp=c['min_dp'])
        ask(l, sub_b, 'table')
        if ny and nx:
            la2, lo2 = lat + [19.5], lon + [50.0]
            arr = np.full((ny + 1, nx + 1), 9.0)
            arr[:ny, :nx] = np.array(vals).reshape(ny, nx)
            ds = xr.Dataset({'v': (('lat', 'long'), arr)}, coords=dict(lat=la2, long=lo2))
            l = scalar_loader(b, xrd=ds, data_name='v', min_dp=c['min_dp'])
            ask(l, sub_b, 'grid')


@prop('C09')
class HomVector:
    rule = 'random vector samples with the flow quantity computed from the loader itself; verdict compared with the fraction rule'

    @staticmethod
    def gen(rng):
        ny, nx = rng.choice([(1, 1), (1, 3), (2, 2), (3, 4), (4, 3)])
        n = ny * nx
        mode = rng.random()
        def v():
            return None if rng.random() < (.15 if mode < .4 else 0) else float(rng.randint(-3, 3))
        return dict(ny=ny, nx=nx, u=[v() for _ in range(n)], w=[v() for _ in range(n)], kind=rng.choice(['curl', 'dmag']),
                    sc=rand_sc(rng, n), min_dp=rng.choice([0, 1, n, n + 1, 2]), xr=rng.random() < .6, flow=[None if rng.random() < .2 else float(rng.randint(-2, 4)) for _ in range(n)],
                    fmode=rng.choice(['real', 'script', 'script', 'nan']), warm=[dict(threshold=float(rng.randint(-1, 3)))] * rng.randint(0, 1) + [dict(lower_bound=2)] * rng.randint(0, 1))

    @staticmethod
    def check(c):
        import pandas as pd, xarray as xr
        ny, nx = c['ny'], c['nx']
        u = np.array([NAN if v is None else v for v in c['u']])
        w = np.array([NAN if v is None else v for v in c['w']])
        lat = [1.0 + i for i in range(ny)]
        lon = [10.0 + i for i in range(nx)]
        b = boundary((0.5, 20, 5, 60))
        if c['xr']:
            ds = xr.Dataset({'u': (('lat', 'long'), u.reshape(ny, nx)), 'w': (('lat', 'long'), w.reshape(ny, nx))}, coords=dict(lat=lat, long=lon))
            l = vector_loader(b, xrd=ds, data_name='u,w', min_dp=c['min_dp'])
            n = min(int((~np.isnan(u)).sum()), int((~np.isnan(w)).sum()))
            mag = np.sqrt(u * u + w * w)
            n = min(n, int((~np.isnan(mag)).sum()))
        else:
            df = pd.DataFrame(dict(lat=[la for la in lat for _ in lon], long=[lo for _ in lat for lo in lon], u=u, w=w))
            l = vector_loader(b, df=df, data_name='u,w', min_dp=c['min_dp'])
            n = ny * nx
        if np.isnan(u).all() or np.isnan(w).all():
            return
        if c['fmode'] == 'script':
            fl = np.array([NAN if v is None else v for v in c['flow']])
            l.calc_curl = lambda bounds, data=None, collapse=True, agg_type='MAX': fl if c['kind'] == 'curl' else None
            l.calc_dmag = lambda bounds, data=None, collapse=True, agg_type='MEAN': fl if c['kind'] == 'dmag' else None
        elif c['fmode'] == 'nan':
            l.calc_curl = lambda *a, **k: NAN
            l.calc_dmag = lambda *a, **k: NAN
        sc = {c['kind']: dict(c['sc'])}
        sub = l.trim_datapoints(b)
        try:
            flow = (l.calc_curl if c['kind'] == 'curl' else l.calc_dmag)(b, collapse=False)
        except Exception:
            return   # flow quantity itself not computable for this sample
        o = c['sc']
        for x in c.get('warm', []):
            poke([lambda: l.get_hom_condition(b, {c['kind']: dict(o, **x)}, data=sub), lambda: l.get_hom_condition(b, {'dmag' if c['kind'] == 'curl' else 'curl': dict(o)}, data=sub),
                  lambda: l.get_hom_condition(boundary((0.5, 20, 5, 10.5)), sc)])
        got = l.get_hom_condition(b, sc, data=sub)
        if isinstance(flow, float):
            want = 'CLR'
        else:
            want = hom_oracle([float(x) for x in np.ravel(flow)], n, c['min_dp'], c['sc'])
        need(got == want, f'vector {c["kind"]}: got {got} want {want} (n={n})')


# ------------------------------------------------------------------ C10
@prop('C10')
class ToDepth:
    rule = 'random meshes, 1-3 sources with 0-2 scripted conditions, depth 0-3, verdicts pseudo-random per cell and condition; refine and check every live cell and its ancestors'

    @staticmethod
    def gen(rng):
        g = grid(rng, maxrows=2, maxcols=2)
        if g['kind'] == 'global':
            g = grid(rng, kind='plain', maxrows=2, maxcols=2)
        ns = rng.randint(1, 3)
        return dict(g=g, depth=rng.choice([0, 1, 2, 3]), conds=[rng.choice([0, 1, 1, 2]) for _ in range(ns)], salt=rng.randint(0, 10 ** 6),
                    wts=[rng.choice([[2, 5, 1, 0], [1, 6, 0, 0], [0, 1, 0, 0], [3, 3, 1, 1], [1, 0, 0, 0]]) for _ in range(ns)], mid=rng.random() < .4)

    @staticmethod
    def check(c):
        from meshiphi.mesh_generation.metadata import Metadata
        from meshiphi.mesh_generation.cellbox import CellBox
        g = c['g']
        b = builder(g, depth=c['depth'])

        def verdict(rect, k, i):
            rr = random.Random(f'{c["salt"]}/{key_rect(rect)}/{k}/{i}')
            return rr.choices(VERD, c['wts'][k])[0]

        class L(FakeLoader):
            def get_hom_condition(self, bounds, splitting_conds, data=None, **kw):
                return verdict(rect_of(bounds), self.tag, splitting_conds['i'])
        srcs = [Metadata(L(f'd{k}', tag=k), [{'i': i} for i in range(n)], 'parent', ['root', k]) for k, n in enumerate(c['conds'])]
        for x in b.mesh.cellboxes:
            x.set_data_source(list(srcs))
        init = {key_rect(rect_of(x.get_bounds())) for x in b.mesh.cellboxes}
        if c['mid'] and c['depth'] > 0 and len(b.mesh.cellboxes) > 1:
            b.split_and_replace(b.mesh.cellboxes[-1])   # start from a mesh that is already partly refined
            forced = {key_rect(rect_of(x.get_bounds())) for x in b.mesh.cellboxes[-4:]}
        else:
            forced = set()

        def wants(rect, upto):
            vs = [verdict(rect, k, i) for k in range(upto + 1) for i in range(c['conds'][k])]
            return 'HOM' not in vs and 'MIN' not in vs and any(v != 'CLR' for v in vs)
        with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
            b.split_to_depth(c['depth'])
        active = [k for k in range(len(srcs)) if c['conds'][k] > 0]
        live = [x for x in b.mesh.cellboxes if x is not None]
        for x in live:
            r = rect_of(x.get_bounds())
            need(x.get_split_depth() <= c['depth'], f'cell {r} at depth {x.get_split_depth()} > {c["depth"]}')
            if active and x.get_split_depth() < c['depth']:
                need(not wants(r, active[-1]), f'cell {r} at depth {x.get_split_depth()} still asks to be split')
            node, d = x, x.get_split_depth()
            while node.get_parent() is not None:
                par = node.get_parent()
                need(par.get_split_depth() == node.get_split_depth() - 1, 'depth chain')
                pr = rect_of(par.get_bounds())
                need(key_rect(rect_of(node.get_bounds())) in {key_rect(q) for q in quarter(pr).values()}, 'child is not a quarter of its parent')
                if key_rect(rect_of(node.get_bounds())) not in forced:
                    need(any(wants(pr, k) for k in active), f'cell {pr} was split but never asked for it')
                node = par
            need(key_rect(rect_of(node.get_bounds())) in init and node.get_split_depth() == 0, 'live cell does not stem from an initial cell')
        area = sum((x.get_bounds().get_height()) * x.get_bounds().get_width() for x in live)
        need(area == g['rows'] * g['cols'] * g['cw'] * g['ch'], f'live cells cover {area}')
