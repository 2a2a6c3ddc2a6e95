"""C02: splitting a boundary / a cell of a finished mesh."""
from ..task import task
from ..spec import *
from ..loops import register

B, EM = MG + 'boundary', MG + 'environment_mesh'
F = CellFns()
DATA = DictFns('data')
ORDER = [('sw', 0, 0), ('nw', 0, 1), ('se', 1, 0), ('ne', 1, 1)]     # name, east half, north half


def quarter(r, k):
    _, e, nth = ORDER[k]
    lat0, lat1, lo, w = r
    mid = lat0 + (lat1 - lat0) / 2
    return (mid if nth else lat0, lat1 if nth else mid, lo + (w / 2 if e else 0), w / 2)


@task('C02', 'Boundary.split', 'requires: any rectangle, with or without a time range; ensures: a list of four boundaries: the south-west, north-west, south-east and north-east quarters, '
      'longitudes in [-180,180] modulo 360, with the time range of the original; the original unchanged')
def split(T):
    ip, ctx = T.interp(), T.ctx

    def go():
        r = Rect(ctx, 'cell', T=T)
        for timed in (False, True):
            def one():
                t = times(ctx) if timed else None
                b = boundary(ip, r, t)
                k, out = T.calls(ip, (B, 'Boundary.split'), [b])
                ctx.oblige('split.no-exception', k == 'ok', info=str(out))
                if k != 'ok':
                    return
                ctx.oblige('split.four-parts', isinstance(out, PyList) and out.concrete and len(out.segs) == 4)
                for i, q in enumerate(out.segs):
                    ctx.oblige(f'split.quarter-{ORDER[i][0]}', is_rect(ctx, read_rect(ip, q), *quarter((r.lat0, r.lat1, r.lo, r.w), i)))
                ctx.oblige('split.original-unchanged', same_rect(read_rect(ip, b), r))
            ctx.explore(one)
            T.cover('done')
    T.replay = lambda mv: [dict(checker='SplitBoundary', case=dict(rect=fl(mv['cell'])))]
    T.run(go)


def split_contract(ip, f, args, kw):
    """Boundary.split by its contract: the four quarters, written with some longitudes in [-180,180]"""
    ctx = ip.ctx
    b = args[0]
    lat0, lat1, lo, hi = read_rect(ip, b)
    out = []
    for i in range(4):
        q = Rect(ctx, 'q')
        ctx.assume(is_rect(ctx, (q.lat0, q.lat1, q.lo, q.hi), *quarter((lat0, lat1, lo, width_of(lo, hi)), i)))
        out.append(boundary(ip, q))
    return PyList(out)


@task('C02', 'sim_split_cellbox', 'requires: any mesh with distinct non-negative ids, the id (as text or number) of one of its cells; ensures: four new cells whose rectangles are the quarters in order, '
      'ids the four integers after the largest id in use, data: a separate copy of the cell\'s data with the entry id replaced by the own id; list of cells and the original cell unchanged',
      assumptions=['ids are texts of non-negative integers, pairwise distinct'])
def sim(T):
    ip, ctx = T.interp({B + ':Boundary.split': split_contract}), T.ctx

    def go():
        n, c = ctx.int('n'), ctx.int('c')
        ctx.assume(z3.And(n >= 1, c >= 0, c < n))
        seg = template_seg(ip, n, lambda t: agg_cell(ip, F, t, lambda t: PyDict([BaseEntries(DATA, t)])), F.valid, 'cells')
        register(ip, c)
        mesh = mesh_of(ip, seg)
        cell = seg.items(ctx, c)[0][1]
        l0 = ip.getattr(mesh, 'agg_cellboxes')
        k, out = T.calls(ip, (EM, 'EnvironmentMesh.sim_split_cellbox'), [mesh, Rope([('n', F.id(c))])])
        ctx.oblige('simsplit.no-exception', k == 'ok', info=str(out))
        if k != 'ok':
            return
        ctx.oblige('simsplit.four-cells', isinstance(out, PyList) and out.concrete and len(out.segs) == 4)
        base = None
        key = z3.Const('somekey', TextSort)
        seen = []
        for i, q in enumerate(out.segs):
            ctx.oblige(f'simsplit.rect-{ORDER[i][0]}', is_rect(ctx, read_rect(ip, m(ip, q, 'get_bounds')), *quarter(F.ren(c), i)))
            qid = m(ip, q, 'get_id')
            ok = isinstance(qid, Rope) and len(qid.parts) == 1 and qid.parts[0][0] == 'n' and z3.is_int(rv(qid.parts[0][1]))
            ctx.oblige('simsplit.id-is-integer-text', ok)
            if not ok:
                return
            x = rv(qid.parts[0][1])
            base = simp_i(x - 1) if i == 0 else base
            ctx.oblige('simsplit.ids-consecutive', x == base + 1 + i)
            d = m(ip, q, 'get_agg_data')
            ctx.oblige('simsplit.own-data-dict', isinstance(d, PyDict) and all(d is not s for s in seen) and d is not m(ip, cell, 'get_agg_data'))
            seen.append(d)
            h, v = lookup_term(ip, d, key)
            isid = key == text_lit('id')
            ctx.oblige('simsplit.data-copied', z3.And(h == z3.Or(DATA.HAS(c, key), isid), z3.Implies(z3.And(h, z3.Not(isid)), v == DATA.VAL(c, key))))
            ctx.oblige('simsplit.id-entry-is-own-id', z3.Implies(isid, v == IDTXT(x)))

        def largest():
            y = ctx.int('y')
            ctx.assume(z3.And(y >= 0, y < n, F.valid(y)))
            register(ip, y)
            ctx.oblige('simsplit.ids-above-every-id', base >= F.id(y))
        ctx.explore(largest)

        def attained():
            # base is the largest id in use: assume it is not, for any cell
            from ..loops import forall_items
            allc = Seg(RangeDom(n), lambda ctx, i: [(True, i)], 'all')
            forall_items(ip, allc, True, lambda i: F.id(i) != base)
            ctx.oblige('simsplit.ids-follow-the-largest', False)
        ctx.explore(attained)
        l1 = ip.getattr(mesh, 'agg_cellboxes')
        ctx.oblige('simsplit.list-unchanged', l1 is l0 and l1.segs == (seg,))

        def frame():
            y = ctx.int('y')
            ctx.assume(z3.And(y >= 0, y < n))
            e = seg.items(ctx, y)[0][1]
            ctx.oblige('simsplit.cells-unchanged', z3.And(*[a == b for a, b in zip(read_rect(ip, m(ip, e, 'get_bounds')), F.rect(y))]))
            h, v = lookup_term(ip, m(ip, e, 'get_agg_data'), key)
            ctx.oblige('simsplit.data-unchanged', z3.And(h == DATA.HAS(y, key), z3.Implies(h, v == DATA.VAL(y, key))))
        ctx.explore(frame)
    T.run(go)


def simp_i(x):
    return rv(simp(x))
