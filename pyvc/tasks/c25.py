"""C25: regions of look-up tables: which meet a cell, the value they give it, and the splitting verdict."""
from ..task import task
from ..spec import *
from ..data import Space, restrict
from ..regions import Table, Region, rel, some, shared, rect_area, cumulative, weighted, Names, R_
from ..loops import register
from .c11 import day_texts, in_time
from .c13 import is_val

LM = 'meshiphi.dataloaders.lut.abstract_lut'
CL = 'LutDataLoader'
ASM = ['shapely: an STRtree of the regions of a table queried with a predicate gives the positions of exactly the regions satisfying it; intersects / boundary / intersection().area are the named '
       'relations between a region and a rectangle (for an area in two parts: some part, sum of the parts); unary_union of one region is that region; area of a rectangle is positive',
       'pandas: .iloc[positions], .loc[mask], .loc[first day:last day] on a time index, dropna, sort_values, assign, rename and apply act row by row and make new tables']


def parts(ctx, r):
    """the rectangles (x0, y0, x1, y1) the cell consists of"""
    e, w = (lambda a, b: (a, r.lat0, b, r.lat1)), z3.RealVal(180)
    if ctx.branch(r.lo < r.hi):
        return [e(r.lo, r.hi)]
    if ctx.branch(r.lo == 180):
        return [e(-w, r.hi)]
    if ctx.branch(r.hi == -180):
        return [e(r.lo, w)]
    return [e(r.lo, w), e(-w, r.hi)]


def meets(p, rs):
    return some('intersects', p, rs)


def setup(T, ip, given, time=False, name='v', cfg='MEAN'):
    ctx = T.ctx
    r = Rect(ctx, 'cell', T=T)
    ts, t = day_texts(ctx)
    b = boundary(ip, r, ts)
    sp = Space(ctx, 'row', ('v',))
    has = z3.Function('row_in_data', z3.IntSort(), z3.BoolSort())
    ix = ('time',) if time else (None,)
    data = Table(sp, [lambda p: has(p)], {'v': sp.col('v')}, ix)
    other = Table(sp, [lambda p: z3.BoolVal(False)], {'v': sp.col('v')}, ix)
    L = Obj(ip.find(LM, CL), dict(data=other if given else data, data_name='v', aggregate_type=cfg))
    return r, b, t, sp, has, data, L


def trim_contract(ip, f, a, k):
    """contract of trim_datapoints, discharged by the trim tasks (tables without time index)"""
    a = list(a) + [None] * (3 - len(a))
    b, d = k.get('bounds', a[1]), k.get('data', a[2])
    if d is None:
        d = a[0].d['data']
    lat0, lat1, lo, hi = read_rect(ip, b)

    class R:
        pass
    R.lat0, R.lat1, R.lo, R.hi = lat0, lat1, lo, hi
    rs = parts(ip.ctx, R)
    t = d.like(restrict(d.pieces, lambda p: meets(p, rs)))
    t.fresh = True
    return t


TRIM = {f'{LM}:{CL}.trim_datapoints': trim_contract}


def cases(T, agg='MEAN', given=True, skipna=False, override=False, time=False, what=None):
    def case(mv):
        c = fl(mv['cell'])
        out = []
        for rect in (c, [0.0, 4.0, 0.0, 4.0], [0.0, 4.0, 178.0, -178.0]):
            a, b, lo, hi = rect
            w = hi - lo if hi > lo else hi - lo + 360
            mid = [lo, min(lo + w / 2, 180), min(lo + w / 2, 180), a, (a + b) / 2, (a + b) / 2]
            regs = [mid, [max(-180.0, hi - w / 4), hi, hi, a - 1, b + 1, b + 1], [max(-180.0, lo - 2), lo, lo, a, b, b], [max(-180., hi - 9), hi - 8, hi - 8, b + 1, b + 2, b + 2],
                    [max(-180.0, lo - 1), 180.0, 180.0, a - 1, b + 1, b + 1], [-180.0, min(180.0, hi + 1), min(180.0, hi + 1), a - 1, b + 1, b + 1]]
            regs = [g for g in regs if g[0] < g[2] and -90 <= g[3] and g[5] <= 90]
            for sub in ([], regs[:1], regs[2:3], regs[1:2], regs[-1:], regs):
                for vals in ([1.0, -3.0, 2.0, 8.0, 5.0, 0.5], [4.0, None, 2.0, -1.0, 3.0, 7.0]):
                    for bd, lk in ((True, None), (False, True), (True, False)):
                        out.append(dict(checker='Lut', case=dict(r=rect, regs=sub, vals=vals[:len(sub)], agg=agg or 'BOGUS', given=given, skipna=skipna, override=override, ctor=what == 'name', tr=[3, 5],
                                                                 time=[2, 3, 4, 5, 6, 3][:len(sub)] if time else None, order=.5, boundary=bd, lock=lk)))
        return out[:120]
    T.replay = case


# ------------------------------------------------------------------ restriction to a boundary
def trim(T, time, given):
    ip, ctx = T.interp(), T.ctx

    def go():
        r, b, t, sp, has, data, L = setup(T, ip, given, time)
        old = L.d['data']
        rs = parts(ctx, r)
        k, out = T.calls(ip, (LM, CL + '.trim_datapoints'), [L, b] + ([data] if given else []))
        ctx.oblige('trim.no-exception', k == 'ok', info=str(out))
        if k != 'ok':
            return
        ok = isinstance(out, Table) and out.space is sp and list(out.vals) == ['v'] and out.vals['v'] is data.vals['v']
        ctx.oblige('trim.columns-unaltered', ok)
        if not ok:
            return
        p = ctx.int('row')
        ctx.assume(z3.And(sp.facts(p), sp.live(p)))
        want = z3.And(has(p), meets(p, rs), in_time(sp, p, t) if time else z3.BoolVal(True))
        T.cover('trimmed')
        n = sp.mult(out.pieces, p)
        ctx.oblige('trim.keeps-every-region-meeting-the-boundary', z3.Implies(want, n >= 1))
        ctx.oblige('trim.keeps-no-other-region', z3.Implies(z3.Not(want), n == 0))
        ctx.oblige('trim.keeps-each-region-once', n <= 1)
        ctx.oblige('trim.table-unchanged', L.d['data'] is old and list(old.vals) == ['v'])
    cases(T, time=time, given=given)
    T.run(go)


for time in (False, True):
    for given in (False, True):
        task('C25', f'trim{" with time" if time else ""}{", data given" if given else ""}',
             'requires: any boundary and table of regions; ensures: the result holds, once each and with all columns, exactly the regions sharing a point with the boundary' +
             (' whose day is within its time range' if time else '') + '; the table is not modified', assumptions=ASM)(lambda T, a=(time, given): trim(T, *a))


# ------------------------------------------------------------------ value of a cell
def value(T, agg, given, skipna, override):
    ip, ctx = T.interp(dict(TRIM)), T.ctx

    def go():
        if agg is None:
            a = ctx.const('statistic', TextSort)
            ctx.assume(z3.And(*[a != text_lit(x) for x in ('MIN', 'MAX', 'MEAN', 'MEDIAN', 'STD', 'COUNT')]))
            name = Atom(a)
        else:
            name = agg
        r, b, t, sp, has, data, L = setup(T, ip, given, cfg=Atom(ctx.const('configured', TextSort)) if override else name)
        old = L.d['data']
        rs = parts(ctx, r)
        inn = lambda p: z3.And(has(p), meets(p, rs))
        na, v = sp.cols['v']
        n = rv(sp.count([inn]))
        if agg is None:
            ctx.assume(n > 0)            # for an empty cell the value is missing before the statistic is looked at
        sel = (lambda p: z3.And(inn(p), z3.Not(na(p)))) if skipna else inn
        pres = lambda p: z3.And(inn(p), z3.Not(na(p)))
        nsel, npres = rv(sp.count([sel])), rv(sp.count([pres]))
        sp.forall(lambda p: z3.And(*[rel('shared_area', R_)(p, *q) >= 0 for q in rs]))
        area = z3.Sum(*[rect_area(ctx, q) for q in rs]) if len(rs) > 1 else rect_area(ctx, rs[0])
        share = lambda p: shared(p, rs) / area
        if agg == 'MEDIAN':
            ctx.assume(n == npres)
            sp.forall(lambda p: z3.Implies(inn(p), z3.Not(na(p))))
        if agg in ('MIN', 'MAX'):
            nan = z3.Or(npres == 0, z3.BoolVal(False) if skipna else npres != n)
            val = sp.stat(agg.lower(), (pres,), lambda p: v(p))
        elif agg in ('MEAN', 'STD', 'MEDIAN'):
            tot = sp.stat('sum', (sel,), share)
            ctx.assume(z3.Implies(nsel == 0, tot == 0))
            nan = z3.Or(nsel == 0, tot == 0, nsel != npres)
            mean = weighted(ctx, sp, (sel,), lambda p: v(p), share)
            if agg == 'MEAN':
                val = mean
            elif agg == 'STD':
                val = models.real_fn(ctx, 'sqrt', weighted(ctx, sp, (sel,), lambda p: (v(p) - mean) * (v(p) - mean), share))
            else:
                cum = cumulative(ctx, sp, (sel,), lambda p: (z3.BoolVal(False), share(p)), (lambda p: (na(p), v(p)), True))
        else:
            nan, val = z3.BoolVal(False), z3.ToReal(n)
        kw = dict(data=data) if given else {}
        if override:
            kw['agg_type'] = name
        if skipna:
            kw['skipna'] = True
        k, out = T.calls(ip, (LM, CL + '.get_value'), [L, b], kw)
        if agg is None:
            T.cover('unknown statistic')
            ctx.oblige('value.unknown-statistic-rejected', k == 'raise' and out.cls is ValueError, info=str(out))
            return
        ctx.oblige('value.no-exception', k == 'ok', info=str(out))
        if k != 'ok':
            return
        ok = isinstance(out, PyDict) and models.plain_dict(out) and [e[0] for e in out.ents] == ['v']
        ctx.oblige('value.one-entry', ok)
        if not ok:
            return
        T.cover('value')
        got = out.ents[0][1]
        if agg == 'MEDIAN':
            p = ctx.int('row_')
            ctx.assume(z3.And(sp.facts(p), sp.live(p)))
            best = [z3.And(sel(q), sp.live(q), cum(q) >= tot / 2, is_val(got, z3.BoolVal(False), v(q)), z3.Implies(z3.And(sel(p), cum(p) >= tot / 2), v(q) <= v(p))) for q in sp.d['labels']]
            miss = is_val(got, z3.BoolVal(True), v(p))
            ctx.oblige('value.weighted-median', z3.If(nan, miss, z3.Or(*best) if best else z3.BoolVal(False)))
        else:
            ctx.oblige('value.statistic', is_val(got, nan, val))
        ctx.oblige('value.table-unchanged', L.d['data'] is old and list(old.vals) == ['v'] and list(data.vals) == ['v'])
    cases(T, agg, given, skipna, override)
    T.run(go)


for agg in ('MIN', 'MAX', 'COUNT', 'MEAN', 'STD', 'MEDIAN', None):
    for given, skipna, override in ((True, False, False), (False, True, True)):
        task('C25', f'value {agg or "unknown statistic"}, {"data given, configured" if given else "loader data, passed"}{", skip missing" if skipna else ""}',
             'requires: any cell and table' + (' with a region meeting the cell' if agg is None else ' with no missing values' if agg == 'MEDIAN' else '') + '; ensures: ' +
             ('ValueError' if agg is None else 'the number of regions meeting the cell' if agg == 'COUNT' else f'{agg.lower()} of the values of the regions meeting the cell' if agg in ('MIN', 'MAX') else
              {'MEAN': 'their mean', 'STD': 'square root of their mean squared deviation from their mean', 'MEDIAN': 'the first of their values in ascending order at which the running total reaches half of the total'}[agg] +
              ', weighted by the share of the cell each region covers; missing if these are all zero') + '; the table is not modified', assumptions=ASM)(lambda T, a=(agg, given, skipna, override): value(T, *a))


# ------------------------------------------------------------------ verdict
def verdict(T, lock, given, bd):
    ip, ctx = T.interp(dict(TRIM)), T.ctx

    def go(scene):
        r, b, t, sp, has, data, L = setup(T, ip, given)
        old = L.d['data']
        rs = parts(ctx, r)
        inn = lambda p: z3.And(sp.live(p), has(p), meets(p, rs))
        edge = lambda p: some('edge_intersects', p, rs)
        ents = [('boundary', bd)]
        lk = z3.BoolVal(False)
        if lock:
            lk = ctx.bool('locked')
            ents.append(('split_lock', lk))
        w = ctx.int('row')
        if scene == 'edge':
            ctx.assume(z3.And(inn(w), sp.facts(w), edge(w)))
            register(ip, w)
        elif scene == 'inside':
            ctx.assume(z3.And(inn(w), sp.facts(w)))
            register(ip, w)
            sp.forall(lambda p: z3.Implies(inn(p), z3.Not(edge(p))))
        else:
            sp.forall(lambda p: z3.Not(inn(p)))
        k, out = T.calls(ip, (LM, CL + '.get_hom_condition'), [L, b, PyDict(ents)] + ([data] if given else []))
        ctx.oblige('verdict.no-exception', k == 'ok', info=str(out))
        if k != 'ok':
            return
        T.cover('verdict')
        eqs = lambda x: zb(ip.truth(models.eq(ip, out, x)))
        if scene == 'edge':
            ctx.oblige('verdict.edge-of-a-region-meets-the-cell', eqs('HET' if bd else 'CLR'))
        elif scene == 'inside':
            ctx.oblige('verdict.regions-without-edge-in-the-cell', eqs('CLR'))
        else:
            ctx.oblige('verdict.no-region', z3.If(lk, eqs('HOM'), eqs('CLR')))
        ctx.oblige('verdict.table-unchanged', L.d['data'] is old)
    cases(T, given=given)
    for scene in ('edge', 'inside', 'none'):
        T.run(lambda: go(scene))


for lock in (False, True):
    for given in (False, True):
        for bd in (False, True):
            task('C25', f'verdict, {"with" if lock else "no"} lock entry, {"data given" if given else "loader data"}, boundary {bd}',
                 'requires: any cell and table; ensures: no region meets the cell: HOM if split-locked, else CLR; some region does: ' +
                 ('HET exactly when the edge of one of them meets the cell, else CLR' if bd else 'CLR'), assumptions=ASM)(lambda T, a=(lock, given, bd): verdict(T, *a))


# ------------------------------------------------------------------ name of the data column
def naming(T, same):
    ip, ctx = T.interp(), T.ctx

    def go():
        r, b, t, sp, has, data, L = setup(T, ip, False)
        new = 'v' if same else Atom(ctx.const('new_name', TextSort))
        if not same:
            ctx.assume(z3.And(*[new.t != text_lit(x) for x in ('v', 'geometry', 'time')]))
        k, out = T.calls(ip, (LM, CL + '.set_data_col_name'), [L, new])
        ctx.oblige('name.no-exception', k == 'ok', info=str(out))
        if k != 'ok':
            return
        T.cover('named')
        ok = isinstance(out, Table) and out.space is sp and out.pieces == data.pieces
        ctx.oblige('name.same-rows', ok)
        if ok:
            ks = list(out.vals)
            ctx.oblige('name.column-renamed', len(ks) == 1 and (ks[0] == 'v' if same else isinstance(ks[0], Atom) and ks[0].t.eq(new.t)) and out.vals[ks[0]] is data.vals['v'])
        ctx.oblige('name.table-unchanged', L.d['data'] is data and list(data.vals) == ['v'])
    cases(T, what='name')
    T.run(go)


for same in (True, False):
    task('C25', f'data name {"already there" if same else "changed"}', 'requires: any table with one data column; ensures: the result is the table with that column under the new name', assumptions=ASM)(lambda T, a=(same,): naming(T, *a))
