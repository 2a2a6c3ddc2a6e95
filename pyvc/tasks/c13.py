"""C13: the aggregate of a cell is the configured statistic of the points in it."""
from ..task import task
from ..spec import *
from ..data import Data, DF, DSET
from .c11 import SC, VC, CLS, in_rect, points, loader
from .c09 import TRIM

ASM = ['pandas / numpy / xarray: min, max, mean, median, std (n-1 for tables, n for grids), count, dropna, idxmin, idxmax, argmin, argmax are the named functions of the selected values; '
       'they are otherwise unknown', 'trim_datapoints by its contract (C11)', 'magnitude column: present exactly where both components are (established by add_mag_dir)']
KINDS = {'MIN': 'min', 'MAX': 'max', 'MEAN': 'mean', 'MEDIAN': 'median', 'STD': 'std', 'COUNT': None}
KNOWN = list(KINDS) + ['RMSE']


def setup(T, ip, kind, form, given, same):
    ctx = T.ctx
    r = Rect(ctx, 'cell', T=T)
    b = boundary(ip, r)
    cols = CLS[kind][2]
    sp = points(ctx, 'pt', cols)
    if kind == 'vector':
        old, M = sp.valid, sp.cols
        sp.valid = lambda p: z3.And(old(p), M['_magnitude'][0](p) == z3.Or(M['u'][0](p), M['w'][0](p)), M['_direction'][0](p) == M['_magnitude'][0](p))
    has = z3.Function('pt_in_data', z3.IntSort(), z3.BoolSort())
    inn = lambda p: z3.And(has(p), in_rect(sp, p, (r.lat0, r.lat1, r.lo, r.hi)))
    empty = Data(sp, [lambda p: z3.BoolVal(False)], form, ('lat', 'long'), cols)
    data = Data(sp, [(lambda p: has(p)) if not (given and kind == 'vector') else inn], form, ('lat', 'long'), cols)
    return r, b, sp, inn, data, (empty if given else data)


def want_stat(sp, inn, col, agg, form, ctx):
    na, v = sp.cols[col]
    pres = lambda p: z3.And(inn(p), z3.Not(na(p)))
    n = rv(sp.count([pres]))
    kind, nan = KINDS[agg], n == 0
    if agg == 'STD' and form is DF:
        kind, nan = 'std1', n <= 1
    return nan, sp.stat(kind, (pres,), lambda p: v(p))


def is_val(got, nan, val):
    """the float `got` is missing iff nan and else equals val"""
    if isinstance(got, NaNable):
        return z3.And(zb(got.nan) == nan, z3.Implies(z3.Not(nan), as_real(rv(got.val)) == as_real(val)))
    if is_num(got):
        return z3.And(z3.Not(nan), as_real(rv(got)) == as_real(val))
    return z3.BoolVal(False)


def replay(T, kind, form, agg, override):
    def case(mv):
        out = []
        for ny, nx in ((1, 1), (2, 2), (1, 3)):
            for u in ([1.0, -2.0, 3.5, 0.25], [None, 2.0, -1.0, 4.0], [None] * 4):
                if kind == 'vector' and u[1] is None:
                    continue
                for wd in (True, False):
                    for e in (False, True):
                        out.append(dict(checker='Agg', case=dict(kind=kind[0] + ('df' if form is DF else 'xr'), ny=ny, nx=nx, u=u[:ny * nx], w=[3.0, -1.0, 0.5, 2.0][:ny * nx],
                                                                 agg=agg or 'BOGUS', cfg='MEAN' if agg != 'MEAN' else 'MAX', override=override or agg is None, empty=e, withdata=wd)))
                        if not override and agg:
                            out[-1]['case']['cfg'] = agg
        return out
    T.replay = case


def run(T, kind, form, agg, given, override):
    ip, ctx = T.interp(dict(TRIM)), T.ctx
    mod, cls = CLS[kind][:2]

    def go():
        r, b, sp, inn, data, own = setup(T, ip, kind, form, given, True)
        other = ctx.const('configured', TextSort)
        if agg is None:
            a = ctx.const('statistic', TextSort)
            ctx.assume(z3.And(*[a != text_lit(x) for x in KNOWN]))
            name = Atom(a)
        else:
            name = agg
        L = loader(ip, kind, own, aggregate_type=Atom(other) if override else name)
        kw = dict(data=data) if given else {}
        if override:
            kw['agg_type'] = name
        comps = ['v'] if kind == 'scalar' else ['w', 'u']
        tot = rv(sp.count([inn]))
        pres = rv(sp.count([inn], lambda p: z3.Not(sp.cols['v' if kind == 'scalar' else '_magnitude'][0](p))))
        if agg is None or (kind == 'vector' and agg in ('MIN', 'MAX')):
            ctx.assume(pres > 0)         # for an empty cell the value is missing before the statistic is looked at
        if kind == 'vector' and agg in ('MIN', 'MAX') and False:
            pass
        spec = {}
        if agg is not None and agg != 'COUNT' and not (kind == 'vector' and agg in ('MIN', 'MAX', 'MEDIAN')):
            spec = {c: want_stat(sp, inn, c, agg, form, ctx) for c in comps}
        k, out = T.calls(ip, (mod, cls + '.get_value'), [L, b], kw)
        if agg is None or (kind == 'vector' and agg == 'MEDIAN'):
            if agg == 'MEDIAN':
                ctx.assume(pres > 0)
            T.cover('unknown statistic')
            ctx.oblige('value.unknown-statistic-rejected', k == 'raise' and out.cls is ValueError, info=str(out))
            return
        ctx.oblige('value.no-exception', k == 'ok', info=str(out))
        if k != 'ok':
            return
        T.cover('value')
        ok = isinstance(out, PyDict) and models.plain_dict(out) and sorted(e[0] for e in out.ents if isinstance(e[0], str)) == sorted(comps) and len(out.ents) == len(comps)
        ctx.oblige('value.one-entry-per-component', ok)
        if not ok:
            return
        got = dict(out.ents)
        if kind == 'vector' and agg in ('MIN', 'MAX'):
            p = ctx.int('point')
            na, mag = sp.cols['_magnitude']
            best = []
            ctx.assume(z3.And(sp.facts(p), sp.live(p)))
            for q in sp.d['labels']:
                best.append(z3.And(*[is_val(got[c], sp.cols[c][0](q), sp.cols[c][1](q)) for c in comps], inn(q), sp.live(q), z3.Not(na(q)),
                                   z3.Implies(z3.And(inn(p), z3.Not(na(p))), mag(q) <= mag(p) if agg == 'MIN' else mag(q) >= mag(p))))
            ctx.oblige('value.vector-of-extreme-magnitude', z3.Or(*best) if best else False)
            return
        for c in comps:
            if agg == 'COUNT':
                if kind == 'scalar':
                    nan, v = z3.BoolVal(False), (pres if form is DF else tot)
                else:
                    nan, v = (tot == 0 if form is DF else pres == 0), tot
            else:
                nan, v = spec[c]
                if kind == 'vector' and form is DSET:
                    nan = z3.Or(nan, pres == 0)
            ctx.oblige(f'value.{c}', is_val(got[c], nan, z3.ToReal(v) if z3.is_int(v) else v))
    replay(T, kind, form, agg, override)
    T.run(go)


for kind in ('scalar', 'vector'):
    for form, fn in ((DF, 'table'), (DSET, 'grid')):
        for agg in list(KINDS) + [None]:
            for j, (given, override) in enumerate(((True, False), (False, True))):
                nm = agg or 'unknown statistic'
                task('C13', f'{kind} {fn}, {nm}, {"data given, configured" if given else "loader data, passed"}',
                     ('requires: any cell and data set' + (' with a non-missing point in the cell' if agg is None or (kind == 'vector' and agg in ('MIN', 'MAX', 'MEDIAN')) else '') + '; ensures: ' +
                      ('ValueError' if agg is None or (kind == 'vector' and agg == 'MEDIAN') else
                       'the vector of a non-missing point of the cell with extreme magnitude' if kind == 'vector' and agg in ('MIN', 'MAX') else
                       'the number of points' if agg == 'COUNT' else f'{KINDS[agg]} of the non-missing values of exactly the points in the cell, missing if there is none')),
                     assumptions=ASM)(lambda T, a=(kind, form, agg, given, override): run(T, *a))
