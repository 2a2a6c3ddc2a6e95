"""C28: magnitude, direction and flow quantities of vector data are those of the vectors at each position."""
from ..task import task
from ..spec import *
from ..data import Data, DF, DSET
from ..field import Field, Vectors, FStat, SQRT, ATAN2, norm
from .c11 import VC, CLS, in_rect, points, loader
from .c09 import TRIM

ASM = ['numpy / pandas / xarray array operations by the contracts in pyvc/field.py (pivot, stack, swapaxes, transpose, gradient with unit spacing, nanmax, nanmin, nanmean)',
       'one vector per position (no time axis); coordinates of grids ascending', 'square root and arctan2 are uninterpreted (shared by the specification)']
I_, R_, B_ = z3.IntSort(), z3.RealSort(), z3.BoolSort()
V = 'VectorDataLoader.'


def grad(f, lens, a, ix):
    i, n = ix[a], lens[a]
    at = lambda j: f({**ix, a: j})
    (n0, v0), (p, vp), (m, vm) = at(i), at(i + 1), at(i - 1)
    return z3.If(i == 0, z3.Or(n0, p), z3.If(i == n - 1, z3.Or(n0, m), z3.Or(p, m))), z3.If(i == 0, vp - v0, z3.If(i == n - 1, v0 - vm, (vp - vm) / 2))


def nan(v):
    return v.nan if isinstance(v, NaNable) else False


def check_field(T, ctx, out, lens, want, defined, pre, conv=lambda ix: ix):
    """the result is not-a-number exactly when the quantity is undefined, else the array `want` over all positions"""
    if isinstance(out, Field):
        ctx.oblige(pre + 'an-array-only-when-defined', defined)
        ctx.oblige(pre + 'one-value-per-position', sorted(out.axes) == sorted(lens))
        ix = out.anyindex(ctx)
        na, v = out.val(ix)
        wn, wv = want(conv(ix))
        for a in out.axes:
            if a not in out.doms:
                ctx.oblige(pre + 'shape', rv(out.lens[a]) == rv(lens[a]))
        ctx.oblige(pre + 'missing-where-undefined', z3.Implies(out.inside(ix), zb(na) == wn))
        ctx.oblige(pre + 'value', z3.Implies(z3.And(out.inside(ix), z3.Not(wn)), as_real(rv(v)) == wv))
        T.cover('array')
    else:
        ctx.oblige(pre + 'not-a-number-otherwise', isinstance(out, NaNable) and out.nan is True)
        ctx.oblige(pre + 'not-a-number-only-when-undefined', z3.Not(defined))
        T.cover('undefined')


def check_one(T, ctx, out, field_ok, lens, doms, want, defined, agg, pre, magnitude):
    """collapsed: the mean, or the value of largest magnitude (curl) / the largest value (dmag)"""
    if isinstance(out, NaNable) and out.nan is True:
        ctx.oblige(pre + 'not-a-number-only-when-undefined', z3.Not(defined))
        return
    ctx.oblige(pre + 'a-number-only-when-defined', defined)
    if agg == 'MEAN':
        ctx.oblige(pre + 'mean-of-the-values', isinstance(out, FStat) and out.kind == 'nanmean')
        if isinstance(out, FStat):
            field_ok(out.field)
        T.cover('collapsed')
        return
    r = as_real(rv(out.val if isinstance(out, NaNable) else out))
    ix = {a: ctx.int(f'j_{a}') for a in lens}
    ins = z3.And(*[zb(doms[a](ix[a])) if a in doms else z3.And(ix[a] >= 0, ix[a] < lens[a]) for a in lens])
    wn, wv = want(ix)
    ab = (lambda x: z3.If(x < 0, -x, x)) if magnitude else (lambda x: x)
    ctx.oblige(pre + 'no-value-is-larger', z3.Implies(z3.And(ins, z3.Not(wn)), ab(wv) <= ab(r)))
    q = {a: z3.Int(f'e_{a}') for a in lens}
    qi = z3.And(*[zb(doms[a](q[a])) if a in doms else z3.And(q[a] >= 0, q[a] < lens[a]) for a in lens])
    qn, qv = want(q)
    ctx.oblige(pre + 'one-of-the-values', z3.Exists(list(q.values()), z3.And(qi, z3.Not(qn), qv == r)))
    T.cover('collapsed')


def curl(T, form, order, mode, given):
    ip, ctx = T.interp(), T.ctx

    def go():
        r = Rect(ctx, 'cell', T=T)
        b = boundary(ip, r)
        nlat, nlong = ctx.int('nlat'), ctx.int('nlong')
        ctx.assume(z3.And(nlat >= 0, nlong >= 0))
        if form is DF:
            ctx.assume((nlat == 0) == (nlong == 0))
        E = {c: (z3.Function(f'{c}_missing', I_, I_, B_), z3.Function(f'{c}_at', I_, I_, R_)) for c in ('u', 'w')}
        entry = lambda c, i, j: (E[c][0](i, j), E[c][1](i, j))
        sub = Vectors(form, entry, nlat, nlong, order)

        def trim(ip, f, a, k):
            bb = k.get('bounds', a[1] if len(a) > 1 else None)
            d = k.get('data', a[2] if len(a) > 2 else None)
            ctx.oblige('curl.of-the-cell', same_rect(read_rect(ip, bb), r))
            ctx.oblige('curl.of-the-data', d is None or d is sub)
            return sub
        ip.contracts[VC + ':' + V + 'trim_datapoints'] = trim
        L = loader(ip, 'vector', Vectors(form, None, 0, 0, order))
        kw = {}
        if given:
            kw['data'] = sub
        if mode == 'field':
            kw['collapse'] = False
        elif mode:
            kw['agg_type'] = mode
        k, out = T.calls(ip, (VC, V + 'calc_curl'), [L, b], kw)
        lens = dict(lat=nlat, long=nlong)
        f = lambda c: lambda ix: entry(c, ix['lat'], ix['long'])

        def want(ix):
            na, x = grad(f('u'), lens, 'long', ix)
            nb, y = grad(f('w'), lens, 'lat', ix)
            return z3.Or(na, nb), x - y
        i, j = z3.Int('w_lat'), z3.Int('w_long')
        inn = z3.And(i >= 0, i < nlat, j >= 0, j < nlong)
        some = z3.Exists([i, j], z3.And(inn, z3.Not(want(dict(lat=i, long=j))[0])))
        defined = z3.And(nlat >= 2, nlong >= 2, some)
        if mode not in ('field', 'MAX', 'MEAN', None):
            if k == 'raise':
                ctx.oblige('curl.unknown-aggregate-refused', issubclass(out.cls, ValueError) if isinstance(out.cls, type) else True)
                ctx.oblige('curl.refused-only-when-defined', defined)
                T.cover('refused')
            else:
                ctx.oblige('curl.unknown-aggregate-accepted', isinstance(out, NaNable) and out.nan is True)
                ctx.oblige('curl.undefined', z3.Not(defined))
            return
        ctx.oblige('curl.no-error', k == 'ok')
        if k != 'ok':
            return
        if mode == 'field':
            check_field(T, ctx, out, lens, want, defined, 'curl.')
        else:
            check_one(T, ctx, out, lambda fl: check_field(T, ctx, fl, lens, want, defined, 'curl.mean-of.'), lens, {}, want, defined, mode or 'MAX', 'curl.', True)
    T.run(go)


C = 'at every position the curl is d(second component)/d(long) - d(first component)/d(lat) (central differences, one-sided at the ends), missing where a value needed is missing; '
FORMS = ((DF, ('lat', 'long'), 'table'), (DSET, ('lat', 'long'), 'grid lat x long'), (DSET, ('long', 'lat'), 'grid long x lat'))
for form, order, fn in FORMS:
    for mode, mn, words in (('field', 'field', 'one value per position, or not-a-number when there are fewer than 2 latitudes or longitudes or every value is missing'),
                            (None, 'default', 'collapsed: the value of largest magnitude'), ('MEAN', 'mean', 'collapsed: the mean of the values present'),
                            ('OTHER', 'unknown aggregate', 'an unknown aggregate is refused')):
        for given in ((False, True) if mode == 'field' else (False,)):
            task('C28', f'curl, {fn}, {mn}{", data given" if given else ""}', C + words, assumptions=ASM)(lambda T, x=(form, order, mode, given): curl(T, *x))


# ------------------------------------------------------------------ difference from the mean vector
def dmag(T, form, mode, given):
    ip, ctx = T.interp(dict(TRIM)), T.ctx

    def go():
        r = Rect(ctx, 'cell', T=T)
        b = boundary(ip, r)
        cols = CLS['vector'][2]
        sp = points(ctx, 'pt', cols)
        has = z3.Function('pt_in_data', I_, B_)
        inn = lambda p: z3.And(has(p), in_rect(sp, p, (r.lat0, r.lat1, r.lo, r.hi)))
        data = Data(sp, [lambda p: has(p)], form, ('lat', 'long'), cols)
        sub = data.like([inn])
        mn, mean = (ctx.bool('mean_u_missing'), ctx.bool('mean_w_missing')), (ctx.real('mean_u'), ctx.real('mean_w'))

        def value(ip, f, a, k):
            """contract of get_value (C13)"""
            bb = k.get('bounds', a[1] if len(a) > 1 else None)
            ag = k.get('agg_type', a[2] if len(a) > 2 else None)
            d = k.get('data', a[4] if len(a) > 4 else None)
            ctx.oblige('dmag.mean-over-the-cell', same_rect(read_rect(ip, bb), r))
            ctx.oblige('dmag.mean-vector', ag == 'MEAN')
            ctx.oblige('dmag.mean-of-the-data', d is None or (isinstance(d, Data) and d.space is sp))
            return PyDict([('w', NaNable(mn[0], mean[0])), ('u', NaNable(mn[1], mean[1]))])
        ip.contracts[VC + ':' + V + 'get_value'] = value
        L = loader(ip, 'vector', data, aggregate_type='MAX')
        kw = dict(data=sub) if given else {}
        if mode == 'field':
            kw['collapse'] = False
        elif mode:
            kw['agg_type'] = mode
        k, out = T.calls(ip, (VC, V + 'calc_dmag'), [L, b], kw)

        def want(ix):
            p = ix['row']
            (nu, u), (nw, w) = sp.col('w')(p), sp.col('u')(p)
            return z3.Or(nu, nw, *mn), norm(u - mean[0], w - mean[1])
        dom = lambda p: z3.And(sp.facts(p), sp.live(p), inn(p))
        defined = rv(sp.count([inn], lambda p: z3.Not(want(dict(row=p))[0]))) > 0
        if mode not in ('field', 'MAX', 'MEAN', None):
            if k == 'raise':
                ctx.oblige('dmag.refused-only-when-defined', defined)
                T.cover('refused')
            else:
                ctx.oblige('dmag.unknown-aggregate-accepted', isinstance(out, NaNable) and out.nan is True)
                ctx.oblige('dmag.undefined', z3.Not(defined))
            return
        ctx.oblige('dmag.no-error', k == 'ok')
        if k != 'ok':
            return
        lens = dict(row=sp.count([inn]))
        if mode == 'field':
            check_rows(T, ctx, out, dom, want, defined, 'dmag.')
        else:
            check_one(T, ctx, out, lambda fl: check_rows(T, ctx, fl, dom, want, defined, 'dmag.mean-of.'), lens, dict(row=dom), want, defined, mode or 'MEAN', 'dmag.', False)
    T.run(go)


def check_rows(T, ctx, out, dom, want, defined, pre):
    check_field(T, ctx, out, dict(row=None), want, defined, pre)
    if isinstance(out, Field) and 'row' in out.doms:
        p = ctx.int('some_row')
        ctx.oblige(pre + 'the-points-of-the-cell', zb(out.doms['row'](p)) == zb(dom(p)))


C = 'one value per point of the cell: the length of (vector - mean vector of the cell), missing where a component is; not-a-number when there is none; '
for form, fn in ((DF, 'table'), (DSET, 'grid')):
    for mode, mn, words in (('field', 'field', 'the array of these'), (None, 'default', 'collapsed: the mean of the values present'), ('MAX', 'max', 'collapsed: the largest value'),
                            ('OTHER', 'unknown aggregate', 'an unknown aggregate is refused')):
        for given in ((False, True) if mode == 'field' else (False,)):
            task('C28', f'dmag, {fn}, {mn}{", data given" if given else ""}', C + words, assumptions=ASM + ['get_value by its contract (C13), trim_datapoints by its contract (C11)'])(
                lambda T, x=(form, mode, given): dmag(T, *x))


# ------------------------------------------------------------------ magnitude and direction
def magdir(T, form, given, named):
    ip, ctx = T.interp(), T.ctx

    def go():
        cols = ('u', 'w', 'a', 'b')
        sp = points(ctx, 'pt', cols)
        has = z3.Function('pt_in_data', I_, B_)
        data = Data(sp, [lambda p: has(p)], form, ('lat', 'long'), cols)
        other = Data(sp, [lambda p: z3.BoolVal(False)], form, ('lat', 'long'), cols)
        L = loader(ip, 'vector', other if given else data)
        kw = {}
        if given:
            kw['data'] = data
        if named:
            kw['data_names'] = PyList(['a', 'b'])
        k, out = T.calls(ip, (VC, V + 'add_mag_dir'), [L], kw)
        ctx.oblige('magnitude.no-error', k == 'ok')
        if k != 'ok':
            return
        ctx.oblige('magnitude.data-set', isinstance(out, Data) and out.space is sp and out.kind is form)
        p = ctx.int('point')
        live = z3.And(sp.facts(p), sp.live(p))
        ctx.oblige('magnitude.same-points', z3.Implies(live, sp.mult(out.pieces, p) == z3.If(has(p), 1, 0)))
        x, y = ('a', 'b') if named else ('w', 'u')
        (nx, vx), (ny, vy) = sp.col(x)(p), sp.col(y)(p)
        for c in ('lat', 'long') + cols:
            got = out.column(c)
            w = sp.col(c)(p) if c in cols else sp.coord(c)(p)
            ctx.oblige('magnitude.other-columns-unchanged', got is not None)
            if got is not None:
                n, v = got.val(p)
                ctx.oblige('magnitude.other-columns-unchanged', z3.Implies(live, z3.And(zb(n) == zb(w[0]), as_real(rv(v)) == as_real(rv(w[1])))))
        for c, want in (('_magnitude', norm(vx, vy)), ('_direction', ATAN2(vy, vx))):
            got = out.column(c)
            ctx.oblige(f'magnitude.column{c}', got is not None)
            if got is not None:
                n, v = got.val(p)
                ctx.oblige(f'magnitude.missing{c}', z3.Implies(z3.And(live, has(p)), zb(n) == z3.Or(nx, ny)))
                ctx.oblige(f'magnitude.value{c}', z3.Implies(z3.And(live, has(p), z3.Not(nx), z3.Not(ny)), as_real(rv(v)) == want))
        T.cover('end')
    T.run(go)


C = 'every point gets the length and the direction (arctan2 of second over first component) of its own vector, missing where a component is; everything else stays'
for form, fn in ((DF, 'table'), (DSET, 'grid')):
    for given, named in ((False, False), (True, False), (True, True), (False, True)):
        task('C28', f'magnitude and direction, {fn}{", data given" if given else ""}{", names given" if named else ""}', C,
             assumptions=ASM[:1] + ASM[2:] + ['the variables of a grid share the order of its dimensions'])(lambda T, x=(form, given, named): magdir(T, *x))
