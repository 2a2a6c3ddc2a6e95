"""C09: the homogeneity verdict follows the thresholds and bounds of the condition."""
from ..task import task
from ..spec import *
from ..data import Space, Data, Arr, DF, DSET, restrict
from .c11 import SC, VC, CLS, in_rect, points, loader

ASM = ['pandas / xarray / numpy: comparison with a number (False for missing values), selection by a mask, isnan, count_nonzero, sum of a mask, len, shape, size and Dataset.count act point by point',
       'trim_datapoints by its contract (C11)']


def trim_contract(ip, f, a, k):
    a = list(a) + [None] * (3 - len(a))
    b, d = k.get('bounds', a[1]), k.get('data', a[2])
    if d is None:
        d = a[0].d['data']
    rr = read_rect(ip, b)
    return d.like(restrict(d.pieces, lambda p: in_rect(d.space, p, rr)))


TRIM = {SC + ':ScalarDataLoader.trim_datapoints': trim_contract, VC + ':VectorDataLoader.trim_datapoints': trim_contract}


def condition(ctx, T, lock):
    th, lo, up = ctx.real('threshold'), ctx.real('lower'), ctx.real('upper')
    T.input('sc', [th, lo, up])
    ents = [('threshold', th), ('lower_bound', lo), ('upper_bound', up)]
    lk = z3.BoolVal(False)
    if lock == 'set':
        lk = ctx.bool('locked')
        ents.append(('split_lock', lk))
    return PyDict(ents), th, lo, up, lk


def verdict(over, total, small, lo, up, lk):
    """(verdict, condition) pairs of the specification"""
    f = z3.If(total > 0, z3.ToReal(over) / z3.ToReal(total), z3.RealVal(0))
    low = z3.Or(small, f <= lo)
    return {'CLR': z3.Or(low, z3.And(f >= up, z3.Not(lk))), 'HOM': z3.And(z3.Not(low), f >= up, lk), 'HET': z3.And(z3.Not(low), f < up)}


def check(T, ctx, k, out, want):
    ctx.oblige('verdict.no-exception', k == 'ok', info=str(out))
    if k != 'ok':
        return
    if isinstance(out, Atom):
        for v, c in want.items():
            ctx.oblige('verdict.' + v, z3.Implies(c, out.t == text_lit(v)))
        return
    ctx.oblige('verdict.is-one-of-CLR-HOM-HET', isinstance(out, str) and out in want, info=repr(out))
    if isinstance(out, str) and out in want:
        T.cover(f'verdict {out}')
        ctx.oblige('verdict.' + out + '-only-when-documented', want[out])


def scalar(T, form, lock, given):
    ip, ctx = T.interp(TRIM), T.ctx

    def go():
        r = Rect(ctx, 'cell', T=T)
        b = boundary(ip, r)
        sp = points(ctx, 'pt', ('v',))
        has = z3.Function('pt_in_data', z3.IntSort(), z3.BoolSort())
        data = Data(sp, [lambda p: has(p)], form, ('lat', 'long'), ('v',))
        inn = (lambda p: has(p)) if given else (lambda p: z3.And(has(p), in_rect(sp, p, (r.lat0, r.lat1, r.lo, r.hi))))
        mind = ctx.int('min_dp')
        sc, th, lo, up, lk = condition(ctx, T, lock)
        na, v = sp.cols['v']
        n = rv(sp.count([inn]))
        tot = rv(sp.count([inn], lambda p: z3.Not(na(p))))
        over = rv(sp.count([inn], lambda p: z3.And(z3.Not(na(p)), v(p) > th)))
        for x, y in (('n', n), ('tot', tot), ('over', over), ('min_dp', mind)):
            T.input(x, y)
        L = loader(ip, 'scalar', Data(sp, [lambda p: z3.BoolVal(False)], form, ('lat', 'long'), ('v',)) if given else data, min_dp=mind)
        k, out = T.calls(ip, (SC, 'ScalarDataLoader.get_hom_condition'), [L, b, sc], dict(data=data) if given else {})
        check(T, ctx, k, out, verdict(over, tot, n < mind, lo, up, lk))

    def case(mv):
        n, tot, over = int(mv['n']), int(mv['tot']), int(mv['over'])
        th, lo, up = fl(mv['sc'])
        if not 0 <= n <= 400:
            return []
        vals = [th + 1] * over + [th] * (tot - over) + [None] * (n - tot)
        out = []
        for lk in ([True, False] if lock == 'set' else [None]):
            s = dict(threshold=th, lower_bound=lo, upper_bound=up)
            if lk is not None:
                s['split_lock'] = lk
            out += [dict(checker='HomScalar', case=dict(ny=1 if n else 0, nx=n, vals=vals, min_dp=int(mv['min_dp']), sc=s, withdata=w)) for w in (given, not given)]
        return out
    T.replay = case
    T.run(go)


C = ('requires: any cell, data set, minimum count, threshold and bounds; ensures: CLR when the cell holds fewer points than the minimum; otherwise, with f the share of non-missing points above the threshold (0 if there is none), '
     'CLR when f <= lower bound, HOM (locked) or CLR (not locked) when f >= upper bound, HET in between')
for form, fn in ((DF, 'table'), (DSET, 'grid')):
    for lock in ('set', 'missing'):
        for given in (True, False):
            task('C09', f'scalar {fn}, lock {lock}{", data given" if given else ""}', C, assumptions=ASM)(lambda T, a=(form, lock, given): scalar(T, *a))


# ------------------------------------------------------------------ vector data
def vector(T, form, which, lock, given):
    ip, ctx = T.interp(dict(TRIM)), T.ctx

    def go():
        r = Rect(ctx, 'cell', T=T)
        b = boundary(ip, r)
        rr = (r.lat0, r.lat1, r.lo, r.hi)
        cols = CLS['vector'][2]
        sp = points(ctx, 'pt', cols)
        has = z3.Function('pt_in_data', z3.IntSort(), z3.BoolSort())
        data = Data(sp, [lambda p: has(p)], form, ('lat', 'long'), cols)
        inn = lambda p: z3.And(has(p), in_rect(sp, p, rr))
        mind = ctx.int('min_dp')
        inner, th, lo, up, lk = condition(ctx, T, lock)
        sc = PyDict([(which, inner)])
        fs = Space(ctx, 'flow', ('f',))
        defined = ctx.bool('flow_defined')

        def flow(name):
            def con(ip, f, a, k):
                """contract of calc_curl / calc_dmag with collapse=False: the flow quantity over the given bounds, or not-a-number"""
                a = list(a)
                bb = k.get('bounds', a[1] if len(a) > 1 else None)
                d = k.get('data', a[2] if len(a) > 2 else None)
                col = k.get('collapse', a[3] if len(a) > 3 else True)
                ctx.oblige('flow.quantity-of-the-condition', name == which)
                ctx.oblige('flow.of-every-point', col is False)
                ctx.oblige('flow.of-the-cell', same_rect(read_rect(ip, bb), r))
                if d is not None and d is not sub:
                    p = ctx.int('point')
                    ctx.oblige('flow.of-the-data-in-the-cell', z3.Implies(z3.And(sp.facts(p), sp.live(p)), sp.mult(d.pieces, p) == z3.If(inn(p), 1, 0)))
                if ctx.branch(defined):
                    return Arr(fs, [lambda p: z3.BoolVal(True)], fs.col('f'), TYPES['ndarray'])
                return NaNable(True, 0)
            return con
        ip.contracts.update({VC + ':VectorDataLoader.calc_' + n: flow(n) for n in ('curl', 'dmag')})
        na, v = fs.cols['f']
        every = lambda p: z3.BoolVal(True)
        tot = rv(fs.count([every], lambda p: z3.Not(na(p))))
        over = rv(fs.count([every], lambda p: z3.And(z3.Not(na(p)), v(p) > th)))
        if form is DF:
            small = rv(sp.count([inn])) < mind
        else:
            small = z3.Or(*[rv(sp.count([inn], (lambda c: lambda p: z3.Not(sp.cols[c][0](p)))(c))) < mind for c in cols])
        sub = data.like([inn])
        L = loader(ip, 'vector', data, min_dp=mind)
        k, out = T.calls(ip, (VC, 'VectorDataLoader.get_hom_condition'), [L, b, sc], dict(data=sub) if given else {})
        w = verdict(over, tot, small, lo, up, lk)
        w = {'CLR': z3.Or(z3.Not(defined), w['CLR']), 'HOM': z3.And(defined, w['HOM']), 'HET': z3.And(defined, w['HET'])}
        check(T, ctx, k, out, w)
    T.run(go)


for form, fn in ((DF, 'table'), (DSET, 'grid')):
    for which in ('curl', 'dmag'):
        for lock in ('set', 'missing'):
            task('C09', f'vector {fn}, {which}, lock {lock}', C.replace('points above', 'values of the flow quantity above') + '; CLR when the flow quantity is undefined',
                 assumptions=ASM + ['calc_curl / calc_dmag give the flow quantity of the cell as an array of values some of which may be missing, or not-a-number when it is undefined'])(
                lambda T, a=(form, which, lock, lock == 'set'): vector(T, *a))
