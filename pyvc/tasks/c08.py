"""C08: the split decision combines the homogeneity verdicts as documented."""
from ..task import task
from ..spec import *
from ..loops import forall_items, register

CB = MG + 'cellbox'
I, Rl = z3.IntSort(), z3.RealSort()
V = z3.Function('verdict', I, I, I, I, Rl, Rl, Rl, Rl, TextSort)      # loader, condition (source, number), data, bounds
NC = z3.Function('nconds', I, I)


def hom(ip, s, a, k):
    a = list(a) + [None] * (3 - len(a))
    b, cond, data = k.get('bounds', a[0]), k.get('splitting_conds', a[1]), k.get('data', a[2])
    if not isinstance(cond, Term) or cond.kind != 'cond' or not (data is None or isinstance(data, Term)):
        raise Unsupported('get_hom_condition with other arguments')
    return Atom(V(rv(s.args[0]), rv(cond.args[0]), rv(cond.args[1]), rv(data.args[0]) if data is not None else z3.IntVal(-1), *read_rect(ip, b)))


def verdict_seg(n, rect):
    def fn(ctx, i):
        s = Seg(RangeDom(NC(i)), lambda ctx, j: [(True, V(i, i, j, i, rect.lat0, rect.lat1, rect.lo, rect.hi))], 'verdicts')
        ctx.once(('nc', i.get_id()), NC(i) >= 0)
        return [(True, s)]
    return Seg(RangeDom(n), fn, 'all verdicts')


def run(T, entry):
    ip, ctx = T.interp(), T.ctx
    MD = ip.find(MG + 'metadata', 'Metadata')

    def go():
        r = Rect(ctx, 'cell', T=T)
        n, stop = ctx.int('nsrc'), ctx.int('stop')
        ctx.assume(z3.And(n >= 0, stop >= 0, stop <= n))
        cell = any_cell(ip, ip.call(ip.find(CB, 'CellBox'), [boundary(ip, r), 'P']), z3.IntVal(0))

        def fn(ctx, i):
            ctx.assume(NC(i) >= 0)
            cs = Seg(RangeDom(NC(i)), lambda ctx, j: [(True, Term('cond', i, j))], 'conditions')
            cs.uniform = 1
            return [(True, ip.call(MD, [loader_term(i, get_hom_condition=hom), PyList([cs]), Term('fill', i), Term('data', i)]))]
        s = Seg(RangeDom(n), fn, 'data sources')
        s.uniform = 1
        m(ip, cell, 'set_data_source', PyList([s]))
        bf = entry != 'should_split'
        k, out = T.calls(ip, (CB, 'CellBox.' + entry), [cell] if bf else [cell, stop])
        ctx.oblige('decision.no-exception', k == 'ok', info=str(out))
        if k != 'ok':
            return
        ctx.oblige('decision.is-bool', isinstance(out, (bool, z3.BoolRef)))
        lim = n if bf else stop
        vs = verdict_seg(lim, r)
        HOM, MIN, CLR = text_lit('HOM'), text_lit('MIN'), text_lit('CLR')
        i, j = ctx.int('i'), ctx.int('j')
        v = V(i, i, j, i, r.lat0, r.lat1, r.lo, r.hi)

        def some():
            ctx.assume(z3.And(i >= 0, i < lim, NC(i) >= 0, j >= 0, j < NC(i)))
            register(ip, i)
            register(ip, j)

        def yes1():
            ctx.assume(zb(out))
            some()
            T.cover('asks to be split')
            ctx.oblige('decision.split-implies-no-HOM-no-MIN', z3.And(v != HOM, v != MIN))

        def yes2():
            ctx.assume(zb(out))
            forall_items(ip, vs, True, lambda x: x == CLR)
            ctx.oblige('decision.split-implies-some-not-CLR', False)

        def no():
            ctx.assume(zb(bnot(out)))
            some()
            ctx.assume(v != CLR)
            T.cover('does not ask, some condition not CLR')
            forall_items(ip, vs, True, lambda x: z3.And(x != HOM, x != MIN))
            ctx.oblige('decision.no-split-implies-HOM-MIN-or-all-CLR', False)
        for f in (yes1, yes2, no):
            ctx.explore(f)
    T.run(go)


C = ('requires: any cell, any number of data sources with any number of conditions each, any verdicts; '
     'ensures: True exactly when no verdict among the considered conditions is HOM or MIN and at least one is not CLR, '
     'verdicts being those of the source\'s loader for the cell bounds, that condition and the source\'s own data subset')
for e in ('should_split', 'should_split_breadth_first'):
    task('C08', e, C, assumptions=['loaders abstracted by the verdict they return for given bounds, condition and data (C09)'])(lambda T, e=e: run(T, e))
