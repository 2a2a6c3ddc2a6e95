"""C01: subdividing a cell during construction tiles it exactly (CellBox.split)."""
from ..task import task
from ..spec import *

CB = MG + 'cellbox'


def trim(ip, s, a, k):
    b = a[0]
    data = k.get('data', a[1] if len(a) > 1 else None)
    got = read_rect(ip, b)
    return Term('trimmed', s.args[0], *got, data)


def loader(i):
    return Term('loader', i, trim_datapoints=method(trim), data_name=lambda ip, s: Atom(z3.Function('dname', z3.IntSort(), TextSort)(rv(s.args[0]))))


def sources(ip, n):
    MD = ip.find(MG + 'metadata', 'Metadata')

    def fn(ctx, i):
        return [(True, ip.call(MD, [loader(i), Term('conds', i), Term('fill', i), Term('data', i)]))]
    s = Seg(RangeDom(n), fn, 'data sources')
    s.uniform = 1
    return PyList([s])


def split_contract(with_time):
    def run(T):
        ip, ctx = T.interp(), T.ctx
        T.replay = lambda mo: [dict(checker='SplitCell', case=dict(rect=fl(mo['cell']), time=['2013-03-01', '2013-03-14'] if with_time else None, depth=max(0, mo['depth']), start=max(0, mo['start']), nsrc=2))]

        def go():
            r = Rect(ctx, 'cell', T=T)
            depth, start, n = T.input('depth', ctx.int('depth')), T.input('start', ctx.int('start')), ctx.int('nsrc')
            ctx.assume(z3.And(depth >= 0, start >= 0, n >= 0))
            tm = times(ctx) if with_time else None
            b = boundary(ip, r, tm)
            cell = any_cell(ip, ip.call(ip.find(CB, 'CellBox'), [b, 'P']), z3.IntVal(0))
            m(ip, cell, 'set_split_depth', depth)
            src = sources(ip, n)
            m(ip, cell, 'set_data_source', src)
            k, out = T.calls(ip, (CB, 'CellBox.split'), [cell, start])
            ctx.oblige('split.no-exception', k == 'ok', info=str(out))
            if k != 'ok':
                return
            kids = ip.unpack(out)
            ctx.oblige('split.four-children', len(kids) == 4)
            if len(kids) != 4:
                return
            hw, hh, mid = r.w / 2, r.h / 2, r.lat0 + r.h / 2
            want = dict(nw=(mid, r.lat1, r.lo), ne=(mid, r.lat1, r.lo + hw), sw=(r.lat0, mid, r.lo), se=(r.lat0, mid, r.lo + hw))
            j = ctx.int('j')
            for q, (name, c) in enumerate(zip(('nw', 'ne', 'sw', 'se'), kids)):
                cb = m(ip, c, 'get_bounds')
                got = read_rect(ip, cb)
                ctx.oblige(f'split.{name}.rectangle', is_rect(ctx, got, *want[name], hw))
                ctx.oblige(f'split.{name}.size-getters', z3.And(as_real(rv(m(ip, cb, 'get_width'))) == hw, as_real(rv(m(ip, cb, 'get_height'))) == hh))
                ctx.oblige(f'split.{name}.crosses-only-if-the-cell-does', z3.Implies(r.lo < r.hi, got[2] < got[3]))
                ctx.oblige(f'split.{name}.id', zb(ip.truth(models.eq(ip, m(ip, c, 'get_id'), Rope([('n', simp(start + q))])))))
                ctx.oblige(f'split.{name}.depth', rv(m(ip, c, 'get_split_depth')) == depth + 1)
                ctx.oblige(f'split.{name}.parent', m(ip, c, 'get_parent') is cell)
                tr = m(ip, cb, 'get_time_range')
                ctx.oblige(f'split.{name}.time-range', zb(ip.truth(models.eq(ip, tr, PyList(tm or [])))))
                ds = m(ip, c, 'get_data_source')
                ctx.oblige(f'split.{name}.sources-count', zb(ip.truth(models.eq(ip, models.length(ip, ds), norm(n)))))
                def one():
                    ctx.assume(z3.And(j >= 0, j < n))
                    s = ip.getitem(ds, j)
                    ctx.oblige(f'split.{name}.source-loader', zb(m(ip, s, 'get_data_loader').eq(ip, loader(j))))
                    ctx.oblige(f'split.{name}.source-conditions', zb(m(ip, s, 'get_splitting_conditions').eq(ip, Term('conds', j))))
                    ctx.oblige(f'split.{name}.source-fill', zb(m(ip, s, 'get_value_fill_type').eq(ip, Term('fill', j))))
                    ctx.oblige(f'split.{name}.source-data', zb(m(ip, s, 'get_data_subset').eq(ip, Term('trimmed', j, *got, Term('data', j)))))
                    T.cover(f'{name} data source')
                ctx.explore(one)
            ctx.oblige('split.original-unchanged', z3.And(same_rect(read_rect(ip, m(ip, cell, 'get_bounds')), r), rv(m(ip, cell, 'get_split_depth')) == depth,
                                                          zb(m(ip, cell, 'get_id') == 'P')))
            ctx.oblige('split.original-sources', m(ip, cell, 'get_data_source') is src and len(src.segs) == 1)
        T.run(go)
    return run


C = ('requires: a cell with lat_min<lat_max, 0<width<360 (any longitudes in [-180,180], crossing or not), depth>=0, any number of data sources; '
     'ensures: children nw,ne,sw,se are the quarters modulo 360 with longitudes in [-180,180], ids start..start+3 as text, depth+1, parent the cell, '
     'the time range, and per source loader/conditions/fill kept and data = trim(child bounds, cell data); frame: bounds, id, depth, sources of the cell')
task('C01', 'CellBox.split', C, assumptions=['data loaders abstracted by their trim_datapoints call (C11)'])(split_contract(False))
task('C01', 'CellBox.split (time range)', C)(split_contract(True))
