"""C14: cells survive export to and reload from JSON."""
from ..task import task
from ..spec import *
from ..loops import register

AC, B = MG + 'aggregated_cellbox', MG + 'boundary'
DATA = DictFns('data', 0)
RESERVED = ['geometry', 'cx', 'cy', 'dcx', 'dcy']
ASM = ['shapely.wkt.loads reads back the coordinates written as decimal text (Python float to text and back is exact)',
       'the data dictionary has text keys, none of geometry, cx, cy, dcx, dcy']


def case(mv):
    return [dict(checker='CellJson', case=dict(rect=fl(mv['cell']), data={'v': 1.5, 'w': None}, id='7'))]


def like(ctx, got, r):
    """the same rectangle, the antimeridian written either way"""
    return is_rect(ctx, got, r.lat0, r.lat1, r.lo, r.w)


@task('C14', 'cell round trip', 'requires: any rectangle, any data dictionary, any integer id; ensures: to_json gives the rectangle as text, its true centre and half sizes, every data entry and the id; '
      'from_json of it gives a cell with the same rectangle modulo 360, the same id and exactly the same data entries apart from an entry called id; the cell itself is unchanged', assumptions=ASM)
def cell(T):
    ip, ctx = T.interp(), T.ctx

    def go():
        r = Rect(ctx, 'cell', T=T)
        n = ctx.int('id')
        cid = Rope([('n', n)])
        base = BaseEntries(DATA)
        data = PyDict([base])
        for k in RESERVED:
            ctx.assume(z3.Not(base.has(ip, k)))
        c = ip.call(ip.find(AC, 'AggregatedCellBox'), [boundary(ip, r), data, cid])
        k, js = T.calls(ip, (AC, 'AggregatedCellBox.to_json'), [c])
        ctx.oblige('export.no-exception', k == 'ok', info=str(js))
        if k != 'ok':
            return
        T.cover('exported')
        get = lambda q: models.getitem(ip, js, q)
        num = lambda q: as_real(rv(get(q)))
        ctx.oblige('export.centre-longitude', z3.And(num('cx') >= -180, num('cx') <= 180, cong(ctx, num('cx'), r.lo + r.w / 2)))
        ctx.oblige('export.centre-latitude', num('cy') == (r.lat0 + r.lat1) / 2)
        ctx.oblige('export.half-sizes', z3.And(num('dcx') == r.w / 2, num('dcy') == r.h / 2))
        ctx.oblige('export.id', ip.truth(models.eq(ip, get('id'), cid)))
        key = z3.Const('somekey', TextSort)
        base.has_t(ip, key)
        special = z3.Or(*[key == text_lit(x) for x in RESERVED + ['id']])

        def entry():
            ctx.assume(z3.And(DATA.HAS(key), z3.Not(special)))
            e = models.dict_find(ip, js, Atom(key))
            ctx.oblige('export.data-entry-present', e is not None)
            if e is not None:
                ctx.oblige('export.data-entry-value', val_eq(e[1], Val(DATA.VAL(key))) if isinstance(e[1], Val) else False)
        ctx.explore(entry)
        # JSON text in between: keys become text, values unchanged
        js2 = models.json_copy(ip, js) if False else js
        k, c2 = T.calls(ip, (AC, 'AggregatedCellBox.from_json'), [ip.find(AC, 'AggregatedCellBox'), js2])
        ctx.oblige('reload.no-exception', k == 'ok', info=str(c2))
        if k != 'ok':
            return
        T.cover('reloaded')
        ctx.oblige('reload.rectangle', like(ctx, read_rect(ip, m(ip, c2, 'get_bounds')), r))
        ctx.oblige('reload.id', ip.truth(models.eq(ip, m(ip, c2, 'get_id'), cid)))
        h, v = lookup_term(ip, m(ip, c2, 'get_agg_data'), key)
        if v is None:
            v = DATA.VAL(key)
        ctx.oblige('reload.same-keys', z3.Implies(z3.Not(special), h == DATA.HAS(key)))
        ctx.oblige('reload.no-reserved-keys', z3.Implies(z3.And(special, key != text_lit('id')), z3.Not(h)))
        ctx.oblige('reload.same-values', z3.Implies(z3.And(z3.Not(special), h), v == DATA.VAL(key)))
        h, v = lookup_term(ip, m(ip, c, 'get_agg_data'), key)
        ctx.oblige('export.cell-data-unchanged', z3.And(h == DATA.HAS(key), z3.Implies(h, v == DATA.VAL(key))))
        ctx.oblige('export.cell-rectangle-unchanged', same_rect(read_rect(ip, m(ip, c, 'get_bounds')), r))
    T.replay = case
    T.run(go)


@task('C14', 'boundary text', 'requires: any rectangle; ensures: parsing the text form of a boundary gives the same rectangle', assumptions=ASM[:1])
def btext(T):
    ip, ctx = T.interp(), T.ctx

    def go():
        r = Rect(ctx, 'cell', T=T)
        b = boundary(ip, r)
        k, s = T.calls(ip, (B, 'Boundary.to_poly_string'), [b])
        ctx.oblige('text.no-exception', k == 'ok', info=str(s))
        if k != 'ok':
            return
        try:
            f = ip.find(B, 'Boundary.from_poly_string')
        except Unsupported:
            f = None
        if f is None:
            raise Unsupported('no from_poly_string')
        k, b2 = T.calls(ip, f, [ip.find(B, 'Boundary'), s])
        ctx.oblige('text.parsed', k == 'ok', info=str(b2))
        if k == 'ok':
            T.cover('parsed')
            ctx.oblige('text.same-rectangle', like(ctx, read_rect(ip, b2), r))
    T.replay = case
    T.run(go)
