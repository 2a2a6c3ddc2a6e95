"""C22: updating a cell by index."""
from ..task import task
from ..spec import *
from ..loops import register

EM = MG + 'environment_mesh'
F = CellFns()
DATA, VALUES = DictFns('data'), DictFns('values', 0)


@task('C22', 'update_cellbox', 'requires: any number of cells with any data, any integer index, any values dictionary with text keys; '
      'ensures: 0 <= index < number of cells: for every cell and key the entry is the given value if the cell is the indexed one and the key is in values, else unchanged, '
      'rectangles, ids, number and order of cells unchanged; otherwise ValueError and nothing changed')
def update(T):
    ip, ctx = T.interp(), T.ctx

    def go():
        n, ix = ctx.int('n'), ctx.int('index')
        ctx.assume(n >= 0)
        T.input('n', n)
        T.input('ix', ix)
        seg = template_seg(ip, n, lambda t: agg_cell(ip, F, t, lambda t: PyDict([BaseEntries(DATA, t)])), F.valid, 'cells')
        mesh = mesh_of(ip, seg)
        values = PyDict([BaseEntries(VALUES)])
        l0 = ip.getattr(mesh, 'agg_cellboxes')
        k, out = T.calls(ip, (EM, 'EnvironmentMesh.update_cellbox'), [mesh, ix, values])
        ok = z3.And(ix >= 0, ix < n)
        if k == 'ok':
            ctx.oblige('update.accepted-only-if-valid', ok)
        else:
            ctx.oblige('update.rejected-only-if-invalid', z3.Not(ok))
            ctx.oblige('update.rejected-with-ValueError', isinstance(out, ExcVal) and out.cls is ValueError, info=str(out))
        l1 = ip.getattr(mesh, 'agg_cellboxes')
        ctx.oblige('update.same-number-of-cells', rv(models.length(ip, l1)) == n)
        key = z3.Const('somekey', TextSort)
        vh, vv = lookup_term(ip, values, key)
        ctx.oblige('update.values-unchanged', z3.And(vh == VALUES.HAS(key), z3.Implies(vh, vv == VALUES.VAL(key))))

        def check(x, hit):
            c = models.seq_index(ip, l1, x)
            got = read_rect(ip, m(ip, c, 'get_bounds'))
            ctx.oblige('update.rectangles-unchanged', z3.And(*[a == b for a, b in zip(got, F.rect(rv(x)))]))
            ctx.oblige('update.ids-unchanged', ip.truth(models.eq(ip, m(ip, c, 'get_id'), Rope([('n', F.id(rv(x)))]))))
            d = m(ip, c, 'get_agg_data')
            h, v = lookup_term(ip, d, key)
            oh, ov = DATA.HAS(rv(x), key), DATA.VAL(rv(x), key)
            if hit:
                ctx.oblige('update.entries-of-the-indexed-cell', z3.And(h == z3.Or(oh, vh), z3.Implies(h, v == z3.If(vh, VALUES.VAL(key), ov))))
            else:
                ctx.oblige('update.entries-of-other-cells', z3.And(h == oh, z3.Implies(h, v == ov)))

        def indexed():
            ctx.assume(ok)
            T.cover('valid index')
            check(ix, k == 'ok')

        def other():
            x = ctx.int('x')
            ctx.assume(z3.And(x >= 0, x < n, x != ix))
            T.cover('other cell')
            check(x, False)

        for f in (indexed, other):
            ctx.explore(f)
    T.replay = lambda mv: [dict(checker='Update', case=dict(g=dict(kind='plain', lat_min=0, lat_max=1, long_min=0, long_max=k, cw=1, ch=1, rows=1, cols=k), idx=i, values={'p': 1.0, 'v': 5.0}))
                           for k in [max(1, min(20, int(mv['n'])))] for i in [int(mv['ix'])]]
    T.run(go)
