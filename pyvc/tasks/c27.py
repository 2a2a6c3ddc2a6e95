"""C27: building the environment mesh refines to the configured depth, then aggregates every remaining cell once, in order."""
from ..task import task
from ..spec import *
from ..loops import register

MB, CB = MG + 'mesh_builder', MG + 'cellbox'
I = z3.IntSort()
LIVE = z3.Function('still_a_cell', I, z3.BoolSort())     # positions of cells that were split hold no cell


class Ghost(Heap):
    pass


def build(T):
    ip, ctx = T.interp(), T.ctx

    def go():
        n0, n, limit = ctx.int('ncells_before'), ctx.int('ncells'), ctx.int('limit')
        ctx.assume(z3.And(n0 >= 1, n >= n0, limit >= 0))
        fns = CellFns()
        CBX, A = ip.find(CB, 'CellBox'), ip.find(MG + 'aggregated_cellbox', 'AggregatedCellBox')
        cell = lambda t: any_cell(ip, ip.call(CBX, [boundary(ip, RectOf(fns, t)), Rope([('n', fns.id(t))])]), t)
        old = template_seg(ip, n0, cell, fns.valid, 'initial cells')
        base = template_seg(ip, n, cell, fns.valid, 'cells')

        def fn(ctx, i):
            l = LIVE(i)
            return [(l, base.items(ctx, i)[0][1]), (z3.Not(l), None)]
        seg = Seg(RangeDom(n), fn, 'cells')
        seg.uniform = 1
        cells = PyList([old])
        g = Ghost()
        g.d.update(calls=0)
        region, graph, config = boundary(ip, Rect(ctx, 'region', T=T)), Term('graph'), PyDict()
        mesh = ip.call(ip.find(MG + 'mesh', 'Mesh'), [region, cells, graph, limit])
        b = Obj(ip.find(MB, 'MeshBuilder'), dict(mesh=mesh, config=config, neighbour_graph=graph))
        aggs = {}

        def refine(ip, f, a, kw):
            """contract of split_to_depth (C10, C06): the same list then holds the refined cells, the graph is updated in place"""
            d = a[1] if len(a) > 1 else kw['split_depth']
            ctx.oblige('build.refines-to-the-configured-depth', is_num(d) and rv(d) == limit)
            ctx.oblige('build.refines-once', g.d['calls'] == 0)
            ctx.write(g, 'calls', g.d['calls'] + 1)
            ctx.write(cells, 'segs', (seg,))

        def aggregate(ip, f, a, kw):
            """contract of CellBox.aggregate (C12): an aggregated cell with the cell's bounds and id"""
            ctx.oblige('build.aggregates-after-refining', g.d['calls'] == 1)
            o = a[0]
            i = ip.getattr(o, 'id')
            return Term('aggregated', i, m(ip, o, 'get_bounds'))
        ip.contracts = {MB + ':MeshBuilder.split_to_depth': refine, CB + ':CellBox.aggregate': aggregate}
        k, out = T.calls(ip, (MB, 'MeshBuilder.build_environmental_mesh'), [b])
        ctx.oblige('build.no-exception', k == 'ok', info=str(out))
        if k != 'ok':
            return
        ctx.oblige('build.an-environment-mesh', isinstance(out, Obj) and out.cls.name == 'EnvironmentMesh')
        ctx.oblige('build.refined', g.d['calls'] == 1)
        ctx.oblige('build.region', ip.getattr(out, 'bounds') is region)
        ctx.oblige('build.graph', ip.getattr(out, 'neighbour_graph') is graph)
        ctx.oblige('build.config', ip.getattr(out, 'config') is config and config.ents == ())
        l = ip.getattr(out, 'agg_cellboxes')
        segs = l.segs if isinstance(l, PyList) else ()
        ok = len(segs) == 1 and isinstance(segs[0], Seg) and isinstance(segs[0].dom, RangeDom)
        ctx.oblige('build.one-aggregated-cell-per-remaining-cell', ok)
        if not ok:
            return

        def some():
            i = ctx.int('i')
            ctx.assume(z3.And(i >= 0, i < n))
            register(ip, i)
            ctx.oblige('build.all-positions', rv(segs[0].dom.n) == n)
            its = [(gd, v) for gd, v in segs[0].items(ctx, i) if not z3.is_false(simp(zb(gd)))]
            ctx.oblige('build.exactly-the-remaining-cells', len(its) == 1 and zb(its[0][0]) == LIVE(i))
            ctx.assume(LIVE(i))
            if len(its) != 1:
                return
            v = its[0][1]
            T.cover('a remaining cell')
            good = isinstance(v, Term) and v.kind == 'aggregated'
            ctx.oblige('build.aggregate-of-that-cell', good and ip.truth(models.eq(ip, v.args[0], Rope([('n', fns.id(i))]))))
            if good:
                ctx.oblige('build.bounds-of-that-cell', same_rect(read_rect(ip, v.args[1]), RectOf(fns, i)))
        ctx.explore(some)
    T.run(go)


task('C27', 'build_environmental_mesh', 'requires: any mesh under construction and depth limit; '
     'ensures: refines once, to the mesh\'s depth limit, then returns an environment mesh with the region, neighbour graph and configuration of the builder and, in order, the aggregate of every '
     'position that still holds a cell; contracts used: split_to_depth (C10), CellBox.aggregate (C12)')(build)


from .c26 import builder  # noqa: E402
for spl in (True,):
    task('C27', 'MeshBuilder(config)', 'requires: any configuration; '
         'ensures: the configuration is checked; the mesh has the region of the configuration, the grid of cells for that region and cell size (unchanged), one neighbour graph shared by mesh and builder, made for those cells '
         'and the number of columns and told whether the mesh is global, the configured depth limit and the configuration with its dates resolved; '
         'contracts used: initialize_cellboxes (C03), NeighbourGraph (C05), check_global_mesh (C05), Boundary.from_json, validate_mesh_config, validate_bounds (C18), initialize_meta_data(_subsets) (C26)')(builder('C27', spl))
