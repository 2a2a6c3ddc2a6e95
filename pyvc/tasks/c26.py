"""C26: every cell of a new mesh carries its share of every configured data source, as configured."""
from ..task import task
from ..spec import *
from ..loops import register

MB, CB = MG + 'mesh_builder', MG + 'cellbox'
FAC = 'meshiphi.dataloaders.factory'
I, B = z3.IntSort(), z3.BoolSort()
LNAME = z3.Function('loader_name', I, TextSort)
NC = z3.Function('number_of_conditions', I, I)
HAS = {k: z3.Function('has_' + k, I, B) for k in ('splitting_conditions', 'value_fill_types', 'files')}


class Params(Model):
    """the parameters of data source number i"""
    typename = 'dict'

    def __init__(self, S, i):
        super().__init__()
        self.S, self.i = S, i

    def subst(self, ins):
        return Params(self.S, ins.val(self.i))

    def __repr__(self):
        return f'params({self.i})'

    def same(self, ip, o):
        return simp(rv(self.i) == rv(o.i)) if isinstance(o, Params) else False

    eq = same

    def key(self, ip, k):
        k = models.concrete_text(k) if hasattr(models, 'concrete_text') else k
        if k not in HAS:
            raise Unsupported(f'parameter {k!r}')
        return k

    def contains(self, ip, k):
        return HAS[self.key(ip, k)](rv(self.i))

    def getitem(self, ip, k):
        k, i = self.key(ip, k), rv(self.i)
        if not ip.ctx.branch(HAS[k](i)):
            models.raise_(KeyError, k)
        if k == 'splitting_conditions':
            return self.S.conditions(i)
        return Term(k, i)

    def setitem(self, ip, k, v):
        k = self.key(ip, k)
        ip.ctx.oblige('sources.configuration-changed-only-in-the-list-of-files', k == 'files' and isinstance(v, Term) and v.kind == 'files read' and rv(v.args[0]) == rv(self.i))

    def get(self, ip, n):
        if n == 'get':
            def get(ip, a, kw):
                if ip.ctx.branch(self.contains(ip, a[0])):
                    return self.getitem(ip, a[0])
                return a[1] if len(a) > 1 else None
            return Native('get', get)
        if n == 'keys':
            return Native('keys', lambda ip, a, kw: self)
        raise Unsupported(f'params.{n}')


class Cond(Model):
    """splitting condition number j of source i: a dict with one entry, for the loader's data name"""
    typename = 'dict'

    def __init__(self, i, j):
        super().__init__()
        self.i, self.j = i, j

    def subst(self, ins):
        return Cond(ins.val(self.i), ins.val(self.j))

    def getitem(self, ip, k):
        if not ip.ctx.must(zb(ip.truth(models.eq(ip, k, Atom(DNAME(rv(self.i))))))):
            raise Unsupported('splitting condition under another name')
        return Term('cond', self.i, self.j)


class S:
    def __init__(self, T, ip):
        ctx = ip.ctx
        self.T, self.ip, self.ctx = T, ip, ctx
        self.n, self.min_dp = ctx.int('nsources'), ctx.int('min_dp')
        ctx.assume(z3.And(self.n >= 0, self.min_dp >= 0))
        self.region = boundary(ip, Rect(ctx, 'region', T=T))
        self.MD = ip.find(MG + 'metadata', 'Metadata')

    def conditions(self, i):
        self.ctx.once(('nc', i.get_id()), NC(i) >= 0)
        s = Seg(RangeDom(NC(i)), lambda ctx, j: [(True, Cond(i, j))], 'conditions as configured')
        s.uniform = 1
        return PyList([s])

    def loader(self, i):
        return Term('loader', i, data_name=lambda ip, s: Atom(DNAME(rv(s.args[0]))), dataloader_name=lambda ip, s: Atom(LNAME(rv(s.args[0]))),
                    data=lambda ip, s: Term('data', *s.args), files=lambda ip, s: Term('files read', *s.args), trim_datapoints=method(self.trim))

    def trim(self, ip, s, a, k):
        """contract of trim_datapoints (C11, C25)"""
        b = k.get('bounds', a[0] if a else None)
        d = k.get('data', a[1] if len(a) > 1 else None)
        if d is not None and not (isinstance(d, Term) and d.kind == 'data'):
            raise Unsupported('restriction of other data')
        i = rv(s.args[0])
        return Term('restricted', i, i if d is None else rv(d.args[0]), *read_rect(ip, b))

    def source(self, i):
        return PyDict([('loader', Atom(LNAME(rv(i)))), ('params', Params(self, i))])

    def create(self, ip, f, a, k):
        """contract of DataLoaderFactory.get_dataloader: the loader for a source"""
        v = dict(zip(('name', 'bounds', 'params', 'min_dp'), a))
        v.update(k)
        ctx, p = self.ctx, v.get('params')
        ok = isinstance(p, Params)
        ctx.oblige('sources.loader-gets-the-parameters-of-the-source', ok)
        if not ok:
            raise Unsupported('other parameters')
        i = rv(p.i)
        ctx.oblige('sources.loader-named-by-the-source', zb(ip.truth(models.eq(ip, v.get('name'), Atom(LNAME(i))))))
        ctx.oblige("sources.loader-covers-the-mesh's-region", same_rect(read_rect(ip, v['bounds']), read(ip, self.region)))
        ctx.oblige('sources.loader-gets-the-minimum-number-of-points', 'min_dp' in v and is_num(v['min_dp']) and rv(v['min_dp']) == self.min_dp)
        return self.loader(i)

    def fill(self, ip, f, a, k):
        """contract of check_value_fill_type (task below)"""
        d = a[1] if len(a) > 1 else k['data_source']
        p = models.getitem(ip, d, "params")
        if not isinstance(p, Params):
            raise Unsupported('fill type of another source')
        return Term('fill', p.i)

    def meta(self, i, data=None):
        """the entry of source i before it is restricted"""
        cs = Seg(RangeDom(z3.If(HAS['splitting_conditions'](i), NC(i), 0)), lambda ctx, j: [(True, Term('cond', i, j))], 'conditions')
        cs.uniform = 1
        self.ctx.once(('nc', rv(i).get_id()), NC(i) >= 0)
        return self.ip.call(self.MD, [self.loader(i), PyList([cs]), Term('fill', i), Term('data', i)])

    def metas(self, n=None):
        return template_seg(self.ip, self.n if n is None else n, self.meta, lambda i: NC(i) >= 0, 'data sources')

    def check_entry(self, tag, v, i, rect=None):
        """v is the entry of source i, restricted to the given rectangle (or not restricted)"""
        ip, ctx = self.ip, self.ctx
        ok = isinstance(v, Obj) and v.cls.name == 'Metadata'
        ctx.oblige(f'{tag}.an-entry', ok)
        if not ok:
            return
        at = lambda n: ip.getattr(v, n)
        is_term = lambda x, kind: isinstance(x, Term) and x.kind == kind
        l = at('data_loader')
        ctx.oblige(f'{tag}.loader-of-the-source', is_term(l, 'loader') and rv(l.args[0]) == i)
        ctx.oblige(f'{tag}.fill-type-of-the-source', is_term(at('value_fill_type'), 'fill') and rv(at('value_fill_type').args[0]) == i)
        ctx.oblige(f'{tag}.data-name-of-the-loader', zb(ip.truth(models.eq(ip, at('data_name'), Atom(DNAME(i))))))
        d = at('data_subset')
        if rect is None:
            ctx.oblige(f"{tag}.the-loader's-data", is_term(d, 'data') and rv(d.args[0]) == i)
        else:
            ctx.oblige(f"{tag}.the-loader's-data-restricted-to-the-cell", is_term(d, 'restricted') and z3.And(rv(d.args[0]) == i, rv(d.args[1]) == i, *[rv(x) == y for x, y in zip(d.args[2:], rect)]))
        cs = at('splitting_conditions')
        has = HAS['splitting_conditions'](i)
        ok = isinstance(cs, PyList)
        ctx.oblige(f'{tag}.conditions-are-a-list', ok)
        if not ok:
            return

        def conds():
            ctx.oblige(f'{tag}.number-of-conditions', rv(models.length(ip, cs)) == z3.If(has, NC(i), 0))
            j = ctx.int('j')
            ctx.assume(z3.And(has, j >= 0, j < NC(i)))
            register(ip, j)
            T = self.T
            T.cover('a condition')
            x = models.seq_index(ip, cs, j)
            ctx.oblige(f'{tag}.conditions-in-order', is_term(x, 'cond') and z3.And(rv(x.args[0]) == i, rv(x.args[1]) == j))
        ctx.explore(conds)

    def check_list(self, tag, l, rect=None, n=None):
        ip, ctx, n = self.ip, self.ctx, self.n if n is None else n
        ok = isinstance(l, PyList)
        ctx.oblige(f'{tag}.a-list', ok)
        if not ok:
            return
        ctx.oblige(f'{tag}.one-entry-per-source', rv(models.length(ip, l)) == n)

        def one():
            i = ctx.int('i')
            ctx.assume(z3.And(i >= 0, i < n, NC(i) >= 0))
            register(ip, i)
            self.T.cover('an entry')
            segs = l.segs
            if len(segs) == 1 and isinstance(segs[0], Seg):
                # alternatives for the entry at this position
                its = segs[0].items(ctx, i)
                ctx.oblige(f'{tag}.an-entry-for-every-source', bor(*[zb(g) for g, _ in its]))
                for g, v in its:
                    def alternative(g=g, v=v):
                        ctx.assume(zb(g))
                        self.check_entry(tag, v, i, rect)
                    ctx.explore(alternative)
                return
            self.check_entry(tag, models.seq_index(ip, l, i), i, rect)
        ctx.explore(one)


def read(ip, b):
    return RectOf4(*read_rect(ip, b))


@task('C26', 'initialize_meta_data', 'requires: any number of data sources, each with any parameters and any number of splitting conditions for its data name (or none); '
      'ensures: one loader per source, created from its name and parameters, the region and the minimum number of points; one entry per source, in order, with its loader, conditions (in order), fill type and '
      'the loader\'s data; contracts used: DataLoaderFactory.get_dataloader, check_value_fill_type',
      assumptions=['DataLoaderFactory.get_dataloader returns the loader of the given name, region, parameters and minimum number of points (reading the data files is external)'])
def init_meta(T):
    ip, ctx = T.interp(), T.ctx

    def go():
        s = S(T, ip)
        ip.contracts = {FAC + ':DataLoaderFactory.get_dataloader': s.create, MB + ':MeshBuilder.check_value_fill_type': s.fill}
        src = template_seg(ip, s.n, s.source, lambda i: NC(i) >= 0, 'configured sources')
        b = Obj(ip.find(MB, 'MeshBuilder'), dict(config=PyDict([('data_sources', PyList([src]))])))
        k, out = T.calls(ip, (MB, 'MeshBuilder.initialize_meta_data'), [b, s.region, s.min_dp])
        ctx.oblige('sources.no-exception', k == 'ok', info=str(out))
        if k == 'ok':
            s.check_list('sources', out)
    T.run(go)


@task('C26', 'initialize_meta_data_subsets', 'requires: any list of entries, any boundary; ensures: as many entries, in order, each with the loader, conditions and fill type of the given one and the loader\'s data '
      'restricted to the boundary; the given entries are unchanged; contracts used: trim_datapoints (C11, C25)')
def subsets(T):
    ip, ctx = T.interp(), T.ctx

    def go():
        s = S(T, ip)
        r = Rect(ctx, 'cell', T=T)
        b = Obj(ip.find(MB, 'MeshBuilder'), dict(config=PyDict()))
        l = PyList([s.metas()])
        k, out = T.calls(ip, (MB, 'MeshBuilder.initialize_meta_data_subsets'), [b, boundary(ip, r), l])
        ctx.oblige('subsets.no-exception', k == 'ok', info=str(out))
        if k != 'ok':
            return
        ctx.oblige('subsets.another-list', out is not l)
        s.check_list('subsets', out, (r.lat0, r.lat1, r.lo, r.hi))
        s.check_list('subsets.given-entries-unchanged', l)
    T.run(go)


def fill_type(kind):
    def run(T):
        ip, ctx = T.interp(), T.ctx

        def go():
            b = Obj(ip.find(MB, 'MeshBuilder'), dict(config=PyDict()))
            v = {'number': lambda: ctx.real('fill'), 'text': lambda: Atom(ctx.const('text', TextSort)), 'nothing': lambda: None}.get(kind, lambda: kind)()
            ps = [('value_fill_types', v)] if kind != 'absent' else []
            src = PyDict([('loader', 'any'), ('params', PyDict(ps))])
            k, out = T.calls(ip, (MB, 'MeshBuilder.check_value_fill_type'), [b, src])
            ctx.oblige('fill-type.no-exception', k == 'ok', info=str(out))
            if k != 'ok':
                return
            T.cover(kind)
            if kind == 'text':
                num = models.FLOATABLE(v.t)
                spec = z3.Or(num, v.t == text_lit('parent'), v.t == text_lit('Nan'))
                same = zb(ip.truth(models.eq(ip, out, v)))
                par = zb(ip.truth(models.eq(ip, out, 'parent')))
                ctx.oblige('fill-type.as-configured-if-valid', z3.Implies(spec, same))
                ctx.oblige('fill-type.parent-otherwise', z3.Implies(z3.Not(spec), par))
            elif kind == 'number':
                ctx.oblige('fill-type.the-configured-number', is_num(out) and as_real(rv(out)) == v)
            else:
                ctx.oblige('fill-type', ip.truth(models.eq(ip, out, kind if kind in ('parent', 'Nan') else 'parent')))
        T.run(go)
    return run


for kd in ('absent', 'number', 'text', 'parent', 'Nan', 'nothing'):
    task('C26', f'check_value_fill_type, {kd}', 'requires: a data source whose fill type is ' + kd + '; ensures: the fill type as configured if it is a number, a text that reads as a number, "parent" or "Nan", and '
         '"parent" otherwise')(fill_type(kd))


LIVE = z3.Function('still_a_cell', I, B)
NS = z3.Function('number_of_sources', I, I)


def cells_with_sources(ip, n, fns):
    """cells number 0..n-1, each with any entries"""
    def cell(t):
        c = any_cell(ip, ip.call(ip.find(CB, 'CellBox'), [boundary(ip, RectOf(fns, t)), Rope([('n', fns.id(t))])]), t)
        s = Seg(RangeDom(NS(t)), lambda ctx, j: [(True, Term('entry', t, j))], 'entries')
        s.uniform = 1
        m(ip, c, 'set_data_source', PyList([s]))
        return c
    return template_seg(ip, n, cell, lambda t: z3.And(fns.valid(t), NS(t) >= 0), 'cells')


def adding(given):
    def run(T):
        ip, ctx = T.interp(), T.ctx

        def go():
            s = S(T, ip)
            fns = CellFns()
            n, new = ctx.int('ncells'), ctx.int('new')
            ctx.assume(z3.And(n >= 0, NC(new) >= 0))
            base = cells_with_sources(ip, n, fns)

            def fn(ctx, i):
                return [(LIVE(i), base.items(ctx, i)[0][1]), (z3.Not(LIVE(i)), None)]
            seg = Seg(RangeDom(n), fn, 'cells')
            seg.uniform = 1
            cells = PyList([seg])
            mesh = ip.call(ip.find(MG + 'mesh', 'Mesh'), [s.region, cells, None, 0])
            b = Obj(ip.find(MB, 'MeshBuilder'), dict(mesh=mesh, config=Term('config')))
            p = Params(s, new)

            def create(ip, a, k):
                v = dict(zip(('bounds', 'params'), a))
                v.update(k)
                ctx.oblige('adding.loader-gets-the-parameters', v.get('params') is p)
                ctx.oblige('adding.loader-covers-the-given-bounds-or-the-region', same_rect(read_rect(ip, v['bounds']), read(ip, other if given else s.region)))
                return s.loader(new)

            def region(ip, f, a, k):
                """contract of Boundary.from_json for the builder's configuration (C18)"""
                if not (isinstance(a[-1], Term) and a[-1].kind == 'config'):
                    raise Unsupported('bounds of another configuration')
                return boundary(ip, read(ip, s.region))
            ip.contracts = {MB + ':MeshBuilder.check_value_fill_type': s.fill, MG + 'boundary:Boundary.from_json': region}
            other = boundary(ip, Rect(ctx, 'other', T=T))
            args = [b, Native('loader class', create), p] + ([other] if given else [])
            k, out = T.calls(ip, (MB, 'MeshBuilder.add_dataloader'), args)
            ctx.oblige('adding.no-exception', k == 'ok', info=str(out))
            if k != 'ok':
                return
            ctx.oblige('adding.same-list-of-cells', ip.getattr(mesh, 'cellboxes') is cells and len(cells.segs) == 1)

            def some():
                i = ctx.int('i')
                ctx.assume(z3.And(i >= 0, i < n))
                register(ip, i)
                c = models.seq_index(ip, cells, i)
                if c is None:
                    ctx.oblige('adding.split-cells-stay-split', z3.Not(LIVE(i)))
                    return
                ctx.oblige('adding.cells-stay', LIVE(i))
                ctx.oblige('adding.cell-keeps-its-bounds', same_rect(read_rect(ip, ip.getattr(c, 'bounds')), RectOf(fns, i)))
                l = ip.getattr(c, 'data_source')
                ok = isinstance(l, PyList)
                ctx.oblige('adding.entries-are-a-list', ok)
                if not ok:
                    return
                T.cover('a cell')
                ctx.oblige('adding.one-more-entry', rv(models.length(ip, l)) == NS(i) + 1)

                def kept():
                    j = ctx.int('j')
                    ctx.assume(z3.And(j >= 0, j < NS(i)))
                    register(ip, j)
                    x = models.seq_index(ip, l, j)
                    ctx.oblige('adding.earlier-entries-kept', isinstance(x, Term) and x.kind == 'entry' and z3.And(rv(x.args[0]) == i, rv(x.args[1]) == j))
                ctx.explore(kept)

                def added():
                    s.check_entry('adding', models.seq_index(ip, l, NS(i)), new, (fns.lat0(i), fns.lat1(i), fns.lo(i), fns.hi(i)))
                ctx.explore(added)
            ctx.explore(some)
            ctx.oblige('adding.returns-the-builder', out is b)
        T.run(go)
    return run


for given in (False, True):  # noqa
    task('C26', 'add_dataloader' + (', with bounds' if given else ''), 'requires: a mesh of any cells, some of them split away, with any entries each; a loader class and its parameters; '
         'ensures: the loader is created once over the mesh\'s region (or the given bounds); every cell keeps its entries and gets one more, with that loader, its conditions and fill type and the loader\'s data restricted '
         'to that cell; returns the builder; contracts used: check_value_fill_type, Boundary.from_json (C18), trim_datapoints (C11, C25)')(adding(given))


def builder(pid, splitting):
    """MeshBuilder(config): pid selects the obligations (C26: what the cells carry, C27: how the parts are put together)"""
    def run(T):
        def go():
            s = S(T, ip)
            fns = CellFns()
            n, depth = ctx.int('ncells'), ctx.int('depth')
            cw, ch = ctx.real('cell_width'), ctx.real('cell_height')
            ctx.assume(z3.And(n >= 1, depth >= 0, cw > 0, ch > 0))
            mdp = s.min_dp if splitting else 5
            CBX = ip.find(CB, 'CellBox')
            seg = template_seg(ip, n, lambda t: ip.call(CBX, [boundary(ip, RectOf(fns, t)), Rope([('n', fns.id(t))])]), fns.valid, 'cells')
            cells = PyList([seg])
            metas, region = PyList([s.metas()]), s.region
            oblige = lambda p, name, f: ctx.oblige(name, f) if p == pid else None
            seen = dict(graph=0)
            t0, t1 = Term('start'), Term('end')

            def bound(**want):
                names = list(want)

                def args(a, k, skip=1):
                    v = dict(zip(names, a[skip:]))
                    v.update(k)
                    return v
                return args

            def validate(ip, f, a, k):
                oblige('C27', 'build.checks-the-configuration', (a[0] if a else k.get('config')) is cfg)

            def region_of(ip, f, a, k):
                if (a[-1] if a else k.get('config')) is not cfg:
                    raise Unsupported('bounds of another configuration')
                return region

            def time(which):
                return lambda ip, f, a, k: which

            def grid(ip, f, a, k):
                v = bound(bounds=0, cell_width=0, cell_height=0)(a, k)
                oblige('C27', 'build.grid-of-the-region-and-cell-size', z3.BoolVal(v.get('bounds') is region) if not is_num(v.get('cell_width')) else z3.And(v.get('bounds') is region, rv(v['cell_width']) == cw, rv(v['cell_height']) == ch))
                return cells

            def metadata(ip, f, a, k):
                v = bound(bounds=0, min_datapoints=0)(a, k)
                oblige('C26', "sources.loaders-cover-the-mesh's-region", v.get('bounds') is region)
                oblige('C26', 'sources.configured-minimum-number-of-points', is_num(v.get('min_datapoints')) and rv(v['min_datapoints']) == mdp)
                return metas

            def share(ip, f, a, k):
                v = bound(bounds=0, meta_data_list=0)(a, k)
                if v.get('meta_data_list') is not metas:
                    raise Unsupported('share of other entries')
                return Term('share', *read_rect(ip, v['bounds']))

            def graph(ip, f, a, k):
                v = bound(cellboxes=0, grid_width=0)(a, k)
                oblige('C27', 'build.graph-of-these-cells', v.get('cellboxes') is cells)
                w = v.get('grid_width')
                oblige('C27', 'build.graph-with-the-number-of-columns', is_num(w) and prod(as_real(rv(w)), cw) == width_of(*[z for z in read_rect(ip, region)[2:]]))
                ctx.write(a[0], 'the_graph', True)

            def is_global(ip, f, a, k):
                v = bound(bounds=0, cellboxes=0, grid_width=0)(a, k)
                oblige('C27', 'build.global-check-of-these-cells', v.get('bounds') is region and v.get('cellboxes') is cells)
                w = v.get('grid_width')
                oblige('C27', 'build.global-check-with-the-number-of-columns', is_num(w) and z3.And(rv(w) <= columns(), columns() < rv(w) + 1))
                return Term('is global')

            def columns():
                return div(width_of(*read_rect(ip, region)[2:]), cw)

            def set_global(ip, f, a, k):
                x = a[1] if len(a) > 1 else list(k.values())[0]
                oblige('C27', 'build.graph-knows-whether-it-is-global', isinstance(x, Term) and x.kind == 'is global')
                ctx.write(a[0], 'told', True)
            P = MB + ':MeshBuilder.'
            ip.contracts = {'meshiphi.config_validation.config_validator:validate_mesh_config': validate, MG + 'boundary:Boundary.from_json': region_of,
                            MG + 'boundary:Boundary.get_time_min': time(t0), MG + 'boundary:Boundary.get_time_max': time(t1), P + 'validate_bounds': lambda ip, f, a, k: None,
                            P + 'initialize_cellboxes': grid, P + 'initialize_meta_data': metadata, P + 'initialize_meta_data_subsets': share, P + 'check_global_mesh': is_global,
                            MG + 'neighbour_graph:NeighbourGraph.__init__': graph, MG + 'neighbour_graph:NeighbourGraph.set_global_mesh': set_global}
            reg = PyDict([('cell_width', cw), ('cell_height', ch), ('start_time', Term('start text')), ('end_time', Term('end text'))])
            spl = PyDict([('split_depth', depth), ('minimum_datapoints', s.min_dp)])
            srcs = PyList([])
            cfg = PyDict([('region', reg), ('data_sources', srcs)] + ([('splitting', spl)] if splitting else []))
            try:
                b = ip.call(ip.find(MB, 'MeshBuilder'), [cfg])
            except PyRaise as e:
                ctx.oblige('build.no-exception', False, info=str(e))
                return
            T.cover('built')
            at = lambda o, n: ip.getattr(o, n)
            mesh, ng = at(b, 'mesh'), at(b, 'neighbour_graph')
            oblige('C27', 'build.keeps-the-configuration', at(b, 'config') is cfg and at(mesh, 'config') is cfg)
            it = lambda k: models.getitem(ip, reg, k)
            oblige('C27', 'build.configuration-has-the-resolved-dates', it('start_time') is t0 and it('end_time') is t1)
            oblige('C27', 'build.mesh-of-the-region', at(mesh, 'boundary') is region)
            oblige('C27', 'build.mesh-of-these-cells', at(mesh, 'cellboxes') is cells and cells.segs == (seg,))
            oblige('C27', 'build.mesh-and-builder-share-the-graph', at(mesh, 'neighbour_graph') is ng and isinstance(ng, Obj) and ng.d.get('the_graph') is True and ng.d.get('told') is True)
            d = at(mesh, 'max_split_depth')
            oblige('C27', 'build.depth-limit-as-configured', is_num(d) and rv(d) == (depth if splitting else 0))

            def some():
                i = ctx.int('i')
                ctx.assume(z3.And(i >= 0, i < n))
                register(ip, i)
                c = models.seq_index(ip, at(mesh, 'cellboxes'), i)
                oblige('C27', 'build.cells-keep-their-bounds', same_rect(read_rect(ip, at(c, 'bounds')), RectOf(fns, i)))
                oblige('C27', 'build.cells-keep-their-ids', zb(ip.truth(models.eq(ip, at(c, 'id'), Rope([('n', fns.id(i))])))))
                x = at(c, 'data_source')
                oblige('C26', 'sources.every-cell-carries-its-own-share', isinstance(x, Term) and x.kind == 'share' and z3.And(*[rv(p) == q for p, q in zip(x.args, (fns.lat0(i), fns.lat1(i), fns.lo(i), fns.hi(i)))]))
                q = at(c, 'minimum_datapoints')
                oblige('C26', 'sources.every-cell-knows-the-minimum-number-of-points', is_num(q) and rv(q) == mdp)
            ctx.explore(some)
            if pid == 'C26':
                s.check_list('sources.shared-entries-unchanged', metas)
        ip, ctx = T.interp(), T.ctx
        T.under_contract.add(MB + ':MeshBuilder.__init__')
        prod = lambda a, b: models.times(ctx, a, b) if hasattr(models, 'times') else a * b
        div = lambda a, b: rv(models.binop(ip, 'Div', a, b))
        T.run(go)
    return run


for spl in (True,):
    task('C26', 'MeshBuilder(config)', 'requires: any configuration; '
         'ensures: loaders are created over the region with the configured minimum number of points and every initial cell gets its own share of the entries and that minimum; the unrestricted '
         'entries are unchanged; contracts used: initialize_meta_data, initialize_meta_data_subsets, initialize_cellboxes (C03), NeighbourGraph (C05), Boundary.from_json, validate_mesh_config, validate_bounds (C18)')(builder('C26', spl))


# ------------------------------------------------------------------ the factory
LOADERS = dict(scalar_csv='ScalarCSVDataLoader', scalar_grf='ScalarGRFDataLoader', binary_grf='ScalarGRFDataLoader', amsr='AMSRDataLoader', bsose_sic='BSOSESeaIceDataLoader',
               bsose_depth='BSOSEDepthDataLoader', baltic_sic='BalticSeaIceDataLoader', gebco='GEBCODataLoader', icenet='IceNetDataLoader', modis='MODISDataLoader', thickness='ThicknessDataLoader',
               density='DensityDataLoader', circle='ShapeDataLoader', gradient='ShapeDataLoader', checkerboard='ShapeDataLoader', vector_csv='VectorCSVDataLoader',
               vector_grf='VectorGRFDataLoader', baltic_currents='BalticCurrentDataLoader', era5_wind='ERA5WindDataLoader', northsea_currents='NorthSeaCurrentDataLoader',
               oras5_currents='ORAS5CurrentDataLoader', sose='SOSEDataLoader', duacs_currents='DuacsCurrentDataLoader', era5_wave_direction='ERA5WaveDirectionLoader', lut_csv='LutCSV',
               lut_geojson='LutGeoJSON', lut_shapefile='LutShapefile', scotland_ncmpa='ScotlandNCMPA')
MORE = dict(visual_iced='VisualIcedDataLoader', era5_sig_wave_height='ERA5SigWaveHeightDataLoader', era5_max_wave_height='ERA5MaxWaveHeightDataLoader', era5_wave_dir='ERA5MeanWaveDirDataLoader',
            era5_wave_period='ERA5WavePeriodDataLoader', era5_wind_mag='ERA5WindMagDataLoader', era5_wind_dir='ERA5WindDirDataLoader', ecmwf_sig_wave_height='ECMWFSigWaveHeightDataLoader',
            rectangle='ShapeDataLoader', vector_circle='VectorShapeDataLoader', vector_gradient='VectorShapeDataLoader', vector_rectangle='VectorShapeDataLoader')
FIRST = list(LOADERS)
LOADERS.update(MORE)
FILES = {k for k in LOADERS if k not in ('scalar_grf', 'binary_grf', 'thickness', 'density', 'circle', 'gradient', 'checkerboard', 'vector_grf', 'rectangle') and not k.startswith('vector_') or k == 'vector_csv'}
BASES = ('meshiphi.dataloaders.scalar.abstract_scalar:ScalarDataLoader', 'meshiphi.dataloaders.vector.abstract_vector:VectorDataLoader', 'meshiphi.dataloaders.lut.abstract_lut:LutDataLoader')


def factory(name):
    def run(T):
        ip, ctx = T.interp(), T.ctx
        def init(ip, f, a, k):
            v = dict(zip(('bounds', 'params'), a[1:]))
            v.update(k)
            ctx.write(a[0], 'made with', v)

        def go():
            ip.contracts = {b + '.__init__': init for b in BASES}
            region, mdp = boundary(ip, Rect(ctx, 'region', T=T)), ctx.int('min_dp')
            files = Term('list of files')
            given = [n for n in ('files', 'hemisphere', 'binary', 'value', 'min_dp') if ctx.branch(ctx.bool('has ' + n))]
            value = {'files': files, 'binary': False, 'value': Fraction(0)}       # given, though false
            params = PyDict([(n, value.get(n) if n in value else Term(n)) for n in given])
            need = {'hemisphere'} if name == 'amsr' else {'binary'} if 'grf' in name and name != 'vector_grf' else {'value'} if name in ('lut_geojson', 'lut_shapefile') else set()
            need = need | ({'files'} if name in FILES else set())
            spelled = name.upper() if ctx.branch(ctx.bool('upper case')) else name
            k, out = T.calls(ip, (FAC, 'DataLoaderFactory.get_dataloader'), [spelled, region, params, mdp])
            if name not in LOADERS:
                ctx.oblige('factory.unknown-loader-refused', k != 'ok' and getattr(out.cls, '__name__', '') == 'ValueError')
                return
            if not need <= set(given):
                ctx.oblige('factory.missing-parameter-refused', k != 'ok')
                return
            ctx.oblige('factory.no-exception', k == 'ok', info=str(out))
            if k != 'ok':
                return
            T.cover('loader made')
            ctx.oblige('factory.the-named-loader', isinstance(out, Obj) and out.cls.name == LOADERS[name] and 'made with' in out.d)
            if not isinstance(out, Obj) or 'made with' not in out.d:
                return
            v = out.d['made with']
            ctx.oblige('factory.covers-the-region', v.get('bounds') is region)
            p = v.get('params')
            ctx.oblige('factory.parameters-are-a-dict', isinstance(p, PyDict))
            at = lambda n: models.getitem(ip, p, n)
            for n in set(given) - {'min_dp'}:       # a minimum left over from an earlier use of the parameters is replaced
                x = at(n)
                ctx.oblige('factory.parameters-passed-on', isinstance(x, Term) and x.kind == ('list of files' if n == 'files' else n) if n not in ('binary', 'value') else isinstance(x, (bool, Fraction, int)) and x == value[n] and type(x) is type(value[n]))
            ctx.oblige('factory.minimum-number-of-points-passed-on', is_num(at('min_dp')) and rv(at('min_dp')) == mdp)
        T.run(go)
    return run


GROUPS = {'scalar loaders': FIRST[:10], 'shapes and tables': FIRST[10:15] + FIRST[-4:], 'vector loaders': FIRST[15:-4], 'waves, wind and further shapes': list(MORE), 'unknown': ['no_such_loader']}
for grp, nms in GROUPS.items():
    def every(T, nms=nms):
        for nm in nms:
            factory(nm)(T)
    task('C26', f'get_dataloader, {grp}', 'requires: any parameters, region and minimum number of points, the name in any case; ensures: ' + ('refused' if grp == 'unknown' else
         'a loader of the named class over the region with those parameters and that minimum number of points, provided the parameters it needs are given, and an exception otherwise') + '; names: ' + ', '.join(nms),
         assumptions=[] if grp == 'unknown' else ["the loaders' constructors (reading and preparing the data) are external here"])(every)


LISTING = ['b.csv', 'B', 'a', 'part10.nc', 'part9.nc', 'data.tar.gz', 'sp ace.csv']


def folder(T):
    import fnmatch, os as _os
    from ..models import Native, ExtModule
    ip, ctx = T.interp(), T.ctx

    def conc(f, wrap=lambda x: x):
        def call(ip, a, k):
            if k or not all(isinstance(x, str) for x in a):
                raise Unsupported('file names')
            r = f(*a)
            return PyList(r) if isinstance(r, list) else r
        return Native('os', call)

    def ls(p):
        if p.rstrip('/') not in ('/data/x', 'rel'):
            raise Unsupported('folder')
        return list(LISTING)

    def glob(pat):
        d, _, g = pat.rpartition('/')
        return [d + '/' + f for f in ls(d) if fnmatch.fnmatchcase(f, g)]
    path = ExtModule('os.path', {n: conc(getattr(_os.path, n)) for n in ('join', 'basename', 'dirname', 'split', 'splitext', 'normpath')})
    path.__dict__.setdefault('ns', {})
    ip.externals['os'] = ExtModule('os', dict(path=path, listdir=conc(ls), sep='/'))
    ip.externals['os.path'] = path
    ip.externals['glob'] = ExtModule('glob', dict(glob=conc(glob)))

    def go():
        for d in ('/data/x', '/data/x/', 'rel', 'rel/'):
            def one():
                p = PyDict([('data_name', Term('name')), ('folder', d), ('binary', Term('flag'))])
                k, out = T.calls(ip, (FAC, 'DataLoaderFactory.translate_file_input'), [p])
                ctx.oblige('folder.no-exception', k == 'ok', info=str(out))
                if k != 'ok':
                    return
                T.cover('listed')
                ok = isinstance(out, PyDict) and ip.truth(models.contains(ip, out, 'files')) is True
                ctx.oblige('folder.listed', ok)
                if not ok:
                    return
                f = models.getitem(ip, out, 'files')
                ctx.oblige('folder.exactly-its-files', isinstance(f, PyList) and sorted(_os.path.normpath(str(x)) for x in f.segs) == sorted(_os.path.normpath(_os.path.join(d, x)) for x in LISTING))
                for n, kind in (('data_name', 'name'), ('binary', 'flag')):
                    ctx.oblige('folder.other-parameters-kept', ip.truth(models.contains(ip, out, n)) is True and models.getitem(ip, out, n).kind == kind)
            ctx.explore(one)
    T.run(go)


task('C26', 'translate_file_input, folder', 'requires: parameters with a folder (with or without a final slash) holding files with and without extensions; ensures: the parameters list exactly its files and are otherwise unchanged',
     assumptions=['glob and listdir give the files of the folder, matched as fnmatch does; bounded: one listing of seven names'])(folder)


def translate(T):
    ip, ctx = T.interp(), T.ctx

    def go():
        one = ctx.branch(ctx.bool('a file'))
        others = [('data_name', Term('name')), ('binary', Term('flag'))]
        p = PyDict(others[:1] + [('file', Term('path')) if one else ('files', Term('paths'))] + others[1:])
        k, out = T.calls(ip, (FAC, 'DataLoaderFactory.translate_file_input'), [p])
        ctx.oblige('files.no-exception', k == 'ok', info=str(out))
        if k != 'ok':
            return
        T.cover('a file' if one else 'files')
        at = lambda n: models.getitem(ip, out, n)
        ok = isinstance(out, PyDict) and ip.truth(models.contains(ip, out, 'files')) is True
        ctx.oblige('files.listed', ok)
        if not ok:
            return
        f = at('files')
        if one:
            ctx.oblige('files.the-one-file', isinstance(f, PyList) and len(f.segs) == 1 and isinstance(f.segs[0], Term) and f.segs[0].kind == 'path')
        else:
            ctx.oblige('files.as-given', isinstance(f, Term) and f.kind == 'paths')
        for n, v in others:
            ctx.oblige('files.other-parameters-kept', at(n) is v)
    T.run(go)


task('C26', 'translate_file_input', 'requires: parameters with a list of files or one file; ensures: the parameters list the given files (one file: a list of it) and are otherwise unchanged')(translate)
