"""C21: removing a cell, and shifting all ids."""
from ..task import task
from ..spec import *
from ..loops import register
from ..graph import SymGraph, Symmetric, DIRS, count_in, key_of
from .c07 import State, check_cells, EM, NG, ID, POS, DATA, F

KIND = {'int': 'numbers', 'str': 'texts of numbers'}


def check_removed(T, ip, g, alive, M, c):
    """the graph g is what it was, without c"""
    ctx = ip.ctx
    al = lambda t: z3.And(zb(alive(t)), t != c)
    x, y = ctx.int('x'), ctx.int('y')

    def nodes():
        ctx.oblige('remove.nodes', zb(g.has_t(ip, x)) == al(x))
    ctx.explore(nodes)

    def lists():
        ctx.assume(al(x))
        register(ip, x)
        register(ip, y)
        T.cover('another node')
        for d in DIRS:
            def one(d=d):
                v = g.final(ip, x, d, y)
                want = z3.If(y == c, z3.IntVal(0), M(ip, x, z3.IntVal(d), y))
                ctx.oblige('remove.lists', False if v is None else rv(v) == want)
            ctx.explore(one)
    ctx.explore(lists)


def remove_node(kind):
    def run(T):
        ip, ctx = T.interp(), T.ctx
        LIVE = z3.Function('node', z3.IntSort(), z3.BoolSort())

        def go():
            c = ctx.int('c')
            ctx.assume(LIVE(c))
            M = Symmetric('rel', LIVE)
            g = SymGraph(kind, LIVE, M)
            ng = ip.call(ip.find(NG, 'NeighbourGraph'))
            ip.setattr(ng, 'neighbour_graph', g)
            k, out = T.calls(ip, (NG, 'NeighbourGraph.remove_node_and_update_neighbours'), [ng, key_of(c, kind)])
            ctx.oblige('remove.no-exception', k == 'ok', info=str(out))
            if k != 'ok':
                return
            ctx.oblige('remove.same-graph-object', ip.getattr(ng, 'neighbour_graph') is g)
            check_removed(T, ip, g, LIVE, M, c)
        T.run(go)
    return run


for kind in ('int', 'str'):  # noqa
    task('C21', f'remove_node_and_update_neighbours ({KIND[kind]} as keys)', 'requires: a symmetric graph of any size without self-neighbours or repeated entries, a node of it; '
         'ensures: that node is gone, its number is gone from every list, all other nodes and entries are as before', seconds=200)(remove_node(kind))


@task('C21', 'remove_cellbox', 'requires: any finished mesh with distinct ids and a symmetric graph over them, one of its cells; ensures: the list holds exactly the other cells, unchanged; the graph is what it was without that cell', seconds=300)
def remove_cellbox(T):
    ip, ctx = T.interp(), T.ctx

    def go():
        ms = []

        def mult(alive):
            ms.append(Symmetric('rel', alive))
            return ms[0]
        S = State(T, ip, mult=mult, maxw=360)
        cell = S.at(S.c)
        k, out = T.calls(ip, (EM, 'EnvironmentMesh.remove_cellbox'), [S.mesh, cell])
        ctx.oblige('remove.no-exception', k == 'ok', info=str(out))
        if k != 'ok':
            return
        check_cells(S, ip.getattr(S.mesh, 'agg_cellboxes'), [], S.c)
        ctx.oblige('remove.same-graph-object', ip.getattr(S.ng, 'neighbour_graph') is S.graph)
        check_removed(T, ip, S.graph, S.alive, ms[0], S.c)
    T.run(go)


def graph_shifted(T, ip, ng, alive, M, inc):
    ctx = ip.ctx
    new = ip.getattr(ng, 'neighbour_graph')
    x, y = ctx.int('x'), ctx.int('y')
    register(ip, x)
    register(ip, y)

    def nodes():
        node = models.dict_find(ip, new, key_of(simp(x + inc), 'str')) if isinstance(new, PyDict) else new.find(ip, key_of(simp(x + inc), 'str'))
        node = node[1] if isinstance(node, tuple) else node
        ctx.oblige('shift.nodes', zb(alive(x)) == z3.BoolVal(node is not None))
        if node is None:
            return
        T.cover('a node')
        for d in DIRS:
            def one(d=d):
                l = models.getitem(ip, node, str(d))
                ctx.oblige('shift.entries', rv(count_in(ip, l, rv(simp(y + inc)))) == M(ip, x, z3.IntVal(d), y))
            ctx.explore(one)
        ks = ip.unpack(ip.builtins['list'] and ip.call(ip.builtins['list'], [node]))
        ctx.oblige('shift.directions', sorted(map(str, ks)) == sorted(map(str, DIRS)))
    ctx.explore(nodes)


@task('C21', 'NeighbourGraph.increment_ids', 'requires: a symmetric graph of any size with texts of numbers as keys, any shift; ensures: node x becomes node x+shift with every entry y of every list replaced by y+shift, and there are no other nodes', seconds=200)
def shift_graph(T):
    ip, ctx = T.interp(), T.ctx
    LIVE = z3.Function('node', z3.IntSort(), z3.BoolSort())

    def go():
        inc = ctx.int('inc')
        M = Symmetric('rel', LIVE)
        g = SymGraph('str', LIVE, M)
        ng = ip.call(ip.find(NG, 'NeighbourGraph'))
        ip.setattr(ng, 'neighbour_graph', g)
        k, out = T.calls(ip, (NG, 'NeighbourGraph.increment_ids'), [ng, inc])
        ctx.oblige('shift.no-exception', k == 'ok', info=str(out))
        if k == 'ok':
            graph_shifted(T, ip, ng, LIVE, M, inc)
    T.run(go)


@task('C21', 'EnvironmentMesh.increment_ids', 'requires: any finished mesh with distinct ids, any shift; ensures: the same list of cells, each with its id and the id entry of its data shifted, everything else of it unchanged; '
      'the neighbour graph is shifted once by the same number (contract of NeighbourGraph.increment_ids)', seconds=200)
def shift_mesh(T):
    ip, ctx = T.interp(), T.ctx

    def go():
        S = State(T, ip, mult=lambda alive: Symmetric('rel', alive), maxw=360)
        inc = ctx.int('inc')
        calls = []
        ip.contracts = {NG + ':NeighbourGraph.increment_ids': lambda ip, f, a, kw: calls.append((a[0], a[1] if len(a) > 1 else kw['inc']))}
        k, out = T.calls(ip, (EM, 'EnvironmentMesh.increment_ids'), [S.mesh, inc])
        ctx.oblige('shift.no-exception', k == 'ok', info=str(out))
        if k != 'ok':
            return
        ctx.oblige('shift.graph-once', len(calls) == 1 and calls[0][0] is S.ng and simp(rv(calls[0][1]) == inc))
        l = ip.getattr(S.mesh, 'agg_cellboxes')
        ctx.oblige('shift.same-number-of-cells', rv(models.length(ip, l)) == S.n)
        i = ctx.int('i')
        ctx.assume(z3.And(i >= 0, i < S.n))
        register(ip, i)
        o = models.seq_index(ip, l, i)
        ctx.oblige('shift.same-cells', o is S.seg.items(ctx, i)[0][1])
        t = m(ip, o, 'get_id')
        ctx.oblige('shift.ids', isinstance(t, Rope) and len(t.parts) == 1 and t.parts[0][0] == 'n' and rv(t.parts[0][1]) == ID(i) + inc)
        ctx.oblige('shift.rectangles-unchanged', z3.And(*[a == b for a, b in zip(read_rect(ip, m(ip, o, 'get_bounds')), F.rect(ID(i)))]))
        key = z3.Const('somekey', TextSort)
        h, v = lookup_term(ip, m(ip, o, 'get_agg_data'), key)
        isid = key == text_lit('id')
        ctx.oblige('shift.data', z3.And(h == z3.Or(DATA.HAS(ID(i), key), isid), z3.Implies(z3.And(h, z3.Not(isid)), v == DATA.VAL(ID(i), key)), z3.Implies(isid, v == IDTXT(ID(i) + inc))))
        T.cover('a cell')
    T.run(go)
