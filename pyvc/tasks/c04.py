"""C04: the classification of a pair of cells is geometrically exact."""
from ..task import task
from ..spec import *

NG = MG + 'neighbour_graph'
PRE = 'requires: two cells at most 180 degrees wide with disjoint interiors, any longitudes in [-180,180], crossing or not; '


def pair(T, ctx):
    a, b = Rect(ctx, 'a', 180, T), Rect(ctx, 'b', 180, T)
    ctx.assume(disjoint_spec(ctx, ren(a), ren(b)))
    return a, b


def replay(mo):
    return [dict(checker='Case', case=dict(a=fl(mo['a']), b=fl(mo['b'])))]


def run_case(T, entry, glob):
    ip, ctx = T.interp(), T.ctx
    T.replay = replay

    def go():
        a, b = pair(T, ctx)
        if glob:
            ctx.assume(z3.And(a.lo < a.hi, b.lo < b.hi))
        g = ip.call(ip.find(NG, 'NeighbourGraph'))
        if glob:
            m(ip, g, 'set_global_mesh', True)
        if glob == 'direct':
            ctx.assume(z3.Or(z3.And(a.lo == -180, b.hi == 180), z3.And(b.lo == -180, a.hi == 180)))
        x, y = boundary(ip, a), boundary(ip, b)
        if entry != 'get_neighbour_case_bounds':
            CB = ip.find(MG + 'cellbox', 'CellBox')
            x, y = ip.call(CB, [x, '0']), ip.call(CB, [y, '1'])
        k, r = T.calls(ip, (NG, 'NeighbourGraph.' + entry), [g, x, y])
        ctx.oblige('case.no-exception', k == 'ok', info=str(r))
        if k != 'ok':
            return
        w = case_spec(ctx, ren(a), ren(b))
        ctx.oblige('case.is-touching-direction', z3.BoolVal(False) if not is_num(r) else rv(r) == w)
        for d in (1, 2, 3, 4, -1, -2, -3, -4, 0):
            def reach(d=d):
                ctx.assume(w == d)
                T.cover(f'direction {d}')
            if glob != 'direct' or d not in (4, -4):
                ctx.explore(reach)
    T.run(go)


for entry, glob in (('get_neighbour_case_bounds', None), ('get_neighbour_case', None), ('get_neighbour_case', True), ('get_global_mesh_neighbour_case', 'direct')):
    task('C04', entry + ('' if not glob else ' (global mesh)'), PRE + ('the mesh is global and no cell crosses; ' if glob else '') +
         'ensures: the result is the direction in which the second touches the first modulo 360, 0 if they do not touch',
         seconds=200)(lambda T, entry=entry, glob=glob: run_case(T, entry, glob))


@task('C04', 'lemma-antisymmetry', 'lemma over the specification: swapping the cells negates the direction; with the contracts above the same holds for the code')
def anti(T):
    ctx = T.ctx

    def go():
        a, b = pair(T, ctx)
        ctx.oblige('case.antisymmetric', case_spec(ctx, ren(a), ren(b)) == -case_spec(ctx, ren(b), ren(a)))
    T.run(go)
