"""C24: size of a boundary in metres."""
from ..task import task
from ..spec import *
from ..models import real_fn, real_fn_pi

BD = MG + 'boundary'




@task('C24', 'calc_size', 'requires: any boundary; ensures: (2*6371000*asin(sqrt(sin(dlat/2)^2 + cos(lat_min)cos(lat_max) sin(dlong/2)^2))) / sqrt(2), angles in radians: the great-circle distance of the south-west and '
      'the north-east corner (haversine formula) over the square root of two; the boundary is not modified',
      assumptions=['sin, cos, asin, sqrt and pi are the mathematical functions (uninterpreted; sign symmetry and sqrt(x)^2 = x are used)'])
def size(T):
    ip, ctx = T.interp(), T.ctx

    def go():
        r = Rect(ctx, 'bounds', T=T)
        b = boundary(ip, r)
        k, out = T.calls(ip, (BD, 'Boundary.calc_size'), [b])
        ctx.oblige('size.no-exception', k == 'ok', info=str(out))
        if k != 'ok':
            return
        T.cover('crossing') if ctx.feasible(r.hi < r.lo) else None
        T.cover('not crossing') if ctx.feasible(r.lo < r.hi) else None
        rad = lambda x: x * real_fn_pi() / 180
        f = lambda n, x: real_fn(ctx, n, x)
        s1, s2 = f('sin', rad(r.lat1 - r.lat0) / 2), f('sin', rad(r.hi - r.lo) / 2)
        h = s1 * s1 + f('cos', rad(r.lat0)) * f('cos', rad(r.lat1)) * s2 * s2
        want = 2 * 6371000 * f('asin', f('sqrt', h)) / f('sqrt', z3.RealVal(2))
        ctx.oblige('size.great-circle-diagonal-over-root-two', as_real(rv(out)) == want)
        ctx.oblige('size.frame', z3.And(*[x == y for x, y in zip(read_rect(ip, b), (r.lat0, r.lat1, r.lo, r.hi))]))
    T.replay = lambda m: [dict(checker='Size', case=dict(r=[float(__import__('fractions').Fraction(v)) for v in m['bounds']]))]
    T.run(go)
