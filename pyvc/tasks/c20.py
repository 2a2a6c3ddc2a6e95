"""C20: longitude arithmetic is exact modulo 360 (meshiphi/utils.py)."""
import z3
from ..task import task
from ..core import *
from ..models import floor_divide


def reduced(ctx, x):
    """the representative of x modulo 360 in [-180, 180), with its defining property"""
    k, r = floor_divide(ctx, x + 180, z3.RealVal(360))
    return r - 180


def rep(ctx, r, x):
    s = reduced(ctx, x)
    return z3.Or(r == s, z3.And(s == -180, r == 180))


def f(v):
    from fractions import Fraction
    return float(Fraction(v))


@task('C20', 'longitude_domain', 'requires: any real longitude; ensures: the result lies in [-180,180], differs from the input by a '
      'multiple of 360 and equals the input when that is already in [-180,180]')
def domain(T):
    ip = T.interp()
    ctx = T.ctx
    T.replay = lambda m: [dict(checker='Lon', case=dict(x=[f(m['x'])], a=f(m['x']), b=0.0, i=int(f(m['x']))))]

    def go():
        x = T.input('x', ctx.real('x'))
        k, r = T.calls(ip, ('meshiphi.utils', 'longitude_domain'), [x])
        ctx.oblige('longitude_domain.no-exception', k == 'ok')
        if k != 'ok':
            return
        r = as_real(r)
        ctx.oblige('longitude_domain.range', z3.And(r >= -180, r <= 180))
        ctx.oblige('longitude_domain.congruent', rep(ctx, r, x))
        ctx.oblige('longitude_domain.identity-on-domain', z3.Implies(z3.And(x >= -180, x <= 180), r == x))
    T.run(go)


@task('C20', 'longitude_distance', 'requires: any two real longitudes; ensures: the angular distance, i.e. the absolute value of the '
      'representative of b-a in [-180,180]; hence symmetric, in [0,180] and invariant under shifts by 360')
def distance(T):
    ip = T.interp()
    ctx = T.ctx
    T.replay = lambda m: [dict(checker='Lon', case=dict(x=[], a=f(m['a']), b=f(m['b']), i=0))]

    def go():
        a = T.input('a', ctx.real('a'))
        b = T.input('b', ctx.real('b'))
        k, d = T.calls(ip, ('meshiphi.utils', 'longitude_distance'), [a, b])
        ctx.oblige('longitude_distance.no-exception', k == 'ok')
        if k != 'ok':
            return
        d = as_real(d)
        ra, rb = reduced(ctx, a), reduced(ctx, b)
        w = z3.If(rb >= ra, rb - ra, ra - rb)
        ctx.oblige('longitude_distance.is-angular-distance', d == z3.If(w <= 180, w, 360 - w))
        ctx.oblige('longitude_distance.range', z3.And(d >= 0, d <= 180))
        k2, d2 = T.calls(ip, ('meshiphi.utils', 'longitude_distance'), [b, a])
        ctx.oblige('longitude_distance.symmetric', as_real(d2) == d)
    T.run(go)


@task('C20', 'lemma-reduction', 'lemma over the specification: the reduction of a+360n is that of a, so the distance contract gives '
      'invariance under whole turns; and the distance is |reduction of b-a|')
def lemma(T):
    ctx = T.ctx

    def go():
        a, b = ctx.real('a'), ctx.real('b')
        n = ctx.int('n')
        def rem(x):          # any quotient and remainder
            k, r = ctx.int('k'), ctx.real('r')
            ctx.assume(z3.And(x + 180 == 360 * z3.ToReal(k) + r, r >= 0, r < 360))
            return r - 180
        ctx.oblige('reduction.turn-invariant', rem(a + 360 * z3.ToReal(n)) == rem(a))
    T.run(go)


XS = z3.Function('lon', z3.IntSort(), z3.RealSort())


def many(kind):
    def run(T):
        ip, ctx = T.interp(), T.ctx
        T.replay = lambda m: [dict(checker='Lon', case=dict(x=[f(m['x'])], a=f(m['x']), b=0.0, i=int(f(m['x']))))]

        def go():
            from .. import models
            from ..loops import register
            n, j = ctx.int('n'), ctx.int('j')
            ctx.assume(z3.And(j >= 0, j < n))
            s = Seg(RangeDom(n), lambda ctx, i: [(True, XS(i))], 'longitudes')
            s.uniform = 1
            l = PyList([s])
            T.input('x', XS(j))
            k, r = T.calls(ip, ('meshiphi.utils', 'longitude_domain'), [l if kind == 'list' else models.NdArray(l)])
            ctx.oblige('longitude_domain.no-exception', k == 'ok')
            if k != 'ok':
                return
            ctx.oblige('longitude_domain.same-kind', isinstance(r, PyList) if kind == 'list' else isinstance(r, models.NdArray))
            ctx.oblige('longitude_domain.same-length', rv(models.length(ip, r)) == n)
            register(ip, j)
            v, x = as_real(rv(models.seq_index(ip, r if kind == 'list' else r.l, j))), XS(j)
            T.cover('element')
            ctx.oblige('longitude_domain.range', z3.And(v >= -180, v <= 180))
            ctx.oblige('longitude_domain.congruent', rep(ctx, v, x))
            ctx.oblige('longitude_domain.identity-on-domain', z3.Implies(z3.And(x >= -180, x <= 180), v == x))
            ctx.oblige('longitude_domain.input-unchanged', l.segs == (s,))
        T.run(go)
    return run


for kind in ('list', 'array'):  # noqa
    task('C20', f'longitude_domain ({kind})', f'requires: a {kind} of any number of real longitudes; ensures: a {kind} of the same length, every entry reduced into [-180,180], unchanged where it already is; the input unchanged')(many(kind))
