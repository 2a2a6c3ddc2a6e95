"""Whole multiples of a fixed positive number, as a defined function.

Products of two unknowns are beyond the linear theories; where a task declares Scale(y), the product k*y of an integer k and y is
the term P(k), about which the instances of three facts are given to the solver (they are proved, for the real product, by the
lemma task of this name): P(0) = 0, P(k+1) = P(k)+y, and j < k implies P(j)+y <= P(k).  Floor division by y uses
x = P(q)+r, 0 <= r < y."""
import z3
from .core import *


class Scale:
    def __init__(self, ctx, y, name):
        self.ctx, self.y, self.name = ctx, rv(y), name
        self.int = z3.is_int(self.y)
        srt = self.y.sort()
        self.P = z3.Function('times_' + name, z3.IntSort(), srt)
        self.Q = z3.Function('quot_' + name, srt, z3.IntSort())
        self.R = z3.Function('rem_' + name, srt, srt)
        ctx.hooks[self.P.name()] = self.use
        ctx.hooks[self.Q.name()] = ctx.hooks[self.R.name()] = self.div
        ctx.scales = [s for s in ctx.scales if s.name != name] + [self]
        self.use(z3.IntVal(0))
        self.use(z3.IntVal(1))
        ctx.assume_univ(z3.And(self.P(0) == 0, self.P(1) == self.y))

    def key(self):
        return ('scale', self.name)

    def use(self, k):
        ctx, P, y = self.ctx, self.P, self.y
        k = rv(k)
        old = ctx.fh.d.get(self.key(), ())
        if any(t.eq(k) for t in old):
            return
        ctx.write(ctx.fh, self.key(), old + (k,))
        for j in old:
            ctx.assume_univ(z3.And(z3.Implies(j < k, P(j) + y <= P(k)), z3.Implies(k < j, P(k) + y <= P(j)), z3.Implies(k == j, P(j) == P(k)),
                                   z3.Implies(k == j + 1, P(k) == P(j) + y), z3.Implies(j == k + 1, P(j) == P(k) + y)))

    def times(self, k):
        k = rv(simp(k))
        self.use(k)
        return self.P(k)

    def div(self, x):
        x = rv(simp(x))
        q, r = self.Q(x), self.R(x)
        self.use(q)
        self.ctx.assume_univ(z3.And(x == self.P(q) + r, r >= 0, r < self.y))
        return q, r


def scale_for(ctx, y):
    y = rv(y)
    for s in ctx.scales:
        if s.y.eq(y):
            return s
    return None


def times(ctx, a, b):
    """product of two terms of the same sort"""
    for k, y in ((a, b), (b, a)):
        s = scale_for(ctx, y)
        if s is not None:
            if z3.is_int(k):
                return s.times(k)
            if z3.is_to_real(k):
                return s.times(k.arg(0))
            if z3.is_rational_value(k) and k.as_fraction().denominator == 1:
                return s.times(z3.IntVal(k.as_fraction().numerator))
    # a scale over the integers, used as a real number
    for k, y in ((a, b), (b, a)):
        if z3.is_to_real(y) and z3.is_real(k):
            s = scale_for(ctx, y.arg(0))
            if s is not None and z3.is_to_real(k):
                return z3.ToReal(s.times(k.arg(0)))
    return a * b


def lemma(T):
    ctx = T.ctx

    def go():
        y = ctx.real('y')
        j, k = ctx.int('j'), ctx.int('k')
        ctx.assume(y > 0)
        R = z3.ToReal
        ctx.oblige('product.successor', z3.Implies(k == j + 1, R(k) * y == R(j) * y + y))
        d = ctx.int('d')
        ctx.assume(z3.And(k == j + 1 + d, d >= 0))
        ctx.oblige('product.gap', R(d) * y >= 0)
        ctx.assume(R(d) * y >= 0)
        ctx.oblige('product.monotone', R(j) * y + y <= R(k) * y)
        # quotient and remainder exist: the floor
        x = ctx.real('x')
        q = ctx.int('q')
        ctx.assume(z3.And(R(q) <= x / y, x / y < R(q) + 1))
        ctx.oblige('quotient', z3.And(R(q) * y <= x, x < R(q) * y + y))
    T.run(go)
