"""datetime for the interpreter: calendar dates are ordinals, 'YYYY-MM-DD' texts are Rope parts ('d', ordinal).

Assumed about the library: strptime/strftime with '%Y-%m-%d' are inverse between dates and canonical texts;
comparison is that of ordinals; adding timedelta(days=x) shifts by x days and the date is the floor."""
import datetime as _dt, re
from fractions import Fraction
import z3
from .core import *
from .interp import Model, Native, ExcVal
from . import models

FMT = '%Y-%m-%d'
_I = z3.IntSort()
VALID = z3.Function('valid_date', _I, _I, _I, z3.BoolSort())     # year, month, day is a date of the calendar
ORD = z3.Function('ordinal', _I, _I, _I, _I)


class DateM(Model):
    """a moment: real number of days (ordinal + fraction of day); isdate: a date without time"""
    def __init__(self, v, isdate=False):
        super().__init__()
        self.v, self.isdate = v, isdate

    def subst(self, ins):
        return DateM(ins.val(self.v), self.isdate)

    def ordinal(self, ip):
        v = rv(self.v)
        if z3.is_int(v):
            return norm(v)
        k, r = models.floor_divide(ip.ctx, as_real(v), z3.RealVal(1))
        return k

    def get(self, ip, n):
        if n == 'date':
            return Native('date', lambda ip, a, k: DateM(self.ordinal(ip), True))
        if n == 'strftime':
            def f(ip, a, k):
                if a != [FMT]:
                    raise Unsupported('strftime format')
                return date_text(self.ordinal(ip))
            return Native('strftime', f)
        if n == 'toordinal':
            return Native('toordinal', lambda ip, a, k: self.ordinal(ip))
        raise Unsupported(f'datetime.{n}')

    def cmp(self, ip, op, o, sw):
        if not isinstance(o, DateM):
            if op in ('Eq', 'NotEq'):
                return op == 'NotEq'
            raise Unsupported('comparison of a date')
        a, b = (o.v, self.v) if sw else (self.v, o.v)
        return models.compare(ip, op, a, b)

    def binop(self, ip, op, o, sw):
        if isinstance(o, DeltaM) and op in ('Add', 'Sub') and not (sw and op == 'Sub'):
            return DateM(models.binop(ip, op, self.v, o.days), self.isdate)
        if isinstance(o, DateM) and op == 'Sub':
            a, b = (o.v, self.v) if sw else (self.v, o.v)
            return DeltaM(models.binop(ip, 'Sub', a, b))
        raise Unsupported('date arithmetic')


class DeltaM(Model):
    def __init__(self, days):
        super().__init__()
        self.days = days

    def get(self, ip, n):
        if n == 'days':
            k, r = models.floor_divide(ip.ctx, as_real(rv(self.days)), z3.RealVal(1))
            return k
        raise Unsupported(f'timedelta.{n}')

    def binop(self, ip, op, o, sw):
        if op == 'USub':
            return DeltaM(models.binop(ip, 'Sub', 0, self.days))
        if op == 'Mult' and is_num(o):
            return DeltaM(models.binop(ip, 'Mult', self.days, o))
        raise Unsupported('timedelta arithmetic')


def date_text(o):
    if isinstance(o, int):
        return _dt.date.fromordinal(o).strftime(FMT)
    return Rope([('d', o)])


def strptime(ip, a, k):
    s, fmt = a
    if fmt != FMT:
        raise Unsupported('strptime format')
    if isinstance(s, str):
        try:
            return DateM(_dt.datetime.strptime(s, FMT).toordinal())
        except ValueError as e:
            models.raise_(ValueError, str(e))
    if isinstance(s, Rope):
        if len(s.parts) == 1 and not isinstance(s.parts[0], str) and s.parts[0][0] == 'd':
            return DateM(s.parts[0][1])
        ps = s.parts
        if len(ps) == 5 and ps[1] == '-' and ps[3] == '-' and all(not isinstance(q, str) and q[0] == 'n' and z3.is_int(rv(q[1])) and ip.ctx.must(rv(q[1]) >= 0) for q in (ps[0], ps[2], ps[4])):
            y, mo, d = [rv(q[1]) for q in (ps[0], ps[2], ps[4])]
            if ip.ctx.branch(VALID(y, mo, d)):
                return DateM(ORD(y, mo, d))
            models.raise_(ValueError, 'does not match format')
        lits = ''.join(p for p in s.parts if isinstance(p, str))
        if any(c not in '0123456789-' for c in lits) and all(isinstance(p, str) or p[0] in 'nd' for p in s.parts):
            models.raise_(ValueError, 'does not match format')
        if all(isinstance(p, str) or p[0] in 'nd' for p in s.parts) and not any('-' in models.part_chars(ip, p) for p in s.parts):
            models.raise_(ValueError, 'does not match format')
        raise Unsupported('strptime of composed text')
    if isinstance(s, (int, Fraction, DateM, PyList)) or s is None:
        models.raise_(TypeError, 'strptime argument')
    raise Unsupported('strptime')


def module(ip):
    def today(ip, a, k):
        if not hasattr(ip, 'now'):
            raise Unsupported('no clock in this task')
        return DateM(ip.now())

    def dtoday(ip, a, k):
        return DateM(DateM(ip.now()).ordinal(ip), True)

    def timedelta(ip, a, k):
        d = a[0] if a else 0
        for n, x in k.items():
            f = {'days': Fraction(1), 'hours': Fraction(1, 24), 'weeks': Fraction(7), 'minutes': Fraction(1, 1440), 'seconds': Fraction(1, 86400)}.get(n)
            if f is None:
                raise Unsupported('timedelta')
            d = models.binop(ip, 'Add', d, models.binop(ip, 'Mult', f, x) if f != 1 else x)
        if isinstance(d, NaNable):
            raise Unsupported('timedelta of nan')
        return DeltaM(d)
    dt = models.ExtModule('datetime.datetime', dict(strptime=Native('strptime', strptime), today=Native('today', today), now=Native('now', today)))
    date = models.ExtModule('datetime.date', dict(today=Native('date.today', dtoday)))
    return models.ExtModule('datetime', dict(datetime=dt, timedelta=Native('timedelta', timedelta), date=date))
