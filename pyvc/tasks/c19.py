"""C19: dates relative to today."""
from ..task import task
from ..spec import *
from .. import dates

B = MG + 'boundary'
ASM = ['datetime: strptime with %Y-%m-%d accepts year-month-day exactly when it is a date of the calendar, strftime writes the canonical text, timedelta(days=x) shifts by x days; dates do not leave the years 1..9999',
       'letter case and blanks: the listed spellings; everything else (numbers, current moment, calendar) unbounded']
CASES = ['TODAY', 'today', 'Today', 'tOdAy']
BL = ['', ' ', '   ']


def is_date(out, o):
    """out is the canonical text of the date with ordinal o"""
    if isinstance(out, str):
        import datetime
        try:
            d = datetime.datetime.strptime(out, '%Y-%m-%d')
        except ValueError:
            return False
        return d.strftime('%Y-%m-%d') == out and simp(rv(o) == d.toordinal())
    if isinstance(out, Rope) and len(out.parts) == 1 and out.parts[0][0] == 'd':
        return simp(rv(out.parts[0][1]) == rv(o))
    return False


def setup(T):
    ip, ctx = T.interp(), T.ctx
    st = {}

    def start():
        st['now'] = ctx.real('now')
        st['today'] = ctx.int('today')
        ctx.assume(z3.And(st['today'] >= 1, as_real(st['today']) <= st['now'], st['now'] < as_real(st['today']) + 1))
        T.input('now', st['now'])
        T.input('today', st['today'])
        ip.now = lambda: st['now']
    return ip, ctx, st, start


def parse(T, ip, text):
    f = ip.find(B, 'Boundary.parse_datetime')
    return T.calls(ip, f, [text])


def rp(mk):
    def f(mv):
        import datetime
        o = max(200000, min(900000, int(mv['today'])))
        d = datetime.date.fromordinal(o)
        return [dict(checker='Dates', case=dict(s=mk(mv), now=[d.year, d.month, d.day, 23, 30])), dict(checker='Dates', case=dict(s=mk(mv), now=[d.year, d.month, d.day, 0, 10]))]
    return f


@task('C19', 'dates', 'requires: year-month-day with any non-negative integers; ensures: the canonical text of that date if the calendar has it, ValueError otherwise', assumptions=ASM[:1])
def plain(T):
    ip, ctx, st, start = setup(T)

    def go():
        start()
        y, mo, d = ctx.int('y'), ctx.int('m'), ctx.int('d')
        for v, nm in ((y, 'y'), (mo, 'm'), (d, 'd')):
            ctx.assume(v >= 0)
            T.input(nm, v)
        k, out = parse(T, ip, Rope([('n', y), '-', ('n', mo), '-', ('n', d)]))
        if k == 'ok':
            T.cover('accepted')
            ctx.oblige('date.accepted-only-if-valid', dates.VALID(y, mo, d))
            ctx.oblige('date.canonical', is_date(out, dates.ORD(y, mo, d)))
        else:
            T.cover('rejected')
            ctx.oblige('date.rejected-only-if-invalid', z3.Not(dates.VALID(y, mo, d)))
            ctx.oblige('date.rejected-with-ValueError', isinstance(out, ExcVal) and out.cls is ValueError, info=str(out))
        o = ctx.int('o')
        ctx.assume(o >= 1)
        k, out = parse(T, ip, Rope([('d', o)]))
        ctx.oblige('date.canonical-text-accepted', k == 'ok', info=str(out))
        if k == 'ok':
            ctx.oblige('date.canonical-text-kept', is_date(out, o))
    T.replay = rp(lambda mv: f"{int(mv['y'])}-{int(mv['m'])}-{int(mv['d'])}")
    T.run(go)


def relative(T, sign):
    ip, ctx, st, start = setup(T)

    def go():
        start()
        n = ctx.int('n')
        ctx.assume(n >= 0)
        T.input('n', n)
        for c in CASES:
            for pre in BL:
                def bare():
                    k, out = parse(T, ip, pre + c + ' ' * len(pre))
                    ctx.oblige('today.accepted', k == 'ok', info=f'{c!r} {out}')
                    if k == 'ok':
                        ctx.oblige('today.current-date', is_date(out, st['today']))
                if sign == '+':
                    ctx.explore(bare)
                for a in BL:
                    for b in BL:
                        for z in BL[:2]:
                            def one():
                                k, out = parse(T, ip, Rope([pre + c + a + sign + b, ('n', n)] + ([z] if z else [])))
                                ctx.oblige('shift.accepted', k == 'ok', info=f'{pre + c + a + sign + b!r} {out}')
                                if k == 'ok':
                                    ctx.oblige('shift.days' + sign, is_date(out, st['today'] + n if sign == '+' else st['today'] - n))
                            ctx.explore(one)
    T.replay = rp(lambda mv: f"TODAY {sign} {min(100000, int(mv['n']))}")
    T.run(go)


for s_ in '+-':
    task('C19', 'TODAY' + s_ + 'n', f'requires: TODAY {s_} n in the listed spellings, any n >= 0, any current moment; ensures: the canonical text of the current date shifted by {s_}n days'
         + ('; TODAY alone gives the current date' if s_ == '+' else ''), assumptions=ASM)(lambda T, s_=s_: relative(T, s_))

BADTEXT = ['', ' ', 'rubbish', 'TODAY * 3', 'TODAY + x', 'TODAY - y', 'TODAY +', 'TODAY -', 'today x', 'YESTERDAY', 'NOW + 1', '2020/01/02', '01-02-2020', '2021-02-29', '2020-01-02 10:00', '2020-13-01', '3', '+3', '-3', 'TODA Y', 'TODAY 3', 'TOMORROW']


@task('C19', 'rejected', 'requires: texts from a list of malformed ones, and blank-separated numbers after TODAY without a sign, for any number; ensures: ValueError', assumptions=ASM[:1])
def rejected(T):
    ip, ctx, st, start = setup(T)

    def go():
        start()
        n = ctx.int('n')
        ctx.assume(n >= 0)
        for t in BADTEXT + [Rope(['TODAY ', ('n', n)]), Rope(['today', ('n', n)]), Rope(['TODAY * ', ('n', n)]), Rope([('n', n)]), Rope(['+', ('n', n)]), Rope(['NOW + ', ('n', n)])]:
            def one():
                k, out = parse(T, ip, t)
                ctx.oblige('malformed.rejected', k == 'raise', info=f'{t!r} {out}')
                ctx.oblige('malformed.ValueError', k != 'raise' or isinstance(out, ExcVal) and out.cls is ValueError, info=f'{t!r} {out}')
            ctx.explore(one)
    T.replay = lambda mv: [dict(checker='Dates', case=dict(s=t, now=[2020, 2, 28, 12, 0])) for t in BADTEXT]
    T.run(go)
