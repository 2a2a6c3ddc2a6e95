"""Python builtins, operators and external libraries for the pyvc interpreter."""
import builtins as _b, re
from fractions import Fraction
import z3
from .core import *
from .scale import times, scale_for
from .interp import (Model, Native, Noop, Opaque, Obj, ClassVal, FuncVal, Bound, ExcVal, TypeVal, TYPES, RangeVal, NEXT, Module)


def raise_(cls, *a):
    raise PyRaise(ExcVal(cls, a))


# ================================================================= operators
def truth(ip, v):
    if isinstance(v, bool) or isinstance(v, z3.BoolRef):
        return v
    if v is None:
        return False
    if isinstance(v, (int, Fraction)):
        return v != 0
    if isinstance(v, z3.ArithRef):
        return simp(v != 0)
    if isinstance(v, NaNable):
        return simp(z3.Or(zb(v.nan), as_real(v.val) != 0))
    if isinstance(v, str):
        return v != ''
    if isinstance(v, Rope):
        return len(v.parts) > 0
    if isinstance(v, (tuple, set)):
        return len(v) > 0
    if isinstance(v, PyList):
        if v.concrete:
            return len(v.segs) > 0
        return simp(rv(length(ip, v)) > 0)
    if isinstance(v, PyDict):
        if all(isinstance(e, tuple) for e in v.ents):
            return len(v.ents) > 0
        raise Unsupported('truth of symbolic dict')
    if isinstance(v, Model):
        return v.truth(ip)
    if isinstance(v, Obj):
        if isinstance(v.cls, ClassVal) and (v.cls.lookup('__bool__') or v.cls.lookup('__len__')):
            raise Unsupported('__bool__')
        return True
    if isinstance(v, (ClassVal, FuncVal, Bound, Native, TypeVal, ExcVal)):
        return True
    if isinstance(v, Atom):
        return simp(v.t != text_lit(''))
    raise Unsupported(f'truth of {v!r}')


def identity(ip, a, b):
    if a is b:
        return True
    if isinstance(a, (bool,)) and isinstance(b, z3.BoolRef):
        return simp(b == a)
    if isinstance(b, (bool,)) and isinstance(a, z3.BoolRef):
        return simp(a == b)
    if isinstance(a, Obj) and isinstance(b, Obj):
        if a.origin and b.origin and a.origin[0] is b.origin[0]:
            if a.path is None or b.path is None:
                raise Unsupported('identity of parts of elements')
            if a.path != b.path:
                return False
            return simp(rv(a.origin[1]) == rv(b.origin[1]))
        return False
    if hasattr(a, 'same') and isinstance(a, Model):
        return a.same(ip, b)
    if hasattr(b, 'same') and isinstance(b, Model):
        return b.same(ip, a)
    if a is None or b is None or isinstance(a, bool) or isinstance(b, bool):
        return False
    if isinstance(a, (Heap, ClassVal, TypeVal)) or isinstance(b, (Heap, ClassVal, TypeVal)):
        return False
    raise Unsupported('is between values')


def eq(ip, a, b):
    """Python == ; bool, z3 Bool (or an array model)"""
    if isinstance(a, Model) and hasattr(a, 'cmp'):
        return a.cmp(ip, 'Eq', b, False)
    if isinstance(b, Model) and hasattr(b, 'cmp'):
        return b.cmp(ip, 'Eq', a, True)
    if isinstance(a, Model):
        return a.eq(ip, b)
    if isinstance(b, Model):
        return b.eq(ip, a)
    if isinstance(a, Poison) or isinstance(b, Poison):
        raise Unsupported('comparison of an undefined value')
    if is_numlike(a) and is_numlike(b):
        if isinstance(a, (bool, z3.BoolRef)) and isinstance(b, (bool, z3.BoolRef)):
            return simp(zb(a) == zb(b))
        if isinstance(a, NaNable) or isinstance(b, NaNable):
            na, va = (a.nan, a.val) if isinstance(a, NaNable) else (False, a)
            nb, vb = (b.nan, b.val) if isinstance(b, NaNable) else (False, b)
            return simp(z3.And(z3.Not(zb(na)), z3.Not(zb(nb)), as_real(va) == as_real(vb)))
        if isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)):
            return a == b
        return simp(as_arith(a) == as_arith(b))
    if isinstance(a, (str, Atom, Rope)) and isinstance(b, (str, Atom, Rope)):
        return text_eq(ip, a, b)
    if a is None or b is None:
        if isinstance(a, Obj) or isinstance(b, Obj):
            o = a if isinstance(a, Obj) else b
            if isinstance(o.cls, ClassVal) and o.cls.lookup('__eq__'):
                return truth(ip, ip.call(Bound(o.cls.lookup('__eq__'), o), [b if o is a else a]))
        return a is b
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        return band(*[truth(ip, eq(ip, x, y)) for x, y in zip(a, b)])
    if isinstance(a, PyList) and isinstance(b, PyList):
        if a is b:
            return True
        if a.concrete and b.concrete:
            if len(a.segs) != len(b.segs):
                return False
            return band(*[truth(ip, eq(ip, x, y)) for x, y in zip(a.segs, b.segs)])
        if (a.concrete and not a.segs) or (b.concrete and not b.segs):
            return simp(rv(length(ip, b if not a.segs else a)) == 0)
        raise Unsupported('== of symbolic lists')
    if isinstance(a, PyDict) and isinstance(b, PyDict):
        if a is b:
            return True
        if all(isinstance(e, tuple) for e in a.ents + b.ents):
            if len(a.ents) != len(b.ents):
                return False
            res = []
            for k, v in a.ents:
                m = dict_find(ip, b, k)
                if m is None:
                    return False
                res.append(truth(ip, eq(ip, v, m[1])))
            return band(*res)
        ctx_ = ip.ctx
        ctx_.abstracted('equality of two dicts with unknown entries')
        return ctx_.bool('same_dict')
    if isinstance(a, Obj) or isinstance(b, Obj):
        if isinstance(a, Obj) and isinstance(a.cls, ClassVal):
            f = a.cls.lookup('__eq__')
            if f:
                return ip.call(Bound(f, a), [b])
        if isinstance(b, Obj) and isinstance(b.cls, ClassVal):
            f = b.cls.lookup('__eq__')
            if f:
                return ip.call(Bound(f, b), [a])
        return identity(ip, a, b)
    if isinstance(a, set) and isinstance(b, set):
        return a == b
    if type(a) is not type(b) or isinstance(a, (ClassVal, TypeVal, FuncVal)):
        if isinstance(a, (ClassVal, TypeVal, FuncVal, str, Atom, Rope, PyList, PyDict, tuple, ExcVal)) or is_numlike(a):
            return a is b
    raise Unsupported(f'== of {a!r} and {b!r}')


def text_eq(ip, a, b):
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    if isinstance(a, Rope) and isinstance(b, Rope) and a.parts == b.parts:
        return True
    if isinstance(a, Atom) and isinstance(b, (Atom, str)) or isinstance(b, Atom) and isinstance(a, (Atom, str)):
        ta = a.t if isinstance(a, Atom) else text_lit(a)
        tb = b.t if isinstance(b, Atom) else text_lit(b)
        return simp(ta == tb)
    if isinstance(a, Atom) or isinstance(b, Atom):
        raise Unsupported('== of opaque and composed text')
    if isinstance(b, Rope) and isinstance(a, str):
        a, b = b, a
    pa = a.parts
    if isinstance(b, str):
        if len(pa) == 1 and pa[0][0] == 'd':
            import datetime as _dt
            try:
                d = _dt.datetime.strptime(b, '%Y-%m-%d')
                if d.strftime('%Y-%m-%d') == b:
                    return simp(rv(pa[0][1]) == d.toordinal())
            except ValueError:
                pass
            return False
        if any(not isinstance(p, str) and p[0] == 'o' for p in pa):
            raise Unsupported('opaque text')
        # single number against a literal
        if len(pa) == 1 and pa[0][0] == 'n':
            n = pa[0][1]
            if z3.is_int(rv(n)):
                return simp(rv(n) == int(b)) if re.fullmatch(r'0|-?[1-9]\d*', b) else False
            raise Unsupported('float text against literal')
        lit = [p for p in pa if isinstance(p, str)]
        if lit and not any(c in b for c in lit[0] if c not in '0123456789.+-einfa'):
            if any(c not in '0123456789.+-einfa' for c in lit[0]):
                return False
        if not pa:
            return b == ''
        if any(all(c not in part_chars(ip, p) for p in pa) for c in b) or any(c not in b for p in pa if isinstance(p, str) for c in p):
            return False
        if any(not isinstance(p, str) and not (set(b) & part_chars(ip, p)) for p in pa):
            return False            # numbers are not empty
        raise Unsupported('composed text against literal')
    pb = b.parts
    if len(pa) == len(pb):
        cs = []
        ok = True
        for x, y in zip(pa, pb):
            if isinstance(x, str) and isinstance(y, str):
                if x != y:
                    ok = False
            elif not isinstance(x, str) and not isinstance(y, str) and x[0] == 'd' and y[0] == 'd':
                cs.append(simp(rv(x[1]) == rv(y[1])))
            elif not isinstance(x, str) and not isinstance(y, str) and x[0] == 'n' and y[0] == 'n':
                if z3.is_int(rv(x[1])) != z3.is_int(rv(y[1])):
                    ok = False
                else:
                    cs.append(simp(rv(x[1]) == rv(y[1])))
            else:
                ok = False
        if ok:
            return band(*cs)
        if len(pa) == 1:
            return False
    raise Unsupported('== of composed texts')


def compare(ip, op, a, b):
    if op == 'Is':
        return identity(ip, a, b)
    if op == 'IsNot':
        return bnot(identity(ip, a, b))
    if op == 'In':
        return contains(ip, b, a)
    if op == 'NotIn':
        r = contains(ip, b, a)
        return bnot(truth(ip, r))
    if op in ('Eq', 'NotEq'):
        for x, y, sw in ((a, b, False), (b, a, True)):
            if isinstance(x, Model) and hasattr(x, 'cmp'):
                return x.cmp(ip, op, y, sw)
        r = eq(ip, a, b)
        return r if op == 'Eq' else bnot(truth(ip, r))
    for x, y, sw in ((a, b, False), (b, a, True)):
        if isinstance(x, Model):
            if hasattr(x, 'cmp'):
                return x.cmp(ip, op, y, sw)
            raise Unsupported(f'{op} on {type(x).__name__}')
    if is_numlike(a) and is_numlike(b):
        na = nb = False
        if isinstance(a, NaNable):
            na, a = a.nan, a.val
        if isinstance(b, NaNable):
            nb, b = b.nan, b.val
        if isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)):
            r = dict(Lt=a < b, LtE=a <= b, Gt=a > b, GtE=a >= b)[op]
        else:
            x, y = as_arith(a), as_arith(b)
            r = simp(dict(Lt=lambda: x < y, LtE=lambda: x <= y, Gt=lambda: x > y, GtE=lambda: x >= y)[op]())
        return band(bnot(na), bnot(nb), r)
    if isinstance(a, str) and isinstance(b, str):
        return dict(Lt=a < b, LtE=a <= b, Gt=a > b, GtE=a >= b)[op]
    if a is None or b is None:
        raise_(TypeError, 'ordering with None')
    raise Unsupported(f'{op} of {a!r} and {b!r}')


POW2 = z3.Function('pow2', z3.IntSort(), z3.IntSort())


def binop(ip, op, a, b):
    ctx = ip.ctx
    if isinstance(a, Model):
        return a.binop(ip, op, b, False)
    if isinstance(b, Model):
        return b.binop(ip, op, a, True)
    if isinstance(a, Poison) or isinstance(b, Poison):
        raise Unsupported('arithmetic on an undefined value')
    if op == 'Add':
        if isinstance(a, (str, Rope)) and isinstance(b, (str, Rope)):
            if isinstance(a, str) and isinstance(b, str):
                return a + b
            return Rope((a.parts if isinstance(a, Rope) else (a,)) + (b.parts if isinstance(b, Rope) else (b,)))
        if isinstance(a, PyList) and isinstance(b, PyList):
            return PyList(a.segs + b.segs)
        if isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
    if op == 'Mult' and isinstance(a, PyList) and isinstance(b, int):
        return PyList(a.segs * b)
    if op == 'Mult' and isinstance(a, str) and isinstance(b, int):
        return a * b
    if op in ('BitAnd', 'BitOr', 'BitXor'):
        if isinstance(a, (bool, z3.BoolRef)) and isinstance(b, (bool, z3.BoolRef)):
            return band(a, b) if op == 'BitAnd' else bor(a, b) if op == 'BitOr' else simp(z3.Xor(zb(a), zb(b)))
        if isinstance(a, int) and isinstance(b, int):
            return {'BitAnd': a & b, 'BitOr': a | b, 'BitXor': a ^ b}[op]
        if isinstance(a, set) and isinstance(b, set):
            return {'BitAnd': a & b, 'BitOr': a | b, 'BitXor': a ^ b}[op]
        raise Unsupported(f'{op} of {a!r} and {b!r}')
    if op == 'Mod' and isinstance(a, (str, Rope)):
        raise Unsupported('% formatting')
    if not (is_numlike(a) and is_numlike(b)):
        if isinstance(a, set) and isinstance(b, set) and op == 'Sub':
            return a - b
        if a is None or b is None or isinstance(a, (str, Rope)) or isinstance(b, (str, Rope)):
            raise_(TypeError, f'{op} of {type(a).__name__} and {type(b).__name__}')
        raise Unsupported(f'{op} of {a!r} and {b!r}')
    if isinstance(a, NaNable) or isinstance(b, NaNable):
        na, va = (a.nan, a.val) if isinstance(a, NaNable) else (False, a)
        nb, vb = (b.nan, b.val) if isinstance(b, NaNable) else (False, b)
        r = binop(ip, op, va, vb)
        return NaNable(bor(na, nb), r)
    if isinstance(a, bool):
        a = int(a)
    if isinstance(b, bool):
        b = int(b)
    conc = isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction))
    if op in ('Div', 'FloorDiv', 'Mod'):
        z = simp(as_arith(b) == 0)
        if ctx.branch(z):
            raise_(ZeroDivisionError)
    if conc:
        if op == 'Add':
            return _c(a + b, a, b)
        if op == 'Sub':
            return _c(a - b, a, b)
        if op == 'Mult':
            return _c(a * b, a, b)
        if op == 'Div':
            return Fraction(a) / Fraction(b)
        if op == 'FloorDiv':
            return a // b
        if op == 'Mod':
            return _c(a % b, a, b)
        if op == 'Pow':
            if isinstance(b, int):
                return Fraction(a) ** b if b < 0 or isinstance(a, Fraction) else a ** b
        raise Unsupported(f'{op} on constants')
    x, y = as_arith(a), as_arith(b)
    if op == 'Add':
        return simp(x + y)
    if op == 'Sub':
        return simp(x - y)
    if op == 'Mult':
        return simp(times(ctx, x, y)) if ctx.scales else simp(x * y)
    if op == 'Div':
        return simp(as_real(x) / as_real(y))
    if op in ('FloorDiv', 'Mod'):
        if ctx.branch(simp(y < 0)):
            raise Unsupported('floor division by a negative number')
        if z3.is_int(x) and z3.is_int(y):
            s = scale_for(ctx, y)
            if s is not None:
                return s.div(x)[0 if op == 'FloorDiv' else 1]
            return simp(x / y) if op == 'FloorDiv' else simp(x % y)
        x, y = as_real(x), as_real(y)
        k, r = floor_divide(ctx, x, y)
        return simp(z3.ToReal(k)) if op == 'FloorDiv' else r
    if op == 'Pow':
        if isinstance(b, int) and 0 <= b <= 4:
            r = z3.IntVal(1) if z3.is_int(x) else z3.RealVal(1)
            for _ in range(b):
                r = r * x
            return simp(r)
        if isinstance(a, int) and a == 2 and z3.is_int(y):
            t = POW2(y)
            ctx.assume(z3.Implies(y >= 0, t >= 1))
            ctx.assume(z3.Implies(y == 0, t == 1))
            ctx.assume(z3.Implies(y >= 1, t == 2 * POW2(y - 1)))
            if ctx.branch(simp(y < 0)):
                raise Unsupported('negative exponent')
            return t
    raise Unsupported(f'operator {op}')


def floor_divide(ctx, x, y):
    """(k, r): integer k and remainder r with x == y*k + r, 0 <= r < y, for y > 0"""
    x, y = simp_t(x), simp_t(y)
    s = scale_for(ctx, y)
    if s is not None:
        return s.div(x)
    if z3.is_to_real(y) and scale_for(ctx, y.arg(0)) is not None:
        i = z3.simplify(z3.ToInt(x))
        if z3.simplify(z3.ToReal(i)).eq(x) or ctx.must(z3.ToReal(i) == x):
            q, r = scale_for(ctx, y.arg(0)).div(i)
            return q, z3.ToReal(r)
    if z3.is_rational_value(y) and not z3.is_rational_value(x) and z3.is_real(x):
        # quotient and remainder by a constant as defined functions: instances of loop bodies speak of the same terms
        tag = str(y.as_fraction()).replace('/', '_')
        q = z3.Function('quot_' + tag, z3.RealSort(), z3.IntSort())
        rm = z3.Function('rem_' + tag, z3.RealSort(), z3.RealSort())
        key = ('floorf', tag, x.get_id())

        def define(x):
            ctx.assume_univ(z3.And(x == y * z3.ToReal(q(x)) + rm(x), 0 <= rm(x), rm(x) < y))
        if q.name() not in ctx.hooks:
            ctx.hooks[q.name()] = ctx.hooks[rm.name()] = define
        define(x)
        return q(x), rm(x)
    key = ('floor', x.get_id(), y.get_id())
    if key not in ctx.floors:
        ctx.floors[key] = (x, y, ctx.int('k'), ctx.real('rem'))
    k, r = ctx.floors[key][2:]
    if key not in ctx.fh.d and not z3.is_rational_value(y):
        # quotient and remainder are functions of the operands (helps where y * k is not linear)
        for k2, (x2, y2, q2, r2) in list(ctx.floors.items()):
            if k2 != key and k2 in ctx.fh.d:
                ctx.assume(z3.Implies(z3.And(x == x2, y == y2), z3.And(k == q2, r == r2)))
    ctx.once(key, z3.And(x == y * z3.ToReal(k) + r, 0 <= r, r < y))
    return k, r


def _c(r, a, b):
    return Fraction(r) if isinstance(a, Fraction) or isinstance(b, Fraction) else r


# ================================================================= text
NUMCH = set('0123456789.+-einfa')


def to_str(ip, v):
    if isinstance(v, bool):
        return str(v)
    if isinstance(v, int):
        return str(v)
    if isinstance(v, (str, Rope, Atom)):
        return v
    if v is None:
        return 'None'
    if isinstance(v, Fraction):
        return Rope([('n', z3.RealVal(v))])
    if isinstance(v, z3.ArithRef):
        return Rope([('n', v)])
    if isinstance(v, Obj) and isinstance(v.cls, ClassVal) and v.cls.lookup('__str__'):
        return Rope([('o', f'str of {v!r}')])
    if isinstance(v, (Heap, ClassVal, ExcVal, tuple, NaNable, z3.BoolRef, TypeVal)):
        return Rope([('o', f'str of {type(v).__name__}')])
    raise Unsupported(f'str({v!r})')


def part_chars(ip, p):
    """characters a part of a composed text may contain"""
    if isinstance(p, str):
        return set(p)
    if p[0] == 'd':
        return set('0123456789-')
    if p[0] == 'n':
        if z3.is_int(rv(p[1])):
            return set('0123456789') if ip.ctx.must(simp(rv(p[1]) >= 0)) else set('0123456789-')
        return NUMCH
    raise Unsupported('opaque text')


def rope_split(ip, r, sep, maxsplit=-1):
    if not sep or any(all(c in part_chars(ip, p) for c in sep) for p in r.parts if not isinstance(p, str)):
        raise Unsupported('split of composed text at characters its numbers may contain')
    if len(sep) > 1 and any(c in part_chars(ip, p) for c in sep for p in r.parts if not isinstance(p, str)):
        raise Unsupported('split of composed text')
    out, cur = [], []
    n = 0
    for p in r.parts:
        if isinstance(p, str):
            while True:
                if maxsplit >= 0 and n >= maxsplit:
                    break
                i = p.find(sep)
                if i < 0:
                    break
                cur.append(p[:i])
                out.append(_rope(cur))
                cur = []
                p = p[i + len(sep):]
                n += 1
            cur.append(p)
        else:
            if p[0] == 'o':
                raise Unsupported('split of opaque text')
            cur.append(p)
    out.append(_rope(cur))
    return PyList(out)


def _rope(parts):
    r = Rope(parts)
    if all(isinstance(p, str) for p in r.parts):
        return ''.join(r.parts)
    return r


def str_attr(ip, s, n):
    def nat(f):
        return Native(f'str.{n}', f)
    if isinstance(s, str):
        if n in ('upper', 'lower', 'strip', 'lstrip', 'rstrip', 'replace', 'startswith', 'endswith', 'title', 'find', 'count', 'isdigit', 'zfill', 'capitalize'):
            def f(ip, a, k):
                if all(isinstance(x, (str, int)) for x in a):
                    return getattr(s, n)(*a)
                if n in ('startswith', 'endswith') and isinstance(a[0], tuple):
                    return getattr(s, n)(a[0])
                raise Unsupported(f'str.{n}')
            return nat(f)
        if n in ('split', 'rsplit', 'partition', 'splitlines'):
            def f(ip, a, k):
                r = getattr(s, n)(*a, **k)
                return tuple(r) if n == 'partition' else PyList(r)
            return nat(f)
        if n == 'join':
            def f(ip, a, k):
                xs = ip.unpack(a[0])
                out = []
                for i, x in enumerate(xs):
                    if i:
                        out.append(s)
                    out += list(x.parts) if isinstance(x, Rope) else [x]
                return _rope(out)
            return nat(f)
        if n == 'format':
            return nat(lambda ip, a, k: Rope([('o', 'formatted')]))
    if isinstance(s, Rope):
        if n == 'split':
            return nat(lambda ip, a, k: rope_split(ip, s, *a) if a else rope_split(ip, s, ' '))
        if n in ('lstrip', 'strip', 'rstrip'):
            def f(ip, a, k):
                if a:
                    raise Unsupported('strip with argument')
                ps = list(s.parts)
                if n != 'rstrip' and ps and isinstance(ps[0], str):
                    ps[0] = ps[0].lstrip()
                if n != 'lstrip' and ps and isinstance(ps[-1], str):
                    ps[-1] = ps[-1].rstrip()
                return _rope(ps)
            return nat(f)
        if n in ('startswith', 'endswith'):
            def f(ip, a, k):
                p = s.parts[0] if n == 'startswith' else s.parts[-1]
                if isinstance(p, str) and isinstance(a[0], str) and len(p) >= len(a[0]):
                    return getattr(p, n)(a[0])
                raise Unsupported('startswith of composed text')
            return nat(f)
        if n == 'replace':
            def f(ip, a, k):
                if all(c in NUMCH for c in a[0]):
                    raise Unsupported('replace in composed text')
                return _rope([p.replace(*a) if isinstance(p, str) else p for p in s.parts])
            return nat(f)
        if n in ('upper', 'lower'):
            return nat(lambda ip, a, k: _rope([getattr(p, n)() if isinstance(p, str) else p for p in s.parts]))
    if isinstance(s, Atom):
        h = ip.ctx_text_hooks.get(n) if hasattr(ip, 'ctx_text_hooks') else None
        if h:
            return nat(lambda ip, a, k: h(ip, s, a))
    raise Unsupported(f'text method {n}')


def text_contains(ip, s, x):
    if isinstance(s, str) and isinstance(x, str):
        return x in s
    if isinstance(s, Rope) and isinstance(x, str):
        if any(isinstance(p, str) and x in p for p in s.parts):
            return True
        cs = [part_chars(ip, p) for p in s.parts]
        if any(all(c not in ch for ch in cs) for c in x):
            return False
        if len(x) == 1 or not any(c in ch for c in x for ch, p in zip(cs, s.parts) if not isinstance(p, str)):
            if len(x) > 1:
                return False        # cannot span a number, and lies in no literal piece
        raise Unsupported('substring test in composed text')
    if isinstance(s, Atom) and isinstance(x, str):
        return simp(z3.Function('has:' + x, TextSort, z3.BoolSort())(s.t))
    raise Unsupported('substring test')


# ================================================================= containers
def length(ip, v):
    if isinstance(v, (str, tuple, set)):
        return len(v)
    if isinstance(v, PyList):
        return segs_len(ip, v.segs)
    if isinstance(v, PyDict):
        if all(isinstance(e, tuple) for e in v.ents):
            return len(v.ents)
        raise Unsupported('len of symbolic dict')
    if isinstance(v, RangeVal) and v.step == 1:
        return simp(z3.If(rv(v.hi) > rv(v.lo), rv(v.hi) - rv(v.lo), z3.IntVal(0)))
    if isinstance(v, Model):
        return v.length(ip)
    if isinstance(v, Obj) and isinstance(v.cls, ClassVal) and v.cls.lookup('__len__'):
        return ip.call(Bound(v.cls.lookup('__len__'), v))
    if is_numlike(v) or v is None:
        raise_(TypeError, 'no len()')
    raise Unsupported(f'len of {v!r}')


def segs_len(ip, segs):
    n = 0
    for s in segs:
        if isinstance(s, Seg):
            n = binop(ip, 'Add', n, seg_len(ip, s))
        else:
            n = binop(ip, 'Add', n, 1)
    return n


def seg_len(ip, s):
    if getattr(s, 'length', None) is not None:
        return s.length
    if isinstance(s.dom, RangeDom) and s.uniform is not None:
        s.length = simp(s.dom.n * s.uniform) if s.uniform != 1 else norm(s.dom.n)
        return s.length
    # guarded or nested: number of selected items; unknown, but positive exactly when some item is selected
    ctx = ip.ctx
    if getattr(s, 'lenvar', None) is None:
        s.lenvar = z3.Int(f'len!{s.birth}')
    n = s.lenvar
    if ('len', s.birth) not in ctx.fh.d:
        from .loops import seg_exists
        ctx.write(ctx.fh, ('len', s.birth), True)
        ctx.abstracted('length of a filtered sequence')
        ctx.assume(n >= 0)
        ctx.assume((n > 0) == seg_exists(ip, s, lambda v: True))
    return n


def seq_index(ip, l, k):
    """l[k] for a PyList or tuple"""
    ctx = ip.ctx
    segs = l.segs if isinstance(l, PyList) else l
    if all(not isinstance(s, Seg) for s in segs):
        n = len(segs)
        if isinstance(k, bool):
            k = int(k)
        if isinstance(k, int):
            if -n <= k < n:
                return segs[k]
            raise_(IndexError, 'list index out of range')
        if isinstance(k, z3.ArithRef) and z3.is_int(k):
            for i in range(n):
                if ctx.branch(simp(z3.Or(k == i, k == i - n))):
                    return segs[i]
            raise_(IndexError, 'list index out of range')
        raise_(TypeError, 'list indices must be integers')
    if not (isinstance(k, int) or (is_z3(k) and z3.is_int(k))):
        raise Unsupported(f'index {k!r}')
    total = length(ip, PyList(segs))
    kk = rv(k)
    if ctx.branch(simp(kk < 0)):
        kk = simp(kk + total)
        if ctx.branch(simp(rv(kk) < 0)):
            raise_(IndexError)
    if ctx.branch(simp(rv(kk) >= total)):
        raise_(IndexError, 'list index out of range')
    off = 0
    for i, s in enumerate(segs):
        w = seg_len(ip, s) if isinstance(s, Seg) else 1
        end = binop(ip, 'Add', off, w)
        if i == len(segs) - 1 or ctx.branch(simp(rv(kk) < rv(end))):
            if not isinstance(s, Seg):
                return s
            if s.uniform is None or not isinstance(s.dom, RangeDom):
                if i == 0 and isinstance(kk, z3.ExprRef) and ctx.must(simp(kk == 0)) or kk == 0 and i == 0:
                    from .loops import seg_nth
                    return seg_nth(ip, s, 'first')
                if i == len(segs) - 1 and ctx.must(simp(rv(kk) == rv(total) - 1)):
                    from .loops import seg_nth
                    return seg_nth(ip, s, 'last')
                raise Unsupported('position in a filtered sequence')
            rel = simp(rv(kk) - rv(off))
            if s.uniform == 1:
                its = s.items(ctx, rv(rel))
                for g, v in its[:-1]:
                    if ctx.branch(g):
                        return v
                return its[-1][1]
            q = simp(rv(rel) / s.uniform)
            r = simp(rv(rel) % s.uniform)
            its = s.items(ctx, rv(q))
            for j in range(s.uniform):
                if j == s.uniform - 1 or ctx.branch(simp(rv(r) == j)):
                    return its[j][1]
        off = end
    raise Unsupported('index')


# texts that read as numbers, and which
FLOATABLE = z3.Function('reads_as_a_number', TextSort, z3.BoolSort())
NANTEXT = z3.Function('reads_as_nan', TextSort, z3.BoolSort())
NUMTEXT = z3.Function('number_read', TextSort, z3.RealSort())


def dict_find(ip, d, k):
    """entry with key == k or None (forks when undecided)"""
    ctx = ip.ctx
    for e in reversed(d.ents):
        if not isinstance(e, tuple):
            r = e.find(ip, k)
            if r is not None:
                return r
            continue
        c = truth(ip, key_eq(ip, e[0], k))
        if ctx.branch(c):
            return None if e[1] is TOMB else e
    return None


TOMB = Poison('deleted entry')


def plain_dict(d):
    return all(isinstance(e, tuple) for e in d.ents)


def key_eq(ip, a, b):
    if isinstance(a, (str, Rope, Atom)) != isinstance(b, (str, Rope, Atom)):
        return False
    if is_numlike(a) != is_numlike(b):
        return False
    return eq(ip, a, b)


def getitem(ip, o, k):
    if isinstance(o, PyDict):
        e = dict_find(ip, o, k)
        if e is None:
            raise_(KeyError, k)
        if isinstance(e[1], Poison):
            raise Unsupported(f'dict entry: {e[1].why}')
        return e[1]
    if isinstance(o, (PyList, tuple)):
        if isinstance(k, slice):
            if isinstance(o, PyList) and not o.concrete:
                return sym_slice(ip, o, k)
            segs = o.segs if isinstance(o, PyList) else o
            if all(x is None or isinstance(x, int) for x in (k.start, k.stop, k.step)):
                r = segs[k]
                return PyList(r) if isinstance(o, PyList) else tuple(r)
            raise Unsupported('symbolic slice')
        return seq_index(ip, o, k)
    if isinstance(o, str):
        if isinstance(k, int):
            if -len(o) <= k < len(o):
                return o[k]
            raise_(IndexError)
        if isinstance(k, slice) and all(x is None or isinstance(x, int) for x in (k.start, k.stop, k.step)):
            return o[k]
        raise Unsupported('string index')
    if isinstance(o, Model):
        return o.getitem(ip, k)
    if o is None:
        raise_(TypeError, 'None is not subscriptable')
    raise Unsupported(f'subscript of {o!r}')


def only(its):
    if len(its) != 1:
        raise Unsupported('element of several shapes')
    return its[0][1]


def sym_slice(ip, o, k):
    """l[start::step] over one uniform symbolic stretch with step dividing"""
    segs = o.segs
    if len(segs) == 1 and isinstance(segs[0], Seg) and segs[0].uniform == 1 and isinstance(segs[0].dom, RangeDom):
        s = segs[0]
        start = 0 if k.start is None else k.start
        if k.stop is None and k.step is not None:
            n = s.dom.n
            if not ip.ctx.must(simp(rv(k.step) > 0)) or not ip.ctx.must(simp(rv(start) >= 0)):
                raise Unsupported('slice with unknown step')
            m = ip.ctx.int('m')      # ceil((n-start)/step)
            ip.ctx.assume(z3.And(m >= 0, z3.Implies(rv(start) < n, z3.And(times(ip.ctx, m, rv(k.step)) - rv(k.step) < n - rv(start), n - rv(start) <= times(ip.ctx, m, rv(k.step)))), z3.Implies(rv(start) >= n, m == 0)))
            seg = Seg(RangeDom(m), lambda ctx, i: list(s.items(ctx, simp_t(times(ctx, i, rv(k.step)) + rv(start)))), 'slice')
            seg.uniform = 1
            return PyList([seg])
        if k.start is None and k.stop is None and k.step is None:
            return PyList(segs)
        whole = lambda x: x is None or (isinstance(x, int) and not isinstance(x, bool)) or (is_z3(x) and z3.is_int(x))
        if (k.step is None or k.step == 1) and whole(k.start) and whole(k.stop):
            n = rv(s.dom.n)

            def at(x, d):
                if x is None:
                    return d
                x = rv(x)
                x = z3.If(x < 0, x + n, x)
                return z3.If(x < 0, z3.IntVal(0), z3.If(x > n, n, x))
            lo, hi = at(k.start, z3.IntVal(0)), at(k.stop, n)
            lo = simp_t(lo)
            seg = Seg(RangeDom(simp_t(z3.If(hi > lo, hi - lo, z3.IntVal(0)))), lambda ctx, i: list(s.items(ctx, simp_t(i + lo))), 'slice')
            seg.uniform = 1
            return PyList([seg])
    if k.start is None and k.stop is None and k.step is None:
        return PyList(segs)
    raise Unsupported('slice of a symbolic list')


def simp_t(x):
    return rv(simp(x))


def setitem(ip, o, k, v):
    ctx = ip.ctx
    if isinstance(o, PyDict):
        ents = list(o.ents)
        last = max([i for i, e in enumerate(ents) if not isinstance(e, tuple)], default=-1)
        for i, e in enumerate(ents):
            if i <= last:
                continue            # a later stretch may hold the key: the new entry goes last, where it wins
            if ctx.branch(truth(ip, key_eq(ip, e[0], k))):
                ents[i] = (e[0], v)
                ctx.write(o, 'ents', tuple(ents))
                return
        ctx.write(o, 'ents', tuple(ents) + ((k, v),))
        return
    if isinstance(o, PyList):
        segs = list(o.segs)
        if o.concrete and (isinstance(k, int) or (is_z3(k) and z3.is_int(k))):
            n = len(segs)
            if isinstance(k, int):
                if not -n <= k < n:
                    raise_(IndexError)
                segs[k] = v
                ctx.write(o, 'segs', tuple(segs))
                return
            for i in range(n):
                if ctx.branch(simp(z3.Or(k == i, k == i - n))):
                    segs[i] = v
                    ctx.write(o, 'segs', tuple(segs))
                    return
            raise_(IndexError)
        if isinstance(k, int) or (is_z3(k) and z3.is_int(k)):
            return seq_assign(ip, o, k, v)
        raise Unsupported('assignment into a symbolic list')
    if isinstance(o, Model):
        return o.setitem(ip, k, v)
    if isinstance(o, tuple):
        raise_(TypeError, 'tuple assignment')
    raise Unsupported(f'item assignment on {o!r}')


def seq_assign(ip, o, k, v):
    """o[k] = v for a list with unknown stretches"""
    ctx = ip.ctx
    segs = list(o.segs)
    total = segs_len(ip, segs)
    kk = rv(k)
    if ctx.branch(simp(kk < 0)):
        kk = rv(simp(kk + total))
        if ctx.branch(simp(kk < 0)):
            raise_(IndexError)
    if ctx.branch(simp(kk >= total)):
        raise_(IndexError, 'list assignment index out of range')
    off = 0
    for i, s in enumerate(segs):
        w = seg_len(ip, s) if isinstance(s, Seg) else 1
        end = binop(ip, 'Add', off, w)
        if i == len(segs) - 1 or ctx.branch(simp(kk < rv(end))):
            if isinstance(s, Seg):
                if s.uniform != 1 or not isinstance(s.dom, RangeDom):
                    raise Unsupported('assignment into a filtered sequence')
                at = rv(simp(kk - rv(off)))
                n = Seg(s.dom, lambda ctx, j: [(simp(j == at), v)] + [(band(simp(j != at), g), x) for g, x in s.items(ctx, j)], s.name)
                n.uniform = 1
                n.under = s
                segs[i] = n
            else:
                segs[i] = v
            ctx.write(o, 'segs', tuple(segs))
            return
        off = end


def dict_drop(ip, d, e, k):
    if plain_dict(d):
        ip.ctx.write(d, 'ents', tuple(x for x in d.ents if x is not e))
    else:
        ip.ctx.write(d, 'ents', d.ents + ((k, TOMB),))


def delitem(ip, o, k):
    if isinstance(o, PyDict):
        e = dict_find(ip, o, k)
        if e is None:
            raise_(KeyError, k)
        dict_drop(ip, o, e, k)
        return
    if isinstance(o, PyList) and o.concrete and isinstance(k, int):
        segs = list(o.segs)
        if not -len(segs) <= k < len(segs):
            raise_(IndexError)
        del segs[k]
        ip.ctx.write(o, 'segs', tuple(segs))
        return
    if isinstance(o, Model) and hasattr(o, 'delitem'):
        return o.delitem(ip, k)
    raise Unsupported('del item')


def contains(ip, c, x):
    ctx = ip.ctx
    if isinstance(c, (str, Rope, Atom)):
        return text_contains(ip, c, x)
    if isinstance(c, PyDict):
        r = False
        for e in c.ents:
            h = truth(ip, key_eq(ip, e[0], x)) if isinstance(e, tuple) else e.has(ip, x)
            r = band(r, bnot(h)) if isinstance(e, tuple) and e[1] is TOMB else bor(r, h)
        return r
    if isinstance(c, (tuple, set)):
        return bor(*[bor(identity_q(ip, y, x), truth(ip, eq(ip, y, x))) for y in c])
    if isinstance(c, PyList):
        from .loops import seg_exists
        rs = []
        for y in c.segs:
            if isinstance(y, Seg):
                rs.append(seg_exists(ip, y, lambda v: truth(ip, eq(ip, v, x))))
            else:
                rs.append(bor(identity_q(ip, y, x), truth(ip, eq(ip, y, x))))
        return bor(*rs)
    if isinstance(c, Model):
        return c.contains(ip, x)
    if isinstance(c, RangeVal) and c.step == 1:
        return simp(z3.And(rv(x) >= rv(c.lo), rv(x) < rv(c.hi)))
    raise Unsupported(f'in {c!r}')


def identity_q(ip, a, b):
    return a is b and not isinstance(a, (NaNable,))


def builtin_attr(ip, o, n):
    if isinstance(o, (str, Rope, Atom)):
        return str_attr(ip, o, n)
    if isinstance(o, PyList):
        return list_attr(ip, o, n)
    if isinstance(o, PyDict):
        return dict_attr(ip, o, n)
    if isinstance(o, tuple) and n in ('index', 'count'):
        return list_attr(ip, PyList(o), n)
    if isinstance(o, set):
        def nat(f):
            return Native(n, f)
        if n == 'add':
            raise Unsupported('set.add')
    if is_num(o) or isinstance(o, NaNable):
        if n in ('item', 'astype', '__float__'):
            return Native(n, lambda ip, a, k: o)
        if n in ('real',):
            return o
        if n == 'is_integer':
            return Native(n, lambda ip, a, k: simp(z3.IsInt(as_real(o))))
    if isinstance(o, (TypeVal,)):
        if n == '__name__':
            return o.name
        if n == 'fromkeys' and o.name == 'dict':
            def fk(ip, a, k):
                d = PyDict()
                for x in ip.unpack(a[0]):
                    setitem(ip, d, x, a[1] if len(a) > 1 else None)
                return d
            return Native(n, fk)
        if n == '__init__':
            return Native(n, lambda ip, a, k: None)
    if o is None or is_numlike(o):
        raise_(AttributeError, n)
    raise Unsupported(f'attribute {n} of {o!r}')


def list_attr(ip, l, n):
    ctx = ip.ctx

    def f(ip, a, k):
        if n == 'append':
            ip.list_append(l, a[0])
            return None
        if n == 'extend':
            ip.list_extend(l, a[0])
            return None
        if n == 'copy':
            return PyList(l.segs)
        if n == 'index':
            return list_index(ip, l, a[0])
        if n == 'count':
            from .loops import seg_count
            tot = 0
            for y in l.segs:
                if isinstance(y, Seg):
                    tot = binop(ip, 'Add', tot, seg_count(ip, y, lambda v: truth(ip, eq(ip, v, a[0])), ('count', repr(a[0]))))
                else:
                    c = truth(ip, eq(ip, y, a[0]))
                    tot = binop(ip, 'Add', tot, int(c) if isinstance(c, bool) else z3.If(c, z3.IntVal(1), z3.IntVal(0)))
            return tot
        if n == 'clear':
            ctx.write(l, 'segs', ())
            return None
        if n == 'remove' and not l.concrete:
            list_delete(ip, l, list_index(ip, l, a[0]))
            return None
        if l.concrete:
            segs = list(l.segs)
            if n == 'insert' and isinstance(a[0], int):
                segs.insert(a[0], a[1])
                ctx.write(l, 'segs', tuple(segs))
                return None
            if n == 'pop':
                i = a[0] if a else -1
                if not segs or not isinstance(i, int) or not -len(segs) <= i < len(segs):
                    if isinstance(i, int):
                        raise_(IndexError, 'pop')
                    raise Unsupported('pop')
                v = segs.pop(i)
                ctx.write(l, 'segs', tuple(segs))
                return v
            if n == 'remove':
                for i, y in enumerate(segs):
                    if ctx.branch(bor(identity_q(ip, y, a[0]), truth(ip, eq(ip, y, a[0])))):
                        del segs[i]
                        ctx.write(l, 'segs', tuple(segs))
                        return None
                raise_(ValueError, 'list.remove(x): x not in list')
            if n == 'reverse':
                ctx.write(l, 'segs', tuple(reversed(segs)))
                return None
            if n == 'sort' and all(isinstance(x, (int, str, Fraction)) for x in segs):
                ctx.write(l, 'segs', tuple(sorted(segs)))
                return None
        raise Unsupported(f'list.{n}')
    return Native(f'list.{n}', f)


def list_index(ip, l, x):
    """position of the first element equal to x"""
    ctx = ip.ctx
    off = 0
    for s in l.segs:
        if not isinstance(s, Seg):
            if ctx.branch(bor(identity_q(ip, s, x), truth(ip, eq(ip, s, x)))):
                return off
            off = binop(ip, 'Add', off, 1)
            continue
        if not isinstance(x, Obj) or s.uniform != 1 or not isinstance(s.dom, RangeDom):
            raise Unsupported('list.index in a symbolic list')
        root, shift = getattr(s, 'base', (s, 0))
        custom = isinstance(x.cls, ClassVal) and x.cls.lookup('__eq__')
        at = None
        if x.origin and x.origin[0] is root and x.path == ():
            at = rv(simp(rv(x.origin[1]) - rv(shift)))
            if not ctx.branch(simp(z3.And(at >= 0, at < s.dom.n))):
                at = None
        if custom:
            def nothing_before():
                j = s.dom.fresh(ctx)
                if at is not None:
                    ctx.assume(simp(j < at))
                ctx.assume(zb(s.dom.member(j)))
                from .loops import register
                register(ip, j)
                return all(ctx.must(bnot(band(g, truth(ip, eq(ip, v, x))))) for g, v in s.items(ctx, j))
            from .graph import scratch
            if not scratch(ctx, nothing_before):
                raise Unsupported('list.index: an earlier element may be equal')
        if at is not None:
            return binop(ip, 'Add', off, norm(at))
        off = binop(ip, 'Add', off, seg_len(ip, s))
        continue
        raise Unsupported('list.index in a symbolic list')
    raise_(ValueError, 'not in list')


def list_delete(ip, l, k):
    """del l[k], k a valid position"""
    ctx = ip.ctx
    segs, off = list(l.segs), 0
    for i, s in enumerate(segs):
        w = seg_len(ip, s) if isinstance(s, Seg) else 1
        end = binop(ip, 'Add', off, w)
        if i == len(segs) - 1 or ctx.branch(simp(rv(k) < rv(end))):
            if isinstance(s, Seg):
                if s.uniform != 1 or not isinstance(s.dom, RangeDom):
                    raise Unsupported('deletion from a filtered sequence')
                root, shift = getattr(s, 'base', (s, 0))
                at = rv(simp(rv(k) - rv(off)))
                a = Seg(RangeDom(at), lambda ctx, j: s.items(ctx, j), s.name)
                b = Seg(RangeDom(simp_t(s.dom.n - at - 1)), lambda ctx, j: s.items(ctx, simp_t(j + at + 1)), s.name)
                a.base, b.base = (root, shift), (root, rv(simp(rv(shift) + at + 1)))
                a.uniform = b.uniform = 1
                segs[i:i + 1] = [a, b]
            else:
                del segs[i]
            ctx.write(l, 'segs', tuple(segs))
            return
        off = end


def dict_attr(ip, d, n):
    ctx = ip.ctx

    def f(ip, a, k):
        if n == 'keys':
            return DictView(d, 'keys')
        if n == 'values':
            return DictView(d, 'values')
        if n == 'items':
            return DictView(d, 'items')
        if n == 'get':
            e = dict_find(ip, d, a[0])
            return e[1] if e is not None else (a[1] if len(a) > 1 else None)
        if n == 'update':
            if a:
                ip.dict_update(d, a[0])
            for kk, vv in k.items():
                setitem(ip, d, kk, vv)
            return None
        if n == 'pop':
            e = dict_find(ip, d, a[0])
            if e is None:
                if len(a) > 1:
                    return a[1]
                raise_(KeyError, a[0])
            dict_drop(ip, d, e, a[0])
            return e[1]
        if n == 'copy':
            return PyDict(d.ents)
        if n == 'setdefault':
            e = dict_find(ip, d, a[0])
            if e is None:
                setitem(ip, d, a[0], a[1] if len(a) > 1 else None)
                return a[1] if len(a) > 1 else None
            return e[1]
        raise Unsupported(f'dict.{n}')
    return Native(f'dict.{n}', f)


class DictView(Model):
    def __init__(self, d, kind):
        super().__init__()
        self.dd, self.kind = d, kind

    def iterate(self, ip):
        out = []
        ents = self.dd.ents
        pick = {'keys': lambda kv: kv[0], 'values': lambda kv: kv[1], 'items': lambda kv: kv}[self.kind]
        for p, e in enumerate(ents):
            if isinstance(e, tuple):
                if any(not isinstance(x, tuple) for x in ents[:p]):
                    if e[1] is TOMB or ip.ctx.branch(contains(ip, PyDict(ents[:p]), e[0])):
                        continue        # keeps its earlier place
                for x in ents[p + 1:]:
                    if not isinstance(x, tuple):
                        if ip.ctx.must(bnot(x.has(ip, e[0]))):
                            continue
                        raise Unsupported('iterates a dict with entries before and after an unknown stretch')
                    if ip.ctx.branch(truth(ip, key_eq(ip, x[0], e[0]))):
                        raise Unsupported('iterates a dict with a repeated key')
                out.append(pick(e))
                continue
            later = ents[p + 1:]
            if any(not isinstance(x, tuple) for x in later) or any(not isinstance(x, tuple) for x in ents[:p]):
                raise Unsupported('iterates a dict made of several unknown stretches')
            s = e.viewseg(ip, 'items')
            if any(isinstance(x, tuple) for x in ents[:p]):
                for x in ents[:p]:
                    if not ip.ctx.must(bnot(e.has(ip, x[0]))):
                        raise Unsupported('iterates a dict whose keys may coincide')

            def fn(ctx, i, s=s, later=later):
                res = []
                for g, (k, v) in s.items(ctx, i):
                    for k2, v2 in later:
                        h = truth(ip, key_eq(ip, k, k2))
                        if v2 is TOMB:
                            g = band(g, bnot(h))
                        elif h is True:
                            v = v2
                        elif h is not False:
                            try:
                                v = ctx.merge_vals([(h, v2), (True, v)])
                            except CannotMerge:
                                v = Poison('one of several values of a dict') if self.kind == 'keys' else _uns('value of a dict entry that may have been replaced')
                    res.append((g, pick((k, v))))
                return res
            n = Seg(s.dom, fn, s.name + '.' + self.kind)
            n.uniform = s.uniform if not any(x[1] is TOMB for x in later) else None
            n.srcs = [s]
            out.append(n)
        return out

    def unpack(self, ip):
        return self.iterate(ip)

    def contains(self, ip, x):
        if self.kind == 'keys':
            return contains(ip, self.dd, x)
        return contains(ip, PyList(self.iterate(ip)), x)

    def length(self, ip):
        return length(ip, self.dd)


class SymSet(Model):
    def __init__(self, l):
        super().__init__()
        self.l = l

    def contains(self, ip, x):
        return contains(ip, self.l, x)


# ================================================================= builtins
def make_builtins(ip):
    B = {}

    def reg(name):
        def d(f):
            B[name] = Native(name, f)
            return f
        return d
    for n in ('ValueError', 'KeyError', 'IndexError', 'TypeError', 'AssertionError', 'Exception', 'AttributeError', 'ZeroDivisionError', 'RuntimeError',
              'NotImplementedError', 'StopIteration', 'FileNotFoundError', 'OverflowError', 'BaseException', 'ArithmeticError', 'LookupError', 'NameError', 'OSError', 'ImportError'):
        B[n] = getattr(_b, n)
    B['True'], B['False'], B['None'] = True, False, None
    B['NotImplemented'] = Opaque('NotImplemented')
    B['print'] = Noop()
    for n in ('int', 'float', 'str', 'bool', 'list', 'dict', 'tuple', 'set', 'object', 'type'):
        B[n] = TYPES[n]
    B['any_type'] = None

    @reg('len')
    def _len(ip, a, k):
        return length(ip, a[0])

    @reg('range')
    def _range(ip, a, k):
        a = [x if not isinstance(x, bool) else int(x) for x in a]
        for x in a:
            if isinstance(x, Fraction) or (is_z3(x) and z3.is_real(x)):
                raise_(TypeError, 'float cannot be interpreted as an integer')
        if len(a) == 1:
            return RangeVal(0, a[0])
        return RangeVal(*a)

    @reg('abs')
    def _abs(ip, a, k):
        x = a[0]
        if isinstance(x, Model):
            return x.binop(ip, 'Abs', None, False)
        if isinstance(x, (int, Fraction)):
            return abs(x)
        if isinstance(x, NaNable):
            return NaNable(x.nan, simp(z3.If(as_real(x.val) >= 0, as_real(x.val), -as_real(x.val))))
        return simp(z3.If(x >= 0, x, -x))

    def minmax(name, op):
        def f(ip, a, k):
            key = k.get('key')
            if key is not None and (len(a) == 1 or any(isinstance(s, Seg) for s in a)):
                raise Unsupported(f'{name} with key')
            if key is not None:
                r = a[0]
                for x in a[1:]:
                    c = truth(ip, compare(ip, op, ip.call(key, [x]), ip.call(key, [r])))
                    r = ip.ctx.merge_vals([(c, x), (True, r)]) if not isinstance(c, bool) else (x if c else r)
                return r
            if len(a) == 1 and isinstance(a[0], Model) and hasattr(a[0], name):
                return getattr(a[0], name)(ip)
            if len(a) == 1:
                segs = a[0].segs if isinstance(a[0], PyList) else tuple(ip.segments(a[0]))
            else:
                segs = tuple(a)
            if not segs:
                if 'default' in k:
                    return k['default']
                raise_(ValueError, f'{name}() arg is an empty sequence')
            if any(isinstance(s, Seg) for s in segs):
                from .loops import seg_extreme
                return seg_extreme(ip, segs, name)
            r = segs[0]
            for x in segs[1:]:
                c = truth(ip, compare(ip, op, x, r))
                r = ip.ctx.merge_vals([(c, x), (True, r)]) if not isinstance(c, bool) else (x if c else r)
            return r
        B[name] = Native(name, f)
    minmax('min', 'Lt')
    minmax('max', 'Gt')

    @reg('%str')
    def _str(ip, a, k):
        return to_str(ip, a[0]) if a else ''

    @reg('%int')
    def _int(ip, a, k):
        x = a[0] if a else 0
        if isinstance(x, bool):
            return int(x)
        if isinstance(x, int):
            return x
        if isinstance(x, Fraction):
            return int(x)
        if isinstance(x, z3.BoolRef):
            return simp(z3.If(x, z3.IntVal(1), z3.IntVal(0)))
        if isinstance(x, z3.ArithRef):
            if z3.is_int(x):
                return x
            return simp(z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x)))
        if isinstance(x, NaNable):
            if ip.ctx.branch(x.nan):
                raise_(ValueError, 'cannot convert float NaN to integer')
            return _int(ip, [x.val], {})
        if isinstance(x, str):
            try:
                return int(x)
            except ValueError:
                raise_(ValueError, 'invalid literal for int()')
        if isinstance(x, Rope):
            if len(x.parts) == 1 and x.parts[0][0] == 'n':
                t = rv(x.parts[0][1])
                if z3.is_int(t):
                    return norm(t)
                raise_(ValueError, 'invalid literal for int()')
            if all(isinstance(p, str) or p[0] == 'n' for p in x.parts) and any(isinstance(p, str) and any(c not in '0123456789 +-_' for c in p) for p in x.parts):
                raise_(ValueError, 'invalid literal for int()')
            raise Unsupported('int() of composed text')
        if x is None:
            raise_(TypeError, 'int(None)')
        if isinstance(x, Model) and hasattr(x, 'to_int'):
            return x.to_int(ip)
        raise Unsupported(f'int({x!r})')

    @reg('%float')
    def _float(ip, a, k):
        x = a[0] if a else 0
        if isinstance(x, bool):
            return Fraction(int(x))
        if isinstance(x, (int, Fraction)):
            return Fraction(x)
        if isinstance(x, z3.BoolRef) or isinstance(x, z3.ArithRef):
            return simp(as_real(x))
        if isinstance(x, NaNable):
            return NaNable(x.nan, x.val)
        if isinstance(x, str):
            s = x.strip().lower()
            if s in ('nan', '+nan', '-nan'):
                return NaNable(True, 0)
            if s.lstrip('+-') in ('inf', 'infinity'):
                return _INF if s[0] != '-' else _NINF
            try:
                float(s)
                return Fraction(s.replace('_', ''))
            except ValueError:
                raise_(ValueError, 'could not convert string to float')
        if isinstance(x, Rope):
            ps = [p for p in x.parts if not (isinstance(p, str) and p.strip() == '')]
            if len(ps) == 1 and not isinstance(ps[0], str) and ps[0][0] == 'n':
                return simp(as_real(rv(ps[0][1])))
            if all(isinstance(p, str) or p[0] == 'n' for p in ps) and any(isinstance(p, str) and any(c.isalpha() and c not in 'einfaEINFA' or c in '(),;' for c in p) for p in ps):
                raise_(ValueError, 'could not convert string to float')
            raise Unsupported('float() of composed text')
        if isinstance(x, Atom):
            if not ip.ctx.branch(FLOATABLE(x.t)):
                raise_(ValueError, 'could not convert string to float')
            return NaNable(NANTEXT(x.t), NUMTEXT(x.t))
        if x is None:
            raise_(TypeError, 'float(None)')
        if isinstance(x, Model) and hasattr(x, 'to_float'):
            return x.to_float(ip)
        if isinstance(x, (PyList, PyDict, tuple)):
            raise_(TypeError, 'float() of container')
        raise Unsupported(f'float({x!r})')

    @reg('%bool')
    def _bool(ip, a, k):
        return truth(ip, a[0]) if a else False

    @reg('%list')
    def _list(ip, a, k):
        if not a:
            return PyList()
        if isinstance(a[0], PyList):
            return PyList(a[0].segs)
        return PyList(tuple(ip.segments(a[0])))

    @reg('%tuple')
    def _tuple(ip, a, k):
        return tuple(ip.unpack(a[0])) if a else ()

    @reg('%set')
    def _set(ip, a, k):
        if not a:
            return set()
        l = a[0] if isinstance(a[0], PyList) else PyList(tuple(ip.segments(a[0])))
        if l.concrete and all(isinstance(x, str) for x in l.segs):
            return set(l.segs)
        return SymSet(l)

    @reg('%dict')
    def _dict(ip, a, k):
        d = PyDict()
        if a:
            if isinstance(a[0], PyDict):
                ip.dict_update(d, a[0])
            elif isinstance(a[0], Model) and hasattr(a[0], 'as_dict'):
                return a[0].as_dict(ip)
            else:
                for e in ip.unpack(a[0]):
                    x, y = ip.unpack(e)
                    setitem(ip, d, x, y)
        for x, y in k.items():
            setitem(ip, d, x, y)
        return d

    @reg('%object')
    def _object(ip, a, k):
        return Opaque('object')

    @reg('%type')
    def _type(ip, a, k):
        return type_of(ip, a[0])
    B['type'] = TYPES['type']

    @reg('slice')
    def _slice(ip, a, k):
        return slice(*a)

    @reg('isinstance')
    def _isinstance(ip, a, k):
        ts = a[1] if isinstance(a[1], tuple) else (a[1],)
        return bor(*[is_instance(ip, a[0], t) for t in ts])

    @reg('hasattr')
    def _hasattr(ip, a, k):
        o, n = a
        if isinstance(o, Obj) and n in o.d:
            return True
        try:
            ip.getattr(o, n)
            return True
        except PyRaise as e:
            if issubclass(e.exc.cls, AttributeError):
                return False
            raise

    @reg('getattr')
    def _getattr(ip, a, k):
        try:
            return ip.getattr(a[0], a[1])
        except PyRaise as e:
            if len(a) > 2 and issubclass(e.exc.cls, AttributeError):
                return a[2]
            raise

    @reg('setattr')
    def _setattr(ip, a, k):
        ip.setattr(a[0], a[1], a[2])

    @reg('any')
    def _any(ip, a, k):
        return quant(ip, a[0], False)

    @reg('all')
    def _all(ip, a, k):
        return quant(ip, a[0], True)

    def quant(ip, it, isall):
        from .loops import seg_exists
        if isinstance(it, Model) and hasattr(it, 'quant'):
            return it.quant(ip, isall)
        segs = it.segs if isinstance(it, PyList) else tuple(ip.segments(it))
        rs = []
        for s in segs:
            if isinstance(s, Seg):
                e = seg_exists(ip, s, lambda v: bnot(truth(ip, v)) if isall else truth(ip, v))
                rs.append(bnot(e) if isall else e)
            else:
                rs.append(truth(ip, s))
        return band(*rs) if isall else bor(*rs)

    @reg('sum')
    def _sum(ip, a, k):
        it = a[0]
        r = a[1] if len(a) > 1 else 0
        if isinstance(it, Model) and hasattr(it, 'sum'):
            return it.sum(ip)
        for s in (it.segs if isinstance(it, PyList) else ip.segments(it)):
            if isinstance(s, Seg):
                from .loops import seg_count
                r = binop(ip, 'Add', r, seg_count(ip, s, lambda v: truth(ip, v), ('sum',), boolean=True))
                continue
            r = binop(ip, 'Add', r, s if not isinstance(s, (bool, z3.BoolRef)) else as_arith(s))
        return r

    @reg('enumerate')
    def _enumerate(ip, a, k):
        start = a[1] if len(a) > 1 else k.get('start', 0)
        it = a[0]
        if isinstance(it, Model) and hasattr(it, 'enumerate'):
            return it.enumerate(ip, start)
        segs = it.segs if isinstance(it, PyList) else tuple(ip.segments(it))
        return PyList(enum_segs(ip, segs, start))

    @reg('zip')
    def _zip(ip, a, k):
        ls = [x.segs if isinstance(x, PyList) else tuple(ip.segments(x)) for x in a]
        if all(not isinstance(s, Seg) for l in ls for s in l):
            return PyList(list(zip(*ls)))
        if all(len(l) == 1 and isinstance(l[0], Seg) and l[0].uniform == 1 and isinstance(l[0].dom, RangeDom) for l in ls):
            ns = [l[0].dom.n for l in ls]
            n = ns[0]
            for m in ns[1:]:
                n = z3.If(rv(n) <= rv(m), rv(n), rv(m))
            seg = Seg(RangeDom(rv(simp(n))), lambda ctx, i: [(True, tuple(only(l[0].items(ctx, i)) for l in ls))], 'zip')
            seg.uniform = 1
            seg.srcs = tuple(l[0] for l in ls)
            return PyList([seg])
        raise Unsupported('zip')

    @reg('map')
    def _map(ip, a, k):
        acc = PyList()
        if len(a) != 2:
            raise Unsupported('map')

        def body(v):
            ip.list_append(acc, ip.call(a[0], [v]))
            return NEXT
        ip.loop(a[1], body, Frame0(ip))
        return acc

    @reg('vars')
    def _vars(ip, a, k):
        return ip.getattr(a[0], '__dict__')

    @reg('filter')
    def _filter(ip, a, k):
        acc = PyList()

        def body(v):
            c = truth(ip, ip.call(a[0], [v]) if a[0] is not None else v)
            if ip.ctx.branch(c):
                ip.list_append(acc, v)
            return NEXT
        ip.loop(a[1], body, Frame0(ip))
        return acc

    @reg('next')
    def _next(ip, a, k):
        it = a[0]
        if isinstance(it, PyList):
            if it.concrete:
                if it.segs:
                    return it.segs[0]
                if len(a) > 1:
                    return a[1]
                raise_(StopIteration)
            from .loops import seg_first
            return seg_first(ip, it, a[1:] )
        raise Unsupported('next')

    @reg('iter')
    def _iter(ip, a, k):
        return a[0]

    @reg('sorted')
    def _sorted(ip, a, k):
        l = a[0]
        segs = l.segs if isinstance(l, PyList) else tuple(ip.segments(l))
        if not k and all(isinstance(x, (int, Fraction)) for x in segs) or (not k and all(isinstance(x, str) for x in segs)):
            return PyList(sorted(segs))
        if not k and len(segs) == 2 and all(is_num(x) for x in segs):
            c = truth(ip, compare(ip, 'LtE', segs[0], segs[1]))
            return PyList([ip.ctx.merge_vals([(c, segs[0]), (True, segs[1])]), ip.ctx.merge_vals([(c, segs[1]), (True, segs[0])])])
        raise Unsupported('sorted')

    @reg('reversed')
    def _reversed(ip, a, k):
        return PyList(tuple(reversed(ip.unpack(a[0]))))

    @reg('round')
    def _round(ip, a, k):
        if isinstance(a[0], (int, Fraction)):
            return round(*a)
        raise Unsupported('round')

    @reg('id')
    def _id(ip, a, k):
        raise Unsupported('id')

    @reg('repr')
    def _repr(ip, a, k):
        return Rope([('o', 'repr')])

    @reg('callable')
    def _callable(ip, a, k):
        return isinstance(a[0], (FuncVal, Bound, Native, ClassVal))

    @reg('divmod')
    def _divmod(ip, a, k):
        return (binop(ip, 'FloorDiv', a[0], a[1]), binop(ip, 'Mod', a[0], a[1]))

    @reg('open')
    def _open(ip, a, k):
        for path, text in getattr(ip, 'files', ()):
            if path is a[0] and (len(a) == 1 or a[1] in ('r', 'rt')):
                return TextFile(text)
        raise Unsupported('open')
    return B


def Frame0(ip):
    from .interp import Frame
    return Frame(None, None, '')


def enum_segs(ip, segs, start):
    out = []
    off = start
    for s in segs:
        if isinstance(s, Seg):
            if s.uniform != 1:
                raise Unsupported('enumerate over a filtered sequence')
            o = off
            seg = Seg(s.dom, (lambda s, o: lambda ctx, i: [(g, (simp(rv(i) + rv(o)), v)) for g, v in s.items(ctx, i)])(s, o), 'enum')
            seg.uniform = 1
            seg.srcs = (s,)
            out.append(seg)
            off = binop(ip, 'Add', off, seg_len(ip, s))
        else:
            out.append((off, s))
            off = binop(ip, 'Add', off, 1)
    return out


class _Inf(Model):
    def __init__(self, neg):
        super().__init__()
        self.neg = neg

    def eq(self, ip, o):
        return self is o


_INF, _NINF = _Inf(False), _Inf(True)


def type_of(ip, v):
    if isinstance(v, bool) or isinstance(v, z3.BoolRef):
        return TYPES['bool']
    if isinstance(v, int):
        return TYPES['int']
    if isinstance(v, (Fraction, NaNable)):
        return TYPES['float']
    if isinstance(v, z3.ArithRef):
        return TYPES['int'] if z3.is_int(v) else TYPES['float']
    if isinstance(v, (str, Rope, Atom)):
        return TYPES['str']
    if v is None:
        return TYPES['NoneType']
    if isinstance(v, PyList):
        return TYPES['list']
    if isinstance(v, PyDict):
        return TYPES['dict']
    if isinstance(v, tuple):
        return TYPES['tuple']
    if isinstance(v, set):
        return TYPES['set']
    if isinstance(v, Obj):
        return v.cls
    if isinstance(v, Model):
        return v.typeof(ip)
    raise Unsupported(f'type of {v!r}')


def is_instance(ip, v, t):
    if isinstance(v, Model) and hasattr(v, 'isinstance_of'):
        return v.isinstance_of(ip, t)
    if isinstance(t, ClassVal):
        return isinstance(v, Obj) and isinstance(v.cls, ClassVal) and t in v.cls.mro()
    if isinstance(t, type):
        return isinstance(v, ExcVal) and issubclass(v.cls, t)
    if isinstance(v, Model):
        ty = v.typeof(ip)
        return ty is t or (isinstance(ty, TypeVal) and isinstance(t, TypeVal) and ty.name == t.name)
    if isinstance(t, TypeVal):
        if t.name == 'object':
            return True
        ty = type_of(ip, v)
        if t.name == 'int' and ty is TYPES['bool']:
            return True
        return ty is t
    if isinstance(t, Opaque):
        return False if not isinstance(v, Model) else v.typeof(ip) is t
    raise Unsupported(f'isinstance of {t!r}')


# ================================================================= external modules
class ExtModule(Model):
    def __init__(self, name, ns, default=None):
        super().__init__()
        self.name, self.ns = name, ns

    def get(self, ip, n):
        if n in self.ns:
            v = self.ns[n]
            ip.ctx.trusted.add(f'{self.name}.{n}')
            return v
        return Opaque(f'{self.name}.{n}')


_NOOPS = {'logging', 'tracemalloc', 'time', 'warnings'}


class Tqdm(Model):
    """progress bar around an iterable"""
    def __init__(self, it):
        super().__init__()
        self.it = it

    def iterate(self, ip):
        return list(ip.segments(self.it))

    def enumerate(self, ip, start):
        return ip.call(ip.builtins['enumerate'], [self.it, start])

    def length(self, ip):
        return length(ip, self.it)

    def get(self, ip, n):
        if n in ('set_description', 'set_postfix_str', 'update', 'clear', 'close', 'refresh', 'set_description_str', 'set_postfix', 'write', 'reset'):
            return Noop()
        raise Unsupported(f'tqdm.{n}')


def external(ip, name):
    if name not in ip.externals:
        ip.externals[name] = make_external(ip, name)
    return ip.externals[name]


def np_unary(name, f):
    return Native('np.' + name, f)


def make_external(ip, name):
    root = name.split('.')[0]
    if root in _NOOPS:
        return Noop()
    if root == 'tqdm':
        class _T(Model):
            def call(self, ip, a, k):
                ip.ctx.trusted.add('tqdm')
                t = Tqdm(a[0] if a else PyList())
                # model-driven iterables keep control of their own loop
                if a and isinstance(a[0], Model) and hasattr(a[0], 'run_loop'):
                    t.run_loop = a[0].run_loop
                return t

            def get(self, ip, n):
                return Noop()
        t = _T()
        return ExtModule('tqdm', dict(tqdm=t, trange=Opaque('trange')))
    if root == 'numpy':
        return numpy_module(ip)
    if root == 'math':
        return math_module(ip)
    if root == 'copy':
        def deepcopy(ip, a, k):
            return deep_copy(ip, a[0], {})

        def copy_(ip, a, k):
            return shallow_copy(ip, a[0])
        return ExtModule('copy', dict(deepcopy=Native('deepcopy', deepcopy), copy=Native('copy', copy_)))
    if root == 'collections':
        ab = ExtModule('collections.abc', dict(Sequence=(TYPES['list'], TYPES['tuple'], TYPES['str']), Mapping=TYPES['dict']))
        return ab if name == 'collections.abc' else ExtModule('collections', dict(abc=ab))
    if root == 'datetime':
        from . import dates
        return dates.module(ip)
    if root in ('abc', 'typing', 'functools'):
        return Opaque(name)
    if root == 'shapely':
        from . import geom
        return geom.shapely_module(ip, name)
    if root in ('pandas', 'xarray'):
        from . import data, regions
        ip.builtins['%pandas.Series'] = Native('pd.Series', lambda ip, a, k: regions.Few(ip.unpack(a[0])))
        return data.ext(ip, name)
    if root == 'json':
        def dumps(ip, a, k):
            return JsonText(a[0])

        def loads(ip, a, k):
            if isinstance(a[0], JsonText):
                return json_copy(ip, a[0].v)
            raise Unsupported('json.loads')
        return ExtModule('json', dict(dumps=Native('json.dumps', dumps), loads=Native('json.loads', loads), load=Native('json.load', lambda ip, a, k: loads(ip, [ip.call(ip.getattr(a[0], 'read'), [], {})], {}))))
    return Opaque(name)


class TextFile(Model):
    """an open text file with the given contents"""
    managed = True

    def __init__(self, text):
        super().__init__()
        self.d['text'] = text

    def get(self, ip, n):
        if n == 'read':
            def f(ip, a, k):
                t = self.d['text']
                if t is None:
                    raise Unsupported('second read of a file')
                ip.ctx.write(self, 'text', None)
                return t
            return Native(n, f)
        if n == 'close':
            return Native(n, lambda ip, a, k: None)
        raise Unsupported(f'file.{n}')


class JsonText(Model):
    def __init__(self, v):
        super().__init__()
        self.v = v


def json_copy(ip, v):
    """json.loads(json.dumps(v)): copies containers, turns keys into text"""
    if isinstance(v, PyDict):
        ents = []
        for e in v.ents:
            if isinstance(e, tuple):
                ents.append((to_str(ip, e[0]), json_copy(ip, e[1])))
            else:
                ents.append(e.map(ip, lambda x: to_str(ip, x), lambda x: json_copy(ip, x)))
        return PyDict(ents)
    if isinstance(v, PyList):
        out = []
        for s in v.segs:
            if isinstance(s, Seg):
                ns = Seg(s.dom, (lambda s: lambda ctx, i: [(g, json_copy(ip, x)) for g, x in s.items(ctx, i)])(s), 'json')
                ns.uniform = s.uniform
                ns.length = getattr(s, 'length', None)
                out.append(ns)
            else:
                out.append(json_copy(ip, s))
        return PyList(out)
    if isinstance(v, tuple):
        return PyList([json_copy(ip, x) for x in v])
    if v is None or is_numlike(v) or isinstance(v, (str, Rope, Atom)):
        return v
    if isinstance(v, Model) and hasattr(v, 'json_copy'):
        return v.json_copy(ip)
    if isinstance(v, (Obj, Model)):
        raise_(TypeError, 'not JSON serializable')
    raise Unsupported(f'json of {v!r}')


def deep_copy(ip, v, memo):
    if id(v) in memo:
        return memo[id(v)][1]
    r = v
    if isinstance(v, PyList):
        r = PyList()
        memo[id(v)] = (v, r)
        out = []
        for s in v.segs:
            out.append(copy_seg(ip, s) if isinstance(s, Seg) else deep_copy(ip, s, memo))
        r.d['segs'] = tuple(out)
    elif isinstance(v, PyDict):
        r = PyDict()
        memo[id(v)] = (v, r)
        r.d['ents'] = tuple((deep_copy(ip, e[0], memo), deep_copy(ip, e[1], memo)) if isinstance(e, tuple) else e if getattr(e, 'immutable', False) else _uns('deepcopy of a symbolic dict') for e in v.ents)
    elif isinstance(v, tuple):
        r = tuple(deep_copy(ip, x, memo) for x in v)
    elif isinstance(v, Obj):
        r = Obj(v.cls)
        memo[id(v)] = (v, r)
        for k, x in v.d.items():
            r.d[k] = deep_copy(ip, x, memo)
    elif isinstance(v, Model):
        if not hasattr(v, 'deep_copy'):
            raise Unsupported(f'deepcopy of {type(v).__name__}')
        r = v.deep_copy(ip, memo)
    memo[id(v)] = (v, r)
    return r


def copy_seg(ip, s):
    """copies of all elements of a stretch, each on its own"""
    def fn(ctx, i):
        if s.d['ov'] or s.d['dirty']:
            raise Unsupported('deepcopy of a list whose elements are changed')
        return [(g, deep_copy(ip, v, {})) for g, v in s.items(ctx, i)]
    if s.d['ov'] or s.d['dirty']:
        raise Unsupported('deepcopy of a list whose elements are changed')
    r = Seg(s.dom, fn, s.name + "'")
    r.uniform, r.copy_of = s.uniform, s
    return r


def _uns(s):
    raise Unsupported(s)


def shallow_copy(ip, v):
    if isinstance(v, PyList):
        return PyList(v.segs)
    if isinstance(v, PyDict):
        return PyDict(v.ents)
    if isinstance(v, Obj):
        return Obj(v.cls, dict(v.d))
    if isinstance(v, Model):
        raise Unsupported('copy of model')
    return v


def real_fn_pi():
    return z3.Real('pi')


def real_fn(ctx, name, x):
    """a transcendental function of the reals, uninterpreted but for sign symmetry (and the square of a square root)"""
    R = z3.RealSort()
    f = z3.Function('fn_' + name, R, R)
    ctx.abstracted('transcendental functions are uninterpreted')
    ctx.assume_univ(z3.And(real_fn_pi() > 3, real_fn_pi() < 4))
    x = rv(simp(as_real(x)))
    t = f(x)
    if name in ('sin', 'tan', 'asin', 'atan'):
        ctx.assume_univ(f(rv(simp(-x))) == -t)
    elif name == 'cos':
        ctx.assume_univ(f(rv(simp(-x))) == t)
    elif name == 'sqrt':
        ctx.assume_univ(z3.Implies(x > 0, t > 0))
        ctx.assume_univ(z3.Implies(x >= 0, z3.And(t >= 0, t * t == x)))
    return t


def math_module(ip):
    def floor(ip, a, k):
        x = a[0]
        if isinstance(x, (int, Fraction)):
            return x.__floor__()
        return simp(z3.ToInt(as_real(x)))

    def ceil(ip, a, k):
        x = a[0]
        if isinstance(x, (int, Fraction)):
            return x.__ceil__()
        return simp(-z3.ToInt(-as_real(x)))

    def isnan(ip, a, k):
        return a[0].nan if isinstance(a[0], NaNable) else False

    def fmod(ip, a, k):
        raise Unsupported('math.fmod')

    def trig(name):
        def f(ip, a, k):
            return real_fn(ip.ctx, name, a[0])
        return Native(name, f)
    return ExtModule('math', dict(floor=Native('floor', floor), ceil=Native('ceil', ceil), isnan=Native('isnan', isnan), nan=NaNable(True, 0),
                                  fabs=Native('fabs', lambda ip, a, k: ip.call(ip.builtins['abs'], [a[0]])), inf=_INF, pi=real_fn_pi(),
                                  radians=Native('radians', lambda ip, a, k: simp(as_real(a[0]) * real_fn_pi() / 180)), degrees=Native('degrees', lambda ip, a, k: simp(as_real(a[0]) * 180 / real_fn_pi())),
                                  **{n: trig(n) for n in ('sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'sqrt')}))


class NdArray(Model):
    """one-dimensional numpy array over a PyList"""
    def __init__(self, l):
        super().__init__()
        self.l = l

    def iterate(self, ip):
        return list(self.l.segs)

    def length(self, ip):
        return length(ip, self.l)

    def getitem(self, ip, k):
        if isinstance(k, slice):
            return NdArray(getitem(ip, self.l, k))
        return getitem(ip, self.l, k)

    def typeof(self, ip):
        return TYPES['ndarray']

    def unpack(self, ip):
        return ip.unpack(self.l)

    def get(self, ip, n):
        if n == 'size':
            return length(ip, self.l)
        if n == 'shape':
            return (length(ip, self.l),)
        if n == 'tolist':
            return Native('tolist', lambda ip, a, k: PyList(self.l.segs))
        if n in ('astype', 'copy'):
            return Native(n, lambda ip, a, k: self)
        raise Unsupported(f'ndarray.{n}')

    def map(self, ip, f):
        out = []
        for s in self.l.segs:
            if isinstance(s, Seg):
                ns = Seg(s.dom, (lambda s: lambda ctx, i: [(g, f(x)) for g, x in s.items(ctx, i)])(s), 'npmap')
                ns.uniform = s.uniform
                out.append(ns)
            else:
                out.append(f(s))
        return NdArray(PyList(out))

    def binop(self, ip, op, o, sw):
        if o is None and op == 'USub':
            return self.map(ip, lambda x: binop(ip, 'Sub', 0, x))
        if o is None and op == 'Abs':
            return self.map(ip, lambda x: ip.call(ip.builtins['abs'], [x]))
        if is_num(o):
            return self.map(ip, lambda x: binop(ip, op, o, x) if sw else binop(ip, op, x, o))
        raise Unsupported('array arithmetic')

    def cmp(self, ip, op, o, sw):
        if is_num(o):
            return self.map(ip, lambda x: compare(ip, op, o, x) if sw else compare(ip, op, x, o))
        raise Unsupported('array comparison')

    def truth(self, ip):
        raise Unsupported('truth of an array')

    def contains(self, ip, x):
        return contains(ip, self.l, x)


def np_isnan(ip, a, k):
    x = a[0]
    if isinstance(x, NaNable):
        return x.nan
    if is_num(x):
        return False
    if isinstance(x, Model) and hasattr(x, 'isnan'):
        return x.isnan(ip)
    if isinstance(x, (str, Rope, Atom)) or x is None:
        raise_(TypeError, 'isnan')
    raise Unsupported(f'np.isnan({x!r})')


def np_arange(ip, a, k):
    ctx = ip.ctx
    lo, hi, step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a[:3]
    st = rv(step)
    if not ctx.must(simp(as_real(st) > 0)):
        raise Unsupported('np.arange with a step not known to be positive')
    # numpy: length = ceil((hi-lo)/step)
    n = ctx.int('arange')
    lo_, hi_, st_ = as_real(rv(lo)), as_real(rv(hi)), as_real(st)
    ctx.define(n >= 0)
    ctx.define(z3.Implies(hi_ > lo_, z3.And(times(ctx, z3.ToReal(n), st_) - st_ < hi_ - lo_, hi_ - lo_ <= times(ctx, z3.ToReal(n), st_), n >= 1)))
    ctx.define(z3.Implies(hi_ <= lo_, n == 0))
    allint = all(isinstance(x, int) or (is_z3(x) and z3.is_int(x)) for x in (lo, hi, step))
    seg = Seg(RangeDom(n), (lambda ctx, i: [(True, simp(rv(lo) + times(ctx, i, st)))]) if allint else (lambda ctx, i: [(True, simp(lo_ + times(ctx, z3.ToReal(i), st_)))]), 'arange')
    seg.uniform = 1
    return NdArray(PyList([seg]))


class Grid2(Model):
    """two-dimensional array: at(ctx, i, j) is the element in line i, column j"""
    def __init__(self, n, m, at):
        super().__init__()
        self.n, self.m, self.at = n, m, at

    @staticmethod
    def of(ip, l, sh):
        ctx = ip.ctx
        n, m = rv(sh[0]), rv(sh[1])
        if l.concrete:
            one = list(l.segs)
            if len(one) == 1 and ctx.must(z3.And(n == 1, m == 1)):
                return Grid2(n, m, lambda ctx, i, j: one[0])
            raise Unsupported('reshape')
        if len(l.segs) != 1 or not isinstance(l.segs[0], Seg) or not isinstance(l.segs[0].dom, RangeDom):
            raise Unsupported('reshape')
        s = l.segs[0]

        def lines(ctx, i):
            its = s.items(ctx, i)
            if len(its) != 1 or its[0][0] is not True or not isinstance(its[0][1], Seg) or not isinstance(its[0][1].dom, RangeDom):
                raise Unsupported('reshape: lines')
            return its[0][1]
        t = ctx.int('line')
        ctx.assume(z3.And(t >= 0, t < s.dom.n))
        if not ctx.must(z3.And(rv(s.dom.n) == n, z3.Implies(n > 0, rv(lines(ctx, t).dom.n) == m))):
            raise_(ValueError, 'cannot reshape array')

        def at(ctx, i, j):
            its = lines(ctx, i).items(ctx, j)
            if len(its) != 1 or its[0][0] is not True or isinstance(its[0][1], Seg):
                raise Unsupported('reshape: elements')
            return its[0][1]
        return Grid2(n, m, at)

    def typeof(self, ip):
        return TYPES['ndarray']

    def get(self, ip, n):
        if n == 'shape':
            return (self.n, self.m)
        if n in ('astype', 'copy'):
            return Native(n, lambda ip, a, k: self)
        raise Unsupported(f'2-d array.{n}')


def numpy_module(ip):
    def fn(name):
        def d(f):
            ns[name] = Native('np.' + name, f)
            return f
        return d
    ns = {}
    ns['nan'] = NaNable(True, 0)
    ns['NaN'] = ns['nan']
    ns['inf'] = _INF
    ns['ndarray'] = TYPES['ndarray']
    ns['isnan'] = Native('np.isnan', np_isnan)
    ns['arange'] = Native('np.arange', np_arange)
    ns['float64'] = TYPES['float']
    ns['abs'] = Native('np.abs', lambda ip, a, k: ip.call(ip.builtins['abs'], [a[0]]))
    ns['absolute'] = ns['fabs'] = ns['abs']

    def bin_(op):
        return Native('np.' + op, lambda ip, a, k: binop(ip, op, a[0], a[1]))
    ns['mod'] = ns['remainder'] = bin_('Mod')
    ns['divide'] = ns['true_divide'] = bin_('Div')
    ns['add'] = bin_('Add')
    ns['subtract'] = bin_('Sub')
    ns['multiply'] = bin_('Mult')
    ns['minimum'] = Native('np.minimum', lambda ip, a, k: ip.call(ip.builtins['min'], list(a)))
    ns['maximum'] = Native('np.maximum', lambda ip, a, k: ip.call(ip.builtins['max'], list(a)))

    @fn('array')
    def _array(ip, a, k):
        if isinstance(a[0], PyList):
            if any(isinstance(s, (PyList, tuple)) for s in a[0].segs):
                raise Unsupported('np.array of nested lists')
            return NdArray(PyList(a[0].segs))
        if isinstance(a[0], NdArray):
            return a[0]
        if is_numlike(a[0]):
            raise Unsupported('0-d array')
        raise Unsupported('np.array')
    ns['asarray'] = ns['array']

    @fn('where')
    def _where(ip, a, k):
        from .loops import seg_where
        if len(a) == 1:
            l = a[0].l if isinstance(a[0], NdArray) else a[0]
            return (NdArray(seg_where(ip, l)),)
        if len(a) == 3:
            c = a[0]
            if isinstance(c, NdArray):
                def one(x):
                    raise Unsupported('np.where')
            c = truth(ip, c)
            return ip.ctx.merge_vals([(c, a[1]), (True, a[2])])
        raise Unsupported('np.where')

    @fn('flatnonzero')
    def _fnz(ip, a, k):
        from .loops import seg_where
        l = a[0].l if isinstance(a[0], NdArray) else a[0]
        return NdArray(seg_where(ip, l))

    @fn('reshape')
    def _reshape(ip, a, k):
        sh = a[1] if len(a) == 2 else tuple(a[1:])
        l = a[0].l if isinstance(a[0], NdArray) else a[0]
        if isinstance(sh, tuple) and len(sh) == 2 and isinstance(l, PyList):
            return Grid2.of(ip, l, sh)
        raise Unsupported('np.reshape')
    ns['float32'] = TYPES['float']

    @fn('any')
    def _any(ip, a, k):
        return ip.call(ip.builtins['any'], [a[0].l if isinstance(a[0], NdArray) else a[0]])

    @fn('all')
    def _all(ip, a, k):
        return ip.call(ip.builtins['all'], [a[0].l if isinstance(a[0], NdArray) else a[0]])

    @fn('floor')
    def _floor(ip, a, k):
        return simp(z3.ToReal(z3.ToInt(as_real(rv(a[0])))))

    @fn('isclose')
    def _isclose(ip, a, k):
        raise Unsupported('np.isclose')

    @fn('count_nonzero')
    def _cnz(ip, a, k):
        if isinstance(a[0], Model) and hasattr(a[0], 'count_true'):
            return a[0].count_true(ip)
        return ip.call(ip.builtins['sum'], [a[0].l if isinstance(a[0], NdArray) else a[0]])
    from .data import np_functions
    np_functions(ns)
    from .regions import np_extra
    np_extra(ns)
    from .field import np_functions as field_functions
    field_functions(ns)
    m = ExtModule('numpy', ns)
    return m
