"""pyvc interpreter: executes /repo's current Python source (ast) on symbolic values."""
import ast, os, builtins, operator
from fractions import Fraction
import z3
from .core import *

REPO = os.environ.get('VERIF_REPO', '/repo')


class Frame(Heap):
    def __init__(self, module, parent=None, name=''):
        super().__init__()
        self.module, self.parent, self.name = module, parent, name
        self.nonlocals = set()


class FuncVal:
    def __init__(self, node, module, closure=None, cls=None, qual=''):
        self.node, self.module, self.closure, self.cls, self.qual = node, module, closure, cls, qual
        self.kind = 'func'
        for d in getattr(node, 'decorator_list', []):
            n = d.id if isinstance(d, ast.Name) else getattr(d, 'attr', None)
            if n in ('staticmethod', 'classmethod', 'property'):
                self.kind = n
            elif n == 'abstractmethod':
                pass
            else:
                self.kind = 'opaque'

    def __repr__(self):
        return f'<func {self.qual}>'


class ClassVal:
    def __init__(self, name, node, module):
        self.name, self.node, self.module = name, node, module
        self.ns = {}
        self.bases = []
        self.consts = {}

    def lookup(self, n):
        for c in self.mro():
            if n in c.ns:
                return c.ns[n]
        return None

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, ClassVal):
                out += [c for c in b.mro() if c not in out]
        return out

    def __repr__(self):
        return f'<class {self.name}>'


class Bound:
    def __init__(self, f, self_):
        self.f, self.self = f, self_


class Native:
    """builtin implemented in Python: fn(interp, args, kwargs)"""
    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return f'<native {self.name}>'


class ExcVal:
    def __init__(self, cls, args=()):
        self.cls, self.args = cls, args

    def __repr__(self):
        return f'{self.cls.__name__}{tuple(str(a)[:80] for a in self.args)}'


class Module:
    def __init__(self, name, path):
        self.name, self.path = name, path
        self.src = open(path).read()
        self.tree = ast.parse(self.src)
        self.ns = {}
        self.lazy = {}


class Model(Heap):
    """base of external-library and specification-level objects; override what is needed"""
    typename = 'object'

    def get(self, ip, name):
        raise Unsupported(f'{type(self).__name__}.{name}')

    def set(self, ip, name, v):
        raise Unsupported(f'{type(self).__name__}.{name} = ..')

    def call(self, ip, args, kw):
        raise Unsupported(f'call of {type(self).__name__}')

    def getitem(self, ip, k):
        raise Unsupported(f'{type(self).__name__}[..]')

    def setitem(self, ip, k, v):
        raise Unsupported(f'{type(self).__name__}[..] = ..')

    def iterate(self, ip):
        raise Unsupported(f'iteration over {type(self).__name__}')

    def contains(self, ip, x):
        raise Unsupported(f'in {type(self).__name__}')

    def length(self, ip):
        raise Unsupported(f'len({type(self).__name__})')

    def eq(self, ip, other):
        return self is other

    def binop(self, ip, op, other, swapped):
        raise Unsupported(f'{type(self).__name__} {op}')

    def truth(self, ip):
        return True

    def typeof(self, ip):
        raise Unsupported(f'type({type(self).__name__})')


class AttrDict(Model):
    """the attributes of an object as a dictionary: writes go to the object"""
    def __init__(self, o):
        super().__init__()
        self.o = o

    def snap(self):
        return PyDict(tuple(self.o.d.items()))

    def typeof(self, ip):
        return TYPES['dict']

    def get(self, ip, n):
        if n == 'update':
            def update(ip, a, k):
                d = PyDict(())
                ip.call(ip.getattr(d, 'update'), list(a), dict(k))
                for x, v in d.ents:
                    self.setitem(ip, x, v)
            return Native('update', update)
        if n in ('keys', 'items', 'values', 'get', 'copy'):
            return ip.getattr(self.snap(), n)
        raise Unsupported(f'__dict__.{n}')

    def getitem(self, ip, k):
        return ip.getitem(self.snap(), k)

    def setitem(self, ip, k, v):
        if not isinstance(k, str):
            raise Unsupported('attribute of unknown name')
        ip.setattr(self.o, k, v)

    def iterate(self, ip):
        return [k for k in self.o.d]

    def contains(self, ip, x):
        return ip.models.contains(ip, self.snap(), x)

    def length(self, ip):
        return len(self.o.d)


class Opaque(Model):
    """library object nobody looks at: attribute access and calls give more of the same"""
    def __init__(self, name):
        super().__init__()
        self.name = name

    def get(self, ip, n):
        return Opaque(f'{self.name}.{n}')

    def call(self, ip, args, kw):
        raise Unsupported(f'external call {self.name}(..)')

    def typeof(self, ip):
        return Opaque('type')


class Noop(Model):
    """logging and progress output: evaluated for nothing"""
    def get(self, ip, n):
        return self

    def call(self, ip, args, kw):
        return None


class TypeVal:
    """builtin type object"""
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f'<type {self.name}>'


TYPES = {n: TypeVal(n) for n in ('int', 'float', 'str', 'bool', 'list', 'dict', 'tuple', 'set', 'NoneType', 'object', 'ndarray', 'type')}


class RangeVal:
    def __init__(self, lo, hi, step=1):
        self.lo, self.hi, self.step = lo, hi, step


class Interp:
    def __init__(self, ctx, contracts=None, externals=None):
        self.ctx = ctx
        self.mods = {}
        self.contracts = contracts or {}
        self.externals = externals or {}
        self.while_rules = {}
        self.depth = 0
        from . import models
        self.models = models
        self.builtins = models.make_builtins(self)
        self.loop_rules = []
        self.seq_rules = []

    # ------------------------------------------------------------ modules
    def module(self, name):
        if name in self.mods:
            return self.mods[name]
        base = os.path.join(REPO, *name.split('.'))
        path = base + '.py' if os.path.exists(base + '.py') else os.path.join(base, '__init__.py')
        m = Module(name, path)
        self.mods[name] = m
        for st in m.tree.body:
            self.top(m, st)
        return m

    def top(self, m, st):
        if isinstance(st, ast.FunctionDef):
            m.ns[st.name] = FuncVal(st, m, qual=st.name)
        elif isinstance(st, ast.ClassDef):
            m.ns[st.name] = self.make_class(st, m)
        elif isinstance(st, (ast.Import, ast.ImportFrom)):
            self.do_import(st, m.ns, m)
        elif isinstance(st, (ast.Assign, ast.AnnAssign)):
            for t in (st.targets if isinstance(st, ast.Assign) else [st.target]):
                if isinstance(t, ast.Name):
                    m.lazy[t.id] = st.value
        elif isinstance(st, ast.Try):
            for s in st.body:
                self.top(m, s)
        elif isinstance(st, ast.If):
            pass

    def make_class(self, node, m, closure=None):
        c = ClassVal(node.name, node, m)
        for b in node.bases:
            if isinstance(b, ast.Name):
                v = m.ns.get(b.id)
                if v is None and b.id in dir(builtins) and isinstance(getattr(builtins, b.id), type):
                    v = getattr(builtins, b.id)
                c.bases.append(self.resolve_import(v) if isinstance(v, _LazyImport) else v)
        for st in node.body:
            if isinstance(st, ast.FunctionDef):
                c.ns[st.name] = FuncVal(st, m, closure=closure, cls=c, qual=f'{node.name}.{st.name}')
            elif isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
                f = Frame(m)
                f.d.update({k: v for k, v in c.ns.items() if not isinstance(v, FuncVal)})
                c.ns[st.targets[0].id] = self.eval(st.value, f)
        return c

    def do_import(self, st, ns, m):
        if isinstance(st, ast.Import):
            for a in st.names:
                root = a.name.split('.')[0]
                if root == 'meshiphi':
                    ns[a.asname or root] = self.module(a.name)
                else:
                    ns[a.asname or root] = self.external(a.name if a.asname else root)
        else:
            mod = st.module or ''
            if st.level:
                pkg = m.name.split('.')[:-st.level]
                mod = '.'.join(pkg + ([mod] if mod else []))
            for a in st.names:
                if mod.split('.')[0] == 'meshiphi':
                    ns[a.asname or a.name] = _LazyImport(mod, a.name)
                else:
                    ns[a.asname or a.name] = self.external_attr(mod, a.name)

    def external(self, name):
        if name in self.externals:
            return self.externals[name]
        return self.models.external(self, name)

    def external_attr(self, mod, attr):
        if f'{mod}.{attr}' in self.externals:
            return self.externals[f'{mod}.{attr}']
        return _LazyExt(mod, attr)

    def resolve_import(self, v):
        if isinstance(v, _LazyImport):
            m = self.module(v.mod)
            try:
                return self.modattr(m, v.name)
            except Unsupported:
                try:
                    return self.module(v.mod + '.' + v.name)
                except OSError:
                    raise Unsupported(f'import {v.mod}.{v.name}')
        if isinstance(v, _LazyExt):
            return self.getattr(self.external(v.mod), v.attr)
        return v

    def modattr(self, m, name):
        if name in m.ns:
            v = self.resolve_import(m.ns[name])
            return v
        if name in m.lazy:
            v = self.eval(m.lazy[name], Frame(m))
            m.ns[name] = v
            return v
        raise Unsupported(f'module {m.name} has no {name}')

    def find(self, modname, qual):
        m = self.module(modname)
        parts = qual.split('.')
        v = self.modattr(m, parts[0])
        for p in parts[1:]:
            v = v.lookup(p)
        return v

    # ------------------------------------------------------------ names
    def lookup(self, frame, name):
        f = frame
        while f is not None:
            if name in f.d:
                v = f.d[name]
                if isinstance(v, Poison):
                    if v.cond is None:
                        raise Unsupported(f'read of {name}: {v.why}')
                    if v.cond is False or not self.ctx.branch(v.cond):
                        raise PyRaise(ExcVal(UnboundLocalError, (name,)))
                    return v.val
                return v
            f = f.parent
        m = frame.module
        if name in m.ns or name in m.lazy:
            return self.modattr(m, name)
        if name in self.builtins:
            return self.builtins[name]
        if name == '__name__':
            return m.name
        # a local that is read before it is set
        raise PyRaise(ExcVal(NameError, (name,)))

    def setlocal(self, frame, name, v):
        if name in frame.nonlocals:
            f = frame.parent
            while f is not None and name not in f.d:
                f = f.parent
            frame = f
        self.ctx.write(frame, name, v)

    # ------------------------------------------------------------ calls
    def call(self, f, args=(), kw=None):
        kw = kw or {}
        args = list(args)
        if isinstance(f, Bound):
            return self.call(f.f, [f.self] + args, kw)
        if isinstance(f, Native):
            return f.fn(self, args, kw)
        if isinstance(f, FuncVal):
            return self.call_func(f, args, kw)
        if isinstance(f, ClassVal):
            return self.instantiate(f, args, kw)
        if isinstance(f, Model):
            return f.call(self, args, kw)
        if isinstance(f, type) and issubclass(f, BaseException):
            return ExcVal(f, tuple(args))
        if isinstance(f, TypeVal):
            return self.builtins['%' + f.name].fn(self, args, kw)
        if isinstance(f, Obj):
            c = f.cls.lookup('__call__')
            if c:
                return self.call(Bound(c, f), args, kw)
        raise Unsupported(f'call of {f!r}')

    def instantiate(self, cls, args, kw):
        for b in cls.mro()[-1].bases if cls.mro() else []:
            if isinstance(b, type) and issubclass(b, BaseException):
                return ExcVal(b, tuple(args))
        o = Obj(cls)
        init = cls.lookup('__init__')
        if init is not None:
            self.call(Bound(init, o), args, kw)
        return o

    def call_func(self, f, args, kw):
        key = f'{f.module.name}:{f.qual}'
        con = self.contracts.get(key)
        if con is not None:
            self.ctx.contracts_used.add(key)
            return con(self, f, args, kw)
        if f.kind == 'opaque':
            raise Unsupported(f'decorated function {f.qual}')
        return self.run_func(f, args, kw)

    def run_func(self, f, args, kw):
        """interpret the body (ignoring a contract on f itself)"""
        self.ctx.functions.add(f'{f.module.name}:{f.qual}')
        self.depth += 1
        if self.depth > 60:
            self.depth -= 1
            raise Unsupported('call depth')
        try:
            frame = Frame(f.module, f.closure, f.qual)
            self.bind_args(f, frame, args, kw)
            if isinstance(f.node, ast.Lambda):
                return self.eval(f.node.body, frame)
            if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(f.node)):
                raise Unsupported('generator function')

            def go():
                r = self.block(f.node.body, frame)
                return r[1] if r[0] == 'return' else None
            if len(f.node.body) <= 2 and not _has_control(f.node):
                return go()
            return self.ctx.region(go, key=('f', f.module.name, f.qual))
        finally:
            self.depth -= 1

    def bind_args(self, f, frame, args, kw):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        kw = dict(kw)
        if len(args) > len(names) and not a.vararg:
            raise PyRaise(ExcVal(TypeError, (f'{f.qual}: too many arguments',)))
        for n, v in zip(names, args):
            if n in kw:
                raise PyRaise(ExcVal(TypeError, (f'multiple values for {n}',)))
            frame.d[n] = v
        if a.vararg:
            frame.d[a.vararg.arg] = tuple(args[len(names):])
        defaults = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        for n in names[len(args):]:
            if n in kw:
                frame.d[n] = kw.pop(n)
            elif n in defaults:
                frame.d[n] = self.eval(defaults[n], Frame(f.module, f.closure))
            else:
                raise PyRaise(ExcVal(TypeError, (f'{f.qual}: missing argument {n}',)))
        for n, dflt in zip(a.kwonlyargs, a.kw_defaults):
            if n.arg in kw:
                frame.d[n.arg] = kw.pop(n.arg)
            elif dflt is not None:
                frame.d[n.arg] = self.eval(dflt, Frame(f.module, f.closure))
            else:
                raise PyRaise(ExcVal(TypeError, (f'missing keyword {n.arg}',)))
        if a.kwarg:
            frame.d[a.kwarg.arg] = PyDict(tuple(kw.items()))
        elif kw:
            raise PyRaise(ExcVal(TypeError, (f'{f.qual}: unexpected keyword {list(kw)}',)))

    # ------------------------------------------------------------ statements
    def block(self, body, frame):
        for st in body:
            r = self.stmt(st, frame)
            if r[0] != 'next':
                return r
        return NEXT

    def stmt(self, st, frame):
        self.ctx.stats['instr'] += 1
        m = getattr(self, 's_' + type(st).__name__, None)
        if m is None:
            raise Unsupported(f'statement {type(st).__name__}')
        return m(st, frame)

    def s_Expr(self, st, fr):
        if isinstance(st.value, ast.Constant):
            return NEXT
        if isinstance(st.value, ast.Call) and _is_logging(st.value, fr, self):
            return NEXT
        self.eval(st.value, fr)
        return NEXT

    def s_Pass(self, st, fr):
        return NEXT

    def s_Return(self, st, fr):
        return (Sig('return'), self.eval(st.value, fr) if st.value is not None else None)

    def s_Break(self, st, fr):
        return (Sig('break'), None)

    def s_Continue(self, st, fr):
        return (Sig('continue'), None)

    def s_Import(self, st, fr):
        ns = {}
        self.do_import(st, ns, fr.module)
        for k, v in ns.items():
            self.setlocal(fr, k, self.resolve_import(v))
        return NEXT
    s_ImportFrom = s_Import

    def s_Global(self, st, fr):
        raise Unsupported('global statement')

    def s_Nonlocal(self, st, fr):
        fr.nonlocals |= set(st.names)
        return NEXT

    def s_Assign(self, st, fr):
        v = self.eval(st.value, fr)
        for t in st.targets:
            self.assign(t, v, fr)
        return NEXT

    def s_AnnAssign(self, st, fr):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, fr), fr)
        return NEXT

    def s_AugAssign(self, st, fr):
        t = st.target
        op = type(st.op).__name__
        if isinstance(t, ast.Name):
            cur = self.lookup(fr, t.id)
            self.setlocal(fr, t.id, self.aug(op, cur, self.eval(st.value, fr)))
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, fr)
            cur = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.aug(op, cur, self.eval(st.value, fr)))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            k = self.eval(t.slice, fr)
            cur = self.getitem(o, k)
            self.setitem(o, k, self.aug(op, cur, self.eval(st.value, fr)))
        else:
            raise Unsupported('augmented assignment target')
        return NEXT

    def aug(self, op, cur, v):
        if op == 'Add' and isinstance(cur, PyList):
            self.list_extend(cur, v)
            return cur
        return self.binop(op, cur, v)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.setlocal(fr, t.id, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value, fr), self.eval(t.slice, fr), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.unpack(v)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                n = len(t.elts) - 1
                if len(vals) < n:
                    raise PyRaise(ExcVal(ValueError, ('unpack',)))
                k = len(vals) - (n - i)
                vals = vals[:i] + [PyList(vals[i:k])] + vals[k:]
                for e, x in zip(t.elts, vals):
                    self.assign(e.value if isinstance(e, ast.Starred) else e, x, fr)
                return
            if len(vals) != len(t.elts):
                raise PyRaise(ExcVal(ValueError, ('wrong number of values to unpack',)))
            for e, x in zip(t.elts, vals):
                self.assign(e, x, fr)
        else:
            raise Unsupported('assignment target')

    def unpack(self, v):
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, PyList) and v.concrete:
            return list(v.segs)
        if isinstance(v, str):
            return list(v)
        if isinstance(v, Model) and hasattr(v, 'unpack'):
            return v.unpack(self)
        if isinstance(v, RangeVal) and all(isinstance(x, int) for x in (v.lo, v.hi, v.step)):
            return list(range(v.lo, v.hi, v.step))
        raise Unsupported(f'unpack {v!r}')

    def s_If(self, st, fr):
        c = self.truth(self.eval(st.test, fr))
        if isinstance(c, bool):
            return self.block(st.body if c else st.orelse, fr)

        def go():
            if self.ctx.branch(c):
                return self.block(st.body, fr)
            return self.block(st.orelse, fr)
        return self.ctx.region(go, key=('if', fr.module.name, st.lineno, fr.name))

    def s_Assert(self, st, fr):
        c = self.truth(self.eval(st.test, fr))
        if not self.ctx.branch(c):
            raise PyRaise(ExcVal(AssertionError, ()))
        return NEXT

    def s_Raise(self, st, fr):
        if st.exc is None:
            if getattr(self, 'handling', None):
                raise PyRaise(self.handling[-1])
            raise PyRaise(ExcVal(RuntimeError, ('no active exception',)))
        try:
            v = self.eval(st.exc, fr)
        except Unsupported:
            # message could not be modelled; the class is what matters
            if isinstance(st.exc, ast.Call):
                v = ExcVal(self.eval(st.exc.func, fr), ('<message>',))
            else:
                raise
        if isinstance(v, type) and issubclass(v, BaseException):
            v = ExcVal(v)
        if isinstance(v, ClassVal):
            v = self.instantiate(v, [], {})
        if not isinstance(v, ExcVal):
            raise Unsupported(f'raise {v!r}')
        raise PyRaise(v)

    def s_Try(self, st, fr):
        try:
            try:
                r = self.block(st.body, fr)
            except PyRaise as e:
                for h in st.handlers:
                    if h.type is None:
                        ok = True
                    else:
                        ty = self.eval(h.type, fr)
                        tys = ty if isinstance(ty, tuple) else (ty,)
                        ok = any(isinstance(t, type) and issubclass(e.exc.cls, t) for t in tys)
                    if ok:
                        if h.name:
                            self.setlocal(fr, h.name, e.exc)
                        self.handling = getattr(self, 'handling', []) + [e.exc]
                        try:
                            r = self.block(h.body, fr)
                        finally:
                            self.handling = self.handling[:-1]
                        break
                else:
                    raise
            else:
                if r[0] == 'next':
                    r = self.block(st.orelse, fr)
        except PyRaise:
            if st.finalbody:
                rf = self.block(st.finalbody, fr)
                if rf[0] != 'next':
                    return rf
            raise
        if st.finalbody:
            rf = self.block(st.finalbody, fr)
            if rf[0] != 'next':
                return rf
        return r

    def s_With(self, st, fr):
        for it in st.items:
            v = self.eval(it.context_expr, fr)
            if not isinstance(v, Noop) and not getattr(v, 'managed', False):
                raise Unsupported('with statement')
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fr)
        return self.block(st.body, fr)

    def s_Delete(self, st, fr):
        for t in st.targets:
            if isinstance(t, ast.Name):
                self.lookup(fr, t.id)
                if t.id in fr.d:
                    self.ctx.delete(fr, t.id)
                else:
                    raise Unsupported('del of outer name')
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, fr)
                k = self.eval(t.slice, fr)
                self.delitem(o, k)
            else:
                raise Unsupported('del')
        return NEXT

    def s_FunctionDef(self, st, fr):
        f = FuncVal(st, fr.module, closure=fr, qual=f'{fr.name}.{st.name}')
        self.setlocal(fr, st.name, f)
        return NEXT

    def s_ClassDef(self, st, fr):
        self.setlocal(fr, st.name, self.make_class(st, fr.module, closure=fr))
        return NEXT

    def s_While(self, st, fr):
        for rule in self.loop_rules:
            r = rule(self, st, fr)
            if r is not None:
                return r
        n = 0
        while True:
            c = self.truth(self.eval(st.test, fr))
            if not self.ctx.branch(c):
                return self.block(st.orelse, fr)
            r = self.block(st.body, fr)
            if r[0] == 'break':
                return NEXT
            if r[0] == 'return':
                return r
            n += 1
            if n > 64:
                raise Unsupported('while loop without a rule does not terminate within 64 unrollings')

    # ------------------------------------------------------------ for loops
    def s_For(self, st, fr):
        it = self.eval(st.iter, fr)

        def body(v):
            self.assign(st.target, v, fr)
            return self.block(st.body, fr)
        r = self.loop(it, body, fr)
        if r[0] == 'break':
            return NEXT
        if r[0] == 'return':
            return r
        return self.block(st.orelse, fr)

    def loop(self, it, body, fr):
        """run body over the elements of it; ('next'|'break'|'return', value)"""
        for rule in self.seq_rules:
            r = rule(self, it, body, fr)
            if r is not None:
                return r
        if isinstance(it, Model) and hasattr(it, 'run_loop'):
            return it.run_loop(self, body, fr)
        for seg in self.segments(it):
            if isinstance(seg, Seg):
                r = self.loop_seg(seg, body, fr)
            else:
                r = body(seg)
            if r[0] in ('break', 'return'):
                return r
        return NEXT

    def segments(self, it):
        """iterable -> list of concrete values and Seg"""
        if isinstance(it, tuple):
            return list(it)
        if isinstance(it, PyList):
            return _LiveList(it)
        if isinstance(it, PyDict):
            return self.models.DictView(it, 'keys').iterate(self)
        if isinstance(it, str):
            return list(it)
        if isinstance(it, RangeVal):
            if all(isinstance(x, int) for x in (it.lo, it.hi, it.step)):
                return list(range(it.lo, it.hi, it.step))
            if it.step != 1:
                raise Unsupported('symbolic range with a step')
            lo = it.lo
            n = self.ctx.int('n')
            self.ctx.assume(n == z3.If(rv(it.hi) > rv(lo), rv(it.hi) - rv(lo), z3.IntVal(0)))
            seg = Seg(RangeDom(n), lambda ctx, i: [(True, simp(i + lo))], 'range')
            seg.uniform = 1
            return [seg]
        if isinstance(it, Model):
            return it.iterate(self)
        if isinstance(it, set):
            return list(it)
        raise Unsupported(f'iteration over {it!r}')

    def loop_seg(self, seg, body, fr):
        from .loops import generic_loop
        return generic_loop(self, seg, body, fr)

    # ------------------------------------------------------------ expressions
    def eval(self, e, fr):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported(f'expression {type(e).__name__}')
        return m(e, fr)

    def e_Constant(self, e, fr):
        v = e.value
        if isinstance(v, float):
            if v != v:
                return NaNable(True, 0)
            return Fraction(repr(v)) if v not in (float('inf'), float('-inf')) else _inf(v)
        if isinstance(v, (int, str, bool)) or v is None:
            return v
        if v is Ellipsis:
            return Ellipsis
        raise Unsupported(f'constant {v!r}')

    def e_Name(self, e, fr):
        return self.lookup(fr, e.id)

    def e_Attribute(self, e, fr):
        return self.getattr(self.eval(e.value, fr), e.attr)

    def e_Subscript(self, e, fr):
        return self.getitem(self.eval(e.value, fr), self.eval(e.slice, fr))

    def e_Slice(self, e, fr):
        return slice(*(self.eval(x, fr) if x is not None else None for x in (e.lower, e.upper, e.step)))

    def e_Tuple(self, e, fr):
        return tuple(self.elts(e.elts, fr))

    def e_List(self, e, fr):
        return PyList(self.elts(e.elts, fr))

    def e_Set(self, e, fr):
        return set(self.elts(e.elts, fr))

    def elts(self, es, fr):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                out += self.unpack(self.eval(x.value, fr))
            else:
                out.append(self.eval(x, fr))
        return out

    def e_Dict(self, e, fr):
        d = PyDict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.dict_update(d, self.eval(v, fr))
            else:
                kk = self.eval(k, fr)
                self.setitem(d, kk, self.eval(v, fr))
        return d

    def e_Lambda(self, e, fr):
        return FuncVal(e, fr.module, closure=fr, qual=f'{fr.name}.<lambda>')

    def e_IfExp(self, e, fr):
        c = self.truth(self.eval(e.test, fr))
        if isinstance(c, bool):
            return self.eval(e.body if c else e.orelse, fr)
        return self.ctx.region(lambda: self.eval(e.body, fr) if self.ctx.branch(c) else self.eval(e.orelse, fr))

    def e_NamedExpr(self, e, fr):
        v = self.eval(e.value, fr)
        self.assign(e.target, v, fr)
        return v

    def e_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)

        def rest(i):
            v = self.eval(e.values[i], fr)
            if i == len(e.values) - 1:
                return v
            t = self.truth(v)
            if isinstance(t, bool):
                if t is isand:
                    return rest(i + 1)
                return v

            def go():
                if self.ctx.branch(t if isand else bnot(t)):
                    return rest(i + 1)
                return (not isand) if isinstance(v, (bool, z3.BoolRef)) else v
            return self.ctx.region(go)
        return rest(0)

    def e_UnaryOp(self, e, fr):
        v = self.eval(e.operand, fr)
        if isinstance(e.op, ast.Not):
            return bnot(self.truth(v))
        if isinstance(v, Model):
            return v.binop(self, type(e.op).__name__, None, False)
        if isinstance(e.op, ast.USub):
            if isinstance(v, NaNable):
                return NaNable(v.nan, simp(-as_arith(v.val)))
            if isinstance(v, (int, Fraction)):
                return -v
            return simp(-as_arith(v))
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert):
            if isinstance(v, z3.BoolRef) or (isinstance(v, bool) and isinstance(e.operand, ast.Call)):
                return bnot(v)          # numpy truth values
            if isinstance(v, int):
                return ~v
            raise Unsupported('~')
        raise Unsupported('unary op')

    def e_BinOp(self, e, fr):
        a = self.eval(e.left, fr)
        return self.binop(type(e.op).__name__, a, self.eval(e.right, fr))

    def e_Compare(self, e, fr):
        left = self.eval(e.left, fr)
        if len(e.ops) == 1:
            return self.compare(type(e.ops[0]).__name__, left, self.eval(e.comparators[0], fr))
        res = True
        for op, c in zip(e.ops, e.comparators):
            if res is False:
                return False
            right = self.eval(c, fr)
            r = self.compare(type(op).__name__, left, right)
            if isinstance(r, Model):
                raise Unsupported('chained comparison of arrays')
            res = band(res, self.truth(r))
            left = right
        return res

    def e_Call(self, e, fr):
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            f = fr
            selfv = None
            cls = None
            while f is not None and selfv is None:
                selfv = f.d.get('self')
                f = f.parent
            return _Super(selfv, fr)
        f = self.eval(e.func, fr)
        if isinstance(f, Noop):
            return None
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args += self.unpack(self.eval(a.value, fr))
            else:
                args.append(self.eval(a, fr))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.eval(k.value, fr)
                if not isinstance(d, PyDict):
                    raise Unsupported('** of non-dict')
                for kk, vv in d.ents:
                    kw[kk] = vv
            else:
                kw[k.arg] = self.eval(k.value, fr)
        return self.call(f, args, kw)

    def e_JoinedStr(self, e, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                try:
                    x = self.eval(v.value, fr)
                    if v.format_spec is not None or v.conversion not in (-1, 115):
                        parts.append(('o', 'formatted'))
                        continue
                    s = self.to_str(x)
                except Unsupported as u:
                    parts.append(('o', f'<{u}>'))
                    continue
                if isinstance(s, str):
                    parts.append(s)
                elif isinstance(s, Rope):
                    parts += list(s.parts)
                else:
                    parts.append(('o', s))
        r = Rope(parts)
        if all(isinstance(p, str) for p in r.parts):
            return ''.join(r.parts)
        return r

    def e_ListComp(self, e, fr):
        acc = PyList()
        self.comp(e.generators, 0, fr, lambda f: self.list_append(acc, self.eval(e.elt, f)), Frame(fr.module, fr, fr.name))
        return acc

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e, fr):
        acc = self.e_ListComp(e, fr)
        if acc.concrete:
            return set(acc.segs)
        return self.models.SymSet(acc)

    def e_DictComp(self, e, fr):
        acc = PyDict()

        def put(f):
            k = self.eval(e.key, f)
            self.setitem(acc, k, self.eval(e.value, f))
        self.comp(e.generators, 0, fr, put, Frame(fr.module, fr, fr.name))
        return acc

    def comp(self, gens, i, fr, leaf, inner):
        if i == len(gens):
            leaf(inner)
            return
        g = gens[i]
        it = self.eval(g.iter, inner if i else fr)

        def body(v):
            self.assign(g.target, v, inner)
            for c in g.ifs:
                if not self.ctx.branch(self.truth(self.eval(c, inner))):
                    return NEXT
            self.comp(gens, i + 1, fr, leaf, inner)
            return NEXT
        self.loop(it, body, inner)

    def e_Starred(self, e, fr):
        raise Unsupported('starred')

    # ------------------------------------------------------------ attributes / items
    def getattr(self, o, n):
        if isinstance(o, Poison):
            raise Unsupported(f'use of {o.why}')
        if n in ('all', 'any') and (isinstance(o, bool) or (is_z3(o) and z3.is_bool(o))):
            return Native(n, lambda ip, a, k: o)    # a numpy bool
        if isinstance(o, Obj):
            if n in o.d:
                v = o.d[n]
                if isinstance(v, Alternatives):
                    v = next((x for g, x in v.vals[:-1] if self.ctx.branch(g)), v.vals[-1][1])
                if isinstance(v, Poison):
                    raise Unsupported(f'read of .{n}: {v.why}')
                return v
            if n == '__class__':
                return o.cls
            if n == '__dict__':
                return AttrDict(o)
            if isinstance(o.cls, ClassVal):
                v = o.cls.lookup(n)
                if v is not None:
                    return self.bind(v, o, o.cls)
            raise PyRaise(ExcVal(AttributeError, (n,)))
        if isinstance(o, ClassVal):
            v = o.lookup(n)
            if n == '__name__':
                return o.name
            if v is None:
                raise PyRaise(ExcVal(AttributeError, (n,)))
            if isinstance(v, FuncVal) and v.kind == 'classmethod':
                return Bound(v, o)
            return v
        if isinstance(o, Module):
            return self.modattr(o, n)
        if isinstance(o, Model):
            return o.get(self, n)
        if isinstance(o, _Super):
            cls = o.self.cls
            mro = cls.mro()
            start = 0
            fcls = self._frame_class(o.frame, mro)
            for c in mro[mro.index(fcls) + 1:] if fcls in mro else mro[1:]:
                if n in c.ns:
                    return self.bind(c.ns[n], o.self, cls)
            if n == '__init__':
                return Native('object.__init__', lambda ip, a, k: None)
            raise Unsupported(f'super().{n}')
        if isinstance(o, ExcVal):
            if n == 'args':
                return tuple(o.args)
        return self.models.builtin_attr(self, o, n)

    def _frame_class(self, fr, mro):
        for c in mro:
            for f in c.ns.values():
                if isinstance(f, FuncVal) and f.qual == fr.name:
                    return c
        return mro[0]

    def bind(self, v, o, cls):
        if isinstance(v, FuncVal):
            if v.kind == 'staticmethod':
                return v
            if v.kind == 'classmethod':
                return Bound(v, cls)
            if v.kind == 'property':
                return self.call(Bound(v, o))
            return Bound(v, o)
        return v

    def setattr(self, o, n, v):
        if isinstance(o, Obj):
            self.ctx.write(o, n, v)
        elif isinstance(o, Model):
            o.set(self, n, v)
        else:
            raise Unsupported(f'attribute assignment on {o!r}')

    def getitem(self, o, k):
        return self.models.getitem(self, o, k)

    def setitem(self, o, k, v):
        return self.models.setitem(self, o, k, v)

    def delitem(self, o, k):
        return self.models.delitem(self, o, k)

    def list_append(self, l, v):
        self.ctx.write(l, 'segs', l.segs + (v,))

    def list_extend(self, l, it):
        if isinstance(it, PyList):
            self.ctx.write(l, 'segs', l.segs + it.segs)
        elif isinstance(it, tuple):
            self.ctx.write(l, 'segs', l.segs + it)
        else:
            self.ctx.write(l, 'segs', l.segs + tuple(self.segments(it)))

    def dict_update(self, d, o):
        if isinstance(o, PyDict):
            for e in o.ents:
                if isinstance(e, tuple):
                    self.setitem(d, e[0], e[1])
                else:
                    self.ctx.write(d, 'ents', d.ents + (e,))
        elif isinstance(o, Model) and hasattr(o, 'update_into'):
            o.update_into(self, d)
        else:
            raise Unsupported('dict.update')

    # ------------------------------------------------------------ operators
    def truth(self, v):
        return self.models.truth(self, v)

    def binop(self, op, a, b):
        return self.models.binop(self, op, a, b)

    def compare(self, op, a, b):
        return self.models.compare(self, op, a, b)

    def to_str(self, v):
        return self.models.to_str(self, v)


class _LiveList:
    """iterate a list the way Python does: elements appended meanwhile are seen"""
    def __init__(self, l):
        self.l = l

    def __iter__(self):
        i = 0
        while i < len(self.l.segs):
            yield self.l.segs[i]
            i += 1


class _Super:
    def __init__(self, s, frame):
        self.self, self.frame = s, frame


class _LazyImport:
    def __init__(self, mod, name):
        self.mod, self.name = mod, name


class _LazyExt:
    def __init__(self, mod, attr):
        self.mod, self.attr = mod, attr


NEXT = (Sig('next'), None)


def _inf(v):
    raise Unsupported('infinite float')


def _has_control(node):
    for n in ast.walk(node):
        if isinstance(n, (ast.If, ast.For, ast.While, ast.Try, ast.IfExp, ast.BoolOp, ast.Assert, ast.ListComp)):
            return True
    return False


def _is_logging(call, fr, ip):
    f = call.func
    while isinstance(f, ast.Attribute):
        f = f.value
    if isinstance(f, ast.Name):
        if f.id == 'print':
            return True
        try:
            return isinstance(ip.lookup(fr, f.id), Noop)
        except (PyRaise, Unsupported):
            return False
    return False
