"""pyvc core: symbolic state, path exploration, obligations.

Values
  Python None/bool/int/Fraction/str          concrete
  z3 Bool/Int/Real terms                     symbolic bools and numbers (floats are mathematical reals)
  NaNable(isnan, val)                        a float that may be NaN
  Rope(parts)                                a text made of literal pieces and numeric terms
  Atom(term)                                 an opaque string (term of the uninterpreted sort Text)
  Heap objects (Obj, PyList, PyDict, ...)    mutable, every write journaled
  tuple                                      Python tuples of values
"""
import z3, time, itertools
from fractions import Fraction

z3.set_param('smt.random_seed', 1)


class Infeasible(BaseException):
    pass


class Unsupported(BaseException):
    pass


class CannotMerge(Exception):
    pass


class PyRaise(BaseException):
    def __init__(self, exc):
        self.exc = exc
        super().__init__(str(exc))


TextSort = z3.DeclareSort('Text')
_text_lits = {}


def text_lit(s):
    """the Text constant standing for the literal string s"""
    if s not in _text_lits:
        _text_lits[s] = z3.Const('txt:' + s, TextSort)
    return _text_lits[s]


def text_axioms():
    v = list(_text_lits.values())
    return [z3.Distinct(*v)] if len(v) > 1 else []


class NaNable:
    __slots__ = ('nan', 'val')

    def __init__(self, nan, val):
        self.nan, self.val = nan, val

    def __repr__(self):
        return f'NaNable({self.nan},{self.val})'


class Rope:
    """text: parts are str (non-empty, never adjacent) or ('n', numeric term)"""
    __slots__ = ('parts',)

    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, str):
                if not p:
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += p
                    continue
            out.append(p)
        self.parts = tuple(out)

    def __repr__(self):
        return f'Rope{self.parts}'


class Atom:
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f'Atom({self.t})'


class Sig(str):
    """control-flow signal of a block; never merged with a different one"""
    __slots__ = ()


class Poison:
    """value that must not be read (e.g. a loop variable after a summarised loop); with cond: a local that is set
    (to val) exactly when cond holds"""
    def __init__(self, why, cond=None, val=None):
        self.why, self.cond, self.val = why, cond, val

    def __repr__(self):
        return f'Poison({self.why})'


class Alternatives(Poison):
    """attribute with values of different shapes under different conditions, decided when it is read"""
    def __init__(self, vals):
        super().__init__('element attribute of several shapes')
        self.vals = vals


class Heap:
    """mutable thing; slots live in .d and are written through ctx.write"""
    _n = itertools.count(1)

    def __init__(self):
        self.d = {}
        self.birth = next(Heap._n)
        self.origin = None      # (segment, index term) for elements of symbolic sequences and what belongs to them
        self.path = ()          # attribute path from the element to this object (None: not addressable)

    def __deepcopy__(self, memo):
        raise RuntimeError('no deepcopy')


class Obj(Heap):
    def __init__(self, cls, attrs=None):
        super().__init__()
        self.cls = cls
        if attrs:
            self.d.update(attrs)

    def __repr__(self):
        return f'<{getattr(self.cls, "name", self.cls)} {self.birth}>'


class PyList(Heap):
    def __init__(self, items=()):
        super().__init__()
        self.d['segs'] = tuple(items)

    @property
    def segs(self):
        return self.d['segs']

    @property
    def concrete(self):
        return not any(isinstance(x, Seg) for x in self.segs)

    def __repr__(self):
        return f'PyList{self.segs}'


class PyDict(Heap):
    """insertion-ordered; entries are (key, value) pairs or DictSeg"""
    def __init__(self, items=()):
        super().__init__()
        self.d['ents'] = tuple(items)

    @property
    def ents(self):
        return self.d['ents']

    def __repr__(self):
        return f'PyDict{self.ents}'


class Lazy(tuple):
    """journal entry of an earlier loop's update, applied when its element is looked at"""


class Write(list):
    """[heap, slot, had a value, old value, has a value, new value] of a path; kinds: were the entries lazy ones?"""
    def __init__(self, *a):
        super().__init__(*a)
        self.kinds = set()


class Seg(Heap):
    """A symbolic stretch of a list: for idx in dom, in order: the items fn(idx) = [(guard, value)].
    Values may again be Seg.  Element objects are created once per index, in their initial state;
    updates of all elements by a loop ('ov') are applied on access, through the journal."""
    def __init__(self, dom, fn, name=''):
        super().__init__()
        self.dom, self.fn, self.name = dom, fn, name
        self.memo, self.inner = {}, {}
        self.d['ov'] = ()
        self.d['dirty'] = ()
        self.generic = set()
        self.uniform = None    # number of items per index if constant and unguarded

    def items(self, ctx, idx):
        idx = rv(idx)
        k = idx.get_id()
        if ctx.accesses:
            ctx.accesses[-1].append((self, idx))
        if ('seen', self.birth, k) not in ctx.fh.d:
            for j in self.d['dirty']:
                if not j.eq(idx) and not ctx.must(j != idx):
                    raise Unsupported('element that may have been updated under another index')
        if k not in self.memo:
            n0 = len(ctx.trails[-1].assumes) if ctx.trails else 0
            b0 = next(Heap._n)
            u0 = len(ctx.trails[-1].univ) if ctx.trails else 0
            j0 = len(ctx.journal)
            ctx.recorders.append([])
            ctx.accesses.append([])
            try:
                its = self.fn(ctx, idx)
            finally:
                rec = ctx.recorders.pop()
                inner = ctx.accesses.pop()
            # an element lives as long as the memo: its creation is not undone with the path
            ctx.journal[j0:] = [e for e in ctx.journal[j0:] if e[0].birth < b0]
            asm = list(ctx.trails[-1].assumes[n0:]) if ctx.trails else []
            unv = list(ctx.trails[-1].univ[u0:]) if ctx.trails else []
            for g, v in its:
                self.own(v, idx, (), b0)
            new = {f.get_id() for f in asm + unv}
            self.memo[k] = (idx, its, asm + unv + [f for f in rec if f.get_id() not in new])
            self.inner[k] = inner
            if ctx.recorders:
                ctx.recorders[-1].extend(self.memo[k][2])
            ctx.write(ctx.fh, ('seen', self.birth, k), True)
        elif ('seen', self.birth, k) not in ctx.fh.d:
            ctx.write(ctx.fh, ('seen', self.birth, k), True)
            for f in self.memo[k][2]:
                ctx.assume(f)
        elif ctx.recorders:
            ctx.recorders[-1].extend(self.memo[k][2])
        if k in self.inner:
            # elements of other stretches this one is made of: their pending updates
            for s, i in self.inner[k]:
                s.items(ctx, i)
        its = self.memo[k][1]
        ovs = self.d['ov']
        done = self.d.get(('ovn', k), 0)
        if done < len(ovs):
            ctx.write(self, ('ovn', k), len(ovs))
            ctx.unguarded += 1
            ctx.lazy += 1
            try:
                for ov in ovs[done:]:
                    ov(ctx, idx, its)
            finally:
                ctx.unguarded -= 1
                ctx.lazy -= 1
        return its

    def own(self, v, idx, path, b0):
        """mark an element and the objects created with it"""
        if isinstance(v, tuple):
            for x in v:
                self.own(x, idx, None, b0)
        if not isinstance(v, (Obj, PyList, PyDict)) or v.origin is not None or (v.birth < b0 and path != ()):
            return
        v.origin, v.path = (self, idx), path
        v.birth = 0
        if isinstance(v, Obj):
            for k, x in v.d.items():
                self.own(x, idx, None if path is None else path + (k,), b0)
        elif isinstance(v, PyList):
            for x in v.segs:
                self.own(x, idx, None, b0)
        else:
            for e in v.ents:
                if isinstance(e, tuple):
                    self.own(e[1], idx, None, b0)

    def __repr__(self):
        return f'Seg[{self.name}]'


def at_path(v, path):
    for k in path:
        v = v.d[k]
    return v


class RangeDom:
    """integer indices 0..n-1, in order"""
    ordered = True

    def __init__(self, n):
        self.n = n

    def member(self, i):
        return z3.And(i >= 0, i < self.n)

    def fresh(self, ctx):
        return ctx.const('i', z3.IntSort())


class BagDom:
    """elements of an unordered duplicate-free collection of integer keys given by a predicate"""
    ordered = False

    def __init__(self, pred, name=''):
        self.pred, self.name = pred, name

    def member(self, x):
        return self.pred(x)

    def fresh(self, ctx):
        return ctx.const('e', z3.IntSort())


# ------------------------------------------------------------------ helpers on terms
def is_z3(x):
    return isinstance(x, z3.ExprRef)


def is_symbool(x):
    return isinstance(x, z3.BoolRef)


def is_num(x):
    return (isinstance(x, (int, Fraction)) and not isinstance(x, bool)) or isinstance(x, z3.ArithRef)


def is_numlike(x):
    return is_num(x) or isinstance(x, (NaNable, bool, z3.BoolRef))


def rv(x):
    """z3 term of a concrete or symbolic number / bool"""
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, Fraction):
        return z3.RealVal(x)
    return x


def as_real(x):
    if isinstance(x, bool):
        return z3.RealVal(int(x))
    if isinstance(x, (int, Fraction)):
        return z3.RealVal(x)
    if isinstance(x, z3.BoolRef):
        return z3.If(x, z3.RealVal(1), z3.RealVal(0))
    if z3.is_int(x):
        return z3.ToReal(x)
    return x


def as_arith(x):
    """number term out of anything numeric (bools count as 0/1)"""
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, z3.BoolRef):
        return z3.If(x, z3.IntVal(1), z3.IntVal(0))
    return rv(x)


def norm(x):
    """fold constant terms back to Python numbers"""
    if isinstance(x, z3.ExprRef):
        if z3.is_true(x):
            return True
        if z3.is_false(x):
            return False
        if z3.is_int_value(x):
            return x.as_long()
        if z3.is_rational_value(x):
            f = x.as_fraction()
            return Fraction(f.numerator, f.denominator)
    return x


def simp(x):
    if isinstance(x, z3.ExprRef):
        return norm(z3.simplify(x))
    return x


def band(*xs):
    xs = [x for x in xs if x is not True]
    if any(x is False for x in xs):
        return False
    if not xs:
        return True
    return simp(z3.And(*xs)) if len(xs) > 1 else xs[0]


def bor(*xs):
    xs = [x for x in xs if x is not False]
    if any(x is True for x in xs):
        return True
    if not xs:
        return False
    return simp(z3.Or(*xs)) if len(xs) > 1 else xs[0]


def bnot(x):
    return (not x) if isinstance(x, bool) else simp(z3.Not(x))


def zb(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def int_consts(fs):
    seen, out, todo = set(), [], list(fs)
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_const(e) and z3.is_int(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(e)
        todo += e.children()
    return sorted(out, key=str)


_light = {}


def is_light(f, limit=60):
    """a small formula over integers and truth values"""
    if not isinstance(f, z3.ExprRef):
        return False
    k = f.get_id()
    if k in _light and _light[k][0].eq(f):
        return _light[k][1]
    n, todo, ok = 0, [f], True
    while todo:
        e = todo.pop()
        n += 1
        if n > limit or not (z3.is_bool(e) or z3.is_int(e)) or z3.is_quantifier(e):
            ok = False
            break
        if not (z3.is_const(e)) and e.decl().kind() in (z3.Z3_OP_MUL, z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and not any(z3.is_int_value(x) for x in e.children()):
            ok = False
            break
        todo += e.children()
    _light[k] = (f, ok)
    return ok


_hooked = {}


def hooked(f, hooks):
    """applications of the hooked functions in f"""
    k = (f.get_id(), len(hooks))
    if k in _hooked and _hooked[k][0].eq(f):
        return _hooked[k][1]
    seen, out, todo = set(), [], [f]
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_app(e) and e.num_args() and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.decl().name() in hooks:
            out.append(e)
        todo += e.children()
    _hooked[k] = (f, out)
    return out


class Outcome:
    __slots__ = ('kind', 'value', 'decs', 'assumes', 'writes', 'fresh', 'pins', 'dom', 'univ')

    @property
    def pc(self):
        return band(*self.decs)


class Trail:
    def __init__(self, prefix, work):
        self.prefix, self.work = prefix, work
        self.taken = []
        self.decs = []
        self.assumes = []
        self.univ = []          # instances of universal facts and of definitions: true everywhere
        self.fresh = []


class Budget:
    def __init__(self, seconds):
        self.end = time.time() + seconds


def consts_of(t):
    out, todo, seen = [], [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(x)
        todo.extend(x.children())
    return out


class Ctx:
    MAXPATHS = 6000

    def __init__(self, task='', seconds=300, qtimeout=20000):
        self.task = task
        self.solver = z3.Solver()
        self.solver.set('timeout', 4000)
        self.light = z3.Solver()          # the small integer facts only: quick refutations
        self.light.set('timeout', 500)
        self.trails = []
        self.recorders, self.accesses = [], []
        self.journal = []
        self.nfresh = 0
        self.obls = []            # dicts: name, status, model, where, time
        self.end = time.time() + seconds
        self.qtimeout = qtimeout
        self.stats = dict(paths=0, feas=0, feas_s=0.0, obl_s=0.0, instr=0)
        self.inexact = []         # abstractions used on this path
        self.inputs = {}          # name -> term, for decoding models
        self.fh = Heap()          # journaled bookkeeping: universal facts, registered terms, one-off assumptions
        self.fh.birth = -1
        self.fh.d['facts'] = ()
        self.fh.d['terms'] = ()
        self.trusted = set()      # names of external models used
        self.contracts_used = set()
        self.functions = set()    # functions interpreted from source
        self.nomerge = set()
        self.floors = {}
        self.reach = {}
        self.depth = 0
        self.scales = []          # see scale.py
        self.hooks = {}           # name of a defined function -> what asserts its definition at given arguments

    # ---------------------------------------------------------------- terms
    def const(self, name, sort):
        self.nfresh += 1
        c = z3.Const(f'{name}!{self.nfresh}', sort)
        if self.trails:
            self.trails[-1].fresh.append(c)
        return c

    def real(self, name):
        return self.const(name, z3.RealSort())

    def int(self, name):
        return self.const(name, z3.IntSort())

    def bool(self, name):
        return self.const(name, z3.BoolSort())

    def choice(self, name):
        """a fresh truth value that is the same on every path that took the same decisions up to here"""
        if not self.trails:
            return self.bool(name)
        tr = self.trails[-1]
        tr.nchoice = getattr(tr, 'nchoice', 0) + 1
        key = (id(tr.work), tuple(d for d, _ in tr.taken), name, tr.nchoice)
        if not hasattr(self, 'choices'):
            self.choices = {}
        if key not in self.choices:
            self.choices[key] = (tr.work, self.bool(name))
        else:
            tr.fresh.append(self.choices[key][1])
        return self.choices[key][1]

    # ---------------------------------------------------------------- solver
    def add(self, f):
        self.solver.add(f)
        if is_light(f):
            self.light.add(f)

    def feasible(self, f):
        if time.time() > self.end:
            raise Unsupported('time budget of the task used up')
        self.stats['feas'] += 1
        t = time.time()
        if self.many > 40 and is_light(f):
            self.light.push()
            self.light.add(f)
            r = self.light.check()
            self.light.pop()
            if r == z3.unsat:
                self.stats['feas_s'] += time.time() - t
                return False
        self.solver.push()
        self.solver.add(f, *text_axioms())
        r = self.solver.check()
        self.solver.pop()
        self.stats['feas_s'] += time.time() - t
        return r != z3.unsat

    def assume(self, f):
        f = simp(f)
        if f is True:
            return
        if f is False:
            raise Infeasible()
        if self.trails:
            self.trails[-1].assumes.append(f)
        self.add(f)

    def assume_univ(self, f):
        """assume an instance of something that holds everywhere (re-derived on demand, not part of what an iteration assumes)"""
        f = simp(f)
        if f is True:
            return
        if f is False:
            raise Infeasible()
        if self.recorders:
            self.recorders[-1].append(f)
        k = ('univ', f.get_id())
        if k in self.fh.d:
            return
        self.write(self.fh, k, f)
        if self.trails:
            self.trails[-1].univ.append(f)
        self.add(f)

    def demand(self, fs):
        """assert the definitions of the defined functions that occur in the terms fs"""
        if not self.hooks:
            return
        todo = [f for f in fs if isinstance(f, z3.ExprRef)]
        n0 = len(self.solver.assertions())
        while todo:
            for f in todo:
                for e in hooked(f, self.hooks):
                    self.hooks[e.decl().name()](*e.children())
            a = self.solver.assertions()
            todo = [a[i] for i in range(n0, len(a))]
            n0 = len(a)

    def define(self, f):
        self.assume(f)

    def once(self, key, f):
        """assume f (a definition) once per path"""
        if key not in self.fh.d:
            self.write(self.fh, key, True)
            self.assume(f() if callable(f) else f)

    @property
    def facts(self):
        return self.fh.d['facts']

    @property
    def terms(self):
        return self.fh.d['terms']

    def branch(self, c):
        """decide a condition, exploring both sides"""
        c = simp(c)
        if isinstance(c, bool):
            return c
        if not isinstance(c, z3.BoolRef):
            raise Unsupported(f'branch on {c!r}')
        tr = self.trails[-1]
        pos = len(tr.taken)
        if pos < len(tr.prefix):
            d, both = tr.prefix[pos]
        else:
            lf = self.light_false(c)
            if lf is not None:
                # one side is refuted by the small facts alone: take the other
                t, f = lf, not lf
            else:
                t = self.feasible(c)
                f = self.feasible(z3.Not(c)) if t else True
            if not t:
                if lf is None and not self.feasible(z3.Not(c)):
                    raise Infeasible()
                d, both = False, False
            elif not f:
                d, both = True, False
            else:
                d, both = True, True
                tr.work.append(tr.taken + [(False, True)])
        tr.taken.append((d, both))
        f = c if d else z3.Not(c)
        if both:
            tr.decs.append(f)
            self.add(f)
        return d

    @property
    def many(self):
        return len(self.solver.assertions())

    def light_false(self, c):
        """False/True if the small facts decide the condition, None otherwise"""
        if not is_light(c) or self.many <= 40:
            return None
        for v, g in ((True, z3.Not(c)), (False, c)):
            self.light.push()
            self.light.add(g)
            r = self.light.check()
            self.light.pop()
            if r == z3.unsat:
                return v
        return None

    def must(self, c):
        """is c implied by the current path?"""
        c = simp(c)
        if isinstance(c, bool):
            return c
        return not self.feasible(z3.Not(c))

    # ---------------------------------------------------------------- heap
    def write(self, h, slot, val):
        if slot in h.d and h.d[slot] is val:
            return
        if h.origin is not None and not self.unguarded:
            self.alias_guard(h)
        e = (h, slot, slot in h.d, h.d.get(slot))
        self.journal.append(Lazy(e) if self.lazy else e)
        h.d[slot] = val

    unguarded = lazy = 0

    def alias_guard(self, h):
        """an element of a symbolic sequence is about to change: no other element object may stand for it"""
        seg, idx = h.origin
        if idx.get_id() in seg.generic:
            return
        for k, (j, its, asm) in seg.memo.items():
            if j.eq(idx) or ('seen', seg.birth, k) not in self.fh.d:
                continue
            if not self.must(j != idx):
                raise Unsupported('update of an element that may be known under another index')
        self.unguarded += 1
        try:
            self.write(seg, 'dirty', seg.d['dirty'] + (idx,))
        finally:
            self.unguarded -= 1

    def delete(self, h, slot):
        self.journal.append((h, slot, True, h.d[slot]))
        del h.d[slot]

    def undo_to(self, n):
        while len(self.journal) > n:
            h, slot, had, old = self.journal.pop()
            if had:
                h.d[slot] = old
            else:
                h.d.pop(slot, None)

    def writes_since(self, n):
        """{(id(h), slot): (h, slot, hadold, old, hasnew, new)}"""
        out = {}
        for h, slot, had, old in self.journal[n:]:
            k = (id(h), slot)
            if k not in out:
                out[k] = Write([h, slot, had, old, None, None])
        for e in self.journal[n:]:
            out[id(e[0]), e[1]].kinds.add(isinstance(e, Lazy))
        for v in out.values():
            h, slot = v[0], v[1]
            v[4], v[5] = slot in h.d, h.d.get(slot)
        return out

    # ---------------------------------------------------------------- exploration
    def explore(self, thunk, maxpaths=None, setup=None):
        """run thunk along every feasible path; returns the outcomes with all writes undone"""
        outs = []
        work = [[]]
        lim = maxpaths or self.MAXPATHS
        j0 = len(self.journal)
        inex0 = list(self.inexact)
        self.depth += 1
        try:
            while work:
                prefix = work.pop()
                tr = Trail(prefix, work)
                self.trails.append(tr)
                self.solver.push()
                self.light.push()
                o = None
                try:
                    if time.time() > self.end:
                        raise Unsupported('time budget of the task used up')
                    o = Outcome()
                    try:
                        o.value = thunk()
                        o.kind = 'ok'
                    except PyRaise as e:
                        o.kind, o.value = 'raise', e.exc
                    o.decs, o.assumes, o.fresh, o.univ = tr.decs, tr.assumes, tr.fresh, tr.univ
                    o.writes = self.writes_since(j0)
                    o.pins = [v[0] for v in o.writes.values()]
                    outs.append(o)
                    self.stats['paths'] += 1
                    if len(outs) > lim:
                        raise Unsupported('too many paths')
                except Infeasible:
                    pass
                finally:
                    self.undo_to(j0)
                    self.solver.pop()
                    self.light.pop()
                    self.trails.pop()
        finally:
            self.depth -= 1
        return outs

    def replay(self, o):
        """re-apply a single outcome in the current state"""
        for f in o.decs:
            self.assume(f)
        for f in o.assumes:
            self.assume(f)
        for f in o.univ:
            self.assume_univ(f)
        if self.trails:
            self.trails[-1].fresh.extend(o.fresh)
        for h, slot, had, old, has, new in o.writes.values():
            if has:
                self.write(h, slot, new)
            elif slot in h.d:
                self.delete(h, slot)
        if o.kind == 'raise':
            raise PyRaise(o.value)
        return o.value

    def region(self, thunk, key=None, b0=None):
        """run thunk, merging its paths into one when values allow; otherwise fork"""
        if key is not None and key in self.nomerge:
            return thunk()
        birth = next(Heap._n)
        outs = self.explore(thunk)
        if not outs:
            raise Infeasible()
        if len(outs) == 1:
            return self.replay(outs[0])
        try:
            plan = self._plan_merge(outs, birth)
        except CannotMerge:
            if key is not None:
                self.nomerge.add(key)
            return thunk()
        raising = [o for o in outs if o.kind == 'raise']
        if raising:
            rc = bor(*[o.pc for o in raising])
            if self.branch(rc):
                for o in raising[:-1]:
                    if self.branch(o.pc):
                        return self.replay_light(o)
                return self.replay_light(raising[-1])
            outs = [o for o in outs if o.kind == 'ok']
            if len(outs) == 1:
                return self.replay(outs[0])
        for o in outs:
            if o.assumes:
                self.assume(z3.Implies(zb(o.pc), zb(band(*o.assumes))))
            for f in o.univ:
                self.assume_univ(f)
            if self.trails:
                self.trails[-1].fresh.extend(o.fresh)
        val, writes = plan
        for h, slot, new in writes:
            self.write(h, slot, new)
        return val

    def replay_light(self, o):
        for f in o.assumes:
            self.assume(f)
        for f in o.univ:
            self.assume_univ(f)
        for h, slot, had, old, has, new in o.writes.values():
            if has:
                self.write(h, slot, new)
            elif slot in h.d:
                self.delete(h, slot)
        raise PyRaise(o.value)

    def _plan_merge(self, outs, birth):
        ok = [o for o in outs if o.kind == 'ok']
        if not ok:
            raise CannotMerge()
        if len(ok) == 1:
            return ok[0].value, []
        conds = [o.pc for o in ok]
        for o in ok:
            # paths told apart by a witness of their own: merged, they would look independent of one another
            own = {c.get_id() for c in o.fresh if str(c).startswith('ex!')}
            if own and is_z3(o.pc) and any(c.get_id() in own for c in consts_of(o.pc)):
                raise CannotMerge()
        self._mw = [o.writes for o in ok]       # the paths' writes are undone by now: contents of fresh lists are read from here
        val = self.merge_vals([(c, o.value) for c, o in zip(conds, ok)], birth)
        touched = {}
        for o in ok:
            for k, w in o.writes.items():
                if w[0].birth < birth:
                    touched.setdefault(k, w)
        writes = []
        for k, w in touched.items():
            vals = []
            if w[0] is self.fh:
                if w[1] in ('facts', 'terms'):
                    writes.append((self.fh, w[1], self._merge_fh(w, k, conds, ok)))
                elif isinstance(w[1], tuple) and w[1][0] in ('geo', 'case', 'mult') and w[4]:
                    writes.append((self.fh, w[1], w[5]))    # their facts hold everywhere and are kept
                continue
            if isinstance(w[1], tuple) and w[1][0] == 'ovn':
                raise CannotMerge()
            for c, o in zip(conds, ok):
                ww = o.writes.get(k)
                if ww is None:
                    if not w[2]:
                        vals.append((c, Poison('unset on some paths', False)))
                    else:
                        vals.append((c, w[3]))
                else:
                    if not ww[4]:
                        raise CannotMerge()
                    vals.append((c, ww[5]))
            if hasattr(w[0], 'merge_slot'):
                writes.append((w[0], w[1], w[0].merge_slot(self, w[1], w[3], vals)))
                continue
            if isinstance(w[0], (PyList, PyDict)) and any(v is not vals[0][1] and v != vals[0][1] for _, v in vals if True):
                m = self.merge_vals(vals, birth)
            else:
                m = self.merge_vals(vals, birth)
            writes.append((w[0], w[1], m))
        # fresh objects that escape keep their own journaled state: re-emit their writes
        for o in ok:
            for k, w in o.writes.items():
                if w[0].birth >= birth and w[4]:
                    writes.append((w[0], w[1], w[5]))
        return val, writes

    def _merge_fh(self, w, k, conds, ok):
        base = w[3]
        out = list(base)
        for c, o in zip(conds, ok):
            ww = o.writes.get(k)
            if ww is None:
                continue
            for x in ww[5][len(base):]:
                if w[1] == 'terms':
                    if not any(t.eq(x) for t in out):
                        out.append(x)
                else:
                    f, g = x
                    out.append((f, band(c, g)))
        return tuple(out)

    def merge_vals(self, cv, birth=None):
        vs = [v for _, v in cv]
        v0 = vs[0]
        if all(v is v0 for v in vs):
            return v0
        if all(isinstance(v, Poison) or v is None or is_numlike(v) or True for v in vs) and any(isinstance(v, Poison) for v in vs):
            parts = []
            for c, v in cv:
                if not isinstance(v, Poison):
                    parts.append((c, True, v))
                elif v.cond is None:
                    return Poison('set on some paths only')
                elif v.cond is not False:
                    parts.append((c, v.cond, v.val))
            if not parts:
                return v0
            try:
                val = self.merge_vals([(c, v) for c, _, v in parts], birth if len(parts) == len(cv) else None)
            except CannotMerge:
                return Poison('set on some paths only')
            return Poison('set on some paths only', simp(z3.Or(*[z3.And(zb(c), zb(d)) for c, d, _ in parts])), val)
        if any(isinstance(v, Sig) for v in vs):
            if all(isinstance(v, Sig) and v == v0 for v in vs):
                return v0
            raise CannotMerge()
        if all(isinstance(v, str) for v in vs):
            if all(v == v0 for v in vs):
                return v0
        if all(isinstance(v, (str, Atom)) for v in vs):
            return Atom(self._ite([(c, text_lit(v) if isinstance(v, str) else v.t) for c, v in cv]))
        if all(isinstance(v, bool) or isinstance(v, z3.BoolRef) for v in vs):
            return simp(self._ite([(c, zb(v)) for c, v in cv]))
        if all(is_num(v) for v in vs):
            if all(isinstance(v, int) or (is_z3(v) and z3.is_int(v)) for v in vs):
                return simp(self._ite([(c, rv(v)) for c, v in cv]))
            return simp(self._ite([(c, as_real(v)) for c, v in cv]))
        if all(is_num(v) or isinstance(v, NaNable) for v in vs):
            ns = [(c, v if isinstance(v, NaNable) else NaNable(False, v)) for c, v in cv]
            return NaNable(simp(self._ite([(c, zb(v.nan)) for c, v in ns])), simp(self._ite([(c, as_real(v.val)) for c, v in ns])))
        if all(isinstance(v, tuple) for v in vs) and len({len(v) for v in vs}) == 1:
            return tuple(self.merge_vals([(c, v[i]) for c, v in cv], birth) for i in range(len(v0)))
        if all(isinstance(v, Rope) for v in vs):
            if len({tuple(p if isinstance(p, str) else (p[0],) for p in v.parts) for v in vs}) == 1:
                parts = []
                for i, p in enumerate(v0.parts):
                    parts.append(p if isinstance(p, str) else (p[0], self.merge_vals([(c, v.parts[i][1]) for c, v in cv])))
                return Rope(parts)
        if all(hasattr(v, 'merge') for v in vs):
            return v0.merge(self, cv)
        if birth is not None and all(isinstance(v, PyList) and v.birth >= birth for v in vs):
            segs = []
            for v, w in zip(vs, self._mw):
                w = w.get((id(v), 'segs'))
                segs.append(w[5] if w is not None and w[4] else v.segs)
            if len({len(x) for x in segs}) == 1 and not any(isinstance(y, Seg) for x in segs for y in x):
                return PyList([self.merge_vals([(c, x[i]) for (c, _), x in zip(cv, segs)], birth) for i in range(len(segs[0]))])
        raise CannotMerge()

    def _ite(self, cv):
        t = cv[-1][1]
        for c, v in reversed(cv[:-1]):
            t = z3.If(zb(c), v, t)
        return t

    # ---------------------------------------------------------------- obligations
    def oblige(self, name, goal, exact=True, info=None):
        """prove goal on the current path"""
        goal = simp(goal)
        t = time.time()
        if self.hooks:
            self.demand(list(self.solver.assertions()) + [goal])
        rec = dict(name=name, task=self.task, status=None, exact=exact and not self.inexact and not self.facts, inexact=list(self.inexact) + (['universal facts applied at the known terms only'] if self.facts else []), backend='z3', info=info)
        if goal is True:
            rec['status'] = 'discharged'
            rec['backend'] = 'simplifier'
        else:
            g = z3.BoolVal(False) if goal is False else goal
            s = z3.Solver()
            s.set('timeout', min(self.qtimeout, 1000))
            s.add(*self.solver.assertions())
            s.add(*text_axioms())
            s.add(z3.Not(g))
            r = s.check()
            if r == z3.unknown:
                for mk in self.strategies(s):
                    s2 = mk()
                    r2 = s2.check()
                    if r2 != z3.unknown:
                        r, s = r2, s2
                        break
            if r == z3.unsat:
                rec['status'] = 'discharged'
                rec['smt'] = s.sexpr() if self.keep_smt else None
            elif r == z3.sat:
                rec['status'] = 'refuted'
                m = s.model()
                rec['model'] = self.decode(m)
                rec['goal'] = str(g)[:600]
            else:
                rec['status'] = 'unknown'
                rec['goal'] = str(g)[:600]
        dt = time.time() - t
        self.stats['obl_s'] += dt
        rec['s'] = round(dt, 4)
        self.obls.append(rec)
        return rec['status'] == 'discharged'

    keep_smt = False

    def strategies(self, s):
        """further attempts at an undecided query, all equisatisfiable with it"""
        asr = list(s.assertions())
        ks = int_consts(asr)

        def diffs(n):
            # name the differences of integers: lets branch-and-bound find bounded quantities
            def mk():
                s2 = z3.Solver()
                s2.set('timeout', self.qtimeout // 4)
                s2.add(*asr)
                c = 0
                for i, a in enumerate(ks):
                    for b in ks[i + 1:]:
                        c += 1
                        s2.add(z3.Int(f'diff!{c}') == a - b)
                        if n == 3:
                            for d in ks:
                                if not d.eq(a) and not d.eq(b):
                                    c += 1
                                    s2.add(z3.Int(f'diff!{c}') == a - b - d)
                return s2
            return mk
        out = []
        if 2 <= len(ks) <= 14:
            out.append(diffs(2))
        if 3 <= len(ks) <= 9:
            out.append(diffs(3))

        def plain():
            s2 = z3.Solver()
            s2.set('timeout', self.qtimeout)
            s2.add(*asr)
            return s2
        out.append(plain)

        def tac():
            s2 = z3.Then('simplify', 'solve-eqs', 'smt').solver()
            s2.set('timeout', self.qtimeout)
            s2.add(*asr)
            return s2
        out.append(tac)
        return out

    def decode(self, m):
        out = {}
        for k, t in self.inputs.items():
            try:
                out[k] = self._mv(m, t)
            except Exception as e:
                out[k] = f'?{e}'
        return out

    def _mv(self, m, t):
        if isinstance(t, (list, tuple)):
            return [self._mv(m, x) for x in t]
        if isinstance(t, dict):
            return {k: self._mv(m, x) for k, x in t.items()}
        if isinstance(t, NaNable):
            n = self._mv(m, t.nan)
            return 'nan' if n is True else self._mv(m, t.val)
        if isinstance(t, Atom):
            return str(m.eval(t.t, model_completion=True))
        if not isinstance(t, z3.ExprRef):
            return str(t) if isinstance(t, Fraction) else t
        v = m.eval(t, model_completion=True)
        if z3.is_int_value(v):
            return v.as_long()
        if z3.is_rational_value(v):
            return str(v.as_fraction()) if v.as_fraction().denominator != 1 else int(v.as_fraction())
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        if z3.is_algebraic_value(v):
            return str(v.approx(10))
        return str(v)

    def cover(self, name):
        """reachability of this point (vacuity guard)"""
        self.reach[name] = True

    def abstracted(self, why):
        if why not in self.inexact:
            self.inexact.append(why)
