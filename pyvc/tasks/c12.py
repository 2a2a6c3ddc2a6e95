"""C12: missing cell values are filled from the nearest ancestor or a constant; the first non-missing contribution wins."""
from ..task import task
from ..spec import *
from ..loops import register, add_fact
from ..inv import Inv, InvSeq, assigned, havoc_locals, frame_check
from .c01 import CB

I, Rl, Bl = z3.IntSort(), z3.RealSort(), z3.BoolSort()
# aggregate of loader i over the bounds of ancestor a (0: the cell itself), with the data of source s at ancestor b; component c
MISS = z3.Function('agg_missing', I, I, I, I, I, Bl)
NUM = z3.Function('agg_value', I, I, I, I, I, Rl)
NSRC = z3.Function('nsources', I, I)                # number of sources of ancestor a
LD = z3.Function('loader_at', I, I, I)              # loader of source number q of ancestor a
AT = z3.Function('position_of', I, I, I)            # where ancestor a keeps loader i
LVL = z3.Function('nearest_level', I, I, I)         # definition: least level whose aggregate is not missing, or the last one
PARENT = z3.Function('fill_from_parent', I, Bl)
FNAN, FVAL = z3.Function('fill_missing', I, Bl), z3.Function('fill_value', I, Rl)
NAME = z3.Function('source_name', I, TextSort)
COMP = [z3.Function(f'component_name_{c}', I, TextSort) for c in (0, 1)]
VEC = z3.Function('is_vector', I, Bl)
COMMA = z3.Function('has:,', TextSort, Bl)


def value(i, c, a):
    """aggregate of source i, component c, at level a"""
    return NaNable(MISS(i, a, i, a, c), NUM(i, a, i, a, c))


def same(x, y):
    nx, vx = (zb(x.nan), x.val) if isinstance(x, NaNable) else (z3.BoolVal(False), x)
    ny, vy = (zb(y.nan), y.val) if isinstance(y, NaNable) else (z3.BoolVal(False), y)
    return z3.And(nx == ny, z3.Implies(z3.Not(nx), as_real(rv(vx)) == as_real(rv(vy))))


FIELDS = ('data_loader', 'splitting_conditions', 'value_fill_type', 'data_subset', 'data_name', 'parent', 'bounds', 'data_source', 'id', 'split_depth')


def forbids(S, ip, h, slot):
    """frame: sources and ancestors are shared with other cells still to be aggregated"""
    bad = isinstance(h, Seg) and any(h is s for _, s in S.segs.values()) and slot in ('ov', 'dirty')
    bad = bad or isinstance(h, Obj) and getattr(h.cls, 'name', '') == 'Metadata' and slot in FIELDS
    if bad:
        ip.ctx.oblige('frame.sources-and-ancestors-unchanged', False, info=f'{h!r}.{slot}')
    return bad


class Anc(Model):
    """ancestor number a of the cell (1: its parent)"""
    def __init__(self, S, a):
        super().__init__()
        self.S, self.a = S, a

    def __repr__(self):
        return f'anc({self.a})'

    def isinstance_of(self, ip, t):
        return isinstance(t, ClassVal) and t.name == 'CellBox'

    def typeof(self, ip):
        return ip.find(CB, 'CellBox')

    def eq(self, ip, o):
        return simp(rv(self.a) == rv(o.a)) if isinstance(o, Anc) else False

    same = eq

    def get(self, ip, n):
        S, a = self.S, self.a
        v = {'bounds': lambda: Term('bounds', a), 'parent': lambda: S.up(a), 'data_source': lambda: S.sources(a)}
        g = {'get_bounds': 'bounds', 'get_parent': 'parent', 'get_data_source': 'data_source'}
        if n in v:
            return v[n]()
        if n in g:
            return Native(n, lambda ip, x, k: v[g[n]]())
        if n.startswith('set_') and n[4:] in FIELDS:
            return Native(n, lambda ip, x, k: ip.ctx.oblige('frame.sources-and-ancestors-unchanged', False, info=n))
        raise Unsupported(f'CellBox.{n}')

    def set(self, ip, n, v):
        if n not in FIELDS:
            raise Unsupported(f'attribute {n} of an ancestor')
        ip.ctx.oblige('frame.sources-and-ancestors-unchanged', False, info=n)


class State:
    def __init__(self, T, ip):
        self.T, self.ip, self.ctx = T, ip, ip.ctx
        ctx = ip.ctx
        self.H = ctx.int('ancestors')
        ctx.assume(self.H >= 0)
        T.input('ancestors', self.H)
        self.r = Rect(ctx, 'cell', T=T)
        self.id = Atom(ctx.const('id', TextSort))
        self.cell = any_cell(ip, ip.call(ip.find(CB, 'CellBox'), [boundary(ip, self.r), self.id]), z3.IntVal(0))
        self.MD = ip.find(MG + 'metadata', 'Metadata')
        self.current = None
        self.segs = {}

    def up(self, a):
        """parent of level a"""
        if self.ctx.branch(simp(rv(a) < self.H)):
            return Anc(self, simp(rv(a) + 1))
        return None

    def loader(self, i):
        return loader_term_at(self, i)

    def sources(self, a):
        """the sources of ancestor a, in any order"""
        ctx = self.ctx
        a = rv(a)
        ctx.once(('nsrc', a.get_id()), NSRC(a) >= 0)
        if self.current is not None:
            i = self.current
            ctx.once(('at', a.get_id(), i.get_id()), z3.And(AT(a, i) >= 0, AT(a, i) < NSRC(a), LD(a, AT(a, i)) == i))
            register(self.ip, AT(a, i))
        if a.get_id() not in self.segs:
            def fn(ctx, q):
                l = LD(a, q)
                return [(True, self.ip.call(self.MD, [self.loader(l), PyList([]), Term('fill', l, a), Term('data', l, a)]))]
            s = Seg(RangeDom(NSRC(a)), fn, 'sources of an ancestor')
            s.uniform = 1
            self.segs[a.get_id()] = (a, s)
        return PyList([self.segs[a.get_id()][1]])

    def get_value(self, ip, s, a, k):
        """contract of DataLoader.get_value: the aggregate for given bounds and data (C13)"""
        b = k.get('bounds', a[0] if a else None)
        d = k.get('data')
        if d is None and len(a) > 1:
            raise Unsupported('get_value with positional arguments')
        if isinstance(b, Term) and b.kind == 'bounds':
            la = rv(b.args[0])
        elif isinstance(b, Obj) and ip.ctx.must(same_rect(read_rect(ip, b), self.r)):
            la = z3.IntVal(0)
        else:
            raise Unsupported('get_value of other bounds')
        if set(k) - {'bounds', 'data'}:
            raise Unsupported('get_value with options')
        i = rv(s.args[0])
        ds, da = (rv(d.args[0]), rv(d.args[1])) if isinstance(d, Term) and d.kind == 'data' else (z3.IntVal(-1), z3.IntVal(-1))
        return PyDict([(n, NaNable(MISS(i, la, ds, da, c), NUM(i, la, ds, da, c))) for c, n in enumerate(self.names(i))])

    def names(self, i):
        return self.comps

    # -- the definition of the nearest level, applied at level k
    def lvl(self, i, c, k):
        ctx = self.ctx
        i, k = rv(i), rv(k)
        L = LVL(i, c)
        ctx.assume(z3.And(L >= 0, L <= self.H, z3.Implies(L < self.H, z3.Not(MISS(i, L, i, L, c)))))
        ctx.assume(z3.Implies(z3.And(k >= 0, k < L), MISS(i, k, i, k, c)))
        return L

    def filled(self, i, c):
        """specification of the contribution"""
        i = rv(i)
        L = self.lvl(i, c, 0)
        p, v, v0 = PARENT(i), value(i, c, L), value(i, c, z3.IntVal(0))
        m0 = MISS(i, 0, i, 0, c)
        return NaNable(z3.If(p, v.nan, z3.If(m0, FNAN(i), False)), z3.If(p, v.val, z3.If(m0, FVAL(i), v0.val)))


def loader_term_at(S, i):
    return Term('loader', i, data_name=lambda ip, s: S.name_of(s.args[0]), get_value=method(S.get_value))


def walk(S):
    """rule for while loops that go up the chain of ancestors.  Invariant after k steps: the walking variable is ancestor k+1
    (none at the end), the value looked at is the aggregate at level k, and k is at most the nearest level"""
    def rule(ip, st, fr):
        ctx = ip.ctx
        names = assigned(st.body)
        chain = [n for n, v in fr.d.items() if isinstance(v, Anc) and n in names]
        if len(chain) != 1 or st.orelse:
            return None
        var = chain[0]
        ctx.abstracted('loop with an invariant')
        test = lambda: zb(ip.truth(ip.eval(st.test, fr)))
        if not ctx.branch(test()):
            return NEXT
        i = S.current

        def comp_of(key, v):
            for c, n in enumerate(S.comps):
                if key is not None and (n is key or n == key):
                    return c
            for c in range(len(S.comps)):
                if i is not None and isinstance(v, NaNable) and ctx.must(same(v, value(i, c, z3.IntVal(0)))):
                    return c

        # what does an iteration change?
        def dry():
            ip.block(st.body, fr)
        try:
            outs = ctx.explore(dry)
        except PyRaise:
            outs = []
        state = []          # (kind, place, key, component)
        for n, v in list(fr.d.items()):
            if n == var:
                continue
            ws = [o.writes[(id(fr), n)] for o in outs if (id(fr), n) in o.writes]
            if isinstance(v, PyDict) and models.plain_dict(v):
                if ws:
                    state += [('dict', n, e[0], comp_of(e[0], e[1])) for e in v.ents]
                else:
                    dw = [o.writes[(id(v), 'ents')] for o in outs if (id(v), 'ents') in o.writes]
                    for j, e in enumerate(v.ents):
                        if any(len(w[5]) != len(v.ents) or w[5][j][1] is not e[1] for w in dw):
                            state.append(('entry', v, j, comp_of(e[0], e[1])))
            elif ws and isinstance(v, (NaNable, z3.ArithRef)) and not z3.is_int(rv(v.val if isinstance(v, NaNable) else v)):
                state.append(('num', n, None, comp_of(None, v)))
        if any(s[3] is None for s in state):
            raise Unsupported('loop over the ancestors with another kind of state')

        def read(s):
            if s[0] == 'dict':
                return dict_get(ip, fr.d[s[1]], s[2])
            if s[0] == 'entry':
                return s[1].ents[s[2]][1]
            return fr.d[s[1]]

        def consistent(k):
            """[(name, formula)] of the invariant after k steps"""
            v = fr.d.get(var)
            out = [('walks to the next ancestor', z3.And(k < S.H, rv(v.a) == k + 1) if isinstance(v, Anc) else (k == S.H if v is None else z3.BoolVal(False)))]
            for s in state:
                x = read(s)
                out.append(('value of the level reached', same(x, value(i, s[3], k)) if isinstance(x, NaNable) or is_num(x) else z3.BoolVal(False)))
                out.append(('no nearer ancestor has a value', k <= S.lvl(i, s[3], k - 1)))
            return out
        for n, f in consistent(z3.IntVal(0)):
            ctx.oblige(f'ancestors.initially: {n}', f)
        k = ctx.int('steps')
        ctx.assume(z3.And(k >= 0, k < S.H))
        havoc_locals(ip, fr, names - {var})
        ctx.write(fr, var, Anc(S, simp(k + 1)))
        for s in state:
            x = value(i, s[3], k)
            S.lvl(i, s[3], k)
            if s[0] == 'dict':
                ctx.write(fr, s[1], PyDict([(n, value(i, c, k)) for c, n in enumerate(S.comps)]))
            elif s[0] == 'entry':
                es = list(s[1].ents)
                es[s[2]] = (es[s[2]][0], x)
                ctx.write(s[1], 'ents', tuple(es))
            else:
                ctx.write(fr, s[1], x)
        for n, f in consistent(k):
            ctx.assume(f)
        ctx.assume(test())
        S.lvl
        born, j0 = next(Heap._n), len(ctx.journal)
        r = ip.block(st.body, fr)
        for h, slot, *_ in ctx.journal[j0:]:
            if h.birth < born and forbids(S, ip, h, slot):
                continue
            if not (h is fr or h.birth == -1 or h.birth >= born or isinstance(h, Seg) and isinstance(slot, tuple) or any(s[0] == 'entry' and s[1] is h for s in state)):
                raise Unsupported(f'loop over the ancestors changes {h!r}.{slot}')
        if r[0] == 'return':
            return r
        if r[0] == 'break':
            return NEXT
        for n, f in consistent(k + 1):
            ctx.oblige(f'ancestors.preserved: {n}', f)
        for s in state:
            S.lvl(i, s[3], k + 1)
        ctx.assume(z3.Not(test()))
        return NEXT
    return rule


def dict_get(ip, d, key):
    for e in d.ents:
        if isinstance(e, tuple) and (e[0] is key or (isinstance(key, str) and e[0] == key) or (isinstance(key, Atom) and isinstance(e[0], Atom) and e[0].t.eq(key.t))):
            return e[1]


# ------------------------------------------------------------------ contents of the collecting dictionary
class NumEntries:
    """unknown entries: text keys with numbers that may be missing"""
    def __init__(self, ctx):
        n = ctx.int('dict')
        self.n = n
        f = lambda k, s: z3.Function('collected_' + k, I, TextSort, s)
        self.HAS, self.NAN, self.NUM = f('has', Bl), f('missing', Bl), f('value', Rl)

    def lookup(self, t):
        return self.HAS(self.n, t), self.NAN(self.n, t), self.NUM(self.n, t)

    def has_t(self, ip, t):
        ip.ctx.once(('nocomma', self.n.get_id(), t.get_id()), z3.Implies(self.HAS(self.n, t), z3.Not(COMMA(t))))
        return self.HAS(self.n, t)

    def has(self, ip, k):
        t = text_term(k)
        if t is None:
            raise Unsupported('key of another type')
        return self.has_t(ip, t)

    def find(self, ip, k):
        if ip.ctx.branch(self.has(ip, k)):
            h, n, v = self.lookup(text_term(k))
            return (k, NaNable(n, v))
        return None


def look(d, t):
    """(present, missing, value) of key t"""
    has, nan, val = z3.BoolVal(False), z3.BoolVal(False), z3.RealVal(0)
    for e in d.ents:
        if isinstance(e, tuple):
            kt = text_term(e[0])
            if kt is None or e[1] is models.TOMB:
                raise Unsupported('collected data of another kind')
            h = kt == t
            x = e[1]
            if isinstance(x, str):  # not a number at all: no value is the right one
                n, v = z3.BoolVal(False), z3.FreshConst(Rl, 'text')
            else:
                n, v = (zb(x.nan), as_real(rv(x.val))) if isinstance(x, NaNable) else (z3.BoolVal(False), as_real(rv(x)))
        else:
            h, n, v = e.lookup(t)
        nan, val = z3.If(h, n, nan), z3.If(h, v, val)
        has = z3.Or(has, h)
    return has, nan, val


class Ghost(Heap):
    pass


class Collect(Inv):
    """state: the dictionary collects, for the tracked name K, what the sources so far contributed"""
    name = 'sources'

    def __init__(self, S, K):
        self.S, self.K = S, K
        self.g = Ghost()
        self.g.d.update(has=z3.BoolVal(False), nan=z3.BoolVal(False), val=z3.RealVal(0), vec=z3.BoolVal(False))
        self.dicts = []

    def havoc(self, ip):
        ctx = ip.ctx
        for k, s in (('has', Bl), ('nan', Bl), ('val', Rl), ('vec', Bl)):
            ctx.write(self.g, k, ctx.const('ghost_' + k, s))
        for d in self.dicts:
            ctx.write(d, 'ents', (NumEntries(ctx),))

    def holds(self, ip):
        g, out = self.g.d, []
        t = ip.ctx.const('anykey', TextSort)
        for d in self.dicts:
            for e in d.ents:
                if isinstance(e, NumEntries):
                    e.has_t(ip, t)
            h, n, v = look(d, self.K)
            out += [('entry present iff contributed', h == g['has']), ('missing iff every contribution so far is', z3.Implies(h, n == g['nan'])),
                    ('first non-missing contribution', z3.Implies(z3.And(h, z3.Not(n)), v == g['val'])),
                    ('names without comma', z3.Implies(look(d, t)[0], z3.Not(COMMA(t))))]
        return out

    def owns(self, h, slot):
        return any(h is d for d in self.dicts) or h is self.g

    def forbids(self, ip, h, slot):
        return forbids(self.S, ip, h, slot)

    def step(self, ip):
        """the specification: fold the contribution of the current source"""
        S, g, ctx = self.S, self.g, ip.ctx
        for c, n in enumerate(S.comps):
            x = S.filled(S.current, c)
            hit = n.t == self.K
            has, nan, val = g.d['has'], g.d['nan'], g.d['val']
            take = z3.And(hit, z3.Or(z3.Not(has), nan))
            ctx.write(g, 'nan', z3.If(take, zb(x.nan), nan))
            ctx.write(g, 'val', z3.If(take, as_real(x.val), val))
            ctx.write(g, 'has', z3.Or(has, hit))
            if len(S.comps) == 2:
                ctx.write(g, 'vec', z3.Or(g.d['vec'], hit))

    def element(self, ip):
        S, ctx = self.S, ip.ctx
        i = ctx.int('source')
        ctx.assume(i >= 0)
        register(ip, i)
        S.current = i
        g = self.g.d
        if ctx.branch(VEC(i)):
            S.comps = [Atom(COMP[0](i)), Atom(COMP[1](i))]
            ctx.assume(z3.And(COMMA(NAME(i)), *[z3.Not(COMMA(x.t)) for x in S.comps], S.comps[0].t != S.comps[1].t))
            # component names of vector sources are contributed once only
            ctx.assume(z3.Implies(z3.Or(*[x.t == self.K for x in S.comps]), z3.Not(g['has'])))
        else:
            S.comps = [Atom(NAME(i))]
            ctx.assume(z3.And(z3.Not(COMMA(NAME(i))), z3.Implies(NAME(i) == self.K, z3.Not(g['vec']))))
        fill = 'parent' if ctx.branch(PARENT(i)) else NaNable(FNAN(i), FVAL(i))
        return ip.call(S.MD, [S.loader(i), PyList([]), fill, Term('data', i, z3.IntVal(0))])


class Sources(InvSeq):
    def __init__(self, inv):
        super().__init__(inv, inv.element)

    def run_loop(self, ip, body, fr):
        ctx, inv = ip.ctx, self.inv
        if inv.dicts:
            raise Unsupported('second loop over the sources')
        born = next(Heap._n)

        def dry():
            body(inv.element(ip))
        outs = ctx.explore(dry)
        ds = {id(w[0]): w[0] for o in outs for w in o.writes.values() if isinstance(w[0], PyDict) and w[0].birth < born and w[0].birth >= 0}
        inv.dicts = [d for d in ds.values() if any(d is v for v in fr.d.values())]
        return InvSeq.run_loop(self, ip, body, fr)


def check_vector(S):
    def con(ip, f, a, k):
        """contract of check_vector_data (task below): every component filled separately"""
        ps = ['self', 'source', 'loader', 'agg_value', 'data_name']
        v = dict(zip(ps, a))
        v.update(k)
        ctx, i = ip.ctx, S.current
        ctx.oblige('vector.filled for the source at hand', z3.And(rv(v['loader'].args[0]) == i, rv(m(ip, v['source'], 'get_data_loader').args[0]) == i, text_term(v['data_name']) == NAME(i)))
        d = v['agg_value']
        for c, n in enumerate(S.comps):
            x = dict_get(ip, d, n)
            ctx.oblige('vector.starts from the cell\'s own aggregate', same(x, value(i, c, z3.IntVal(0))) if x is not None else False)
        return PyDict([(n, S.filled(i, c)) for c, n in enumerate(S.comps)])
    return con


ASM = ['DataLoader.get_value by its contract (C13): an aggregate, possibly missing, per component, depending on loader, bounds and data only',
       'every ancestor holds a source with the loader concerned (children are made with their parent\'s sources, C01)',
       'component names of vector sources are not names of other sources']


def replay(T):
    def case(mv):
        h = min(int(mv.get('ancestors', 2)), 4)
        out = []
        for h in sorted({h, 0, 1, 3}):
            for pat in ([None] * h + [4.0], [None] * (h + 1), [2.0] * (h + 1), [None] + [1.0, None, 3.0, 5.0, 6.0][:h]):
                for fill in ('parent', 1.5, 'NANF'):
                    srcs = [dict(name='dup', fill=fill, vals=[[x] for x in pat]), dict(name='u0,w0', fill=fill, vals=[[x, -1.0 if j else None] for j, x in enumerate(pat)]),
                            dict(name='dup', fill='parent', vals=[[9.0]] * (h + 1))]
                    for ss in (srcs, srcs[::-1], srcs[:1] + srcs[:1]):
                        out.append(dict(checker='Fill', case=dict(rect=[0., 16., 16., 48.], srcs=ss, path=[0] * h, shuffle=bool(h % 2), seed=3, id='7')))
        return out
    T.replay = case


@task('C12', 'aggregate', 'requires: a cell with any number of ancestors and any number of scalar and vector sources, ancestors keeping theirs in any order, any pattern of missing aggregates; '
      'ensures: the entry of every name is the first non-missing contribution of the sources of that name in order (missing if all are), where a source contributes its aggregate over the cell, or if that is missing the aggregate of the '
      'nearest ancestor that has one on that ancestor\'s bounds and data (fill type parent; missing if none has) or the constant; no other entries; bounds and id are the cell\'s; contract used: check_vector_data', assumptions=ASM)
def aggregate(T):
    ip, ctx = T.interp(), T.ctx

    def go():
        S = State(T, ip)
        S.name_of = lambda i: Atom(NAME(rv(i)))
        K = ctx.const('key', TextSort)
        inv = Collect(S, K)
        m(ip, S.cell, 'set_data_source', Sources(inv))
        ip.setattr(S.cell, 'parent', S.up(0))
        ip.loop_rules = [walk(S)]
        ip.contracts = {CB + ':CellBox.check_vector_data': check_vector(S), CB + ':CellBox.deallocate_cellbox': lambda ip, f, a, k: None}
        k, out = T.calls(ip, (CB, 'CellBox.aggregate'), [S.cell])
        ctx.oblige('aggregate.no-exception', k == 'ok', info=str(out))
        if k != 'ok':
            return
        T.cover('aggregated')
        d = m(ip, out, 'get_agg_data')
        ctx.oblige('aggregate.data-is-a-dict', isinstance(d, PyDict))
        h, n, v = look(d, K)
        g = inv.g.d
        ctx.oblige('aggregate.entry-iff-contributed', h == g['has'])
        ctx.oblige('aggregate.first-non-missing-contribution', z3.Implies(h, z3.And(n == g['nan'], z3.Or(n, v == g['val']))))
        ctx.oblige('aggregate.bounds', same_rect(read_rect(ip, m(ip, out, 'get_bounds')), S.r))
        ctx.oblige('aggregate.id', ip.truth(models.eq(ip, m(ip, out, 'get_id'), S.id)))
    replay(T)
    T.run(go)


@task('C12', 'check_vector_data', 'requires: a cell with any number of ancestors, a vector source of two components, any pattern of missing aggregates; ensures: each component separately is the cell\'s aggregate, or if missing '
      'that of the nearest ancestor that has one (fill type parent) or the constant', assumptions=ASM)
def vector(T):
    ip, ctx = T.interp(), T.ctx

    def go():
        S = State(T, ip)
        S.comps = ['vC', 'uC']
        S.name_of = lambda i: 'vC,uC'
        i = ctx.int('source')
        ctx.assume(i >= 0)
        S.current = i
        fill = 'parent' if ctx.branch(PARENT(i)) else NaNable(FNAN(i), FVAL(i))
        src = ip.call(S.MD, [S.loader(i), PyList([]), fill, Term('data', i, z3.IntVal(0))])
        m(ip, S.cell, 'set_data_source', PyList([src]))
        ip.setattr(S.cell, 'parent', S.up(0))
        ip.loop_rules = [walk(S)]
        agg = PyDict([(n, value(i, c, z3.IntVal(0))) for c, n in enumerate(S.comps)])
        k, out = T.calls(ip, (CB, 'CellBox.check_vector_data'), [S.cell, src, S.loader(i), agg, 'vC,uC'])
        ctx.oblige('vector.no-exception', k == 'ok', info=str(out))
        if k != 'ok':
            return
        T.cover('filled')
        ctx.oblige('vector.entries', isinstance(out, PyDict) and models.plain_dict(out) and sorted(str(e[0]) for e in out.ents) == ['uC', 'vC'])
        for c, n in enumerate(S.comps):
            x = dict_get(ip, out, n)
            ctx.oblige(f'vector.component-{c}', same(x, S.filled(i, c)) if x is not None else False)
    replay(T)
    T.run(go)


@task('C12', 'deallocate_cellbox', 'requires: a cell with any number of ancestors and sources; ensures: no exception, the cell\'s bounds, id and sources are as before', assumptions=[])
def dealloc(T):
    ip, ctx = T.interp(), T.ctx

    def go():
        S = State(T, ip)
        S.name_of = lambda i: Atom(NAME(rv(i)))
        S.comps = []
        n = ctx.int('nsrc')
        ctx.assume(n >= 0)
        seg = Seg(RangeDom(n), lambda ctx, i: [(True, ip.call(S.MD, [S.loader(i), PyList([]), Term('fill', i), Term('data', i, z3.IntVal(0))]))], 'sources')
        seg.uniform = 1
        l = PyList([seg])
        m(ip, S.cell, 'set_data_source', l)
        ip.setattr(S.cell, 'parent', S.up(0))
        ip.loop_rules = [walk(S)]
        k, out = T.calls(ip, (CB, 'CellBox.deallocate_cellbox'), [S.cell])
        ctx.oblige('deallocate.no-exception', k == 'ok', info=str(out))
        T.cover('done')
        ctx.oblige('deallocate.bounds-kept', same_rect(read_rect(ip, m(ip, S.cell, 'get_bounds')), S.r))
        ctx.oblige('deallocate.id-kept', ip.truth(models.eq(ip, m(ip, S.cell, 'get_id'), S.id)))
        ctx.oblige('deallocate.sources-kept', m(ip, S.cell, 'get_data_source') is l and l.segs == (seg,) and not seg.d['ov'] and not seg.d['dirty'])
        ctx.oblige('deallocate.ancestors-kept', not any(s.d['ov'] or s.d['dirty'] for _, s in S.segs.values()) and isinstance(ip.getattr(S.cell, 'parent'), (Anc, type(None))))
    T.run(go)
