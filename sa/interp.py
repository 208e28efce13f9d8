"""Abstract interpreter over the type-checked MIR dumped by driver/mirdump.

Forward dataflow with trace partitioning: a program point holds a set of
abstract states (memory of value-numbering terms + path facts), states that
agree on live memory are joined, local calls and closures are analysed in
context, and loops are summarised by a fixpoint over a generalised head state
(induction variables, shifted values, append/accumulate recurrences, and
widening to an unconstrained symbol for anything else).  Nothing is executed
and no path is handed to a solver."""
import json
import sys
from terms import *
from facts import *
from seqs import *
import seqs

sys.setrecursionlimit(20000)


def i2f(v, ty):
    c = cval(v)
    if c is not None:
        import struct
        if ty == 'f64' and abs(c) < 1 << 53:
            return mk('fc', struct.unpack('<Q', struct.pack('<d', float(c)))[0], ty)
        if ty == 'f32' and abs(c) < 1 << 24:
            return mk('fc', struct.unpack('<I', struct.pack('<f', float(c)))[0], ty)
    return mk('i2f', v, ty)


class Imprecise(Exception):
    pass


class St(object):
    # pc: the exact path condition (only ever evaluated or compared; deciding
    # uses facts, which may be weaker after joins and stronger after invariants)
    __slots__ = ('mem', 'facts', 'ev', 'pc')

    def __init__(self, mem, facts, ev, pc=()):
        self.mem = mem
        self.facts = facts
        self.ev = ev
        self.pc = pc

    def fork(self):
        return St(dict(self.mem), self.facts, self.ev, self.pc)

    def assume(self, b):
        """list of states in which b holds (disjunctions are split)"""
        r = self.facts.decide(b)
        if r is True:
            return [self]
        if r is False:
            return []
        if b.op == 'or':
            out = []
            cur = self
            for i, x in enumerate(b.a):
                out.extend(cur.assume(x))
                nx = cur.assume(NOT(x))
                if not nx:
                    return out
                if len(nx) > 1:
                    for n in nx:
                        out.extend(n.assume(OR(*b.a[i + 1:])))
                    return out
                cur = nx[0]
            return out
        if b.op == 'and':
            sts = [self]
            for x in b.a:
                sts = [t for s in sts for t in s.assume(x)]
            return sts
        s = self.fork()
        s.facts = self.facts.add(b)
        s.pc = self.pc + (b,)
        if s.facts.false:
            return []
        if b.op in ('ge0', 'eq0') and s.facts.infeasible():
            return []
        f = propagate(s.facts)
        if f is None:
            return []
        s.facts = f
        return [s]

    def event(self, *e):
        self.ev = self.ev + (e,)


class Frame(object):
    __slots__ = ('fn', 'key', 'fid', 'site', 'tysub')

    def __init__(self, fn, key, fid, site, tysub=None):
        self.fn = fn
        self.key = key
        self.fid = fid
        self.site = site
        self.tysub = tysub


def loops_of(fn, isbox=lambda ty: False):
    """natural loops: head -> set of blocks; plus RPO order and liveness"""
    if 'loops' in fn:
        return fn['loops']
    blocks = fn['blocks']
    n = len(blocks)
    succ = [succs(b['t']) if not b['c'] else [] for b in blocks]
    # RPO
    seen = set()
    order = []
    st = [(0, iter(succ[0]))]
    seen.add(0)
    while st:
        b, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                st.append((s, iter(succ[s])))
                break
        else:
            order.append(b)
            st.pop()
    order.reverse()
    rpo = {b: i for i, b in enumerate(order)}
    pred = {b: [] for b in order}
    for b in order:
        for s in succ[b]:
            if s in rpo:
                pred[s].append(b)
    # dominators
    idom = {0: 0}
    changed = True
    while changed:
        changed = False
        for b in order[1:]:
            ps = [p for p in pred[b] if p in idom]
            d = ps[0]
            for p in ps[1:]:
                x, y = p, d
                while x != y:
                    while rpo[x] > rpo[y]:
                        x = idom[x]
                    while rpo[y] > rpo[x]:
                        y = idom[y]
                d = x
            if idom.get(b) != d:
                idom[b] = d
                changed = True

    def dom(a, b):
        while True:
            if a == b:
                return True
            if b == 0:
                return False
            b = idom[b]
    loops = {}
    for b in order:
        for s in succ[b]:
            if s in rpo and dom(s, b):
                body = loops.setdefault(s, set([s]))
                w = [b]
                while w:
                    x = w.pop()
                    if x not in body:
                        body.add(x)
                        w.extend(pred[x])
    # liveness of unborrowed locals
    borrowed = set()
    use = [set() for _ in range(n)]
    dfn = [set() for _ in range(n)]

    def upl(pl, i, u, d, write):
        l, pj = pl
        for e in pj:
            if e[0] == 'i':
                if e[1] not in d:
                    u.add(e[1])
        if write and not pj:
            d.add(l)
        else:
            if l not in d:
                u.add(l)

    def uop(o, i, u, d):
        if o[0] in ('copy', 'move'):
            upl(o[1], i, u, d, False)

    for i in order:
        u, d = use[i], dfn[i]
        for s in blocks[i]['s']:
            if s[0] == '=':
                rv = s[2]
                k = rv[0]
                if k in ('use', 'repeat'):
                    if rv[1][0] == 'copy' and isbox(fn['locals'][rv[1][1][0]]):
                        borrowed.add(rv[1][1][0])
                    uop(rv[1], i, u, d)
                elif k == 'un':
                    uop(rv[2], i, u, d)
                elif k in ('ref', 'raw'):
                    if not any(e[0] == '*' for e in rv[2][1]) or isbox(fn['locals'][rv[2][0]]):
                        borrowed.add(rv[2][0])
                    upl(rv[2], i, u, d, False)
                elif k == 'cast':
                    if rv[1] == 'BoxDerefTransmute' and rv[2][0] == 'copy':
                        borrowed.add(rv[2][1][0])
                    uop(rv[2], i, u, d)
                elif k == 'bin':
                    uop(rv[2], i, u, d)
                    uop(rv[3], i, u, d)
                elif k == 'discr':
                    upl(rv[1], i, u, d, False)
                elif k in ('aggarr', 'aggclo'):
                    for o in rv[2]:
                        uop(o, i, u, d)
                elif k in ('aggtup', 'aggptr'):
                    for o in rv[1]:
                        uop(o, i, u, d)
                elif k == 'aggadt':
                    for o in rv[3]:
                        uop(o, i, u, d)
                upl(s[1], i, u, d, True)
            elif s[0] == 'sd':
                upl(s[1], i, u, d, False)
        t = blocks[i]['t']
        if t[0] == 'call':
            uop(t[1], i, u, d)
            for o in t[2]:
                uop(o, i, u, d)
            upl(t[3], i, u, d, True)
        elif t[0] == 'switch':
            uop(t[1], i, u, d)
        elif t[0] == 'assert':
            uop(t[1], i, u, d)
        elif t[0] == 'return':
            u.add(0)
    live = {b: set() for b in order}
    changed = True
    while changed:
        changed = False
        for b in reversed(order):
            out = set()
            for s in succ[b]:
                if s in live:
                    out |= live[s]
            inn = use[b] | (out - dfn[b])
            if inn != live[b]:
                live[b] = inn
                changed = True
    fn['loops'] = (loops, rpo, live, borrowed)
    return fn['loops']


def succs(t):
    k = t[0]
    if k == 'goto':
        return [t[1]]
    if k == 'switch':
        return [b for _, b in t[2]] + [t[3]]
    if k == 'drop':
        return [t[2]]
    if k == 'call':
        return [] if t[4] is None else [t[4]]
    if k == 'assert':
        return [t[4]]
    return []


class Program(object):
    def __init__(self, path):
        d = json.load(open(path))
        self.fns = d['fns']
        self.types = d['types']
        self.adts = d['adts']
        Env.types = self.types
        Env.adts = self.adts
        self.impls = {}
        for k, f in self.fns.items():
            if f['trait'] and k.startswith('<'):
                self.impls[k] = f

    def adt_variants(self, name):
        a = self.adts.get(name)
        return a['variants'] if a else None


def owns(v, d=0):
    if v.op in ('vec', 'box'):
        return len(v.a) > 1
    if v.op in ('agg', 'tup') and d < 3:
        return any(owns(x, d + 1) for x in v.a[2 if v.op == 'agg' else 0:])
    return False


class Engine(object):
    MAX_STATES = 4000

    def __init__(self, prog):
        import models
        self.p = prog
        self.models = models
        self.fid = 0
        self.allocn = 0
        self.quiet = 0
        self.loopstack = []
        st0 = self.state0()
        THAW[0] = lambda t: self.thaw(st0, t)
        seqs._BELOW.clear()
        self.inptr = set()  # types the arguments have raw pointers to
        self.regions = {}   # type -> allocations raw pointers to it were made into
        self.froz = {}      # what a loop carries -> (value before, changed paths)
        self.loopn = 0
        self.loopinfo = {}
        self.obls = []          # panic obligations: dict(site, kind, ok, facts, cond)
        self.oblseen = set()
        self.cuts = {}
        self.hooks = {}
        self.depth = 0
        self.unmodelled = set()
        self.nstates = 0
        self.fnset = set()
        self.callstack = []
        self.symn = 0
        self.watch = False  # report writes through shared references and raw pointers of the arguments
        self.site = None
        self.stores = 0
        self.lost = set()   # stores to places that are not known
        self.frames = {}

    # ------------------------------------------------------------ basics
    def ty(self, i):
        return self.p.types[i]

    def sym(self, name, ty=None):
        t = mk('sym', name)
        if ty is not None:
            t.ty = ty
        return t

    def opaque(self, why):
        self.symn += 1
        self.unmodelled.add(why)
        return mk('opaque', why, self.symn, tuple(atom(l) for l in self.loopstack))

    def fresh_alloc(self, what='heap'):
        self.allocn += 1
        return mk('alloc', what, self.allocn, tuple(atom(l) for l in self.loopstack))

    def state0(self):
        return St({}, Facts(), ())

    def newobj(self, st, v):
        self.allocn += 1
        st.mem[self.allocn] = v
        return self.allocn

    # ------------------------------------------------------------ memory
    def base(self, st, obj):
        v = st.mem.get(obj)
        if v is None:
            if isinstance(obj, tuple) and obj[0] == 'D':
                d = mk('deref', obj[1])
                if d.ty is None and obj[1].ty is not None:
                    t = self.ty(obj[1].ty)
                    if t['k'] in ('ref', 'ptr'):
                        d.ty = t['to']
                h = self.hooks.get('deref')
                if h:
                    r = h(self, st, obj[1])
                    if r is not None:
                        return r
                return d
            return self.opaque('uninitialised local')
        return v

    def proj(self, st, v, e):
        r = self.proj1(st, v, e)
        x = r
        if x.op == 'poly':
            x = as_atom(x)
            if x is None:
                return r
        if x.op in ('fld', 'elem', 'deref'):
            y = self.thaw(st, x)
            if y is not x:
                return y
        return r

    def rooted(self, t):
        """t as a path into something a loop carries: (initial value, changed paths, path) or None"""
        path = []
        while True:
            if t.op == 'fld' and t.a[1] == 0:
                path.append(('f', t.a[2]))
            elif t.op == 'elem':
                path.append(('i', t.a[1]))
            elif t.op == 'deref':
                path.append(('c',))
            else:
                break
            t = t.a[0]
        if not path:
            return None
        if t.op == 'phi':
            fz = self.froz.get(t)
            if fz is None:
                return None
            v0, ch = fz
        elif t.op == 'mu':
            import loops
            v0, ch = t.a[4][t.a[0]], loops.mu_changed(self, t)
        else:
            return None
        path.reverse()
        return v0, ch, path

    def thaw(self, st, t):
        """a part of what a loop carries that the loop does not change, as it was before"""
        r = self.rooted(t)
        if r is None:
            return t
        v, ch, path = r
        w = tuple(e[:1] if e[0] == 'i' else e for e in path)
        for c in ch:
            n = min(len(c), len(w))
            if c[:n] == w[:n]:
                return t
        for e in path:
            v = self.proj(st, v, e)
        return v

    def owner(self, st, t):
        """the box or Vec t, as far as its identity goes"""
        while t.op in ('fld', 'elem', 'deref'):
            r = self.rooted(t)
            if r is None:
                return t
            v, ch, path = r
            w = tuple(e[:1] if e[0] == 'i' else e for e in path)
            if any(c == w[:len(c)] for c in ch):
                return t
            for e in path:
                v = self.proj(st, v, e)
            t = v
        return t

    def ident(self, st, v):
        """the allocation a box or Vec owns"""
        v = self.owner(st, v)
        if v.op in ('box', 'vec') and len(v.a) > 1:
            return v.a[1]
        return mk('ident', v)

    def proj1(self, st, v, e):
        k = e[0]
        if k == 'f':
            if v.op == 'agg':
                if 2 + e[1] < len(v.a):
                    return v.a[2 + e[1]]
                return self.opaque('field')
            if v.op == 'tup':
                return v.a[e[1]] if e[1] < len(v.a) else self.opaque('field')
            if v.op == 'clo':
                return v.a[1 + e[1]]
            if v.op == 'asv':
                return self.fld(st, v.a[0], v.a[1], e[1])
            if v.op == 'ite':
                return self.mkite(v.a[0], self.proj(st, v.a[1], e), self.proj(st, v.a[2], e))
            return self.fld(st, v, 0, e[1])
        if k == 'v':
            if v.op == 'agg':
                return v
            return mk('asv', v, e[1])
        if k == 'c':
            if v.op in ('vec', 'box', 'arc'):
                return v.a[0]
            if v.op == 'ref' or v.op == 'rawp':
                o, p = self.ptr_loc(st, v)
                return self.load(st, o, p)
            d = mk('deref', v)
            h = self.hooks.get('deref')
            if h:
                r = h(self, st, v)
                if r is not None:
                    return r
            return d
        if k == 'i':
            return self.etyped(seq_get(v, e[1], st.facts))
        if k == 'sub':
            return seq_sub(v, e[1], e[2], st.facts)
        if k == 'm':
            import maps
            return maps.tget(self, v, e[1], e[2])
        if k == 'k' and e[1] < len(v.a) and isinstance(v.a[e[1]], T):
            return v.a[e[1]]
        return self.opaque('proj ' + k)

    def etyped(self, v):
        """give an element its type, if its sequence has one"""
        if v.op == 'elem' and v.ty is None:
            v.ty = self.seq_ety(v.a[0])
        return v

    def seq_ety(self, s, d=0):
        if d > 6:
            return None
        if isinstance(s.info, dict) and 'ety' in s.info:
            return s.info['ety']
        if s.op in ('upd', 'rev', 'all', 'sub'):
            return self.seq_ety(s.a[0], d + 1)
        if s.op == 'seq':
            for g in s.a:
                r = self.seq_ety(g, d + 1)
                if r is not None:
                    return r
            return None
        if s.op == 'one':
            return s.a[0].ty
        if s.op == 'deref' and s.a[0].ty is not None:
            return self.content_ety(s.a[0].ty)
        if s.ty is not None:
            return self.ty(s.ty).get('elem')
        return None

    def content_ety(self, ti):
        """element type of what a Vec, box, reference or slice of type ti holds"""
        t = self.ty(ti)
        if t['k'] == 'adt' and t.get('args'):
            if t['name'] == 'std::vec::Vec':
                return t['args'][0]
            if t['name'] == 'std::boxed::Box':
                return self.ty(t['args'][0]).get('elem')
            return None
        if t['k'] in ('ref', 'ptr'):
            return self.ty(t['to']).get('elem')
        return t.get('elem')

    def leaf_type(self, st, obj, path):
        """-> (type, element type) of a part of an object"""
        ti = None
        if isinstance(obj, tuple) and obj[0] == 'L' and obj[1] in self.frames:
            ti = self.frames[obj[1]]['locals'][obj[2]]
        elif isinstance(obj, tuple) and obj[0] == 'D' and obj[1].ty is not None:
            t = self.ty(obj[1].ty)
            ti = t.get('to')
        v = st.mem[obj]
        if ti is None:
            ti = v.ty
        ety = None
        for e in path:
            if ti is None:
                return None, None
            t = self.ty(ti)
            if v.op == 'agg' and e >= 2:
                ti = self.field_ty(ti, v.a[1], e - 2)
            elif v.op == 'tup':
                ti = t['elems'][e] if t['k'] == 'tuple' and e < len(t['elems']) else None
            elif v.op in ('vec', 'box') and e == 0:
                ety = self.content_ety(ti)
                ti = None if v.op == 'vec' or ety is not None else (t['args'][0] if t.get('args') else None)
                if ti is None:
                    return None, ety
            else:
                return None, None
            v = v.a[e]
        return ti, ety

    def fld(self, st, v, var, i):
        h = self.hooks.get('fld')
        if h:
            r = h(self, st, v, var, i)
            if r is not None:
                return r
        if v.op == 'elem' and v.a[0].op == 'upd':
            n = below(v, var, i)
            if n is not v:
                return self.proj(st, n, ('f', i)) if n.op == 'agg' else self.fld(st, n, var, i)
        if v.op == 'elem':
            x = either(v, var, i)
            if x is not None:
                return x
        t = mk('fld', v, var, i)
        if t.ty is None and v.ty is not None:
            t.ty = self.field_ty(v.ty, var, i)
        return t

    def field_ty(self, tyi, var, i):
        t = self.ty(tyi)
        if t['k'] == 'adt':
            vs = self.p.adt_variants(t['name'])
            if vs and var < len(vs) and i < len(vs[var]['fields']):
                f = vs[var]['fields'][i][1]
                ft = self.ty(f)
                if ft['k'] == 'param':
                    # positional: parameter index among type args
                    names = [self.ty(x) for x in t['args']]
                    idx = ft['idx']
                    # lifetimes shift indices; match by counting only when unambiguous
                    if len(t['args']) == 1:
                        return t['args'][0]
                    if idx < len(t['args']):
                        return t['args'][idx]
                    return None
                return f
        if t['k'] == 'tuple' and i < len(t['elems']):
            return t['elems'][i]
        return None

    def load(self, st, obj, path):
        v = self.base(st, obj)
        for e in path:
            v = self.proj(st, v, e)
        return v

    def store(self, st, obj, path, val):
        if self.watch and self.quiet == 0 and isinstance(obj, tuple) and obj[0] == 'D' and self.borrowed(obj[1]) is None:
            self.lost.add('%s:%s' % (self.site[0].key, self.site[1]))
        elif self.watch and self.quiet == 0 and isinstance(obj, tuple) and obj[0] == 'D' and self.borrowed(obj[1]):
            fr, line = self.site
            self.obls.append(dict(fn=fr.key, file=fr.fn.get('file'), line=line, kind='write', ok=False, cond=FALSE, facts=st.facts, pc=st.pc,
                                  detail=repr(obj[1])[:80], stack=tuple(self.callstack), loops=tuple(self.loopstack)))
        if not path:
            st.mem[obj] = val
            return
        st.mem[obj] = self.upd(st, self.base(st, obj), path, val)

    def borrowed(self, v):
        """is v a pointer found in the arguments that does not give leave to write?"""
        shared = False
        while True:
            if v.ty is not None:
                t = self.ty(v.ty)
                if t['k'] == 'ptr' or (t['k'] == 'ref' and not t.get('mut')):
                    shared = True
            if v.op == 'sym':
                return shared
            if v.op not in ('fld', 'elem', 'deref', 'asv', 'ident', 'ptroff') or not isinstance(v.a[0], T):
                return None
            v = v.a[0]

    def upd(self, st, v, path, val):
        if not path:
            return val
        e = path[0]
        rest = path[1:]
        k = e[0]
        if k == 'f':
            if v.op == 'asv':
                v = self.expand(st, v.a[0], v.a[1]) or v
            if v.op not in ('agg', 'tup', 'clo'):
                v = self.expand(st, v, 0, e[1])
            if v is None:
                return self.opaque('store into unknown struct')
            a = list(v.a)
            j = {'agg': 2, 'tup': 0, 'clo': 1}[v.op] + e[1]
            while j >= len(a):
                a.append(self.opaque('unset field'))
            a[j] = self.upd(st, a[j], rest, val)
            return mk(v.op, *a)
        if k == 'v':
            if v.op == 'agg':
                return self.upd(st, v, rest, val)
            x = self.expand(st, v, e[1])
            if x is None:
                return self.opaque('store into unknown enum')
            return self.upd(st, x, rest, val)
        if k == 'c':
            if v.op in ('vec', 'box', 'arc'):
                return mk(v.op, self.upd(st, v.a[0], rest, val), *v.a[1:])
            if v.op in ('ref', 'rawp'):
                o, p = self.ptr_loc(st, v)
                self.store(st, o, p + rest, val)
                return v
            d = mk('deref', v)
            return mk('vec' if v.info == 'vec' else 'box', self.upd(st, d, rest, val), self.ident(st, v))
        if k == 'i':
            if not rest:
                return seq_set(v, e[1], val, st.facts)
            return seq_set(v, e[1], self.upd(st, self.etyped(seq_get(v, e[1], st.facts)), rest, val), st.facts)
        if k == 'sub':
            lo, hi = e[1], e[2]
            inner = self.upd(st, seq_sub(v, lo, hi, st.facts), rest, val)
            return cat(seq_sub(v, ZERO, lo, st.facts), inner, seq_sub(v, hi, seq_len(v), st.facts))
        if k == 'm':
            import maps
            return maps.mset(v, e[1], self.upd(st, maps.tget(self, v, e[1], e[2]), rest, val))
        if k == 'k' and e[1] < len(v.a):
            a = list(v.a)
            a[e[1]] = self.upd(st, a[e[1]], rest, val)
            return mk(v.op, *a)
        return self.opaque('store ' + k)

    def expand(self, st, v, var, minf=0):
        """a symbolic struct (or enum variant) as an aggregate of its fields"""
        if v.ty is None:
            return None
        t = self.ty(v.ty)
        if t['k'] == 'adt':
            vs = self.p.adt_variants(t['name'])
            if not vs or var >= len(vs):
                return None
            fs = []
            for i, (n, ft) in enumerate(vs[var]['fields']):
                f = self.thaw(st, self.fld(st, v, var, i))
                fs.append(self.typed(f, self.field_ty(v.ty, var, i)))
            return agg(t['name'], var, *fs)
        if t['k'] == 'tuple':
            return tup(*[self.typed(self.fld(st, v, 0, i), x) for i, x in enumerate(t['elems'])])
        return None

    def typed(self, v, tyi):
        """integer-typed symbols become polynomials"""
        if tyi is None:
            return v
        t = self.ty(tyi)
        if t['k'] in ('int', 'char'):
            if v.op != 'poly':
                if v.ty is None or self.ty(v.ty)['k'] in ('param', 'alias'):
                    v.ty = tyi
                return atom(v)
            return v
        if v.op in ('sym', 'fld', 'elem', 'deref', 'phi', 'opaque', 'call', 'asv'):
            if v.ty is None or self.ty(v.ty)['k'] in ('param', 'alias'):
                v.ty = tyi
            if t['k'] == 'adt' and t['name'] == 'std::vec::Vec':
                v.info = 'vec'
            return v
        if t['k'] == 'adt' and v.op == 'agg' and len(v.a) > 2 and t['name'] in (OPTION, RESULT):
            if v.a[1] == 1 or t['name'] == RESULT:
                j = 0 if t['name'] == OPTION else v.a[1]
                if j < len(t['args']):
                    n = self.typed(v.a[2], t['args'][j])
                    if n is not v.a[2]:
                        return agg(v.a[0], v.a[1], n)
        if t['k'] == 'tuple' and v.op == 'tup' and len(t['elems']) == len(v.a):
            n = [self.typed(x, y) for x, y in zip(v.a, t['elems'])]
            return tup(*n)
        return v

    def ptr_loc(self, st, v):
        """location a pointer value designates"""
        if v.op == 'ref':
            return v.a[0], v.a[1]
        if v.op == 'rawp':
            r = self.find_alloc(st, v.a[0])
            if r is not None:
                return r[0], r[1] + v.a[1]
            return ('D', mk('heapref', v.a[0])), v.a[1]
        al = self.region(st, v)
        if al is not None:
            r = self.find_alloc(st, al)
            if r is not None:
                return r[0], r[1] + (('i', pidx(v)),)
        return ('D', v), ()

    def find_alloc(self, st, ident):
        """current location of the allocation `ident` (content of a Vec/Box)"""
        if ident.op == 'ident':
            # allocation owned by symbolic input box; its owner path is its location
            v = ident.a[0]
            return self.term_loc(v)
        for obj, v in st.mem.items():
            if v.op in ('vec', 'box') and len(v.a) > 1 and v.a[1] is ident:
                return obj, (('c',),)
            r = self._find_in(v, ident, ())
            if r is not None:
                return obj, r
        return None

    def _find_in(self, v, ident, path, d=0):
        if d > 6:
            return None
        if v.op in ('vec', 'box', 'arc'):
            if len(v.a) > 1 and v.a[1] is ident:
                return path + (('c',),)
            return self._find_in(v.a[0], ident, path + (('c',),), d + 1)
        if v.op == 'agg':
            for i, x in enumerate(v.a[2:]):
                r = self._find_in(x, ident, path + (('f', i),), d + 1)
                if r:
                    return r
        elif v.op == 'tup':
            for i, x in enumerate(v.a):
                r = self._find_in(x, ident, path + (('f', i),), d + 1)
                if r:
                    return r
        return None

    def term_loc(self, v):
        """location whose content is the symbolic box v"""
        return ('D', v), ()

    def norm_path(self, path):
        out = []
        for e in path:
            if out and out[-1][0] == 'sub':
                lo = out[-1][1]
                if e[0] == 'i':
                    out[-1] = ('i', padd(lo, e[1]))
                    continue
                if e[0] == 'sub':
                    out[-1] = ('sub', padd(lo, e[1]), padd(lo, e[2]))
                    continue
            out.append(e)
        return tuple(out)

    # ------------------------------------------------------------ places
    def place(self, fr, st, pl):
        """-> (obj, path, ty, boxptr)"""
        l, pj = pl
        obj = ('L', fr.fid, l)
        path = ()
        ty = fr.fn['locals'][l]
        boxptr = False
        for e in pj:
            k = e[0]
            if k == '*':
                v = ref(obj, path + (('c',),)) if boxptr else self.load(st, obj, path)
                boxptr = False
                t = self.ty(ty)
                if v.op == 'alias':
                    obj, path = v.a[0], v.a[1] + (('c',),)
                elif v.op in ('box', 'vec', 'arc'):
                    path = path + (('c',),)
                else:
                    if v is NULL:
                        raise Imprecise('null deref')
                    if v.op not in ('ref', 'rawp') and v.ty is None and t['k'] in ('ref', 'ptr'):
                        v.ty = ty
                    obj, path = self.ptr_loc(st, v)
                ty = t.get('to')
                if ty is None:
                    ty = t['args'][0] if t.get('args') else None
            elif k == 'f':
                t = self.ty(ty) if ty is not None else None
                if t and t['k'] == 'adt' and t['name'] == 'std::boxed::Box' and e[1] == 0:
                    v = self.load(st, obj, path)
                    if v.op == 'alias':
                        obj, path = v.a
                    boxptr = True
                    ty = e[2]
                    continue
                path = path + (('f', e[1]),)
                ty = e[2]
            elif k == 'v':
                path = path + (('v', e[1]),)
            elif k == 'i':
                idx = self.load(st, ('L', fr.fid, e[1]), ())
                idx = self.typed(idx, fr.fn['locals'][e[1]])
                path = self.norm_path(path + (('i', idx),))
                ty = self.elem_ty(ty)
            elif k == 'ci':
                off = I(e[1])
                if e[3]:
                    off = psub(seq_len(self.load(st, obj, path)), off)
                path = self.norm_path(path + (('i', off),))
                ty = self.elem_ty(ty)
            elif k == 'ss':
                n = seq_len(self.load(st, obj, path))
                hi = psub(n, I(e[2])) if e[3] else I(e[2])
                path = self.norm_path(path + (('sub', I(e[1]), hi),))
            else:
                raise Imprecise('projection ' + k)
        return obj, path, ty, boxptr

    def is_box(self, ty):
        if ty is None:
            return False
        t = self.ty(ty)
        return t['k'] == 'adt' and t['name'] == 'std::boxed::Box'

    def elem_ty(self, ty):
        if ty is None:
            return None
        t = self.ty(ty)
        return t.get('elem')

    def rd(self, fr, st, pl):
        obj, path, ty, bp = self.place(fr, st, pl)
        if bp:
            return ref(obj, path + (('c',),))
        v = self.load(st, obj, path)
        return self.typed(v, ty)

    def operand(self, fr, st, o):
        k = o[0]
        if k == 'copy':
            return self.rd(fr, st, o[1])
        if k == 'move':
            v = self.rd(fr, st, o[1])
            if owns(v):
                # an allocation has one owner: what pointers into it reach is where it went
                l, pj = o[1]
                if not pj:
                    st.mem.pop(('L', fr.fid, l), None)
                elif all(e[0] == 'f' for e in pj):
                    obj, path, ty, bp = self.place(fr, st, o[1])
                    if not bp:
                        self.store(st, obj, path, mk('uninit'))
            return v
        return self.const(fr, st, o)

    def const(self, fr, st, o):
        k = o[0]
        if k == 'lit':
            t = self.ty(o[2])
            if t['k'] == 'bool':
                return TRUE if o[1] != '0' else FALSE
            if t['k'] == 'float':
                return mk('fc', int(o[1]), t['name'])
            return I(int(o[1]))
        if k == 'str':
            return mk('str', o[1])
        if k == 'unit':
            return UNIT
        if k == 'fn':
            return self.fnval(o[1])
        if k == 'cval':
            return self.const_agg(fr, st, o[1])
        if k == 'promoted':
            return self.promoted(fr, st, o)
        if k == 'const':
            t = self.ty(o[2])
            v = mk('sym', 'const ' + o[1])
            v.ty = o[2]
            return self.typed(v, o[2])
        if k == 'rtcheck':
            return FALSE
        raise Imprecise('operand ' + k)

    def fnval(self, f):
        t = mk('fnv', f.get('resolved') or f['path'], json.dumps(f, sort_keys=True))
        return t

    def const_agg(self, fr, st, c):
        if c[0] == 'lit':
            return self.const(fr, st, c)
        _, ti, vi, fs = c
        t = self.ty(ti)
        vals = [self.const_agg(fr, st, x) for x in fs]
        if t['k'] == 'tuple':
            return tup(*vals)
        return agg(t['name'], vi, *vals)

    def promoted(self, fr, st, o):
        fn = self.p.fns.get(o[1])
        if fn is None or o[2] >= len(fn['promoted']):
            return self.opaque('promoted')
        body = fn['promoted'][o[2]]
        body.setdefault('file', fn['file'])
        s = st
        outs = self.run_body(body, o[1] + '#p%d' % o[2], s.fork(), [], fr.site)
        if len(outs) != 1:
            raise Imprecise('promoted')
        s2, v = outs[0]
        # promoted memory persists; v is a ref to a promoted local
        for ob, val in s2.mem.items():
            if ob not in st.mem:
                st.mem[ob] = val
        return v

    # ------------------------------------------------------------ rvalues
    def mkite(self, c, a, b):
        if c is TRUE or a is b:
            return a
        if c is FALSE:
            return b
        t = mk('ite', c, a, b)
        return atom(t) if a.op == 'poly' else t

    def rvalue(self, fr, st, rv, dty, line):
        k = rv[0]
        if k == 'use':
            return self.operand(fr, st, rv[1])
        if k == 'ref' or k == 'raw':
            obj, path, ty, bp = self.place(fr, st, rv[2])
            if bp:
                path = path + (('c',),)
            if k == 'raw':
                return self.to_raw(st, ref(obj, path), ty)
            return ref(obj, path)
        if k == 'bin':
            return self.binop(fr, st, rv, line)
        if k == 'un':
            v = self.operand(fr, st, rv[2])
            if rv[1] == 'Not':
                if v.op == 'poly':
                    return atom(mk('bitnot', v))
                return NOT(v)
            if rv[1] == 'Neg':
                if v.op == 'poly':
                    return pneg(v)
                return mk('fneg', v)
            if rv[1] == 'PtrMetadata':
                return self.slice_len(st, v)
            return self.opaque('unop')
        if k == 'cast':
            return self.cast(fr, st, rv, line)
        if k == 'discr':
            obj, path, ty, bp = self.place(fr, st, rv[1])
            v = self.typed(self.load(st, obj, path), ty)
            return self.discr(st, v, ty)
        if k == 'aggadt':
            return agg(rv[1], rv[2], *[self.operand(fr, st, o) for o in rv[3]])
        if k == 'aggtup':
            return tup(*[self.operand(fr, st, o) for o in rv[1]])
        if k == 'aggarr':
            return mk('seq', *[one(self.operand(fr, st, o)) for o in rv[2]])
        if k == 'aggclo':
            return mk('clo', rv[1], *[self.operand(fr, st, o) for o in rv[2]])
        if k == 'repeat':
            v = self.operand(fr, st, rv[1])
            if rv[2] is None:
                return self.opaque('repeat')
            n = int(rv[2])
            if n <= 8:
                return mk('seq', *[one(v)] * n)
            return mk('seq', mk('comp', I(n), newlv(), v))
        if k == 'aggptr':
            return self.operand(fr, st, rv[1][0])
        return self.opaque('rvalue ' + k)

    def to_raw(self, st, v, to=None):
        """raw pointers name the allocation they point into, not the owner's path"""
        if v.op != 'ref':
            return v
        obj, path = v.a
        # longest prefix ending at a Vec/Box content
        for n in range(len(path), 0, -1):
            if path[n - 1][0] == 'c':
                own = self.owner(st, self.load(st, obj, path[:n - 1]))
                if own.op in ('vec', 'box') and len(own.a) > 1:
                    self.points_to(st, v, to, own.a[1], path[n:])
                    return mk('rawp', own.a[1], path[n:])
                if own.op in ('fld', 'sym', 'elem', 'deref'):
                    self.points_to(st, v, to, None, ())
                    return mk('rawp', mk('ident', own), path[n:])
        self.points_to(st, v, to, None, ())
        return v

    def points_to(self, st, v, to, al, path):
        """remember what raw pointers to a type point to"""
        if to is not None:
            n = self.ty(to).get('name')
        else:
            x = self.load(st, v.a[0], v.a[1])
            n = self.adt_of(x)
        if al is not None and len(path) == 1 and path[0][0] == 'i':
            k = al.a[:2]
        else:
            k = None
        self.regions.setdefault(n, {})[k] = al

    def adt_of(self, x):
        if x.op == 'agg':
            return x.a[0]
        if x.ty is not None:
            t = self.ty(x.ty)
            if t['k'] == 'adt':
                return t['name']
        return None

    def region(self, st, v):
        """the one allocation that holds everything pointers like v can point to, if there is one"""
        if v.ty is None:
            return None
        t = self.ty(v.ty)
        if t['k'] not in ('ref', 'ptr'):
            return None
        t = self.ty(t['to'])
        if t['k'] != 'adt':
            return None
        r = self.regions.get(t['name'])
        if not r or len(set(r) | set(self.regions.get(None, ()))) != 1 or None in r:
            return None
        if t['name'] in self.inptr or v.op not in ('fld', 'elem', 'phi', 'mu'):
            return None
        return list(r.values())[0]

    def pointees(self, ti, seen):
        """names of the types that raw pointers in values of type ti point to"""
        if ti is None or ti in seen:
            return
        seen.add(ti)
        t = self.ty(ti)
        if t['k'] == 'ptr':
            self.inptr.add(self.ty(t['to']).get('name'))
        for k in ('to', 'elem'):
            if isinstance(t.get(k), int):
                self.pointees(t[k], seen)
        for k in ('elems', 'args'):
            for x in t.get(k) or ():
                if isinstance(x, int):
                    self.pointees(x, seen)
        if t['k'] == 'adt':
            for i, v in enumerate(self.p.adt_variants(t['name']) or ()):
                for j in range(len(v['fields'])):
                    self.pointees(self.field_ty(ti, i, j), seen)

    def slice_len(self, st, v):
        if v.op == 'str':
            return I(len(v.a[0].encode('utf8')))
        obj, path = self.ptr_loc(st, v)
        if path and path[-1][0] == 'sub':
            return psub(path[-1][2], path[-1][1])
        c = self.load(st, obj, path)
        if c.op in ('vec', 'box'):
            c = c.a[0]
        return seq_len(c)

    def discr(self, st, v, ty):
        if v.op == 'agg':
            vs = self.p.adt_variants(v.a[0])
            if vs:
                return I(int(vs[v.a[1]]['discr']))
            return I(v.a[1])
        if v.op == 'ite':
            return self.mkite(v.a[0], self.discr(st, v.a[1], ty), self.discr(st, v.a[2], ty))
        for i in range(len(self.enum_variants(v, ty) or ())):
            if st.facts.var.get(v) == i:
                return I(int(self.enum_variants(v, ty)[i]['discr']))
        d = mk('discr', v)
        if d.info is None:
            d.info = {'ety': ty}
        return atom(d)

    def enum_variants(self, v, ty=None):
        for t in (ty, v.ty):
            if t is None:
                continue
            tt = self.ty(t)
            if tt['k'] == 'adt':
                a = self.p.adts.get(tt['name'])
                if a and a['kind'] == 'enum':
                    return a['variants']
        return None

    def eqcond(self, a, b):
        """equality with discriminant comparisons turned into variant tests"""
        for x, y in ((a, b), (b, a)):
            at = as_atom(x) if x.op == 'poly' else None
            if at is not None and at.op == 'discr':
                c = cval(y)
                vs = self.enum_variants(at.a[0], (at.info or {}).get('ety'))
                if c is not None and vs:
                    for i, w in enumerate(vs):
                        if int(w['discr']) == c:
                            return isvar(at.a[0], i)
                    return FALSE
                ay = as_atom(y) if y.op == 'poly' else None
                if ay is not None and ay.op == 'discr':
                    return EQ(at.a[0], ay.a[0])
        return EQ(a, b)

    CMP = {'Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'}

    def compare(self, op, a, b):
        if op in ('Eq', 'Ne'):
            r = self.eqcond(a, b)
            return r if op == 'Eq' else NOT(r)
        if a.op == 'poly' and b.op == 'poly':
            return {'Lt': lt(a, b), 'Le': le(a, b), 'Gt': lt(b, a), 'Ge': le(b, a)}[op]
        if op in ('Gt', 'Ge'):
            a, b = b, a
            op = 'Lt' if op == 'Gt' else 'Le'
        return mk('fcmp', op, a, b)

    def binop(self, fr, st, rv, line):
        op = rv[1]
        a = self.operand(fr, st, rv[2])
        b = self.operand(fr, st, rv[3])
        if op in self.CMP:
            if a.op in ('true', 'false') or b.op in ('true', 'false') or self.is_bool(fr, rv[2]):
                if op == 'Eq':
                    return OR(AND(a, b), AND(NOT(a), NOT(b)))
                if op == 'Ne':
                    return OR(AND(a, NOT(b)), AND(NOT(a), b))
            return self.compare(op, a, b)
        if a.op == 'poly' and b.op == 'poly':
            base = op.replace('WithOverflow', '').replace('Unchecked', '')
            r = None
            if base == 'Add':
                r = padd(a, b)
            elif base == 'Sub':
                r = psub(a, b)
            elif base == 'Mul':
                r = pmul(a, b)
            elif base == 'Div':
                return self.div(st, a, b)
            elif base == 'Rem':
                return self.rem(st, a, b)
            elif base == 'Shl' and cval(b) is not None:
                r = pscale(a, 1 << cval(b))
            elif base == 'Shr' and cval(b) is not None:
                return self.div(st, a, I(1 << cval(b)))
            elif base == 'BitAnd' and cval(b) is not None and (cval(b) & (cval(b) + 1)) == 0:
                return self.rem(st, a, I(cval(b) + 1))
            else:
                ca, cb = cval(a), cval(b)
                if ca is not None and cb is not None and base in ('BitAnd', 'BitOr', 'BitXor'):
                    return I({'BitAnd': ca & cb, 'BitOr': ca | cb, 'BitXor': ca ^ cb}[base])
                if base in ('BitOr', 'BitXor', 'BitAnd'):
                    x, y = (a, b) if a.id < b.id else (b, a)
                    t = mk('bit', base, x, y)
                else:
                    t = mk('bit', base, a, b)
                t.ty = self.op_ty(fr, rv[2])
                if 'WithOverflow' in op:
                    return tup(atom(t), FALSE)
                return atom(t)
            rng = int_range(self.op_ty(fr, rv[2]))
            if 'WithOverflow' in op:
                if rng is None:
                    return tup(r, FALSE)
                inr = AND(ge0(psub(r, I(rng[0]))), ge0(psub(I(rng[1]), r)))
                return tup(r, NOT(inr))
            if rng is not None:
                inr = AND(ge0(psub(r, I(rng[0]))), ge0(psub(I(rng[1]), r)))
                if st.facts.decide(inr) is not True:
                    t = mk('wrap', r, rng[0], rng[1])
                    t.ty = self.op_ty(fr, rv[2])
                    return atom(t)
            return r
        if op in ('BitAnd', 'BitOr', 'BitXor') and a.op != 'poly':
            if op == 'BitAnd':
                return AND(a, b)
            if op == 'BitOr':
                return OR(a, b)
            return OR(AND(a, NOT(b)), AND(NOT(a), b))
        if op == 'Cmp':
            return self.opaque('Cmp')
        if op == 'Offset':
            return self.ptr_add(st, a, b)
        if op in ('Add', 'Mul') and a.id > b.id:
            a, b = b, a
        return mk('fop', op, a, b)

    def ptr_add(self, st, p, n):
        if p.op in ('rawp', 'ref') and p.a[1] and p.a[1][-1][0] == 'i':
            path = p.a[1][:-1] + (('i', padd(p.a[1][-1][1], n)),)
            return mk(p.op, p.a[0], path)
        if self.watch:
            v = mk('ptroff', p, n)
            v.ty = p.ty
            return v
        return self.opaque('pointer arithmetic')

    def is_bool(self, fr, o):
        t = self.op_ty(fr, o)
        return t is not None and self.ty(t)['k'] == 'bool'

    def op_ty(self, fr, o):
        if o[0] in ('copy', 'move'):
            l, pj = o[1]
            ty = fr.fn['locals'][l]
            for e in pj:
                if e[0] == '*':
                    ty = self.ty(ty).get('to')
                elif e[0] == 'f':
                    ty = e[2]
                elif e[0] in ('i', 'ci'):
                    ty = self.elem_ty(ty)
                if ty is None:
                    return None
            return ty
        if o[0] == 'lit':
            return o[2]
        return o[-1] if isinstance(o[-1], int) else None

    def div(self, st, a, b):
        c = cval(b)
        if c == 1:
            return a
        if c:
            ca = cval(a)
            if ca is not None:
                q = abs(ca) // abs(c)
                return I(q if (ca >= 0) == (c > 0) else -q)
            if all(k % c == 0 for m, k in a.a[0]):
                return poly({m: k // c for m, k in a.a[0]})
            # a known equation may make the dividend a multiple (plus a constant below the divisor)
            for e in st.facts.eq:
                for q in (padd(a, e), psub(a, e)):
                    if all(k % c == 0 for m, k in q.a[0] if m != ()):
                        kk = pd(q).get((), 0)
                        d = poly({m: k // c for m, k in q.a[0] if m != ()})
                        if c > 0 and (kk % c == 0 or (kk >= 0 and st.facts.decide(ge0(d)) is True)):
                            return padd(d, I(kk // c))
            # split off a divisible non-negative part
            if c > 0:
                div = {m: k for m, k in a.a[0] if k % c == 0 and m != ()}
                rest = {m: k for m, k in a.a[0] if not (k % c == 0 and m != ())}
                kk = rest.get((), 0)
                if div and set(rest) <= {()} and st.facts.decide(ge0(poly(div))) is True and kk >= 0:
                    return padd(poly({m: k // c for m, k in div.items()}), I(kk // c))
        else:
            at = as_atom(b)
            if at is not None and a.a[0] and all(at in m for m, k in a.a[0]):
                d = {}
                for m, k in a.a[0]:
                    l = list(m)
                    l.remove(at)
                    d[tuple(l)] = d.get(tuple(l), 0) + k
                return poly(d)
        return atom(mk('div', a, b))

    def rem(self, st, a, b):
        c = cval(b)
        if c and all(k % c == 0 for m, k in a.a[0]):
            return ZERO
        if c and cval(a) is not None:
            v = abs(cval(a)) % abs(c)
            return I(v if cval(a) >= 0 else -v)
        return atom(mk('rem', a, b))

    def cast(self, fr, st, rv, line):
        kind, o, tyi = rv[1], rv[2], rv[3]
        v = self.operand(fr, st, o)
        return self.docast(st, kind, v, tyi, self.op_ty(fr, o))

    def docast(self, st, kind, v, tyi, sty):
        if kind == 'IntToInt':
            if v.op in ('true', 'false'):
                return ONE if v is TRUE else ZERO
            if v.op != 'poly':
                if sty is not None and self.ty(sty)['k'] == 'bool':
                    return self.mkite(v, ONE, ZERO)
                v = self.typed(v, sty)
                if v.op != 'poly':
                    return self.opaque('int cast')
            at = as_atom(v)
            rng = int_range(tyi)
            if rng is None:
                return v
            inr = AND(ge0(psub(v, I(rng[0]))), ge0(psub(I(rng[1]), v)))
            if st.facts.decide(inr) is True:
                return v
            c = cval(v)
            if c is not None:
                m = rng[1] - rng[0] + 1
                return I((c - rng[0]) % m + rng[0])
            t = mk('cast', v, rng[0], rng[1])
            t.ty = tyi
            return atom(t)
        if kind == 'IntToFloat':
            c = cval(v)
            return i2f(v, self.ty(tyi)['name'])
        if kind == 'FloatToInt':
            t = mk('f2i', v, self.ty(tyi)['name'])
            t.ty = tyi
            return atom(t)
        if kind == 'FloatToFloat':
            return mk('f2f', v, self.ty(tyi)['name'])
        if kind.startswith('PointerCoercion(Unsize'):
            return v
        if kind.startswith('PointerCoercion(MutToConst') or kind == 'PtrToPtr':
            if v.op == 'ref':
                return self.to_raw(st, v, self.ty(tyi).get('to'))
            return v
        if kind == 'BoxDerefTransmute' or kind == 'Transmute':
            return v
        if kind.startswith('PointerCoercion'):
            return v
        if kind.startswith('PointerExpose'):
            return self.addr(st, v)
        return self.opaque('cast ' + kind)

    def addr(self, st, v):
        if v is NULL:
            return ZERO
        if v.op == 'ref':
            v = self.to_raw(st, v)
        if v.op == 'rawp':
            path = v.a[1]
            if not path:
                path = (('i', ZERO),)
            if len(path) == 1 and path[0][0] == 'i':
                t = mk('addr', v.a[0])
                return padd(atom(t), pmul(path[0][1], atom(mk('sizeof', v.a[0]))))
        return atom(mk('addr', v))

    # ------------------------------------------------------------ obligations
    def oblige(self, fr, st, cond, kind, line, detail=None):
        """cond must hold or the program panics; returns states where it holds"""
        r = st.facts.decide(cond)
        if self.quiet == 0:
            self.obls.append(dict(fn=fr.key, file=fr.fn.get('file'), line=line, kind=kind,
                                  ok=(r is True), cond=cond, facts=st.facts, pc=st.pc, detail=detail,
                                  stack=tuple(self.callstack), loops=tuple(self.loopstack)))
        if r is True:
            return [st]
        out = []
        old = set(st.facts.lits)
        for s in st.assume(cond):
            if s.facts is not st.facts:
                f = s.facts.copy()
                f.np = f.np | frozenset(l for l in f.lits if l not in old)
                s = s.fork()
                s.facts = f
                s.pc = st.pc
            out.append(s)
        return out

    # ------------------------------------------------------------ functions
    def run_fn(self, key, st, args, site=None):
        fn = self.p.fns.get(key)
        if fn is None:
            raise Imprecise('no body ' + key)
        return self.run_body(fn, key, st, args, site)

    def run_body(self, fn, key, st, args, site):
        if self.depth > 60:
            raise Imprecise('recursion')
        if key in self.callstack and self.callstack.count(key) > 2:
            raise Imprecise('recursion in ' + key)
        self.fnset.add(key)
        self.fid += 1
        fr = Frame(fn, key, self.fid, site)
        self.frames[self.fid] = fn
        st = st.fork()
        before = None
        for i, a in enumerate(args):
            v = a
            v = self.typed(v, fn['locals'][i + 1])
            st.mem[('L', fr.fid, i + 1)] = v
        self.depth += 1
        self.callstack.append(key)
        try:
            outs = self.exec_blocks(fr, st, 0, None)
        finally:
            self.depth -= 1
            self.callstack.pop()
        res = []
        for o in outs:
            if o[0] != 'ret':
                continue
            s = o[1]
            v = s.mem.get(('L', fr.fid, 0), UNIT)
            v = self.typed(v, fn['locals'][0])
            # drop the frame unless something still refers to it
            res.append((s, v))
        res = self.drop_frame(fr, res)
        return self.merge_outs(st, res)

    def drop_frame(self, fr, res):
        out = []
        for s, v in res:
            refs = set()
            stack = [v]
            for ob, val in s.mem.items():
                if not (isinstance(ob, tuple) and ob[0] == 'L' and ob[1] == fr.fid):
                    stack.append(val)
            keep = set()
            seen = set()
            while stack:
                x = stack.pop()
                for y in subterms_cached(x):
                    if y.op in ('ref', 'alias'):
                        ob = y.a[0]
                        if isinstance(ob, tuple) and ob[0] == 'L' and ob[1] == fr.fid and ob not in keep:
                            keep.add(ob)
                            if ob in s.mem:
                                stack.append(s.mem[ob])
            ns = s.fork()
            for ob in list(ns.mem):
                if isinstance(ob, tuple) and ob[0] == 'L' and ob[1] == fr.fid and ob not in keep:
                    del ns.mem[ob]
            out.append((ns, v))
        return out

    def merge_outs(self, st0, outs):
        """join outcomes that agree on value and memory; merge boolean results"""
        if len(outs) <= 1:
            return outs
        groups = {}
        order = []
        for s, v in outs:
            k = (v, frozenset(s.mem.items()), s.ev)
            if k not in groups:
                groups[k] = []
                order.append(k)
            groups[k].append(s)
        res = []
        for k in order:
            ss = groups[k]
            if len(ss) == 1:
                res.append((ss[0], k[0]))
            else:
                res.append((self.join(ss), k[0]))
        # boolean-valued outcomes with equal memory: one outcome with a formula
        if len(res) > 1 and all(self.is_boolval(v) for s, v in res):
            mems = set((frozenset(s.mem.items()), s.ev) for s, v in res)
            if len(mems) == 1:
                base = set(st0.pc)
                f = FALSE
                tot = 0
                for s, v in res:
                    ls = [l for l in s.pc if l not in base]
                    tot += len(ls)
                    f = OR(f, AND(v, *ls))
                if tot <= 12:
                    s = self.join([x for x, _ in res])
                    f = simplify_bool(f)
                    res = [(s, f)]
        return res

    def is_boolval(self, v):
        return v.op in ('true', 'false', 'ge0', 'eq0', 'not', 'and', 'or', 'isvar', 'eq', 'fcmp', 'seqeq')

    def join(self, ss):
        s = ss[0].fork()
        common = [l for l in ss[0].facts.lits if all(l in x.facts.lits for x in ss[1:])]
        f = Facts()
        for l in common:
            f = f.add(l)
        f.np = frozenset(l for l in common if all(l in x.facts.np for x in ss))
        # keep the disjunction of what differs when it is small
        ds = []
        for x in ss:
            d = [l for l in x.facts.lits if l not in common and l not in x.facts.np]
            ds.append(AND(*d) if d else TRUE)
        if all(d is not TRUE for d in ds) and len(ds) <= 4:
            o = simplify_bool(OR(*ds))
            if o is not TRUE and o is not FALSE and small(o, 400) and len(str(o)) < 400:
                f = f.add(o)
        s.facts = f
        s.pc = join_pc([x.pc for x in ss])
        return s

    # ------------------------------------------------------------ blocks
    def exec_blocks(self, fr, st, bb, ctx):
        loops, rpo, live, borrowed = loops_of(fr.fn, self.is_box)
        work = {bb: [st]}
        outs = []
        first = True
        while work:
            b = min(work, key=lambda x: rpo.get(x, 1 << 30))
            sts = work.pop(b)
            if b in live and len(sts) >= 1:
                lv = live[b]
                for s in sts:
                    for ob in [o for o in s.mem if isinstance(o, tuple) and o[0] == 'L' and o[1] == fr.fid]:
                        if ob[2] not in lv and ob[2] not in borrowed:
                            del s.mem[ob]
            if len(sts) > 1:
                sts = self.merge_states(sts)
            self.nstates += len(sts)
            if self.nstates > 400000:
                raise Imprecise('state budget')
            if len(sts) > 400:
                raise Imprecise('too many states in ' + fr.key)
            if b in loops and not (ctx is not None and b == ctx[0] and first):
                res = []
                for s in sts:
                    res.extend(self.exec_loop(fr, s, b, loops[b]))
            else:
                res = []
                for s in sts:
                    res.extend(self.exec_block(fr, s, b))
            first = False
            for r in res:
                if r[0] == 'ret':
                    outs.append(r)
                elif r[0] == 'skip':
                    # a filtering iterator produced nothing: next trip round the loop
                    if ctx is None:
                        raise Imprecise('skip outside loop')
                    outs.append(('back', r[1]))
                elif r[0] == 'phase':
                    # a chained iterator moved on to its second half
                    if ctx is None:
                        raise Imprecise('phase outside loop')
                    outs.append(('exit', r[1], ctx[0]))
                else:
                    _, s, t = r
                    if ctx is not None:
                        if t == ctx[0]:
                            outs.append(('back', s))
                            continue
                        if t not in ctx[1]:
                            outs.append(('exit', s, t))
                            continue
                    work.setdefault(t, []).append(s)
        return outs

    def merge_states(self, sts):
        groups = {}
        order = []
        for s in sts:
            k = (frozenset(s.mem.items()), s.ev)
            if k not in groups:
                groups[k] = []
                order.append(k)
            groups[k].append(s)
        return [groups[k][0] if len(groups[k]) == 1 else self.join(groups[k]) for k in order]

    def exec_loop(self, fr, st, head, body):
        def run(s):
            r = self.exec_blocks(fr, s, head, (head, body))
            return r
        outs = self.summarize(st, run, (fr.key, head, fr.site))
        res = []
        for o in outs:
            if o[0] == 'exit':
                if o[2] == head:
                    res.extend(self.exec_loop(fr, o[1], head, body))
                else:
                    res.append(('go', o[1], o[2]))
            else:
                res.append(o)
        return res

    def exec_block(self, fr, st, b):
        """-> list of ('go', st, bb) | ('ret', st) | ('skip', st)"""
        blk = fr.fn['blocks'][b]
        st = st.fork()
        for s in blk['s']:
            if s[0] == '=':
                obj, path, ty, bp = self.place(fr, st, s[1])
                rv = s[2]
                if rv[0] == 'use' and rv[1][0] == 'copy' and self.is_box(ty):
                    # elaborated box dereference: the pointer is copied, not the box
                    so, sp, _, _ = self.place(fr, st, rv[1][1])
                    v = mk('alias', so, sp)
                else:
                    v = self.rvalue(fr, st, rv, ty, s[3])
                    v = self.typed(v, ty)
                self.site = (fr, s[3])
                self.stores += 1
                self.store(st, obj, path, v)
            elif s[0] == 'dead':
                pass
            elif s[0] == 'sd':
                obj, path, ty, bp = self.place(fr, st, s[1])
                t = self.ty(ty)
                self.store(st, obj, path, agg(t['name'], s[2]))
        t = blk['t']
        k = t[0]
        if k == 'goto':
            return [('go', st, t[1])]
        if k == 'return':
            return [('ret', st)]
        if k == 'drop':
            return [('go', st, t[2])]
        if k in ('unreachable', 'unwind'):
            return []
        if k == 'switch':
            return self.switch(fr, st, t)
        if k == 'assert':
            c = self.operand(fr, st, t[1])
            if not t[2]:
                c = NOT(c)
            return [('go', s, t[4]) for s in self.oblige(fr, st, c, t[3], t[5])]
        if k == 'call':
            return self.exec_call(fr, st, t)
        raise Imprecise('terminator ' + k)

    def switch(self, fr, st, t):
        v = self.operand(fr, st, t[1])
        ty = self.ty(t[4])
        res = []
        if ty['k'] == 'bool':
            # targets: 0 -> false
            fb = None
            for val, bb in t[2]:
                if val == '0':
                    fb = bb
            tb = t[3]
            for val, bb in t[2]:
                if val == '1':
                    tb = bb
            if fb is None:
                fb = t[3]
            for s in st.assume(v):
                res.append(('go', s if s is not st else st.fork(), tb))
            for s in st.assume(NOT(v)):
                res.append(('go', s if s is not st else st.fork(), fb))
            return res
        at = as_atom(v) if v.op == 'poly' else None
        if at is not None and at.op == 'ite':
            out = []
            for s in st.assume(at.a[0]):
                out.extend(self._switch_val(fr, s.fork(), t, at.a[1]))
            for s in st.assume(NOT(at.a[0])):
                out.extend(self._switch_val(fr, s.fork(), t, at.a[2]))
            return out
        return self._switch_val(fr, st, t, v)

    def _switch_val(self, fr, st, t, v):
        c = cval(v)
        ty = self.ty(t[4])
        if c is not None:
            bits = ty.get('bits', 64)
            u = c % (1 << bits) if ty['k'] == 'int' else c
            for val, bb in t[2]:
                if int(val) == u or int(val) == c:
                    return [('go', st, bb)]
            return [('go', st, t[3])]
        res = []
        neg = []
        at = as_atom(v)
        ety = (at.info or {}).get('ety') if at is not None and at.op == 'discr' else None
        for val, bb in t[2]:
            n = int(val)
            if ty['k'] == 'int' and ty['signed'] and n >= 1 << (ty['bits'] - 1):
                n -= 1 << ty['bits']
            cond = self.eqcond(v, I(n))
            for s in st.assume(cond):
                res.append(('go', s if s is not st else st.fork(), bb))
            neg.append(NOT(cond))
        # otherwise
        if at is not None and at.op == 'discr':
            vs = self.enum_variants(at.a[0], ety)
            if vs is not None:
                covered = set(int(x) for x, _ in t[2])
                bits = ty.get('bits', 64)
                rest = [i for i, w in enumerate(vs) if (int(w['discr']) % (1 << bits)) not in covered and int(w['discr']) not in covered]
                if len(rest) > 12:
                    for s in st.assume(AND(*neg)):
                        res.append(('go', s if s is not st else st.fork(), t[3]))
                    return res
                for i in rest:
                    for s in st.assume(isvar(at.a[0], i)):
                        res.append(('go', s if s is not st else st.fork(), t[3]))
                return res
        for s in st.assume(AND(*neg)):
            res.append(('go', s if s is not st else st.fork(), t[3]))
        return res

    # ------------------------------------------------------------ calls
    def exec_call(self, fr, st, t):
        f = t[1]
        args = [self.operand(fr, st, o) for o in t[2]]
        line = t[5]
        self.site = (fr, line)
        if f[0] == 'fn':
            callee = f[1]
        else:
            fv = self.operand(fr, st, f)
            callee = None
        obj, path, ty, bp = self.place(fr, st, t[3])
        if callee is None:
            outs = self.call_value(fr, st, fv, args, line)
        else:
            outs = self.call(fr, st, callee, args, ty, line)
        res = []
        for o in outs:
            if isinstance(o[0], str):
                res.append((o[0], o[1]))
                continue
            s, v = o
            if t[4] is None:
                continue
            if s is st:
                s = s.fork()
            v = self.typed(v, ty)
            self.store(s, obj, path, v)
            res.append(('go', s, t[4]))
        return res

    def call(self, fr, st, callee, args, ty, line):
        """-> list of (st, value)"""
        name = callee.get('resolved') or callee['path']
        cut = self.cuts.get(name)
        if cut is not None:
            r = cut(self, fr, st, args, ty, line)
            if r is not None:
                return r
        if callee.get('ctor'):
            adt, vi = callee['ctor']
            return [(st, agg(adt, vi, *args))]
        if name in self.p.fns and (callee.get('rlocal') or callee['local']):
            return self.run_fn(name, st, args, (fr.key, line))
        r = self.models.call(self, fr, st, callee, name, args, ty, line)
        if r is not None:
            return r
        return [(st, self.havoc_call(fr, st, callee, name, args, ty))]

    def havoc_call(self, fr, st, callee, name, args, ty):
        """unmodelled foreign call: unknown result; anything reachable by &mut changes"""
        v = self.opaque('call ' + name)
        v.ty = ty
        for a in args:
            if a.op == 'ref':
                st.mem = dict(st.mem)
                o, p = a.a
                # conservatively unknown
                self.store(st, o, p, self.opaque('mutated by ' + name))
        return self.typed(v, ty)

    def call_value(self, fr, st, fv, args, line):
        """call a closure / fn item value with already-spread args"""
        if fv.op == 'ref':
            o, p = self.ptr_loc(st, fv)
            inner = self.load(st, o, p)
            if inner.op == 'clo':
                return self.call_closure(fr, st, inner, args, line, loc=(o, p))
            return self.call_value(fr, st, inner, args, line)
        if fv.op == 'clo':
            return self.call_closure(fr, st, fv, args, line)
        if fv.op == 'fnv':
            callee = json.loads(fv.a[1])
            return self.call(fr, st, callee, args, None, line)
        return [(st, self.opaque('indirect call'))]

    def call_closure(self, fr, st, clo, args, line, loc=None):
        key = clo.a[0]
        fn = self.p.fns.get(key)
        if fn is None:
            return [(st, self.opaque('closure ' + key))]
        t1 = self.ty(fn['locals'][1])
        if t1['k'] in ('ref', 'ptr'):
            if loc is None:
                st = st.fork()
                o = self.newobj(st, clo)
                selfv = ref(o, ())
            else:
                selfv = ref(*loc)
        else:
            selfv = clo
        argc = fn['argc']
        if argc == 1 + len(args):
            a = [selfv] + list(args)
        elif argc == 2 and len(args) != 1:
            a = [selfv, tup(*args)]
        else:
            a = [selfv] + list(args)
        return self.run_fn(key, st, a, (fr.key if fr else None, line))

    # ------------------------------------------------------------ loops
    def summarize(self, st0, body, site):
        import loops
        return loops.summarize(self, st0, body, site)


_stc = {}


def propagate(f):
    """unit propagation over disjunctive facts; None when contradictory"""
    for _ in range(4):
        ors = [l for l in f.lits if l.op == 'or' and len(l.a) <= 8]
        if not ors or len(ors) > 8:
            return f
        add = None
        for o in ors:
            live = []
            for x in o.a:
                if any(f.decide(y) is False for y in (x.a if x.op == 'and' else (x,))):
                    continue
                live.append(x)
                if len(live) > 1:
                    break
            if not live:
                return None
            if len(live) == 1 and f.decide(live[0]) is not True:
                add = live[0]
                break
        if add is None:
            return f
        f = f.add(add)
        if f.false:
            return None
    return f


def join_pc(pcs):
    first = pcs[0]
    rest = [frozenset(p) for p in pcs[1:]]
    common = [l for l in first if all(l in r for r in rest)]
    cs = set(common)
    ds = []
    for p in pcs:
        d = AND(*[l for l in p if l not in cs])
        if d is TRUE:
            return tuple(common)
        ds.append(d)
    o = OR(*ds)
    if len(ds) <= 6:
        o = simplify_bool(o)
    if o is TRUE:
        return tuple(common)
    return tuple(common) + (o,)


def subterms_cached(t):
    r = _stc.get(t)
    if r is None:
        r = [x for x in subterms(t) if x.op in ('ref', 'alias')]
        _stc[t] = r
    return r


def simplify_bool(f):
    """absorb: OR of ANDs -> remove literals implied by complementary pairs"""
    if f.op != 'or':
        return f
    terms = [set(x.a) if x.op == 'and' else {x} for x in f.a]
    changed = True
    while changed:
        changed = False
        for i in range(len(terms)):
            for j in range(len(terms)):
                if i == j or i >= len(terms) or j >= len(terms):
                    continue
                a, b = terms[i], terms[j]
                if a <= b:
                    terms.pop(j)
                    changed = True
                    break
                # x | (!x & y) == x | y ; (p&x)|(p&!x) == p
                if len(a) == 1:
                    x = list(a)[0]
                    nx = NOT(x)
                    if nx in b:
                        b.discard(nx)
                        if not b:
                            return TRUE
                        changed = True
                        break
                d = a ^ b
                if len(d) == 2:
                    x, y = d
                    if NOT(x) is y and (a - {x, y}) == (b - {x, y}):
                        terms[i] = a - {x, y}
                        if not terms[i]:
                            return TRUE
                        terms.pop(j)
                        changed = True
                        break
            if changed:
                break
    return OR(*[AND(*t) for t in terms])
