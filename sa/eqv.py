"""Comparing summaries.

  prove(a, b, st)    are two values equal in every state satisfying st?  (True/None)
  Ev(val).ev(t)      denotation of a term under a valuation of the inputs; used
                     only to tell a real difference from one that could not be
                     proved away (a disequality certificate).

Neither runs or calls the analysed code: both work on the summaries."""
import struct
import itertools
import functools
import time
from terms import *
from facts import *
from seqs import *
import models
from models import strip_ident


CALLTY = {}


def rb_call(name, i, *args):
    t = mk('call', name, i, *args)
    if t.ty is None:
        t.ty = CALLTY.get((name, i))
    return t


REBUILD['call'] = rb_call


class M(object):
    """a map value"""
    def __init__(self, d=()):
        self.d = dict(d)
        self.h = None

    def __eq__(self, o):
        return isinstance(o, M) and o.d == self.d

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        if self.h is None:
            self.h = hash(frozenset(self.d.items()))
        return self.h

    def __repr__(self):
        return 'map' + repr(self.d)


class Ptr(object):
    """a pointer value; what it points to is in the valuation's '@heap'"""
    def __init__(self, k):
        self.k = k

    def __eq__(self, o):
        return isinstance(o, Ptr) and o.k == self.k

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(('ptr', self.k))

    def __repr__(self):
        return 'null' if self.k is None else 'ptr(%s)' % (self.k,)


NULLP = Ptr(None)



class UnkV(object):
    """a part of a loop's state that has no value, and why"""
    def __init__(self, why):
        self.why = why


class Unk(Exception):
    pass


class A(object):
    """a concrete enum/struct value"""
    __slots__ = ('n', 'v', 'f')

    def __init__(self, n, v, f):
        self.n, self.v, self.f = n, v, tuple(f)

    def __eq__(self, o):
        return isinstance(o, A) and short(self.n) == short(o.n) and self.v == o.v and self.f == o.f

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash((self.v, self.f))

    def __repr__(self):
        return '%s#%d%r' % (short(self.n), self.v, self.f)


def short(n):
    return n.split('::')[-1]


def bits2f(i):
    return struct.unpack('<d', struct.pack('<Q', i & (2 ** 64 - 1)))[0]


class F(float):
    """a float that compares by bits"""
    def __eq__(self, o):
        return isinstance(o, float) and struct.pack('<d', self) == struct.pack('<d', o)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(struct.pack('<d', self))


LVMAX = 12


WHITE = {9, 10, 11, 12, 13, 32, 0x85, 0xa0, 0x1680, 0x2028, 0x2029, 0x202f, 0x205f, 0x3000} | set(range(0x2000, 0x200b))


class Ev(object):
    def __init__(self, val, mem=None):
        self.val = val
        self.mem = mem or {}
        self.env = {}
        self.eid = {}
        self.ids = {}
        self.own = {}
        self.traces = {}
        self.mufree = {}
        self.cache = {}
        self.budget = 400000

    # -- boolean with short circuit over unknowns
    def truth(self, t):
        r = self.ev(t)
        if isinstance(r, bool):
            return r
        raise Unk('truth of ' + t.op)

    def conj(self, ts):
        unk = None
        for t in ts:
            try:
                if not self.truth(t):
                    return False
            except Unk as e:
                unk = e
        if unk is not None:
            raise unk
        return True

    def ev(self, t):
        key = None
        if not t.vars:
            key = t
        elif t.op not in NOMEMO:
            k = memo_vars(t)
            if k is not None:
                g = self.eid.get
                key = (t,) + tuple([g(v) for v in k]) if k else t
        if key is not None:
            r = self.cache.get(key)
            if r is not None:
                if isinstance(r, Unk):
                    raise r
                return r
        self.budget -= 1
        if self.budget < 0:
            raise Unk('budget')
        try:
            r = self._ev(t)
        except Unk as e:
            if key is not None and t.op != 'own' and e.args != ('budget',):
                self.cache[key] = e
            raise
        if key is not None:
            self.cache[key] = r
        return r

    def intern(self, x):
        """a number for a value, so that it need not be compared again and again"""
        if type(x) is int:
            return x
        try:
            return self.ids.setdefault((type(x), x), -1e9 - len(self.ids))
        except TypeError:
            return object()

    def bind(self, lv, x):
        old = (self.env.get(lv), self.eid.get(lv))
        self.env[lv] = x
        self.eid[lv] = self.intern(x)
        return old

    def unbind(self, lv, old):
        if old[0] is None:
            self.env.pop(lv, None)
            self.eid.pop(lv, None)
        else:
            self.env[lv], self.eid[lv] = old

    def setenv(self, d):
        self.env = d
        self.eid = {k: self.intern(x) for k, x in d.items()}

    def seq(self, t):
        r = self.ev(t)
        if isinstance(r, (bytes, str)):
            r = tuple(r if isinstance(r, bytes) else r.encode('utf8'))
        if not isinstance(r, tuple):
            raise Unk('not a sequence: %s' % t.op)
        return r

    def seg(self, g):
        o = g.op
        if o == 'one':
            return (self.ev(g.a[0]),)
        if o == 'all':
            return self.seq(g.a[0])
        if o == 'sub':
            s = self.seq(g.a[0])
            lo, hi = self.ev(g.a[1]), self.ev(g.a[2])
            if not (0 <= lo <= hi <= len(s)):
                raise Unk('slice range')
            return s[lo:hi]
        if o == 'comp':
            n = self.ev(g.a[0])
            if n > 300:
                raise Unk('long')
            out = []
            lv = g.a[1]
            for i in range(n):
                old = self.bind(lv, i)
                try:
                    out.append(self.ev(g.a[2]))
                finally:
                    self.unbind(lv, old)
            return tuple(out)
        if o == 'gcomp':
            n = self.ev(g.a[0])
            if n > 300:
                raise Unk('long')
            lv = g.a[1]
            out = []
            oldown = self.own.get(lv)
            self.own[lv] = out
            try:
                for i in range(n):
                    old = self.bind(lv, i)
                    try:
                        out.extend(self.seq(self.pick(g.a[2])))
                    finally:
                        self.unbind(lv, old)
            finally:
                if oldown is None:
                    del self.own[lv]
                else:
                    self.own[lv] = oldown
            return tuple(out)
        if o == 'own':
            lv = as_atom(g.a[0])
            if lv in self.own:
                return tuple(self.own[lv])
            raise Unk('own')
        raise Unk(o)

    def pick(self, cases):
        unk = None
        for gs, s in cases:
            try:
                if self.conj(gs):
                    return s
            except Unk as e:
                unk = e
        if unk:
            raise unk
        raise Unk('no case applies')

    def _ev(self, t):
        o = t.op
        a = t.a
        if o == 'poly':
            r = 0
            for m, c in a[0]:
                x = c
                for at in m:
                    y = self.ev(at)
                    if isinstance(y, bool) or not isinstance(y, int):
                        raise Unk('not an int: %s' % at.op)
                    x *= y
                r += x
            return r
        f = getattr(self, 'o_' + o, None)
        if f:
            return f(t, *a)
        if o in SEGS:
            return self.seg(t)
        if o in ('phi', 'opaque', 'lseg', 'alloc', 'verphi', 'uninit', 'garbage', 'ident'):
            raise Unk(o)
        return self.free(t)

    def free(self, t):
        out = []
        for x in t.a:
            out.append(self.any(x))
        return ('@' + t.op,) + tuple(out)

    def any(self, x):
        if isinstance(x, T):
            return self.ev(x)
        if isinstance(x, tuple):
            return tuple(self.any(y) for y in x)
        return x

    # -- booleans
    def o_true(self, t):
        return True

    def o_false(self, t):
        return False

    def o_ge0(self, t, p):
        return self.ev(p) >= 0

    def o_eq0(self, t, p):
        return self.ev(p) == 0

    def o_not(self, t, b):
        return not self.truth(b)

    def o_and(self, t, *bs):
        return self.conj(bs)

    def o_or(self, t, *bs):
        unk = None
        for b in bs:
            try:
                if self.truth(b):
                    return True
            except Unk as e:
                unk = e
        if unk is not None:
            raise unk
        return False

    def o_isvar(self, t, x, i):
        v = self.ev(x)
        if isinstance(v, A):
            return v.v == i
        raise Unk('isvar of %r' % (type(v),))

    def o_discr(self, t, x):
        v = self.ev(x)
        if isinstance(v, A):
            return v.v
        raise Unk('discr')

    def o_eq(self, t, x, y):
        return self.ev(x) == self.ev(y)

    def o_seqeq(self, t, x, y, *r):
        if r:
            raise Unk('seqeq')
        return self.seq(x) == self.seq(y)

    def o_fall(self, t, n, lv, body):
        k = self.ev(n)
        if k > 300:
            raise Unk('long')
        unk = None
        for i in range(k):
            old = self.bind(lv, i)
            try:
                if not self.truth(body):
                    return False
            except Unk as e:
                unk = e
            finally:
                self.unbind(lv, old)
        if unk is not None:
            raise unk
        return True

    def o_first(self, t, lv, body):
        for i in range(300):
            old = self.bind(lv, i)
            try:
                if not self.truth(body):
                    return i
            finally:
                self.unbind(lv, old)
        raise Unk('endless')

    # -- data
    def o_sym(self, t, name):
        return self._sym(t, name)

    def _sym(self, t, name):
        if name in self.val:
            return self.val[name]
        if str(name).startswith('const encoding::all::'):
            n = name[len('const encoding::all::'):]
            return {'ASCII': 'ascii', 'UTF_8': 'utf-8', 'WINDOWS_1252': 'cp1252'}.get(n, 'all::' + n)
        raise Unk('sym ' + str(name))

    def o_dedup(self, t, s):
        out = []
        for x in self.seq(s):
            if not out or out[-1] != x:
                out.append(x)
        return tuple(out)

    # -- texts
    def o_chr(self, t, x):
        return tuple(chr(self.ev(x)).encode('utf8'))

    def o_textp(self, t, m, a, b):
        a, b = bytes(self.seq(a)), bytes(self.seq(b))
        if m == 'starts_with':
            return a.startswith(b)
        if m == 'ends_with':
            return a.endswith(b)
        if m == 'contains':
            return b in a
        low = lambda s: bytes(x + 32 if 65 <= x <= 90 else x for x in s)
        return low(a) == low(b)

    def o_textf(self, t, m, a, *r):
        a = bytes(self.seq(a))
        r = [bytes(self.seq(x)) for x in r]
        try:
            u = a.decode('utf8')
            r = [x.decode('utf8') for x in r]
        except UnicodeDecodeError:
            raise Unk('text')
        if m in ('to_lowercase', 'to_uppercase'):
            if not u.isascii():
                raise Unk('text')
            u = u.lower() if m == 'to_lowercase' else u.upper()
        elif m in ('to_ascii_lowercase', 'to_ascii_uppercase'):
            f = str.lower if m == 'to_ascii_lowercase' else str.upper
            u = ''.join(f(x) if x.isascii() else x for x in u)
        elif m == 'replace':
            if not r[0]:
                raise Unk('text')
            u = u.replace(r[0], r[1])
        else:
            if m in ('trim', 'trim_start', 'trim_end'):
                # White_Space of Unicode
                at = lambda x: ord(x) in WHITE
                left, right = m != 'trim_end', m != 'trim_start'
            else:
                if len(r[0]) != 1:
                    raise Unk('text')
                at = lambda x: x == r[0]
                left, right = m != 'trim_end_matches', m != 'trim_start_matches'
            i, j = 0, len(u)
            while left and i < j and at(u[i]):
                i += 1
            while right and j > i and at(u[j - 1]):
                j -= 1
            u = u[i:j]
        return tuple(u.encode('utf8'))

    def _part(self, m, p):
        n = bytes(self.seq(p)).rstrip(b'/').rpartition(b'/')[2]
        if n in (b'', b'.', b'..'):
            raise Unk('path')
        i = n.rfind(b'.')
        if m == 'file_name':
            return n
        if i <= 0:
            return n if m == 'file_stem' else None
        return n[:i] if m == 'file_stem' else n[i + 1:]

    def o_pathhas(self, t, m, p):
        return self._part(m, p) is not None

    def o_pathpart(self, t, m, p):
        r = self._part(m, p)
        if r is None:
            raise Unk('path')
        return tuple(r)

    # -- files
    def o_opens(self, t, p):
        self.ev(p)
        return self.val.get('@opens', True)

    def o_file(self, t, p):
        return ('@file', self.ev(p))

    def o_withext(self, t, p, e):
        p, e = bytes(self.seq(p)), bytes(self.seq(e))
        d, s, n = p.rpartition(b'/')
        if n in (b'', b'.', b'..') or b'/' in e:
            raise Unk('path')
        i = n.rfind(b'.')
        if i > 0:
            n = n[:i]
        return tuple(d + s + n + (b'.' + e if e else b''))

    def o_call(self, t, f, i, *args):
        o = self.val.get('@' + f)
        if o is None:
            raise Unk('call ' + f)
        r = o(*[self.ev(a) for a in args])
        # an oracle of a function that changes its arguments returns {0: result, i: what argument i-1 is afterwards}
        return r[i] if isinstance(r, dict) else r

    def o_sorted(self, t, s, order):
        xs = self.ev(s)
        if order.op != 'order':
            raise Unk('sort order')
        lt_, gt_, kind = order.a

        def cmp(x, y):
            e = Ev(dict(self.val, sortA=x, sortB=y))
            if e.truth(lt_):
                return -1
            if e.truth(gt_):
                return 1
            if kind != 'stable' and x != y:
                raise Unk('unstable sort')
            return 0
        return tuple(sorted(xs, key=functools.cmp_to_key(cmp)))

    def mapv(self, m):
        r = self.ev(m)
        if not isinstance(r, M):
            raise Unk('not a map')
        return r

    def o_mempty(self, t):
        return M()

    def o_madd(self, t, m, k, v):
        m, k, v = self.mapv(m), self.ev(k), self.ev(v)
        if k in m.d:
            raise Unk('key exists')
        r = M(m.d)
        r.d[k] = v
        return r

    def o_mset(self, t, m, k, v):
        m, k, v = self.mapv(m), self.ev(k), self.ev(v)
        if k not in m.d:
            raise Unk('no key')
        r = M(m.d)
        r.d[k] = v
        return r

    def o_mdel(self, t, m, k):
        m, k = self.mapv(m), self.ev(k)
        if k not in m.d:
            raise Unk('no key')
        r = M(m.d)
        del r.d[k]
        return r

    def o_mhas(self, t, m, k):
        return self.ev(k) in self.mapv(m).d

    def o_mget(self, t, m, k):
        m, k = self.mapv(m), self.ev(k)
        if k not in m.d:
            raise Unk('no key')
        return m.d[k]

    def o_maplen(self, t, m):
        return len(self.mapv(m).d)

    def o_mitems(self, t, m, kind):
        d = self.mapv(m).d
        # a hash map may yield its entries in any order
        ks = sorted(d, key=self.okey) if kind == 'b' else list(d)[::-1]
        return tuple(A('tuple', 0, (k, d[k])) for k in ks)

    def o_null(self, t):
        return NULLP

    def o_isnull(self, t, p):
        return self.ev(p) == NULLP

    def o_sizeofty(self, t, ty):
        # the size of what the valuation's pointers point to
        if '@size' not in self.val:
            raise Unk('size')
        return self.val['@size']

    def o_addr(self, t, p):
        r = self.ev(p)
        if not isinstance(r, Ptr) or '@size' not in self.val:
            raise Unk('address')
        if r.k is None:
            return 0
        if r.k[0] != 'e':
            raise Unk('address')
        return 4096 + self.val['@size'] * r.k[1]

    def o_lv(self, t, *n):
        if t in self.env:
            return self.env[t]
        raise Unk('free variable')

    def o_agg(self, t, n, v, *fs):
        return A(n, v, [self.ev(x) for x in fs])

    def o_tup(self, t, *fs):
        return A('tuple', 0, [self.ev(x) for x in fs])

    def o_boxv(self, t, c):
        return self.ev(c)

    def o_box(self, t, c, *r):
        return self.ev(c)
    o_vec = o_arc = o_box

    def o_deref(self, t, p):
        r = self.ev(p)
        if isinstance(r, Ptr):
            h = self.val.get('@heap') or {}
            if r.k not in h:
                raise Unk('dangling')
            return h[r.k]
        return r

    def o_asv(self, t, x, v):
        r = self.ev(x)
        if isinstance(r, A) and r.v != v:
            raise Unk('wrong variant')
        return r

    def o_fld(self, t, x, v, i):
        r = self.ev(x)
        if isinstance(r, A):
            if r.v == v and i < len(r.f):
                return r.f[i]
            raise Unk('wrong variant')
        raise Unk('field of non-struct')

    def o_elem(self, t, s, i):
        s = self.seq(s)
        i = self.ev(i)
        if 0 <= i < len(s):
            return s[i]
        raise Unk('index')

    def o_len(self, t, s):
        return len(self.seq(s))

    def o_seq(self, t, *gs):
        out = ()
        for g in gs:
            out += self.seg(g) if g.op in SEGS else self.seq(g)
        return out

    def o_str(self, t, s):
        return tuple(s.encode('utf8'))

    def o_upd(self, t, s, k, v):
        s = list(self.seq(s))
        k = self.ev(k)
        if not 0 <= k < len(s):
            raise Unk('upd')
        s[k] = self.ev(v)
        return tuple(s)

    def o_rev(self, t, s):
        return tuple(reversed(self.seq(s)))

    def o_acc(self, t, init, n, lv, cases):
        r = self.ev(init)
        k = self.ev(n)
        if k > 300:
            raise Unk('long')
        for i in range(k):
            old = self.bind(lv, i)
            try:
                hit = False
                unk = None
                for gs, f in cases:
                    try:
                        if self.conj(gs):
                            r += self.ev(f)
                            hit = True
                            break
                    except Unk as e:
                        unk = e
                if not hit and unk is not None:
                    raise unk
            finally:
                self.unbind(lv, old)
        return r

    def o_mphi(self, t, *r):
        if t in self.env:
            r = self.env[t]
            if isinstance(r, UnkV):
                raise Unk(r.why)
            return r
        raise Unk('free state')

    def o_mu(self, t, j, n, lv, phis, inits, cases):
        k = self.ev(n)
        if k > 300:
            raise Unk('long')
        key = (lv, phis, inits, cases)
        fr = self.mufree.get(key)
        if fr is None:
            fr = self.mufree[key] = [v for v in free_vars(t) if v is not lv]
        key = key + tuple(self.eid.get(v) for v in fr)
        tr = self.traces.get(key)
        if tr is None:
            tr = self.traces[key] = [tuple(None if x is None else self.ev(x) for x in inits)]
        while len(tr) <= k:
            old = [(v, self.bind(v, x)) for v, x in zip(phis, tr[-1])]
            old.append((lv, self.bind(lv, len(tr) - 1)))
            try:
                vs = self.pick(cases)
                new = []
                for v in vs:
                    try:
                        new.append(self.ev(v))
                    except Unk as e:
                        if e.args and e.args[0] == 'budget':
                            raise
                        new.append(UnkV(e.args[0] if e.args else 'state'))
            finally:
                for v, x in old:
                    self.unbind(v, x)
            tr.append(tuple(new))
        r = tr[k][j]
        if isinstance(r, UnkV):
            raise Unk(r.why)
        return r

    def o_argmin(self, t, n, lv, body):
        k = self.ev(n)
        if k > 300 or k < 1:
            raise Unk('argmin of %d' % k)
        best = None
        for i in range(k):
            old = self.bind(lv, i)
            try:
                x = self.okey(self.ev(body))
            finally:
                self.unbind(lv, old)
            if best is None or x < best[0]:
                best = (x, i)
        return best[1]

    def okey(self, x):
        if isinstance(x, A):
            return (x.v,) + tuple(self.okey(y) for y in x.f)
        if isinstance(x, tuple) and not (x and isinstance(x[0], str)):
            return tuple(self.okey(y) for y in x)
        if isinstance(x, (bool, int)):
            return x
        raise Unk('order')

    def o_ite(self, t, c, x, y):
        return self.ev(x) if self.truth(c) else self.ev(y)

    def o_rawp(self, t, own, path):
        if own.op == 'lnk':
            return Ptr(('lnk', own.a[0], tuple(self.ev(x) for x in own.a[1:]), tuple((e[0],) + tuple(self.ev(x) if isinstance(x, T) else x for x in e[1:]) for e in path)))
        if own.op == 'alloc':
            return Ptr(('alloc', own.a[:2], tuple(self.ev(x) for x in own.a[2]), tuple((e[0],) + tuple(self.ev(x) if isinstance(x, T) else x for x in e[1:]) for e in path)))
        if own.op != 'ident' or fv(own):
            raise Unk('pointer')
        return Ptr(('at', own.a[0], tuple((e[0],) + tuple(self.ev(x) if isinstance(x, T) else x for x in e[1:]) for e in path)))

    def o_pidx(self, t, p):
        r = self.ev(p)
        if isinstance(r, Ptr) and r.k is not None and r.k[0] in ('alloc', 'lnk') and len(r.k[3]) == 1:
            return r.k[3][0][1]
        raise Unk('pointer')

    def o_ref(self, t, obj, path):
        if isinstance(obj, tuple) and obj[0] == 'D':
            v = self.ev(obj[1])
        elif obj in self.mem:
            v = self.ev(strip_ident(self.mem[obj]))
        else:
            raise Unk('ref')
        for e in path:
            if e[0] == 'f':
                v = v.f[e[1]]
            elif e[0] == 'c':
                pass
            elif e[0] == 'v':
                pass
            elif e[0] == 'i':
                k = self.ev(e[1])
                if not (isinstance(v, tuple) and 0 <= k < len(v)):
                    raise Unk('ref index')
                v = v[k]
            elif e[0] == 'sub':
                v = v[self.ev(e[1]):self.ev(e[2])]
            else:
                raise Unk('ref path')
        return v

    # -- integers
    def o_min(self, t, *xs):
        return min(self.ev(x) for x in xs)

    def o_max(self, t, *xs):
        return max(self.ev(x) for x in xs)

    def o_abs(self, t, x):
        return abs(self.ev(x))

    def o_div(self, t, x, y):
        x, y = self.ev(x), self.ev(y)
        if y == 0:
            raise Unk('div0')
        q = abs(x) // abs(y)
        return q if (x < 0) == (y < 0) else -q

    def o_rem(self, t, x, y):
        x, y = self.ev(x), self.ev(y)
        if y == 0:
            raise Unk('div0')
        r = abs(x) % abs(y)
        return -r if x < 0 else r

    def o_wrap(self, t, x, lo, hi):
        v = self.ev(x)
        n = hi - lo + 1
        return (v - lo) % n + lo
    o_cast = o_wrap

    def o_bit(self, t, op, x, y, *r):
        x, y = self.ev(x), self.ev(y)
        if isinstance(x, bool) or isinstance(y, bool):
            raise Unk('bit')
        if op == 'BitAnd':
            return x & y
        if op == 'BitOr':
            return x | y
        if op == 'BitXor':
            return x ^ y
        if op.startswith('Shr') and y < 256:
            return x >> y
        raise Unk('bit')

    def o_byte(self, t, s, i):
        s = self.seq(s)
        i = self.ev(i)
        if 0 <= i < len(s):
            return s[i]
        raise Unk('byte past end')

    def bytes_int(self, xs):
        bs = [self.ev(x) for x in xs]
        return sum(b << (8 * i) for i, b in enumerate(bs))

    def o_le_u(self, t, bits, *xs):
        return self.bytes_int(xs)

    def o_le_i(self, t, bits, *xs):
        r = self.bytes_int(xs)
        return r - (1 << bits) if r >> (bits - 1) else r

    def o_le_f(self, t, bits, *xs):
        if bits != 64:
            raise Unk('f32')
        return F(bits2f(self.bytes_int(xs)))

    # -- floats
    def o_fc(self, t, b, ty):
        return F(bits2f(b)) if ty == 'f64' else self.free(t)

    def fl(self, x):
        v = self.ev(x)
        if isinstance(v, float):
            return float(v)
        raise Unk('not a float')

    def o_fneg(self, t, x):
        return F(-self.fl(x))

    def o_fop(self, t, op, x, y):
        x, y = self.fl(x), self.fl(y)
        try:
            if op.startswith('Add'):
                return F(x + y)
            if op.startswith('Sub'):
                return F(x - y)
            if op.startswith('Mul'):
                return F(x * y)
            if op.startswith('Div'):
                if y == 0:
                    if x != x or y != y or x == 0:
                        return F(float('nan'))
                    import math
                    return F(math.copysign(float('inf'), x) * math.copysign(1.0, y))
                return F(x / y)
        except OverflowError:
            pass
        raise Unk('fop')

    def o_fcmp(self, t, op, x, y):
        x, y = self.fl(x), self.fl(y)
        r = {'Lt': x < y, 'Le': x <= y, 'Gt': x > y, 'Ge': x >= y, 'Eq': x == y, 'Ne': x != y}.get(op)
        if r is None:
            raise Unk('fcmp')
        return r

    def o_i2f(self, t, x, ty):
        if ty != 'f64':
            raise Unk('f32')
        return F(float(self.ev(x)))

    def o_f2i(self, t, x, ty):
        v = self.fl(x)
        lo, hi = wrap_range(ty)
        if v != v:
            return 0
        if v == float('inf'):
            return hi
        if v == float('-inf'):
            return lo
        return max(lo, min(hi, int(v)))

    def o_ff(self, t, m, *xs):
        import math
        v = [self.fl(x) for x in xs]
        if m == 'round' and len(v) == 1:
            x = v[0]
            if x != x or abs(x) > 1e300:
                return F(x)
            r = math.floor(abs(x))
            if abs(x) - r >= 0.5:
                r += 1
            return F(math.copysign(r, x))
        if m in ('floor', 'ceil', 'trunc') and abs(v[0]) < 1e300:
            return F(float(getattr(math, m)(v[0])))
        if m == 'abs':
            return F(abs(v[0]))
        if m in ('min', 'max') and v[0] == v[0] and v[1] == v[1]:
            return F((min if m == 'min' else max)(v[0], v[1]))
        if m == 'sqrt' and v[0] >= 0:
            return F(math.sqrt(v[0]))
        if m == 'is_nan':
            return v[0] != v[0]
        if m in ('is_finite', 'is_infinite'):
            return math.isfinite(v[0]) if m == 'is_finite' else math.isinf(v[0])
        raise Unk('ff ' + m)

    # -- text and streams
    def o_msg(self, t, *r):
        return ('@msg',)

    def o_ioerr(self, t, *r):
        return ('@ioerr',)

    def o_iokind(self, t, e, eof, other):
        return A('std::io::ErrorKind', other if self.val.get('@fails') else eof, [])

    def o_readn(self, t, s, pos, n):
        return max(0, min(self.ev(n), len(self.seq(s)) - self.ev(pos), self.val.get('@chunk', 1 << 60)))

    def codec(self, enc):
        e = self.ev(enc)
        if e not in ('utf-8', 'ascii', 'cp1252'):
            raise Unk('encoding')
        return e

    def o_static(self, t, *r):
        raise Unk('static')

    def o_encname(self, t, e):
        return tuple(self.codec(e).encode())

    def o_enc(self, t, label):
        b = bytes(self.seq(label)).decode('latin1').lower()
        k = {'utf-8': 'utf-8', 'utf8': 'utf-8', 'ascii': 'cp1252', 'windows-1252': 'cp1252'}.get(b)
        if k is None:
            raise Unk('label')
        return k

    def _dec(self, enc, trap, s):
        c = self.codec(enc)
        b = bytes(self.seq(s))
        if c == 'cp1252':
            out = ''
            for x in b:
                try:
                    out += bytes([x]).decode('cp1252')
                except UnicodeDecodeError:
                    out += chr(x)
            return out
        try:
            return b.decode(c)
        except UnicodeDecodeError:
            k = self.ev(trap) if isinstance(trap, T) else trap
            k = k.v if isinstance(k, A) else k
            if k == 0:
                return None
            if k == 1 and c == 'ascii':
                return b.decode(c, 'replace')
            if k == 2 and c == 'ascii':
                return b.decode(c, 'ignore')
            raise Unk('decoder trap')

    def o_decodes(self, t, enc, trap, s):
        return self._dec(enc, trap, s) is not None

    def o_decoded(self, t, enc, trap, s):
        r = self._dec(enc, trap, s)
        if r is None:
            raise Unk('decoded')
        return tuple(r.encode('utf8'))

    def o_regex(self, t, s):
        return ('@regex', self.seq(s))

    def _match(self, r, s):
        import re
        r = self.ev(r)
        if not (isinstance(r, tuple) and r and r[0] == '@regex'):
            raise Unk('regex')
        pat = bytes(r[1])
        if not re.match(rb'^[\^$ \-?*+()\[\]0-9a-zA-Z.:|\\{}_,]*$', pat) or re.search(rb'\\[^.dws+$*?|()\[\]\-]|\(\?[^:]', pat):
            raise Unk('regex syntax')
        pat = re.sub(rb'(?<!\\)\$', rb'\\Z', pat)
        b = bytes(self.seq(s))
        try:
            return re.search(pat, b)
        except re.error:
            raise Unk('regex syntax')

    def o_rematch(self, t, r, s):
        return self._match(r, s) is not None

    def o_captures(self, t, r, s):
        m = self._match(r, s)
        if m is None:
            raise Unk('captures')
        return ('@caps', m)

    def o_group(self, t, c, i):
        c = self.ev(c)
        g = c[1].group(i)
        if g is None:
            raise Unk('group')
        return tuple(g)

    def o_groupbytes(self, t, g):
        return self.ev(g)

    def o_utf8(self, t, s):
        return self.seq(s)

    def o_tostr(self, t, x):
        r = self.ev(x)
        if isinstance(r, int) and not isinstance(r, bool):
            return tuple(str(r).encode())
        if isinstance(r, tuple):
            return r
        raise Unk('tostr')

    def o_isutf8(self, t, s):
        try:
            bytes(self.seq(s)).decode('utf8')
            return True
        except UnicodeDecodeError:
            return False


def wrap_range(ty):
    if isinstance(ty, T):
        ty = ty.a[0]
    if isinstance(ty, int):
        r = int_range(ty)
        if r is None:
            raise Unk('wrap')
        return r
    bits = {'usize': 64, 'isize': 64}.get(ty) or int(ty[1:])
    if ty[0] == 'u':
        return 0, 2 ** bits - 1
    return -2 ** (bits - 1), 2 ** (bits - 1) - 1


# ------------------------------------------------------------------ outcomes
def links(v):
    """where in a result each allocation is: (kind, n) -> (description, path indices, allocation's indices)"""
    if not any(t.op == 'rawp' for t in subterms(v)):
        return None
    out = {}

    def walk(t, desc, idx, d):
        if d > 14:
            return
        if t.op == 'agg' or t.op == 'tup':
            k = 2 if t.op == 'agg' else 0
            for i, x in enumerate(t.a[k:]):
                walk(x, desc + '.%d' % i, idx, d + 1)
        elif t.op in ('box', 'vec'):
            if len(t.a) > 1 and t.a[1].op == 'alloc':
                out.setdefault(t.a[1].a[:2], (desc, idx, t.a[1].a[2]))
            walk(t.a[0], desc, idx, d + 1)
        elif t.op == 'mu':
            walk(t.a[4][t.a[0]], desc, idx, d + 1)
        elif t.op == 'upd':
            walk(t.a[0], desc, idx, d + 1)
            walk(t.a[2], desc + '[]', idx + (t.a[1],), d + 1)
        elif t.op == 'seq':
            off = ZERO
            for g in t.a:
                if g.op == 'one':
                    walk(g.a[0], desc + '[]', idx + (off,), d + 1)
                elif g.op == 'comp':
                    walk(g.a[2], desc + '[]', idx + (padd(off, atom(g.a[1])),), d + 1)
                off = padd(off, seg_len(g))
        elif t.op == 'comp':
            walk(t.a[2], desc + '[]', idx + (atom(t.a[1]),), d + 1)
    walk(v, '', (), 0)
    return out


def relink(v, ls):
    """pointers into the result as paths in it"""
    m = {}
    for t in subterms(v):
        if t.op == 'rawp' and t.a[0].op == 'alloc' and t.a[0] not in m:
            al = t.a[0]
            w = ls.get(al.a[:2])
            if w is None:
                continue
            desc, idx, own = w
            sub = {}
            ok = len(own) == len(al.a[2])
            for o, x in zip(own, al.a[2]):
                b = as_atom(o)
                if b is None:
                    if o is not x:
                        ok = False
                    continue
                sub[b] = x
            if ok and all(fv(i) <= set(sub) for i in idx):
                m[al] = mk('lnk', desc, *[subst(i, sub) for i in idx])
    return subst(v, m) if m else v


class Out(object):
    """one outcome of a summary: exact path condition, facts, value"""
    __slots__ = ('st', 'v', 'pc', 'tag')

    def __init__(self, st, v, tag=None):
        self.st = st
        pc = st.pc
        ls = links(v)
        if ls:
            v = relink(v, ls)
            pc = tuple(relink(x, ls) for x in pc)
        self.v = strip_ident(v)
        self.pc = tuple(strip_ident(x) for x in pc)
        self.tag = tag


_FV = {}
NONE = frozenset()


def fv(t):
    """free index and state variables of a term (cached)"""
    if not t.vars:
        return NONE
    r = _FV.get(t)
    if r is not None:
        return r
    from terms import _kids

    def union(ks):
        r = NONE
        for k in ks:
            x = fv(k)
            if x:
                r = x if not r else (r if x <= r else r | x)
        return r
    if t.op in ('lv', 'mphi'):
        r = frozenset([t])
    elif t.op in ('comp', 'gcomp', 'fall', 'argmin', 'argmax'):
        r = (union(_kids(t.a[2:])) - {t.a[1]}) | fv(t.a[0])
    elif t.op == 'acc':
        r = (union(_kids(t.a[3:])) - {t.a[2]}) | fv(t.a[0]) | fv(t.a[1])
    elif t.op == 'first':
        r = union(_kids(t.a[1:])) - {t.a[0]}
    elif t.op == 'mu':
        r = (union(_kids((t.a[5],))) - {t.a[2]} - set(t.a[3])) | fv(t.a[1]) | union(_kids((t.a[4],)))
    else:
        r = union(_kids(t.a))
    _FV[t] = r
    return r


NOMEMO = frozenset(('lv', 'mphi', 'own', 'phi'))
_MV = {}


def has_own(t):
    return any(x.op == 'own' for x in subterms(t))


_HR = {}


def has_ref(t):
    r = _HR.get(t)
    if r is None:
        r = _HR[t] = any(x.op == 'ref' and not (isinstance(x.a[0], tuple) and x.a[0][0] == 'D') for x in subterms(t))
    return r


def memo_vars(t):
    """the variables a term's value depends on; None if it cannot be remembered"""
    r = _MV.get(t, 0)
    if r == 0:
        r = _MV[t] = None if has_own(t) else tuple(free_vars(t))
    return r


def free_vars(t):
    return sorted(fv(t), key=lambda x: x.id)


def free_lvs(ts):
    s = set()
    for t in ts:
        s.update(x for x in fv(t) if x.op == 'lv')
    return sorted(s, key=lambda x: x.id)


def eval_outcomes(outs, val, obls=()):
    """-> ('value', v, out) | ('panic', obligation) | ('unk', why)"""
    eo = Ev(val)
    for ob in obls:
        eo.budget = 400000
        r = holds(list(ob['spc']) + [NOT(ob['scond'])], val, eo)
        if r is True:
            return ('panic', ob, None)
        # undecided: an outcome that applies is still an outcome
    hits = []
    unk = None
    for o in outs:
        fv = free_lvs(o.pc + (o.v,))
        if any(has_ref(x) for x in o.pc + (o.v,)):
            e = Ev(val, o.st.mem)
        else:
            e = eo
            e.budget = 400000
        got = False
        for ks in itertools.product(range(LVMAX), repeat=len(fv)):
            e.setenv(dict(zip(fv, ks)))
            try:
                if e.conj(o.pc):
                    try:
                        x = e.ev(o.v)
                        if has_alloc(x):
                            raise Unk('pointer')
                        hits.append((x, o))
                    except Unk as x:
                        return ('unk', 'value: %s' % x, o)
                    got = True
                    break
            except Unk as x:
                if not fv:
                    unk = x
    if len(hits) == 1:
        return ('value',) + hits[0]
    if not hits:
        return ('unk', 'no outcome applies (%s)' % unk, None)
    if all(h[0] == hits[0][0] for h in hits):
        return ('value',) + hits[0]
    return ('unk', 'ambiguous', None)


def has_alloc(x):
    if isinstance(x, Ptr):
        return x.k is not None and x.k[0] == 'alloc'
    if isinstance(x, A):
        return any(has_alloc(y) for y in x.f)
    if isinstance(x, tuple):
        return len(x) > 0 and not isinstance(x[0], (int, str)) and any(has_alloc(y) for y in x)
    return False


def holds(pc, val, e=None):
    fv = free_lvs(pc)
    e = e or Ev(val)
    unk = False
    for ks in itertools.product(range(LVMAX), repeat=len(fv)):
        e.setenv(dict(zip(fv, ks)))
        try:
            if e.conj(pc):
                return True
        except Unk:
            unk = True
    return None if unk and not fv else False


# ------------------------------------------------------------------ proofs
class Prover(object):
    def __init__(self, E):
        self.E = E
        self.steps = 0

    def eq(self, a, b, st, d=0):
        """True when a == b in every concrete state described by st"""
        self.steps += 1
        if self.steps > 20000 or d > 24:
            return False
        a = strip_ident(a)
        b = strip_ident(b)
        if a is b or canon(a) is canon(b):
            return True
        if a.op == 'poly' and b.op == 'poly':
            return self.poly(a, b, st, d)
        if (a.op == 'poly') != (b.op == 'poly'):
            # an integer seen through a type parameter
            a = (as_atom(a) or a) if a.op == 'poly' else a
            b = (as_atom(b) or b) if b.op == 'poly' else b
            if a is b or canon(a) is canon(b):
                return True
        if a.op == b.op and a.op in ('msg', 'ioerr'):
            return True
        for x, y in ((a, b), (b, a)):
            if x.op == 'ite':
                return all(self.eq(v, y, s, d + 1) for c, v in ((x.a[0], x.a[1]), (NOT(x.a[0]), x.a[2]))
                           for s in st.assume(c))
        if self.boolish(a) and self.boolish(b):
            for x, y in ((a, b), (b, a)):
                for s in st.assume(x):
                    for s2 in s.assume(NOT(y)):
                        if not self.infeasible(s2):
                            return False
            return True
        if self.seqish(a) or self.seqish(b):
            return self.seqs(a, b, st, d)
        if a.op == 'boxv' or b.op == 'boxv':
            x = a.a[0] if a.op == 'boxv' else mk('deref', a)
            y = b.a[0] if b.op == 'boxv' else mk('deref', b)
            return self.eq(x, y, st, d + 1)
        if a.op == b.op == 'agg':
            return short(a.a[0]) == short(b.a[0]) and a.a[1] == b.a[1] and len(a.a) == len(b.a) and \
                all(self.eq(x, y, st, d + 1) for x, y in zip(a.a[2:], b.a[2:]))
        if a.op == 'agg' or b.op == 'agg':
            # eta: compare a struct with its symbolic counterpart field by field
            x, y = (a, b) if a.op == 'agg' else (b, a)
            if st.facts.decide(isvar(y, x.a[1])) is True or (y.ty is not None and nvariants(y) == 1):
                fs = []
                for i, f in enumerate(x.a[2:]):
                    g = mk('fld', y, x.a[1], i)
                    if f.op == 'poly':
                        g = atom(g)
                    fs.append((f, g))
                return all(self.eq(f, g, st, d + 1) for f, g in fs)
            return False
        if a.op == b.op == 'tup' and len(a.a) == len(b.a):
            return all(self.eq(x, y, st, d + 1) for x, y in zip(a.a, b.a))
        if a.op == b.op and len(a.a) == len(b.a) and a.op not in ('opaque', 'phi', 'lv', 'sym', 'fall', 'mphi', 'mu', 'argmin', 'argmax'):
            return all(self.anyeq(x, y, st, d + 1) for x, y in zip(a.a, b.a))
        if a.op == b.op == 'mu' and self.mueq(a, b, st, d):
            return True
        r = st.facts.decide(EQ(a, b))
        return r is True

    def boolish(self, t):
        return t.op in ('true', 'false', 'ge0', 'eq0', 'not', 'and', 'or', 'isvar', 'eq', 'fcmp', 'seqeq', 'fall', 'isnull', 'mhas')

    def seqish(self, t):
        return t.op in ('seq', 'upd', 'rev') or t.op in SEGS

    def anyeq(self, x, y, st, d):
        if isinstance(x, T) and isinstance(y, T):
            return self.eq(x, y, st, d)
        if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
            return all(self.anyeq(p, q, st, d) for p, q in zip(x, y))
        return x == y

    def poly(self, a, b, st, d):
        r = st.facts.decide(eq0(psub(a, b)))
        if r is not None:
            return r
        # match atoms that are provably equal
        ca, cb = canon(a), canon(b)
        diff = psub(ca, cb)
        if cval(diff) == 0:
            return True
        ats = sorted(patoms(diff), key=lambda x: x.id)
        for i, x in enumerate(ats):
            if x.op == 'ite':
                return all(self.poly(subst(ca, {x: v}), subst(cb, {x: v}), s, d + 1)
                           for c, v in ((x.a[0], x.a[1]), (NOT(x.a[0]), x.a[2])) for s in st.assume(c))
        for x in ats:
            if x.op == 'acc' and st.facts.decide(le(x.a[1], ZERO)) is True:
                return self.poly(subst(ca, {x: x.a[0]}), subst(cb, {x: x.a[0]}), st, d + 1) if d < 20 else False
        if d < 20:
            mm = ('min', 'max', 'abs')
            for x in subterms(diff):
                if x.op not in mm or len(x.a) > 2 or any(y.op in mm for y in subterms(x) if y is not x) or \
                        any(str(v.a[0]).startswith('#') for v in free_lvs([x])):
                    continue
                if x.op == 'abs':
                    alts = ((ge0(x.a[0]), x.a[0]), (lt(x.a[0], ZERO), pneg(x.a[0])))
                else:
                    p, q = x.a
                    alts = ((le(p, q), p if x.op == 'min' else q), (lt(q, p), q if x.op == 'min' else p))
                return all(self.poly(subst(ca, {x: v}), subst(cb, {x: v}), s, d + 1)
                           for g, v in alts for s0 in st.assume(g) for s in s0.assume(eq0(psub(atom(x), v))))
        for i, x in enumerate(ats):
            for y in ats[i + 1:]:
                if x.op == y.op and x.op not in ('sym', 'lv', 'phi', 'opaque', 'fld') and d < 10:
                    if self.atomeq(x, y, st, d + 1):
                        n = subst(diff, {y: atom(x)})
                        return self.poly(n, ZERO, st, d + 1)
        return self.infeasible(st)

    def atomeq(self, x, y, st, d):
        if x.op == 'acc':
            i1, n1, l1, c1 = x.a
            i2, n2, l2, c2 = y.a
            if not self.eq(i1, i2, st, d):
                return False
            if not self.eq(n1, n2, st, d):
                return False
            return self.cases(n1, l1, [(g, f) for g, f in c1] + [None], n2, l2, [(g, f) for g, f in c2] + [None], st, d, ZERO)
        if x.op == 'mu':
            return self.mueq(x, y, st, d)
        if x.op == 'first':
            k = newlv('q')
            K = atom(k)
            a = canon(subst(x.a[1], {x.a[0]: K}))
            b = canon(subst(y.a[1], {y.a[0]: K}))
            return a is b or all(self.eq(a, b, s, d + 1) for s in st.assume(ge0(K)))
        if len(x.a) != len(y.a):
            return False
        return all(self.anyeq(p, q, st, d) for p, q in zip(x.a, y.a))

    def mueq(self, x, y, st, d):
        """two recurrences agree: same start, and the same step from the same state (induction)"""
        if d > 12:
            return False
        j1, n1, l1, p1, i1, c1 = x.a
        j2, n2, l2, p2, i2, c2 = y.a
        if len(p1) != len(p2) or j1 != 0 or j2 != 0 or len(p1) > 4 or not self.eq(n1, n2, st, d + 1):
            return False
        m = len(p1)
        for perm in itertools.permutations(range(1, m)):
            perm = (0,) + perm
            if any((i1[i].op == 'poly') != (i2[perm[i]].op == 'poly') or not self.eq(i1[i], i2[perm[i]], st, d + 1) for i in range(m)):
                continue
            k = newlv('q')
            K = atom(k)
            m1, m2 = {l1: K}, {l2: K}
            for i in range(m):
                q = mk('mphi', k.a[0], i)
                q.ty, q.info = p1[i].ty, p1[i].info
                v = atom(q) if i1[i].op == 'poly' else q
                m1[p1[i]] = v
                m2[p2[perm[i]]] = v
            e1 = [(AND(*[subst(g, m1) for g in gs]), [subst(v, m1) for v in vs]) for gs, vs in c1]
            e2 = [(AND(*[subst(g, m2) for g in gs]), [subst(vs[perm[i]], m2) for i in range(m)]) for gs, vs in c2]
            good = True
            for s0 in st.assume(ge0(K)):
                for s in s0.assume(lt(K, n1)):
                    for g1, v1 in e1:
                        for s1 in s.assume(g1):
                            for g2, v2 in e2:
                                for s2 in s1.assume(g2):
                                    if good and not self.infeasible(s2) and not all(self.eq(a, b, s2, d + 1) for a, b in zip(v1, v2)):
                                        good = False
            if good:
                return True
        return False

    def cases(self, n1, l1, c1, n2, l2, c2, st, d, dflt):
        """guarded bodies agree at every index"""
        k = newlv('q')
        K = atom(k)
        base = [st]
        base = [s2 for s in base for s1 in s.assume(ge0(K)) for s2 in s1.assume(lt(K, n1))]

        def expand(cs, lv):
            out = []
            neg = []
            for c in cs:
                if c is None:
                    if neg:
                        out.append((AND(*[NOT(g) for g in neg]), dflt))
                    else:
                        out.append((TRUE, dflt))
                    continue
                g = AND(*[subst(x, {lv: K}) for x in c[0]])
                out.append((g, subst(c[1], {lv: K})))
                neg.append(g)
            return out
        e1 = expand(c1, l1)
        e2 = expand(c2, l2)
        for s in base:
            for g1, f1 in e1:
                for s1 in s.assume(g1):
                    for g2, f2 in e2:
                        for s2 in s1.assume(g2):
                            if self.infeasible(s2):
                                continue
                            if not self.eq(f1, f2, s2, d + 1):
                                return False
        return True

    def infeasible(self, st):
        return infeasible(st)

    def seqs(self, a, b, st, d):
        F = st.facts
        ga = [g for g in self.norm(a, st) if not self.empty(g, st)]
        gb = [g for g in self.norm(b, st) if not self.empty(g, st)]
        if [canon(x) for x in ga] == [canon(x) for x in gb]:
            return True
        while ga and gb:
            x, y = ga[0], gb[0]
            nx, ny = seg_len(x), seg_len(y)
            if self.eq(nx, ny, st, d + 1) and self.segeq(x, y, st, d + 1):
                ga.pop(0)
                gb.pop(0)
                continue
            if x.op in ('gcomp',) or y.op in ('gcomp',) or x.op == 'own' or y.op == 'own':
                return False
            # split the longer
            if F.decide(le(nx, ny)) is True:
                r = self.split(y, nx, st)
                if r is None or not self.segeq(x, r[0], st, d + 1):
                    return False
                ga.pop(0)
                gb[0] = r[1]
            elif F.decide(le(ny, nx)) is True:
                r = self.split(x, ny, st)
                if r is None or not self.segeq(r[0], y, st, d + 1):
                    return False
                gb.pop(0)
                ga[0] = r[1]
            else:
                return False
            ga = [g for g in ga if not self.empty(g, st)]
            gb = [g for g in gb if not self.empty(g, st)]
        return not ga and not gb

    def norm(self, s, st):
        s = canon(strip_ident(s))
        if s.op in ('rev', 'upd'):
            n = seq_len(s)
            k = newlv('q')
            if s.op == 'rev':
                return [mk('comp', n, k, seq_get(s, atom(k), st.facts))]
            i, v = s.a[1], s.a[2]
            l = segs(seq_sub(s.a[0], ZERO, i, st.facts))
            r = segs(seq_sub(s.a[0], padd(i, ONE), n, st.facts))
            return list(l) + [one(v)] + list(r)
        return list(segs(s))

    def empty(self, g, st):
        n = seg_len(g)
        c = cval(n)
        if c is not None:
            return c <= 0
        return g.op in ('comp', 'sub', 'all', 'gcomp') and st.facts.decide(le(n, ZERO)) is True

    def split(self, g, n, st):
        L = seg_len(g)
        if g.op == 'comp':
            lv = g.a[1]
            return (mk('comp', n, lv, g.a[2]), mk('comp', psub(L, n), lv, subst(g.a[2], {lv: padd(n, atom(lv))})))
        if g.op == 'all':
            return (mk('sub', g.a[0], ZERO, n), mk('sub', g.a[0], n, L))
        if g.op == 'sub':
            m = padd(g.a[1], n)
            return (mk('sub', g.a[0], g.a[1], m), mk('sub', g.a[0], m, g.a[2]))
        return None

    def segeq(self, x, y, st, d):
        if canon(x) is canon(y):
            return True
        if x.op == y.op == 'gcomp':
            return self.eq(x.a[0], y.a[0], st, d) and self.cases(x.a[0], x.a[1], x.a[2], y.a[0], y.a[1], y.a[2], st, d, EMPTY)
        if x.op == 'gcomp' and y.op == 'comp' or y.op == 'gcomp' and x.op == 'comp':
            if x.op == 'comp':
                x, y = y, x
            return self.eq(x.a[0], y.a[0], st, d) and self.cases(
                x.a[0], x.a[1], x.a[2], y.a[0], y.a[1], (((), mk('seq', one(y.a[2]))),), st, d, EMPTY)
        if x.op == y.op and x.op in ('all', 'own'):
            return self.eq(x.a[0], y.a[0], st, d)
        if x.op == y.op == 'sub':
            if self.eq(x.a[0], y.a[0], st, d) and self.eq(x.a[1], y.a[1], st, d):
                return True
        if x.op in ('gcomp', 'own', 'lseg') or y.op in ('gcomp', 'own', 'lseg'):
            return False
        # element by element
        k = newlv('q')
        K = atom(k)
        n = seg_len(x)
        for s1 in st.assume(ge0(K)):
            for s2 in s1.assume(lt(K, n)):
                vx = seg_get(x, K, s2.facts)
                vy = seg_get(y, K, s2.facts)
                if vx is None or vy is None:
                    return False
                if vx.op != 'poly' and vy.op == 'poly':
                    vx = atom(vx)
                if vy.op != 'poly' and vx.op == 'poly':
                    vy = atom(vy)
                if not self.eq(vx, vy, s2, d + 1):
                    return False
        return True


def infeasible(st, until=None):
    """the facts of st contradict each other, using each 'for all' fact at every index in sight"""
    until = until or time.time() + 3
    F = st.facts
    if F.false or F.infeasible():
        return True
    falls = [l for l in F.lits if l.op == 'fall']
    nfalls = [l.a[0] for l in F.lits if l.op == 'not' and l.a[0].op == 'fall']
    if nfalls:
        sts = [st]
        for nf in nfalls:
            k = newlv('w')
            K = atom(k)
            n, lv, body = nf.a
            sts = [s3 for s in sts for s1 in s.assume(ge0(K)) for s2 in s1.assume(lt(K, n))
                   for s3 in s2.assume(NOT(subst(body, {lv: K})))]
            for s in sts:
                s.facts = s.facts
        sts2 = []
        for s in sts:
            f = Facts()
            for l in s.facts.lits:
                if not (l.op == 'not' and l.a[0].op == 'fall'):
                    f = f.add(l)
            s = s.fork()
            s.facts = f
            sts2.append(s)
        return all(infeasible(s, until) for s in sts2)
    firsts = []
    for l in F.lits:
        if l.op == 'fall':
            continue
        for x in subterms(l):
            if x.op == 'first' and x not in firsts and not any(str(v.a[0]).startswith('#') for v in free_lvs([x])):
                firsts.append(x)
    for x in firsts:
        falls.append(mk('fall', atom(x), x.a[0], x.a[1]))
        sts = st.assume(NOT(subst(x.a[1], {x.a[0]: atom(x)})))
        if len(sts) == 1:
            st = sts[0]
        elif not sts:
            return True
    if falls:
        ks = set()
        for l in st.facts.lits:
            if l.op != 'fall':
                ks.update(x for x in free_lvs([l]))
        insts = [atom(k) for k in sorted(ks, key=lambda x: x.id) if not str(k.a[0]).startswith('#')][:4] + [atom(x) for x in firsts] + [ZERO]
        sts = [st]
        for fl in falls:
            n, lv, body = fl.a
            for K in insts:
                if lv in free_lvs([K]):
                    continue
                f = OR(lt(K, ZERO), le(n, K), subst(body, {lv: K}))
                sts = [s2 for s in sts for s2 in s.assume(f)]
                if len(sts) > 64 or time.time() > until:
                    return False
                if not sts:
                    return True
        return all(s.facts.false or s.facts.infeasible() for s in sts)
    return False


def all_lits(st, ts):
    sts = [st]
    for t in ts:
        sts = [s2 for s in sts for s2 in s.assume(t)]
        if len(sts) > 200:
            # a feasible-looking remainder: never drop literals of the rest silently
            break
    return sts


def accs(t):
    return [x for x in subterms(t) if x.op in ('acc', 'first', 'mu')]


def zero_accs(st):
    """a sum over an empty range is its start value"""
    F0 = st.facts
    seen = set()
    for l in F0.lits:
        for x in subterms(l):
            if x.op == 'acc' and x not in seen:
                seen.add(x)
                if not any(str(v.a[0]).startswith('#') for v in free_lvs([x])) and F0.decide(le(x.a[1], ZERO)) is True:
                    st = st.fork()
                    st.facts = st.facts.add(eq0(psub(atom(x), x.a[0])))
    return st


def sorted_lits(ls):
    return sorted(ls, key=lambda l: (l.op == 'or', l.op == 'fall' or (l.op == 'not' and l.a[0].op == 'fall'), len(l.a) if l.op == 'or' else 0))


def compare(E, code, spec, limit=None):
    """-> list of (code outcome, spec outcome) pairs that are jointly feasible
    and not provably equal; [] means proved equal"""
    import time
    P = Prover(E)
    open_ = []
    n = 0
    unified = {}
    base0 = St0(E)

    def unify(ct, s_terms):
        """rewrite the sums of the reference that provably equal a sum of the code"""
        ca = []
        for t in ct:
            for x in accs(t):
                if x not in ca:
                    ca.append(x)
        m = {}
        for t in s_terms:
            for y in accs(t):
                if y in m or y in ca:
                    continue
                for x in ca:
                    if x.op != y.op:
                        continue
                    k = (x, y)
                    if k not in unified:
                        P.steps = 0
                        unified[k] = P.atomeq(x, y, base0, 2)
                    if unified[k]:
                        m[y] = x if x.op == 'mu' and x.a[4][x.a[0]].op != 'poly' else atom(x)
                        break
        return m

    for c in code:
        cv = canon(c.v)
        cpc = tuple(canon(l) for l in c.pc)
        for s in spec:
            sv = canon(s.v)
            if cv is sv:
                n += 1
                continue
            if limit and time.time() > limit:
                open_.append((c, s))
                continue
            spc = tuple(canon(l) for l in s.pc)
            sf = [canon(strip_ident(l)) for l in s.st.facts.lits if l.op != 'or']
            m = unify((cv,) + cpc, (sv,) + spc)
            if m:
                sv = subst(sv, m)
                spc = tuple(subst(l, m) for l in spc)
                sf = [subst(l, m) for l in sf]
            good = True
            # facts of the code outcome (sound, includes invariants) plus its exact path condition
            x0 = c.st.fork()
            f = Facts()
            for l in c.st.facts.lits:
                if l.op != 'or':
                    f = f.add(canon(strip_ident(l)))
            clash = False
            for l in sf:
                if l.op in ('ge0', 'eq0', 'isvar') and f.decide(l) is False:
                    clash = True
                    break
                f = f.add(l)
            x0.facts = f
            if clash or f.false:
                n += 1
                continue
            lits = sorted_lits(list(cpc) + [l for l in spc if l not in cpc])
            for x in all_lits(x0, lits):
                n += 1
                x = zero_accs(x)
                if infeasible(x):
                    continue
                P.steps = 0
                if not P.eq(cv, sv, x):
                    good = False
                    break
            if not good:
                open_.append((c, s))
    return open_, n


def St0(E):
    return E.state0()
