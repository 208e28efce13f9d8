"""Path facts: conjunctions of literals with a linear-inequality entailment
check (Fourier-Motzkin over the rationals, integers tightened).  This is the
abstract domain's reduction; there is no search and no external solver."""
from terms import *

U64 = 1 << 64
BOUND_LEN = (1 << 50)


class Env(object):
    types = None


def int_range(tyi):
    if tyi is None or Env.types is None:
        return None
    t = Env.types[tyi]
    if t['k'] == 'int':
        b = t['bits']
        if t['signed']:
            return (-(1 << (b - 1)), (1 << (b - 1)) - 1)
        return (0, (1 << b) - 1)
    if t['k'] == 'char':
        return (0, 0x10ffff)
    if t['k'] == 'bool':
        return (0, 1)
    return None


def atom_range(t, depth=0):
    op = t.op
    if op == 'len':
        return (0, BOUND_LEN)
    if op in ('lv', 'first', 'argmin', 'argmax'):
        return (0, BOUND_LEN)
    if op == 'byte':
        return (0, 255)
    if op == 'le_u' or op == 'be_u':
        return (0, (1 << t.a[0]) - 1)
    if op == 'id':
        return (0, BOUND_LEN)
    if op == 'maplen':
        return (0, BOUND_LEN)
    if op == 'div':
        r = prange(t.a[0], depth + 1)
        c = cval(t.a[1])
        if c and c > 0:
            def tr(x):
                if x is None:
                    return None
                return -((-x) // c) if x < 0 else x // c
            return (tr(r[0]), tr(r[1]))
        rq = prange(t.a[1], depth + 1)
        if r[0] is not None and r[0] >= 0 and rq[0] is not None and rq[0] >= 1:
            return (0, r[1])
        if r[0] is not None and r[1] is not None:
            m = max(abs(r[0]), abs(r[1]))
            return (-m, m)
        return (None, None)
    if op == 'rem':
        c = cval(t.a[1])
        r = prange(t.a[0], depth + 1)
        if c:
            lo = 0 if (r[0] is not None and r[0] >= 0) else -(abs(c) - 1)
            return (lo, abs(c) - 1)
    if op == 'abs':
        r = prange(t.a[0], depth + 1)
        if r[0] is None or r[1] is None:
            return (0, None)
        return (0, max(abs(r[0]), abs(r[1])))
    if op in ('min', 'max'):
        rs = [prange(x, depth + 1) for x in t.a]
        f = min if op == 'min' else max
        lo = None if any(r[0] is None for r in rs) else f(r[0] for r in rs)
        hi = None if any(r[1] is None for r in rs) else f(r[1] for r in rs)
        if op == 'min':
            hs = [r[1] for r in rs if r[1] is not None]
            hi = min(hs) if hs else None
        else:
            ls = [r[0] for r in rs if r[0] is not None]
            lo = max(ls) if ls else None
        return (lo, hi)
    if op == 'acc':
        init, n, k, cases = t.a[0], t.a[1], t.a[2], t.a[3]
        r = prange(init, depth + 1)
        lo, hi = 0, 0
        for g, f in cases:
            rf = step_range(f, k, depth + 1)
            lo = None if lo is None or rf[0] is None else min(lo, rf[0])
            hi = None if hi is None or rf[1] is None else max(hi, rf[1])
        lo = None if lo is None or r[0] is None else r[0] + lo * BOUND_LEN
        hi = None if hi is None or r[1] is None else r[1] + hi * BOUND_LEN
        return (lo, hi)
    if op == 'cast':
        rr = int_range(t.ty)
        if rr:
            return rr
    if op == 'ite':
        a = prange(t.a[1], depth + 1)
        b = prange(t.a[2], depth + 1)
        return (None if a[0] is None or b[0] is None else min(a[0], b[0]),
                None if a[1] is None or b[1] is None else max(a[1], b[1]))
    r = int_range(t.ty)
    if t.info and isinstance(t.info, dict) and 'range' in t.info:
        q = t.info['range']
        if r:
            return (max(r[0], q[0]), min(r[1], q[1]))
        return q
    if r:
        return r
    return (None, None)


def step_range(f, k, depth=0):
    """range of one iteration's contribution, amortised: an inner sum over the
    elements of a collection owned by element k of the outer collection counts
    each of those elements once overall, so only its per-element range matters"""
    if f.op != 'poly':
        return prange(f, depth)
    lo, hi = 0, 0
    for m, c in f.a[0]:
        r = None
        if len(m) == 1 and m[0].op == 'acc' and any(x.op == 'len' and k in x.vars for x in patoms(m[0].a[1])):
            at = m[0]
            l2, h2 = 0, 0
            for g, ff in at.a[3]:
                rf = step_range(ff, at.a[2], depth + 1)
                l2 = None if l2 is None or rf[0] is None else min(l2, rf[0])
                h2 = None if h2 is None or rf[1] is None else max(h2, rf[1])
            ri = prange(at.a[0], depth + 1)
            r = (None if l2 is None or ri[0] is None else l2 + ri[0], None if h2 is None or ri[1] is None else h2 + ri[1])
        elif len(m) == 1 and m[0].op == 'len' and k in m[0].vars:
            r = (0, 1)
        if r is None:
            r = mono_range(m, depth)
        a, b = r if c >= 0 else (r[1], r[0])
        lo = None if lo is None or a is None else lo + a * c
        hi = None if hi is None or b is None else hi + b * c
    return (lo, hi)


def mono_range(m, depth=0):
    lo, hi = 1, 1
    i = 0
    # squares
    cnt = {}
    for x in m:
        cnt[x] = cnt.get(x, 0) + 1
    for x, n in cnt.items():
        r = atom_range(x, depth)
        for _ in range(n):
            if r[0] is None or r[1] is None:
                if r[0] is not None and r[0] >= 0 and lo is not None and lo >= 0:
                    lo, hi = lo * r[0], None
                    continue
                return (None, None)
            if hi is None:
                if lo is not None and lo >= 0 and r[0] >= 0:
                    lo = lo * r[0]
                    continue
                return (None, None)
            if lo is None:
                return (None, None)
            c = [lo * r[0], lo * r[1], hi * r[0], hi * r[1]]
            lo, hi = min(c), max(c)
        if n % 2 == 0 and len(cnt) == 1 and lo is not None and lo < 0:
            lo = 0
    return (lo, hi)


def prange(p, depth=0):
    if depth > 8:
        return (None, None)
    if p.op != 'poly':
        return atom_range(p, depth)
    lo, hi = 0, 0
    for m, c in p.a[0]:
        r = mono_range(m, depth)
        a, b = r if c >= 0 else (r[1], r[0])
        lo = None if lo is None or a is None else lo + a * c
        hi = None if hi is None or b is None else hi + b * c
    return (lo, hi)


class Facts(object):
    __slots__ = ('np', 'lits', 'ge', 'eq', 'ne', 'bools', 'var', 'nvar', 'cache', 'false')

    def __init__(self):
        self.lits = ()
        self.np = frozenset()
        self.ge = ()
        self.eq = ()
        self.ne = ()
        self.bools = {}
        self.var = {}
        self.nvar = {}
        self.cache = {}
        self.false = False

    def copy(self):
        f = Facts()
        f.lits = self.lits
        f.np = self.np
        f.ge = self.ge
        f.eq = self.eq
        f.ne = self.ne
        f.bools = dict(self.bools)
        f.var = dict(self.var)
        f.nvar = dict(self.nvar)
        f.false = self.false
        return f

    def add(self, b):
        """conjoin literal b; returns self if already known"""
        if b is TRUE or self.false:
            return self
        if b in self.lits:
            return self
        f = self.copy()
        if b is FALSE:
            f.false = True
            return f
        if b.op == 'and':
            r = self
            for x in b.a:
                r = r.add(x)
            return r
        f.lits = self.lits + (b,)
        if b.op == 'ge0':
            f.ge = self.ge + (b.a[0],)
        elif b.op == 'eq0':
            f.eq = self.eq + (b.a[0],)
        elif b.op == 'not' and b.a[0].op == 'eq0':
            f.ne = self.ne + (b.a[0].a[0],)
        elif b.op == 'isvar':
            t, i = b.a
            if f.var.get(t, i) != i or i in f.nvar.get(t, ()):
                f.false = True
            f.var[t] = i
        elif b.op == 'not' and b.a[0].op == 'isvar':
            t, i = b.a[0].a
            if f.var.get(t) == i:
                f.false = True
            f.nvar[t] = f.nvar.get(t, frozenset()) | {i}
        elif b.op == 'not':
            if f.bools.get(b.a[0]) is True:
                f.false = True
            f.bools[b.a[0]] = False
        elif b.op == 'or':
            pass
        else:
            if f.bools.get(b) is False:
                f.false = True
            f.bools[b] = True
        return f

    def decide(self, b):
        """True / False / None"""
        if b is TRUE:
            return True
        if b is FALSE:
            return False
        if self.false:
            return True
        r = self.cache.get(b, 0)
        if r != 0:
            return r
        r = self._decide(b)
        self.cache[b] = r
        return r

    def _decide(self, b):
        if b in self.lits:
            return True
        nb = NOT(b)
        if nb in self.lits:
            return False
        if b.op == 'and':
            rs = [self.decide(x) for x in b.a]
            if all(r is True for r in rs):
                return True
            if any(r is False for r in rs):
                return False
            return None
        if b.op == 'or':
            rs = [self.decide(x) for x in b.a]
            if any(r is True for r in rs):
                return True
            if all(r is False for r in rs):
                return False
            return None
        if b.op == 'not':
            r = self.decide(b.a[0])
            return None if r is None else (not r)
        if b.op == 'isvar':
            t, i = b.a
            if t in self.var:
                return self.var[t] == i
            if i in self.nvar.get(t, ()):
                return False
            n = nvariants(t)
            if n and len(self.nvar.get(t, ())) == n - 1:
                return True
            return None
        if b.op == 'ge0':
            return self._lin_ge(b.a[0])
        if b.op == 'eq0':
            p = b.a[0]
            a = self._lin_ge(p)
            if a is False:
                return False
            c = self._lin_ge(pneg(p))
            if c is False:
                return False
            if a is True and c is True:
                return True
            for q in self.ne:
                if q is p or pneg(q) is p:
                    return False
            return None
        if b.op == 'eq':
            x, y = b.a
            r = struct_eq(x, y)
            if r is not None:
                if r is TRUE:
                    return True
                if r is FALSE:
                    return False
                if r is not b:
                    return self.decide(r)
            # equality with a substitution known
        v = self.bools.get(b)
        if v is not None:
            return v
        for o in self.lits:
            if o.op == 'or' and b in o.a:
                rest = [x for x in o.a if x is not b]
                if all(self.decide(x) is False for x in rest):
                    return True
        return None

    def _lin_ge(self, p):
        r = prange(p)
        if r[0] is not None and r[0] >= 0:
            return True
        if r[1] is not None and r[1] < 0:
            return False
        if self.infeasible_with(psub(pneg(p), ONE)):
            return True
        if self.infeasible_with(p):
            return False
        for m, k in p.a[0]:
            if len(m) == 1 and m[0].op in ('min', 'max', 'abs', 'ite'):
                at = m[0]
                if at.op == 'abs':
                    vs = (at.a[0], pneg(at.a[0]))
                    conds = (ge0(at.a[0]), ge0(pneg(at.a[0])))
                elif at.op == 'ite':
                    vs = at.a[1:]
                    conds = (at.a[0], NOT(at.a[0]))
                else:
                    vs = at.a
                    conds = [AND(*[le(v, w) if at.op == 'min' else le(w, v) for w in vs if w is not v]) for v in vs]
                rest = poly({mm: kk for mm, kk in p.a[0] if mm != m})
                rs = set()
                for v, cnd in zip(vs, conds):
                    f = self.add(cnd)
                    if f.false or cnd is FALSE:
                        continue
                    rs.add(f.decide(ge0(padd(rest, pscale(v, k)))))
                if len(rs) == 1:
                    return rs.pop()
                return None
        return None

    def constraints(self, seed):
        """constraints (list of dict mono->coef, meaning >=0) relevant to seed"""
        mono = set(m for m, c in seed.a[0] if m)
        ges = list(self.ge)
        for e in self.eq:
            ges.append(e)
            ges.append(pneg(e))
        used = []
        rem = [(g, set(m for m, c in g.a[0] if m)) for g in ges]
        done_div = set()
        changed = True
        while changed:
            changed = False
            nr = []
            for g, ms in rem:
                if ms & mono:
                    used.append(g)
                    mono |= ms
                    changed = True
                else:
                    nr.append((g, ms))
            rem = nr
            for m in list(mono):
                for at in m:
                    if at in done_div:
                        continue
                    done_div.add(at)
                    for g in atom_facts(at):
                        ms = set(x for x, c in g.a[0] if x)
                        rem.append((g, ms))
                        changed = True
        return used, mono

    def infeasible_with(self, p):
        used, mono = self.constraints(p)
        if len(used) > 120:
            used = used[-120:]
        cons = [pd(g) for g in used] + [pd(p)]
        for m in mono:
            lo, hi = mono_range(m)
            if lo is not None:
                cons.append({m: 1, (): -lo})
            if hi is not None:
                cons.append({m: -1, (): hi})
        return fm_infeasible(cons)

    def infeasible(self):
        """is the whole conjunction contradictory?"""
        if self.false:
            return True
        r = self.cache.get('inf')
        if r is not None:
            return r
        r = False
        for g in self.ge:
            x = prange(g)
            if x[1] is not None and x[1] < 0:
                r = True
        if not r:
            for g in self.ge[-3:]:
                if self.infeasible_with(g):
                    r = True
                    break
            for g in self.eq[-3:]:
                if r:
                    break
                if self.infeasible_with(g) or self.infeasible_with(pneg(g)):
                    r = True
        if not r:
            for q in self.ne:
                if self._lin_ge(q) is True and self._lin_ge(pneg(q)) is True:
                    r = True
                    break
        self.cache['inf'] = r
        return r


NV = {}


def nvariants(t):
    """number of variants of the enum-typed term t, if known"""
    tyi = t.ty
    if tyi is None or Env.types is None:
        return None
    ty = Env.types[tyi]
    while ty['k'] == 'ref':
        return None
    if ty['k'] == 'adt':
        a = Env.adts.get(ty['name'])
        if a and a['kind'] == 'enum':
            return len(a['variants'])
    return None


def atom_facts(at):
    """linear facts that hold of an atom by definition"""
    out = []
    if at.op == 'div':
        p, q = at.a
        c = cval(q)
        if c and c > 0:
            r = prange(p)
            if r[0] is not None and r[0] >= 0:
                d = atom(at)
                out.append(psub(p, pscale(d, c)))
                out.append(psub(padd(pscale(d, c), I(c - 1)), p))
    elif at.op == 'rem':
        p, q = at.a
        c = cval(q)
        r = prange(p)
        if c and c > 0 and r[0] is not None and r[0] >= 0:
            d = atom(mk('div', p, q))
            e = psub(psub(p, pscale(d, c)), atom(at))
            out.append(e)
            out.append(pneg(e))
    elif at.op in ('argmin', 'argmax'):
        # only used where the sequence is not empty
        out.append(psub(psub(at.a[0], ONE), atom(at)))
    elif at.op == 'min':
        for x in at.a:
            out.append(psub(x, atom(at)))
    elif at.op == 'max':
        for x in at.a:
            out.append(psub(atom(at), x))
    elif at.op == 'abs':
        out.append(psub(atom(at), at.a[0]))
        out.append(padd(atom(at), at.a[0]))
    if at.info and isinstance(at.info, dict):
        out.extend(at.info.get('facts', ()))
    return out


def fm_infeasible(cons, cap=700):
    """cons: list of dict mono->int coef (>=0).  True if provably infeasible."""
    cs = set()
    for c in cons:
        r = _norm(c)
        if r is False:
            return True
        if r is not None:
            cs.add(r)
    steps = 0
    while True:
        vs = {}
        for c in cs:
            for m, k in c:
                if m == ():
                    continue
                a = vs.setdefault(m, [0, 0])
                a[0 if k > 0 else 1] += 1
        if not vs:
            return False
        # drop one-sided vars
        best = None
        for m, (p, n) in vs.items():
            cost = p * n - p - n
            if best is None or cost < best[0]:
                best = (cost, m)
        m = best[1]
        pos, neg, rest = [], [], []
        for c in cs:
            k = 0
            for mm, kk in c:
                if mm == m:
                    k = kk
            (pos if k > 0 else neg if k < 0 else rest).append((c, k))
        new = set(c for c, k in rest)
        for c1, k1 in pos:
            for c2, k2 in neg:
                d = {}
                for mm, kk in c1:
                    d[mm] = d.get(mm, 0) + kk * (-k2)
                for mm, kk in c2:
                    d[mm] = d.get(mm, 0) + kk * k1
                r = _norm(d)
                if r is False:
                    return True
                if r is not None:
                    new.add(r)
        if len(new) > cap:
            return False
        cs = new
        steps += 1
        if steps > 60:
            return False


def _norm(d):
    from math import gcd
    g = 0
    const = 0
    items = []
    for m, c in d.items():
        if c == 0:
            continue
        if m == ():
            const = c
        else:
            g = gcd(g, abs(c))
            items.append((m, c))
    if not items:
        return False if const < 0 else None
    if g > 1:
        items = [(m, c // g) for m, c in items]
        const = const // g
    if const:
        items.append(((), const))
    return frozenset(items)


# ------------------------------------------------------- structural equality
def struct_eq(x, y):
    """boolean term for x == y on values, or None when it stays symbolic"""
    if x is y:
        return TRUE
    if x.op == 'poly' and y.op == 'poly':
        return eq0(psub(x, y))
    if x.op == 'agg' and y.op == 'agg' and x.a[0] == y.a[0]:
        if x.a[1] != y.a[1]:
            return FALSE
        r = TRUE
        for a, b in zip(x.a[2:], y.a[2:]):
            r = AND(r, EQ(a, b))
        return r
    if x.op == 'tup' and y.op == 'tup' and len(x.a) == len(y.a):
        r = TRUE
        for a, b in zip(x.a, y.a):
            r = AND(r, EQ(a, b))
        return r
    if x.op == 'agg' and len(x.a) == 2:
        return isvar(y, x.a[1])
    if y.op == 'agg' and len(y.a) == 2:
        return isvar(x, y.a[1])
    if x.op == 'agg' and x.a[0] == OPTION and x.a[1] == 1 and y.op != 'agg':
        f = mk('fld', y, 1, 0)
        if f.ty is None:
            f.ty = x.a[2].ty
        return AND(isvar(y, 1), EQ(x.a[2], atom(f) if x.a[2].op == 'poly' else f))
    if y.op == 'agg' and y.a[0] == OPTION and x.op != 'agg':
        return struct_eq(y, x)
    if x is NULL and y.op == 'ref' or y is NULL and x.op == 'ref':
        return FALSE
    if x.op == 'ref' and y.op == 'ref':
        if x.a[0] != y.a[0]:
            if isinstance(x.a[0], int) and isinstance(y.a[0], int):
                return FALSE
            return None
        if len(x.a[1]) == len(y.a[1]):
            r = TRUE
            for p, q in zip(x.a[1], y.a[1]):
                if p[0] != q[0]:
                    return None
                if p[0] == 'i':
                    r = AND(r, eq0(psub(p[1], q[1])))
                elif p != q:
                    return FALSE
            return r
    if x.op in ('true', 'false'):
        return y if x is TRUE else NOT(y)
    if y.op in ('true', 'false'):
        return x if y is TRUE else NOT(x)
    return None


def EQ(x, y):
    r = struct_eq(x, y)
    if r is not None:
        return r
    if x.id > y.id:
        x, y = y, x
    return mk('eq', x, y)


REBUILD['eq'] = EQ
