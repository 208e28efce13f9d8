"""Term domain: hash-consed value-numbering terms with polynomial normal form
for integers, a boolean normal form, and a small linear-inequality domain.

Every abstract value the interpreter manipulates is a T.  Integers are always
T('poly', ((monomial, coeff), ...)); monomials are tuples of atom Ts sorted by
creation id.  Equality of values is identity of terms (value numbering)."""
from fractions import Fraction

_TABLE = {}
_NEXT = [0]


class T(object):
    __slots__ = ('op', 'a', 'id', 'ty', 'opaque', 'vars', 'info', 'kids', 'neg')

    def __repr__(self):
        return show(self)


def mk(op, *a):
    key = (op, a)
    t = _TABLE.get(key)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        _NEXT[0] += 1
        t.id = _NEXT[0]
        t.ty = None
        t.info = None
        opq = op == 'opaque'
        vs = None
        t.neg = None
        t.kids = tuple(_kids(a))
        for x in t.kids:
            if x.opaque:
                opq = True
            if x.vars:
                vs = x.vars if vs is None else (vs if x.vars <= vs else vs | x.vars)
        t.opaque = opq
        if op in ('lv', 'phi', 'mphi'):
            t.vars = frozenset([t])
        else:
            t.vars = vs or frozenset()
        _TABLE[key] = t
    return t


def _kids(a):
    for x in a:
        if isinstance(x, T):
            yield x
        elif isinstance(x, tuple):
            for y in _kids(x):
                yield y


# ---------------------------------------------------------------- integers
def poly(d):
    items = tuple(sorted(((m, c) for m, c in d.items() if c != 0), key=lambda mc: [x.id for x in mc[0]]))
    return mk('poly', items)


def I(n):
    return mk('poly', (((), n),) if n else ())


ZERO = I(0)
ONE = I(1)


def atom(t):
    """integer value denoted by an atom term"""
    if t.op == 'poly':
        return t
    return mk('poly', (((t,), 1),))


def pd(p):
    return dict(p.a[0])


def is_int(t):
    return t.op == 'poly'


def cval(p):
    """constant value or None"""
    if p.op != 'poly':
        return None
    it = p.a[0]
    if not it:
        return 0
    if len(it) == 1 and it[0][0] == ():
        return it[0][1]
    return None


def padd(a, b):
    d = pd(a)
    for m, c in b.a[0]:
        d[m] = d.get(m, 0) + c
    return poly(d)


def pneg(a):
    return poly({m: -c for m, c in a.a[0]})


def psub(a, b):
    return padd(a, pneg(b))


def pmul(a, b):
    d = {}
    for m1, c1 in a.a[0]:
        for m2, c2 in b.a[0]:
            m = tuple(sorted(m1 + m2, key=lambda x: x.id))
            d[m] = d.get(m, 0) + c1 * c2
    return poly(d)


def pscale(a, k):
    return poly({m: c * k for m, c in a.a[0]})


def patoms(p):
    s = set()
    for m, c in p.a[0]:
        s.update(m)
    return s


def as_atom(p):
    """the single atom of p if p is exactly one atom, else None"""
    if p.op == 'poly':
        it = p.a[0]
        if len(it) == 1 and it[0][1] == 1 and len(it[0][0]) == 1:
            return it[0][0][0]
        return None
    return p


# ---------------------------------------------------------------- booleans
TRUE = mk('true')
FALSE = mk('false')


def _ite_split(p, f):
    """a comparison of a choice between constants is a formula"""
    for m, c in p.a[0]:
        if len(m) == 1 and m[0].op == 'ite' and _const_ite(m[0]):
            t = m[0]
            rest = psub(p, pscale(atom(t), c))
            a = f(padd(rest, pscale(atom(t.a[1]), c)))
            b = f(padd(rest, pscale(atom(t.a[2]), c)))
            if a is b:
                return a
            return OR(AND(t.a[0], a), AND(NOT(t.a[0]), b))
    return None


def _const_ite(t):
    for x in t.a[1:]:
        if x.op == 'poly':
            if cval(x) is not None:
                continue
            x = as_atom(x)
            if x is None:
                return False
        if x.op != 'ite' or not _const_ite(x):
            return False
    return True


def ge0(p):
    c = cval(p)
    if c is not None:
        return TRUE if c >= 0 else FALSE
    x = _ite_split(p, ge0)
    if x is not None:
        return x
    # integer tightening by gcd of coefficients
    from math import gcd
    g = 0
    k = 0
    for m, c in p.a[0]:
        if m == ():
            k = c
        else:
            g = gcd(g, abs(c))
    if g > 1:
        d = {m: c // g for m, c in p.a[0] if m != ()}
        d[()] = k // g
        p = poly(d)
    return mk('ge0', p)


def eq0(p):
    c = cval(p)
    if c is not None:
        return TRUE if c == 0 else FALSE
    x = _ite_split(p, eq0)
    if x is not None:
        return x
    # sign-normalise
    if p.a[0][0 if p.a[0][0][0] != () else 1][1] < 0:
        p = pneg(p)
    return mk('eq0', p)


def NOT(b):
    r = b.neg
    if r is None:
        r = b.neg = _not(b)
    return r


def _not(b):
    if b is TRUE:
        return FALSE
    if b is FALSE:
        return TRUE
    if b.op == 'not':
        return b.a[0]
    if b.op == 'ge0':
        return ge0(psub(pneg(b.a[0]), ONE))
    if b.op == 'and':
        return OR(*[NOT(x) for x in b.a])
    if b.op == 'or':
        return AND(*[NOT(x) for x in b.a])
    return mk('not', b)


def AND(*bs):
    s = []
    for b in bs:
        if b is FALSE:
            return FALSE
        if b is TRUE:
            continue
        for x in (b.a if b.op == 'and' else (b,)):
            if x not in s:
                s.append(x)
    if not s:
        return TRUE
    for x in s:
        if NOT(x) in s:
            return FALSE
    if len(s) == 1:
        return s[0]
    return mk('and', *sorted(s, key=lambda x: x.id))


def OR(*bs):
    s = []
    for b in bs:
        if b is TRUE:
            return TRUE
        if b is FALSE:
            continue
        for x in (b.a if b.op == 'or' else (b,)):
            if x not in s:
                s.append(x)
    if not s:
        return FALSE
    for x in list(s):
        # p == 0 or p >= 1 is p >= 0
        if x.op == 'eq0' and len(s) > 1:
            p = x.a[0]
            for q in (p, pneg(p)):
                y = mk('ge0', psub(q, ONE))
                if y in s:
                    s.remove(y)
                    if x in s:
                        s.remove(x)
                    y = ge0(q)
                    if y is TRUE:
                        return TRUE
                    if y not in s:
                        s.append(y)
                    break
    for x in s:
        if NOT(x) in s:
            return TRUE
    if len(s) == 1:
        return s[0]
    return mk('or', *sorted(s, key=lambda x: x.id))


def lt(a, b):
    return ge0(psub(psub(b, a), ONE))


def le(a, b):
    return ge0(psub(b, a))


def isvar(t, i):
    if t.op == 'agg':
        return TRUE if t.a[1] == i else FALSE
    if t.op == 'ite':
        a, b = isvar(t.a[1], i), isvar(t.a[2], i)
        if a is b:
            return a
        return OR(AND(t.a[0], a), AND(NOT(t.a[0]), b))
    return mk('isvar', t, i)


def ite(c, a, b):
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    r = mk('ite', c, a, b)
    if r.ty is None:
        r.ty = a.ty if a.op != 'poly' else b.ty
    return r


REBUILD_ITE = ite


# --------------------------------------------------------- other values
def agg(adt, v, *fs):
    return mk('agg', adt, v, *fs)


def tup(*fs):
    return mk('tup', *fs)


UNIT = tup()
NULL = mk('null')
OPTION = 'std::option::Option'
RESULT = 'std::result::Result'


def none():
    return agg(OPTION, 0)


def some(v):
    return agg(OPTION, 1, v)


def ok(v):
    return agg(RESULT, 0, v)


def err(v):
    return agg(RESULT, 1, v)


def ref(obj, path=()):
    if isinstance(obj, tuple) and obj[0] == 'D' and not path:
        return obj[1]
    return mk('ref', obj, path)


# --------------------------------------------------------- substitution
def subst(t, m, cache=None):
    """replace atoms per m (dict T -> T); integer atoms map to polys."""
    if not m:
        return t
    if cache is None:
        cache = {}
    # what a term without these variables cannot contain any of m
    own, oth = set(), set()
    for k in m:
        if k.op in ('lv', 'phi', 'mphi'):
            own.add(k)
        elif k.vars:
            oth.add(k.vars)
        else:
            own = None
            break
    return _subst(t, m, None if own is None else (own, tuple(oth)), cache)


REBUILD = {}


def _sub_any(x, m, keys, cache):
    if isinstance(x, T):
        return _subst(x, m, keys, cache)
    if isinstance(x, tuple):
        return tuple(_sub_any(y, m, keys, cache) for y in x)
    return x


def small(t, n):
    """has t at most n different subterms?"""
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if len(seen) > n:
            return False
        st.extend(x.kids)
    return True


def mentions(t, keys):
    """does t contain any of keys (a set of Ts)?"""
    st = [t]
    seen = set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x in keys:
            return True
        st.extend(x.kids)
    return False


def _subst(t, m, keys, cache):
    r = m.get(t)
    if r is not None:
        return r
    if keys is not None:
        vs = t.vars
        if keys[0].isdisjoint(vs):
            for k in keys[1]:
                if k <= vs:
                    break
            else:
                return t
    r = cache.get(t)
    if r is not None:
        return r
    if t.op == 'poly':
        new = {}
        for mono, c in t.a[0]:
            for at in mono:
                na = _subst(at, m, keys, cache)
                if na is not at:
                    new[at] = na
        if new:
            acc = ZERO
            for mono, c in t.a[0]:
                cur = I(c)
                for at in mono:
                    cur = pmul(cur, atom(new.get(at, at)))
                acc = padd(acc, cur)
            r = acc
        else:
            r = t
    else:
        na = tuple(_sub_any(x, m, keys, cache) for x in t.a)
        if all(x is y for x, y in zip(na, t.a)) or na == t.a:
            r = t
        else:
            f = REBUILD.get(t.op)
            if f is not None:
                r = f(*na)
            else:
                r = mk(t.op, *na)
            if isinstance(r, T) and r.ty is None:
                r.ty = t.ty
            if isinstance(r, T) and r.info is None:
                r.info = t.info
    cache[t] = r
    return r


REBUILD['ge0'] = ge0
REBUILD['eq0'] = eq0
REBUILD['not'] = NOT
REBUILD['and'] = AND
REBUILD['or'] = OR
REBUILD['isvar'] = isvar
REBUILD['ite'] = ite
REBUILD['ref'] = lambda o, p: ref(o, p)


def subterms(t):
    st = [t]
    seen = set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        st.extend(x.kids)


# --------------------------------------------------------- display
def _sh(x, d):
    if isinstance(x, T):
        return show(x, d)
    if isinstance(x, tuple):
        return '(' + ','.join(_sh(y, d) for y in x) + ')'
    return str(x)


def show(t, d=0):
    if d > 14:
        return '…'
    if t.op == 'poly':
        if not t.a[0]:
            return '0'
        out = []
        for m, c in t.a[0]:
            s = '*'.join(show(x, d + 1) for x in m)
            if not m:
                s = str(c)
            elif c == -1:
                s = '-' + s
            elif c != 1:
                s = '%d*%s' % (c, s)
            out.append(s)
        return '+'.join(out).replace('+-', '-') if len(out) > 1 else out[0]
    if t.op == 'sym':
        return str(t.a[0])
    if t.op == 'lv':
        return 'k%s' % t.a[0]
    if t.op == 'fld':
        return '%s.%s%s' % (show(t.a[0], d + 1), ('%d.' % t.a[1]) if t.a[1] else '', t.a[2])
    if t.op == 'elem':
        return '%s[%s]' % (show(t.a[0], d + 1), show(t.a[1], d + 1))
    if t.op == 'deref':
        return '*%s' % show(t.a[0], d + 1)
    if t.op == 'len':
        return 'len(%s)' % show(t.a[0], d + 1)
    if t.op == 'ge0':
        return '%s>=0' % show(t.a[0], d + 1)
    if t.op == 'eq0':
        return '%s==0' % show(t.a[0], d + 1)
    if t.op == 'not':
        return '!(%s)' % show(t.a[0], d + 1)
    if t.op == 'isvar':
        return '%s is#%s' % (show(t.a[0], d + 1), t.a[1])
    if t.op == 'tup':
        return '(' + ','.join(_sh(x, d + 1) for x in t.a) + ')'
    if t.op == 'agg':
        return '%s#%s{%s}' % (t.a[0].split('::')[-1], t.a[1], ','.join(_sh(x, d + 1) for x in t.a[2:]))
    return t.op + '(' + ','.join(_sh(x, d + 1) for x in t.a) + ')'


def pidx(p):
    """the index of what the pointer p points to in the allocation it points into"""
    if p.op == 'rawp' and len(p.a[1]) == 1 and p.a[1][0][0] == 'i':
        return p.a[1][0][1]
    if p.op == 'ite':
        a, b = pidx(p.a[1]), pidx(p.a[2])
        return a if a is b else atom(mk('ite', p.a[0], a, b))
    return atom(mk('pidx', p))


REBUILD['pidx'] = lambda p: as_atom(pidx(p)) or pidx(p)
