"""Models of the standard-library and third-party calls the crate makes.

A model returns a list of (state, value) outcomes, or None when the callee is
unknown (the interpreter then havocs).  Iterators are values: a random-access
view plus a position, or a lazy adaptor around one."""
import re
from terms import *
from facts import *
from seqs import *
import interp
from interp import Imprecise, i2f

ORD = 'std::cmp::Ordering'
LESS, EQUAL, GREATER = agg(ORD, 0), agg(ORD, 1), agg(ORD, 2)
CF = 'std::ops::ControlFlow'
TABLE = {}


def reset():
    pass


def model(*names):
    def deco(f):
        for n in names:
            TABLE[n] = f
        return f
    return deco


def strip_generics(s):
    out = []
    d = 0
    i = 0
    while i < len(s):
        c = s[i]
        if c == '<':
            d += 1
        elif c == '>' and not (i and s[i - 1] == '-'):
            d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    return ''.join(out)


def short(path):
    """'core::slice::<impl [T]>::len' -> 'slice::len'; Vec::<T,A>::push -> 'Vec::push'"""
    p = strip_generics(path)
    parts = [x for x in p.split('::') if x]
    return '::'.join(parts[-2:])


class C(object):
    """one call"""
    __slots__ = ('E', 'fr', 'st', 'callee', 'name', 'args', 'ty', 'line', 'm')

    def ret(self, v):
        return [(self.st, v)]

    def oblige(self, cond, kind, st=None, detail=None):
        return self.E.oblige(self.fr, st if st is not None else self.st, cond, kind, self.line, detail)

    def targ(self, i):
        a = self.callee.get('args') or []
        return a[i] if i < len(a) else None


def call(E, fr, st, callee, name, args, ty, line):
    c = C()
    c.E, c.fr, c.st, c.callee, c.name, c.args, c.ty, c.line = E, fr, st.fork(), callee, name, args, ty, line
    path = callee['path']
    c.m = callee.get('method') or short(path).split('::')[-1]
    tr = callee.get('trait')
    key = None
    if tr:
        key = tr.split('::')[-1].split('<')[0] + '::' + c.m
    else:
        key = short(path)
    f = TABLE.get(key) or TABLE.get(short(path)) or TABLE.get('*::' + c.m)
    if f is None:
        return None
    return f(c)


# ------------------------------------------------------------------ helpers
def deref(E, st, p):
    if p.op in ('str', 'textf'):
        return p
    o, pa = E.ptr_loc(st, p)
    return E.load(st, o, pa)


def is_ptr(v):
    return v.op in ('ref', 'rawp')


def ty_of(E, v):
    return E.ty(v.ty) if v.ty is not None else None


def slice_ptr(E, st, p):
    """normalise a pointer to Vec/Box/array/slice to a pointer to its content"""
    if p.op in ('str', 'textf'):
        return p
    o, pa = E.ptr_loc(st, p)
    for _ in range(4):
        v = E.load(st, o, pa)
        if v.op in ('vec', 'box', 'arc'):
            pa = pa + (('c',),)
            continue
        if v.op in ('ref', 'rawp'):
            o, pa = E.ptr_loc(st, v)
            continue
        t = ty_of(E, v)
        if t is not None:
            if t['k'] == 'adt' and t['name'] in ('std::vec::Vec', 'std::boxed::Box', 'std::sync::Arc', 'std::rc::Rc', 'std::string::String'):
                pa = pa + (('c',),)
                continue
            if t['k'] in ('ref', 'ptr'):
                o, pa = ('D', v), ()
                continue
        break
    return ref(o, pa)


def seqof(E, st, p):
    """content (sequence term) a slice-like pointer designates"""
    if p.op in ('str', 'textf'):
        return p
    p = slice_ptr(E, st, p)
    if p.op == 'ref':
        return E.load(st, p.a[0], p.a[1])
    o, pa = E.ptr_loc(st, p)
    return E.load(st, o, pa)


def seqlen(E, st, p):
    if p.op == 'str':
        return I(len(p.a[0].encode('utf8')))
    if p.op == 'textf':
        return seq_len(p)
    p = slice_ptr(E, st, p)
    o, pa = E.ptr_loc(st, p)
    if pa and pa[-1][0] == 'sub':
        return psub(pa[-1][2], pa[-1][1])
    return seq_len(E.load(st, o, pa))


def at(E, st, p, i):
    """pointer to element i of the slice p"""
    p = slice_ptr(E, st, p)
    o, pa = E.ptr_loc(st, p)
    return ref(o, E.norm_path(pa + (('i', i),)))


def subptr(E, st, p, lo, hi):
    p = slice_ptr(E, st, p)
    o, pa = E.ptr_loc(st, p)
    return ref(o, E.norm_path(pa + (('sub', lo, hi),)))


def elem_tyi(E, v):
    t = ty_of(E, v)
    if t is None:
        return None
    if t['k'] in ('ref', 'ptr'):
        t = E.ty(t['to'])
    if 'elem' in t:
        return t['elem']
    if t['k'] == 'adt' and t.get('args'):
        t2 = E.ty(t['args'][0])
        if t['name'] == 'std::boxed::Box' and 'elem' in t2:
            return t2['elem']
        return t['args'][0]
    return None


def cases(E, st, v):
    """split an Option/Result value: [(st, variant, payload)]"""
    if v.op == 'agg':
        return [(st, v.a[1], v.a[2] if len(v.a) > 2 else UNIT)]
    if v.op == 'ite':
        out = []
        for s in st.assume(v.a[0]):
            out.extend(cases(E, s.fork(), v.a[1]))
        for s in st.assume(NOT(v.a[0])):
            out.extend(cases(E, s.fork(), v.a[2]))
        return out
    out = []
    for i in (0, 1):
        for s in st.assume(isvar(v, i)):
            f = E.fld(s, v, i, 0)
            if v.ty is not None:
                t = E.ty(v.ty)
                if t['k'] == 'adt':
                    if t['name'] == OPTION and i == 1:
                        f = E.typed(f, t['args'][0])
                    elif t['name'] == RESULT:
                        f = E.typed(f, t['args'][i])
            out.append((s.fork() if s is st else s, i, f))
    return out


def fork_bool(st, b):
    """[(st, bool)]"""
    out = []
    for s in st.assume(b):
        out.append((s.fork(), True))
    for s in st.assume(NOT(b)):
        out.append((s.fork(), False))
    return out


# ------------------------------------------------------------------ equality
def val_eq(E, fr, st, a, b, tyi, line, d=0):
    """boolean term for a == b (values or references), running local impls"""
    if a is b:
        return TRUE
    t = E.ty(tyi) if tyi is not None else None
    if a.op == 'str' and b.op == 'str':
        return TRUE if a.a[0] == b.a[0] else FALSE
    if t is not None and t['k'] == 'ref':
        return val_eq(E, fr, st, deref(E, st, a), deref(E, st, b), t['to'], line, d + 1)
    if t is not None and t['k'] == 'ptr':
        return EQ(a, b)
    if t is not None and t['k'] == 'adt':
        nm = t['name']
        impl = None
        for k in E.p.impls:
            if k.endswith('as std::cmp::PartialEq>::eq') and strip_generics2(k) == nm:
                impl = k
        if impl:
            s = st.fork()
            oa, ob = E.newobj(s, a), E.newobj(s, b)
            outs = E.run_fn(impl, s, [ref(oa), ref(ob)], (fr.key, line))
            outs = E.merge_outs(s, outs)
            f = FALSE
            base = set(st.facts.lits)
            if len(outs) == 1:
                return outs[0][1]
            for s2, v in outs:
                f = OR(f, AND(v, *[l for l in s2.facts.lits if l not in base]))
            return interp.simplify_bool(f)
        if nm in ('std::vec::Vec', 'std::boxed::Box', 'std::sync::Arc'):
            ca = a.a[0] if a.op in ('vec', 'box', 'arc') else mk('deref', a)
            cb = b.a[0] if b.op in ('vec', 'box', 'arc') else mk('deref', b)
            et = E.ty(t['args'][0])
            ei = et.get('elem', t['args'][0]) if nm == 'std::boxed::Box' else t['args'][0]
            if nm != 'std::vec::Vec' and 'elem' not in et:
                return val_eq(E, fr, st, ca, cb, t['args'][0], line, d + 1)
            return seq_eq(E, fr, st, ca, cb, ei, line)
        if nm == OPTION:
            f = FALSE
            fa, fb = opt_parts(E, a, t['args'][0]), opt_parts(E, b, t['args'][0])
            return OR(AND(NOT(fa[0]), NOT(fb[0])),
                      AND(fa[0], fb[0], val_eq(E, fr, st, fa[1], fb[1], t['args'][0], line, d + 1) if fa[1] is not None and fb[1] is not None else FALSE))
        for x, y in ((a, b), (b, a)):
            if x.op == 'iokind' and y.op == 'agg' and len(y.a) == 2:
                return isvar(x, y.a[1])
        return EQ(a, b)
    if t is not None and t['k'] in ('slice', 'array'):
        return seq_eq(E, fr, st, a, b, t['elem'], line)
    if t is not None and t['k'] == 'tuple':
        r = TRUE
        for i, x in enumerate(t['elems']):
            r = AND(r, val_eq(E, fr, st, E.typed(E.proj(st, a, ('f', i)), x), E.typed(E.proj(st, b, ('f', i)), x), x, line, d + 1))
        return r
    if is_ptr(a) and is_ptr(b):
        return val_eq(E, fr, st, deref(E, st, a), deref(E, st, b), None, line, d + 1)
    return EQ(a, b)


def strip_generics2(k):
    """'<geo::Point as std::cmp::PartialEq>::eq' -> 'geo::Point'"""
    m = re.match(r'<([\w:]+)(<.*>)? as ', k)
    return m.group(1) if m else None


def opt_parts(E, v, ti):
    if v.op == 'agg':
        return (TRUE if v.a[1] == 1 else FALSE), (v.a[2] if v.a[1] == 1 else None)
    f = mk('fld', v, 1, 0)
    return isvar(v, 1), E.typed(f, ti)


def seq_eq(E, fr, st, a, b, ei, line):
    if canon(a) is canon(b):
        return TRUE
    xa, xb = explode(a), explode(b)
    if xa is not None and xb is not None:
        if len(xa) != len(xb):
            return FALSE
        r = TRUE
        for x, y in zip(xa, xb):
            r = AND(r, val_eq(E, fr, st, x, y, ei, line))
        return r
    if a.id > b.id:
        a, b = b, a
    return mk('seqeq', a, b)


@model('PartialEq::eq', 'PartialEq::ne')
def m_eq(c):
    ti = c.targ(0)
    b = val_eq(c.E, c.fr, c.st, deref(c.E, c.st, c.args[0]), deref(c.E, c.st, c.args[1]), ti, c.line)
    return c.ret(b if c.m == 'eq' else NOT(b))


# ------------------------------------------------------------------ ordering
UNORD = agg(ORD, 9)


def do_cmp(E, fr, st, a, b, tyi, line, d=0, partial=False):
    """compare values: [(st, Ordering)]; `partial`: as the operators and sorting do"""
    t = E.ty(tyi) if tyi is not None else None
    if t is not None and t['k'] == 'ref':
        return do_cmp(E, fr, st, deref(E, st, a), deref(E, st, b), t['to'], line, d + 1, partial)
    if t is not None and t['k'] == 'adt':
        impl = None
        for suffix in ('as std::cmp::Ord>::cmp', 'as std::cmp::PartialOrd>::partial_cmp')[::-1 if partial else 1]:
            for k in E.p.impls:
                if k.endswith(suffix) and strip_generics2(k) == t['name']:
                    impl = k
            if impl:
                break
        if impl:
            s = st.fork()
            oa, ob = E.newobj(s, a), E.newobj(s, b)
            outs = E.run_fn(impl, s, [ref(oa), ref(ob)], (fr.key, line))
            res = []
            for s2, v in outs:
                if v.op == 'agg' and v.a[0] == OPTION:
                    v = v.a[2] if v.a[1] == 1 else UNORD if partial else EQUAL
                res.append((s2, v))
            return res
    if t is not None and t['k'] == 'tuple':
        outs = []
        cur = [st]
        for i, x in enumerate(t['elems']):
            nxt = []
            for s in cur:
                for s2, v in do_cmp(E, fr, s, E.typed(E.proj(s, a, ('f', i)), x), E.typed(E.proj(s, b, ('f', i)), x), x, line, d + 1, partial):
                    if v is EQUAL:
                        nxt.append(s2)
                    else:
                        outs.append((s2, v))
            cur = nxt
        return outs + [(s, EQUAL) for s in cur]
    if t is not None and t['k'] == 'int':
        a, b = E.typed(a, tyi), E.typed(b, tyi)
    if a.op != 'poly' or b.op != 'poly':
        if is_ptr(a) and is_ptr(b):
            return do_cmp(E, fr, st, deref(E, st, a), deref(E, st, b), None, line, d + 1, partial)
        return [(st, E.opaque('cmp'))]
    out = []
    for cond, v in ((lt(a, b), LESS), (eq0(psub(a, b)), EQUAL), (lt(b, a), GREATER)):
        for s in st.assume(cond):
            out.append((s.fork(), v))
    return out


@model('Ord::cmp', 'PartialOrd::partial_cmp')
def m_cmp(c):
    outs = do_cmp(c.E, c.fr, c.st, deref(c.E, c.st, c.args[0]), deref(c.E, c.st, c.args[1]), c.targ(0), c.line, 0, c.m == 'partial_cmp')
    if c.m == 'partial_cmp':
        outs = [(s, none() if v is UNORD else some(v)) for s, v in outs]
    return outs


@model('PartialOrd::lt', 'PartialOrd::le', 'PartialOrd::gt', 'PartialOrd::ge')
def m_lt(c):
    a, b = deref(c.E, c.st, c.args[0]), deref(c.E, c.st, c.args[1])
    ti = c.targ(0)
    if ti is not None and c.E.ty(ti)['k'] == 'int':
        a, b = c.E.typed(a, ti), c.E.typed(b, ti)
    if a.op == 'poly' and b.op == 'poly':
        return c.ret({'lt': lt(a, b), 'le': le(a, b), 'gt': lt(b, a), 'ge': le(b, a)}[c.m])
    outs = do_cmp(c.E, c.fr, c.st, a, b, c.targ(0), c.line, 0, True)
    want = {'lt': (LESS,), 'le': (LESS, EQUAL), 'gt': (GREATER,), 'ge': (GREATER, EQUAL)}[c.m]
    res = [(s, (TRUE if v in want else FALSE) if v.op == 'agg' else c.E.opaque('lt')) for s, v in outs]
    return c.E.merge_outs(c.st, clean(c.st, res))


def clean(st0, outs):
    """forget scratch objects created while comparing"""
    res = []
    for s, v in outs:
        s = s.fork()
        for o in list(s.mem):
            if o not in st0.mem and isinstance(o, int):
                del s.mem[o]
        res.append((s, v))
    return res


@model('Ordering::reverse')
def m_ordrev(c):
    v = c.args[0]
    if v.op == 'agg':
        return c.ret(agg(ORD, 2 - v.a[1]))
    return None


@model('Ordering::then', 'Ordering::then_with')
def m_then(c):
    v = c.args[0]
    if v.op != 'agg':
        return None
    if v is not EQUAL:
        return c.ret(v)
    if c.m == 'then':
        return c.ret(c.args[1])
    return c.E.call_value(c.fr, c.st, c.args[1], [], c.line)


@model('Ordering::is_lt', 'Ordering::is_le', 'Ordering::is_gt', 'Ordering::is_ge', 'Ordering::is_eq', 'Ordering::is_ne')
def m_ordis(c):
    v = c.args[0]
    if v.op != 'agg':
        return None
    i = v.a[1]
    r = {'is_lt': i == 0, 'is_le': i <= 1, 'is_gt': i == 2, 'is_ge': i >= 1, 'is_eq': i == 1, 'is_ne': i != 1}[c.m]
    return c.ret(TRUE if r else FALSE)


@model('cmp::min', 'cmp::max', 'Ord::min', 'Ord::max')
def m_minmax(c):
    a, b = c.args
    if a.op == 'poly' and b.op == 'poly':
        op = c.m
        r = c.st.facts.decide(le(a, b))
        if r is not None:
            return c.ret(a if (r == (op == 'min')) else b)
        x, y = (a, b) if a.id < b.id else (b, a)
        return c.ret(atom(mk(op, x, y)))
    outs = do_cmp(c.E, c.fr, c.st, a, b, c.targ(0), c.line)
    res = []
    for s, v in outs:
        if v.op != 'agg':
            return None
        if c.m == 'min':
            res.append((s, b if v is GREATER else a))
        else:
            res.append((s, a if v is GREATER else b))
    return clean(c.st, res)


@model('Ord::clamp')
def m_clamp(c):
    a, lo, hi = c.args
    if a.op != 'poly':
        return None
    x = sorted((a, lo), key=lambda t: t.id)
    m = atom(mk('max', *x))
    y = sorted((m, hi), key=lambda t: t.id)
    return c.ret(atom(mk('min', *y)))


# ------------------------------------------------------------------ integers
def impl_ty(path):
    m = re.search(r'<impl (\w+)>', path)
    return m.group(1) if m else None


def rng_of(path):
    n = impl_ty(path)
    if not n or n[0] not in 'iu':
        return None
    b = 64 if n[1:] == 'size' else int(n[1:])
    return (-(1 << (b - 1)), (1 << (b - 1)) - 1) if n[0] == 'i' else (0, (1 << b) - 1)


def num_model(c):
    m = c.m
    path = c.callee['path']
    r = rng_of(path)
    a = c.args[0] if c.args else None
    if m == 'max_value' and r:
        return c.ret(I(r[1]))
    if m == 'min_value' and r:
        return c.ret(I(r[0]))
    if m in ('abs', 'unsigned_abs'):
        if a is None or a.op != 'poly':
            return None
        if cval(a) is not None:
            return c.ret(I(abs(cval(a))))
        if c.st.facts.decide(ge0(a)) is True:
            return c.ret(a)
        x = a if a.a[0][0][1] > 0 else pneg(a)
        return c.ret(atom(mk('abs', x)))
    if m in ('wrapping_abs', 'wrapping_neg', 'saturating_abs', 'saturating_neg') and r and a.op == 'poly':
        ab = m.endswith('abs')
        res = []
        for s in c.st.assume(eq0(psub(a, I(r[0])))) if r[0] < 0 else []:
            res.append((s.fork(), I(r[0] if m[0] == 'w' else r[1])))
        for s in c.st.assume(lt(I(r[0]), a)) if r[0] < 0 else []:
            if not ab:
                res.append((s.fork(), pneg(a)))
            else:
                res += [(s2.fork(), a) for s2 in s.assume(ge0(a))]
                res += [(s2.fork(), pneg(a)) for s2 in s.assume(lt(a, ZERO))]
        return res if r[0] < 0 else None
    if m == 'abs_diff':
        d = psub(a, c.args[1])
        x = d if d.a[0] and d.a[0][0][1] > 0 else pneg(d)
        return c.ret(atom(mk('abs', x)) if cval(x) is None else I(abs(cval(x))))
    if m in ('saturating_sub', 'saturating_add', 'saturating_mul') and r:
        b = c.args[1]
        v = {'sub': psub, 'add': padd, 'mul': pmul}[m[11:]](a, b)
        out = []
        for s in c.st.assume(ge0(psub(v, I(r[0])))):
            for s2 in s.assume(ge0(psub(I(r[1]), v))):
                out.append((s2.fork(), v))
            for s2 in s.assume(lt(I(r[1]), v)):
                out.append((s2.fork(), I(r[1])))
        for s in c.st.assume(lt(v, I(r[0]))):
            out.append((s.fork(), I(r[0])))
        return out
    if m in ('checked_sub', 'checked_add', 'checked_mul') and r:
        b = c.args[1]
        v = {'sub': psub, 'add': padd, 'mul': pmul}[m[8:]](a, b)
        inr = AND(ge0(psub(v, I(r[0]))), ge0(psub(I(r[1]), v)))
        out = [(s.fork(), some(v)) for s in c.st.assume(inr)]
        out += [(s.fork(), none()) for s in c.st.assume(NOT(inr))]
        return out
    if m in ('wrapping_sub', 'wrapping_add', 'wrapping_mul') and r:
        b = c.args[1]
        v = {'sub': psub, 'add': padd, 'mul': pmul}[m[9:]](a, b)
        inr = AND(ge0(psub(v, I(r[0]))), ge0(psub(I(r[1]), v)))
        if c.st.facts.decide(inr) is True:
            return c.ret(v)
        t = mk('wrap', v, r[0], r[1])
        t.ty = c.ty
        return c.ret(atom(t))
    if m in ('from_le_bytes', 'from_be_bytes'):
        n = impl_ty(path)
        xs = explode(a) if a.op in ('seq',) else None
        bits = 64 if n[1:] == 'size' else int(n[1:])
        if xs is None:
            xs = [seq_get(a, I(j), c.st.facts) for j in range(bits // 8)]
        if m == 'from_be_bytes':
            xs = xs[::-1]
        if n[0] == 'f':
            return c.ret(mk('le_f', bits, *xs))
        if n[0] == 'u':
            return c.ret(le_u(bits, xs))
        return None
    if m == 'pow' and cval(c.args[1]) is not None and cval(c.args[1]) < 5:
        v = ONE
        for _ in range(cval(c.args[1])):
            v = pmul(v, a)
        if r:
            inr = AND(ge0(psub(v, I(r[0]))), ge0(psub(I(r[1]), v)))
            return [(s, v) for s in c.oblige(inr, 'Overflow(Mul)')]
        return c.ret(v)
    if m == 'signum' and a.op == 'poly':
        return [(s.fork(), I(k)) for cond, k in ((lt(a, ZERO), -1), (eq0(a), 0), (lt(ZERO, a), 1)) for s in c.st.assume(cond)]
    if m == 'is_negative':
        return c.ret(lt(a, ZERO))
    if m == 'is_positive':
        return c.ret(lt(ZERO, a))
    if m == 'rem_euclid' and cval(c.args[1]) and c.st.facts.decide(ge0(a)) is True:
        return c.ret(c.E.rem(c.st, a, c.args[1]))
    if m in ('is_ascii_digit',):
        return None
    if a is not None and a.op not in ('poly',):
        # float functions
        return c.ret(mk('ff', m, *c.args))
    return None


for _n in ('max_value min_value wrapping_abs wrapping_neg saturating_abs saturating_neg abs unsigned_abs abs_diff saturating_sub saturating_add saturating_mul checked_sub '
           'checked_add checked_mul wrapping_sub wrapping_add wrapping_mul from_le_bytes from_be_bytes pow signum '
           'is_negative is_positive rem_euclid floor ceil round trunc is_nan is_finite is_infinite').split():
    TABLE['num::' + _n] = num_model
    TABLE['f64::' + _n] = num_model
TABLE['f64::max'] = TABLE['f64::min'] = num_model


def le_u(bits, xs):
    if all(cval(x) == 0 for x in xs):
        return ZERO
    return atom(mk('le_u', bits, *xs))


@model('ByteOrder::read_u16', 'ByteOrder::read_u32', 'ByteOrder::read_u64', 'ByteOrder::read_f64', 'ByteOrder::read_f32',
       'ByteOrder::read_i32', 'ByteOrder::read_i16', 'ByteOrder::read_i64')
def m_byteorder(c):
    bits = int(c.m[-2:])
    n = bits // 8
    E = c.E
    self_ty = E.ty(c.targ(0))['name'] if c.targ(0) is not None else c.name
    big = 'BigEndian' in str(self_ty) or 'BigEndian' in c.name
    L = seqlen(E, c.st, c.args[0])
    out = []
    for s in c.oblige(le(I(n), L), 'read past end'):
        sq = seqof(E, s, c.args[0])
        xs = [seq_get(sq, I(j), s.facts) for j in range(n)]
        xs = [E.typed(x, c.ty) if False else (x if x.op == 'poly' else mkbyte(E, x)) for x in xs]
        if big:
            xs = xs[::-1]
        if c.m[5] == 'f':
            v = mk('le_f', bits, *xs)
        elif c.m[5] == 'i':
            v = atom(mk('le_i', bits, *xs))
        else:
            v = le_u(bits, xs)
        out.append((s, v))
    return out


U8 = [None]


def mkbyte(E, x):
    if U8[0] is None:
        for i, t in enumerate(E.p.types):
            if t['k'] == 'int' and t['bits'] == 8 and not t['signed']:
                U8[0] = i
    if x.ty is None:
        x.ty = U8[0]
    return atom(x)


@model('mem::size_of')
def m_sizeof(c):
    return c.ret(atom(mk('sizeofty', c.targ(0))))


@model('mem::swap')
def m_swap(c):
    E, st = c.E, c.st
    (o1, p1), (o2, p2) = E.ptr_loc(st, c.args[0]), E.ptr_loc(st, c.args[1])
    a, b = E.load(st, o1, p1), E.load(st, o2, p2)
    E.store(st, o1, p1, b)
    E.store(st, o2, p2, a)
    return c.ret(UNIT)


@model('mem::replace', 'mem::take')
def m_replace(c):
    E, st = c.E, c.st
    o, p = E.ptr_loc(st, c.args[0])
    a = E.load(st, o, p)
    if c.m == 'take':
        v = default_of(c, c.targ(0))
        if v is None:
            return None
    else:
        v = c.args[1]
    E.store(st, o, p, v)
    return c.ret(a)


def default_of(c, ti):
    t = c.E.ty(ti)
    if t['k'] == 'int':
        return ZERO
    if t['k'] == 'bool':
        return FALSE
    if t['k'] == 'adt' and t['name'] == 'std::vec::Vec':
        return mk('vec', EMPTY, c.E.fresh_alloc(), ZERO)
    if t['k'] == 'adt' and t['name'] == OPTION:
        return none()
    return None


@model('mem::drop')
def m_drop(c):
    return c.ret(UNIT)


@model('Default::default')
def m_default(c):
    v = default_of(c, c.targ(0))
    return None if v is None else c.ret(v)


# ------------------------------------------------------------------ panics, fmt, strings
@model('panicking::panic', 'rt::panic_fmt', 'panicking::panic_fmt', 'rt::begin_panic', 'panicking::panic_display',
       'panicking::panic_explicit', 'panicking::assert_failed', 'panicking::unreachable_display', 'panicking::panic_str_2015')
def m_panic(c):
    c.oblige(FALSE, 'panic')
    return []


MSG = mk('msg')


@model('Argument::new_debug', 'Argument::new_display', 'Arguments::from_str', 'Arguments::new', 'Arguments::new_const', 'Arguments::new_v1',
       'fmt::format', 'hint::must_use')
def m_fmt(c):
    if c.m == 'must_use':
        return c.ret(c.args[0])
    return c.ret(MSG)


@model('Formatter::write_fmt', 'Formatter::write_str', 'Display::fmt', 'Debug::fmt', 'DebugStruct::finish')
def m_write(c):
    return c.ret(c.E.sym('fmt::Result', c.ty))


@model('ToString::to_string', 'From::from', 'Into::into', 'String::as_str', 'ToOwned::to_owned', 'String::from', 'PathBuf::as_path', 'Path::to_path_buf',
       'AsRef::as_ref', 'Borrow::borrow')
def m_conv(c):
    a = c.args[0]
    if a.op in ('str', 'textf'):
        return c.ret(a)
    t = c.E.ty(c.ty) if c.ty is not None else None
    if c.m in ('from', 'into') and t is not None and a.op == 'poly':
        if t['k'] in ('int', 'char'):
            return c.ret(a)
        if t['k'] == 'float':
            return c.ret(i2f(a, t['name']))
    if c.m == 'to_string':
        return c.ret(mk('tostr', deref_all(c.E, c.st, a)))
    if c.m in ('as_str', 'as_path', 'as_ref', 'borrow'):
        return c.ret(a)
    if a is MSG:
        return c.ret(a)
    if t is not None and t['k'] == 'adt':
        if t['name'] in ('std::string::String', 'std::path::PathBuf'):
            return c.ret(deref_all(c.E, c.st, a))
        if t['name'] == 'std::boxed::Box' and a.op in ('vec', 'box'):
            return c.ret(mk('box', a.a[0], c.E.fresh_alloc()))
        if t['name'] == 'std::vec::Vec' and a.op in ('vec', 'box'):
            return c.ret(mk('vec', a.a[0], a.a[1], seq_len(a.a[0])))
        if t['name'] == 'std::boxed::Box' and is_ptr(a):
            s = seqof(c.E, c.st, a)
            return c.ret(mk('box', s, c.E.fresh_alloc()))
        if t['name'] == 'std::sync::Arc':
            return c.ret(mk('arc', a))
        if t['name'] == OPTION:
            return c.ret(some(a))
    if c.m == 'to_owned':
        return c.ret(deref(c.E, c.st, a))
    if c.m in ('from', 'into') and c.targ(0) is not None and c.targ(0) == c.targ(1):
        return c.ret(a)
    return None


def deref_all(E, st, a):
    for _ in range(4):
        if is_ptr(a):
            a = deref(E, st, a)
        else:
            t = ty_of(E, a)
            if t is not None and t['k'] == 'ref' and a.op in ('sym', 'fld', 'elem', 'deref'):
                a = deref(E, st, a)
            else:
                break
    return a


@model('String::new', 'String::with_capacity')
def m_strnew(c):
    return c.ret(mk('str', ''))


@model('String::push', 'String::push_str')
def m_strpush(c):
    E, st = c.E, c.st
    o, p = E.ptr_loc(st, c.args[0])
    E.store(st, o, p, mk('strcat', E.load(st, o, p), deref_all(E, st, c.args[1])))
    return c.ret(UNIT)


# predicates and functions of texts that are not taken apart: equal arguments give equal results
def textarg(c, a):
    """a text or a character to look for; None for a closure"""
    v = deref_all(c.E, c.st, a)
    if v.op in ('closure', 'fnv') or (v.op == 'agg' and 'closure' in str(v.a[0])):
        return None
    t = ty_of(c.E, v)
    if v.op == 'poly' or (t is not None and t['k'] in ('int', 'char')):
        return mk('chr', v)
    if v.op == 'vec':
        v = v.a[0]
    return v


@model('str::starts_with', 'str::ends_with', 'str::contains', 'str::eq_ignore_ascii_case', 'slice::starts_with', 'slice::ends_with', 'slice::eq_ignore_ascii_case')
def m_textp(c):
    vs = [textarg(c, a) for a in c.args]
    if len(vs) != 2 or None in vs:
        return None
    if c.m != 'eq_ignore_ascii_case' and vs[0] is vs[1]:
        return c.ret(TRUE)
    return c.ret(mk('textp', c.m, *vs))


@model('str::to_lowercase', 'str::to_uppercase', 'str::to_ascii_lowercase', 'str::to_ascii_uppercase', 'str::replace')
def m_textf(c):
    vs = [textarg(c, a) for a in c.args]
    if None in vs:
        return None
    return c.ret(mk('textf', c.m, *vs))


@model('str::trim', 'str::trim_end', 'str::trim_start', 'str::trim_left', 'str::trim_right', 'str::trim_matches', 'str::trim_end_matches', 'str::trim_start_matches',
       'str::trim_right_matches', 'str::trim_left_matches')
def m_texttrim(c):
    vs = [textarg(c, a) for a in c.args]
    if None in vs:
        return None
    m = {'trim_left': 'trim_start', 'trim_right': 'trim_end', 'trim_right_matches': 'trim_end_matches', 'trim_left_matches': 'trim_start_matches'}.get(c.m, c.m)
    return c.ret(mk('textf', m, *vs))


@model('Path::extension', 'Path::file_stem', 'Path::file_name')
def m_pathpart(c):
    E, st = c.E, c.st
    p = deref_all(E, st, c.args[0])
    b = mk('pathhas', c.m, p)
    out = []
    for x in st.assume(b):
        x = x.fork()
        out.append((x, some(ref(E.newobj(x, mk('pathpart', c.m, p))))))
    return out + [(x.fork(), none()) for x in st.assume(NOT(b))]


@model('String::from_utf8_unchecked')
def m_utf8(c):
    a = c.args[0]
    return c.ret(mk('utf8', a.a[0] if a.op == 'vec' else a))


@model('String::from_utf8')
def m_utf8c(c):
    a = c.args[0]
    s = a.a[0] if a.op == 'vec' else a
    out = [(x.fork(), ok(mk('utf8', s))) for x in c.st.assume(mk('isutf8', s))]
    out += [(x.fork(), err(MSG)) for x in c.st.assume(NOT(mk('isutf8', s)))]
    return out


@model('Error::description')
def m_descr(c):
    return c.ret(mk('description', deref_all(c.E, c.st, c.args[0])))


@model('Encoding::decode')
def m_decode(c):
    E, st = c.E, c.st
    enc = deref_all(E, st, c.args[0])
    s = canon(seqof(E, st, c.args[1]))
    trap = c.args[2]
    trap = trap.a[1] if trap.op == 'agg' else trap
    ok_ = mk('decodes', enc, trap, s)
    out = [(x.fork(), ok(mk('decoded', enc, trap, s))) for x in st.assume(ok_)]
    out += [(x.fork(), err(mk('decode_error', enc, s))) for x in st.assume(NOT(ok_))]
    return out


@model('Encoding::name')
def m_encname(c):
    return c.ret(mk('encname', deref_all(c.E, c.st, c.args[0])))


@model('label::encoding_from_whatwg_label')
def m_label(c):
    a = c.args[0]
    a = deref_all(c.E, c.st, a)
    return c.ret(some(mk('enc', a)))


@model('Regex::new')
def m_regex(c):
    return c.ret(ok(mk('regex', deref_all(c.E, c.st, c.args[0]))))


@model('Lazy::get')
def m_lazy(c):
    f = c.targ(1)
    init = None
    E = c.E
    for a in c.args[1:]:
        if a.op in ('fnv', 'clo'):
            init = a
    if init is None:
        return None
    outs = E.call_value(c.fr, c.st, init, [], c.line)
    res = []
    for s, v in outs:
        o = E.newobj(s, v)
        res.append((s, ref(o)))
    return res


@model('Regex::captures')
def m_captures(c):
    E, st = c.E, c.st
    re_ = deref_all(E, st, c.args[0])
    s = canon(seqof(E, st, c.args[1]))
    b = mk('rematch', re_, s)
    out = [(x.fork(), none()) for x in st.assume(NOT(b))]
    out += [(x.fork(), some(mk('captures', re_, s))) for x in st.assume(b)]
    return out


@model('Regex::is_match')
def m_ismatch(c):
    return c.ret(mk('rematch', deref_all(c.E, c.st, c.args[0]), canon(seqof(c.E, c.st, c.args[1]))))


@model('Captures::get')
def m_capget(c):
    v = deref_all(c.E, c.st, c.args[0])
    i = cval(c.args[1])
    if v.op == 'captures' and i in (0, 1):
        return c.ret(some(mk('group', v, i)))
    return None


@model('Match::as_bytes')
def m_asbytes(c):
    v = deref_all(c.E, c.st, c.args[0])
    o = c.E.newobj(c.st, mk('groupbytes', v))
    return c.ret(ref(o))


# ------------------------------------------------------------------ I/O
@model('File::open')
def m_fopen(c):
    p = deref_all(c.E, c.st, c.args[0])
    b = mk('opens', p)
    out = [(x.fork(), ok(mk('rdr', mk('file', p), ZERO))) for x in c.st.assume(b)]
    out += [(x.fork(), err(mk('ioerr', 'open', p))) for x in c.st.assume(NOT(b))]
    return out


@model('BufReader::new', 'BufReader::with_capacity')
def m_bufr(c):
    return c.ret(c.args[-1])


@model('PathBuf::set_extension', 'Path::with_extension')
def m_setext(c):
    E, st = c.E, c.st
    if c.m == 'with_extension':
        return c.ret(mk('withext', deref_all(E, st, c.args[0]), deref_all(E, st, c.args[1])))
    o, p = E.ptr_loc(st, c.args[0])
    E.store(st, o, p, mk('withext', E.load(st, o, p), deref_all(E, st, c.args[1])))
    return c.ret(TRUE)


@model('Read::read_exact')
def m_read_exact(c):
    E, st = c.E, c.st
    o, p = E.ptr_loc(st, c.args[0])
    r = E.load(st, o, p)
    for _ in range(3):
        if r.op in ('ref',):
            o, p = r.a
            r = E.load(st, o, p)
    if r.op in ('fld', 'sym', 'deref') and r.ty is not None and E.ty(r.ty)['k'] == 'param':
        r = mk('rdr', r, ZERO)
    if r.op != 'rdr':
        return None
    stream, pos = r.a
    bp = slice_ptr(E, st, c.args[1])
    bo, bpath = E.ptr_loc(st, bp)
    n = seqlen(E, st, bp)
    # the stream delivers its bytes and then fails: a read succeeds iff it ends within them
    b = le(padd(pos, n), atom(mk('len', stream)))
    out = []
    for s in st.assume(b):
        s = s.fork()
        lv = newlv()
        E.store(s, bo, bpath, mk('seq', mk('comp', n, lv, atom(mk('byte', stream, padd(pos, atom(lv)))))) if n is not ZERO else EMPTY)
        E.store(s, o, p, mk('rdr', stream, padd(pos, n)))
        out.append((s, ok(UNIT)))
    for s in st.assume(NOT(b)):
        s = s.fork()
        E.store(s, o, p, mk('rdr', mk('broken', stream, pos, n), ZERO))
        lv = newlv()
        E.store(s, bo, bpath, mk('seq', mk('comp', n, lv, atom(mk('byte', mk('garbage', stream, pos), atom(lv))))))
        out.append((s, err(mk('ioerr', 'read', stream, pos, n))))
    return out


def reader(c, v):
    """the reader behind a reference: where it is and what it is"""
    E, st = c.E, c.st
    o, p = E.ptr_loc(st, v)
    r = E.load(st, o, p)
    for _ in range(3):
        if r.op in ('ref',):
            o, p = r.a
            r = E.load(st, o, p)
    if r.op in ('fld', 'sym', 'deref') and r.ty is not None and E.ty(r.ty)['k'] == 'param':
        r = mk('rdr', r, ZERO)
    return (o, p, r) if r.op == 'rdr' else None


ERRKIND = 'std::io::ErrorKind'


def iokind(E, e):
    """the kind of an I/O error: unknown, but the same every time it is asked for"""
    vs = E.p.adt_variants(ERRKIND) or E.p.adt_variants('io::ErrorKind') or []
    ix = {v['name']: i for i, v in enumerate(vs)}
    if e.op == 'ioerr' and e.a and e.a[0] == 'made':
        return e.a[1]
    return mk('iokind', e, ix.get('UnexpectedEof', 37), ix.get('Other', 39))


@model('Error::kind')
def m_kind(c):
    e = deref_all(c.E, c.st, c.args[0])
    if e.op != 'ioerr':
        return None
    return c.ret(c.E.typed(iokind(c.E, e), c.ty))


@model('Read::read')
def m_read(c):
    """a read may deliver any number of bytes that are there, and at least one"""
    E, st = c.E, c.st
    x = reader(c, c.args[0])
    if x is None:
        return None
    o, p, r = x
    stream, pos = r.a
    bp = slice_ptr(E, st, c.args[1])
    bo, bpath = E.ptr_loc(st, bp)
    old = E.load(st, bo, bpath)
    n = seqlen(E, st, bp)
    total = atom(mk('len', stream))
    k = atom(mk('readn', stream, pos, n))
    out = []
    for s in st.assume(AND(le(padd(pos, I(1)), total), le(I(1), n), le(I(1), k), le(k, n), le(padd(pos, k), total))):
        s = s.fork()
        lv = newlv()
        E.store(s, bo, bpath, cat(mk('seq', mk('comp', k, lv, atom(mk('byte', stream, padd(pos, atom(lv)))))), seq_sub(old, k, n, s.facts)))
        E.store(s, o, p, mk('rdr', stream, padd(pos, k)))
        out.append((s, ok(k)))
    for s in st.assume(AND(le(padd(pos, I(1)), total), EQ(n, ZERO))):
        out.append((s.fork(), ok(ZERO)))
    e = mk('ioerr', 'read', stream, pos, n)
    kd = iokind(E, e)
    eof = isvar(kd, kd.a[1])
    for s in st.assume(AND(le(total, pos), eof)):
        out.append((s.fork(), ok(ZERO)))
    for s in st.assume(AND(le(total, pos), NOT(eof))):
        out.append((s.fork(), err(e)))
    return out


# ------------------------------------------------------------------ Box / Vec / slices
@model('Box::new')
def m_boxnew(c):
    return c.ret(mk('box', c.args[0], c.E.fresh_alloc()))


@model('Box::new_uninit')
def m_boxuninit(c):
    return c.ret(mk('box', mk('agg', 'MaybeUninit', 0, UNIT, mk('agg', 'ManuallyDrop', 0, mk('uninit'))), c.E.fresh_alloc()))


@model('boxed::box_assume_init_into_vec_unsafe')
def m_boxvec(c):
    v = c.args[0]
    if v.op != 'box':
        return None
    x = v.a[0]
    while x.op == 'agg' and x.a[0] in ('MaybeUninit', 'ManuallyDrop', 'std::mem::MaybeUninit', 'std::mem::ManuallyDrop', 'std::mem::MaybeDangling'):
        x = x.a[-1]
    return c.ret(mk('vec', x, v.a[1], seq_len(x)))


@model('slice::into_vec')
def m_intovec(c):
    v = c.args[0]
    if v.op != 'box':
        return None
    return c.ret(mk('vec', v.a[0], v.a[1], seq_len(v.a[0])))


@model('Arc::new', 'Rc::new')
def m_arc(c):
    return c.ret(mk('arc', c.args[0]))


@model('Vec::new')
def m_vecnew(c):
    return c.ret(mk('vec', EMPTY, c.E.fresh_alloc(), ZERO))


@model('Vec::with_capacity')
def m_veccap(c):
    return c.ret(mk('vec', EMPTY, c.E.fresh_alloc(), c.args[0]))


@model('vec::from_elem')
def m_fromelem(c):
    v, n = c.args
    if n is ZERO:
        s = EMPTY
    elif cval(n) is not None and cval(n) <= 8:
        s = mk('seq', *[one(v)] * cval(n))
    else:
        s = mk('seq', mk('comp', n, newlv(), v))
    return c.ret(mk('vec', s, c.E.fresh_alloc(), n))


def getvec(c, p):
    """load a Vec value through pointer p, expanding symbolic ones"""
    o, pa = c.E.ptr_loc(c.st, p)
    v = c.E.load(c.st, o, pa)
    if v.op != 'vec':
        v = mk('vec', mk('deref', v), mk('ident', v), atom(mk('cap', v)))
    return o, pa, v


def vec_append(c, st, o, pa, v, extra):
    content = cat(v.a[0], extra)
    ident = v.a[1]
    cap = v.a[2] if len(v.a) > 2 else ZERO
    n = seq_len(content)
    if st.facts.decide(le(n, cap)) is not True:
        ident = c.E.fresh_alloc()
        cap = n
    c.E.store(st, o, pa, mk('vec', content, ident, cap))


@model('Vec::push')
def m_push(c):
    o, pa, v = getvec(c, c.args[0])
    vec_append(c, c.st, o, pa, v, mk('seq', one(c.args[1])))
    return c.ret(UNIT)


@model('Vec::extend_from_slice')
def m_extslice(c):
    o, pa, v = getvec(c, c.args[0])
    s = seqof(c.E, c.st, c.args[1])
    s = clone_seq(c, c.st, s, c.targ(0))
    vec_append(c, c.st, o, pa, v, s)
    return c.ret(UNIT)


@model('Vec::append')
def m_append(c):
    o, pa, v = getvec(c, c.args[0])
    o2, pa2, w = getvec(c, c.args[1])
    vec_append(c, c.st, o, pa, v, w.a[0])
    c.E.store(c.st, o2, pa2, mk('vec', EMPTY, *w.a[1:]))
    return c.ret(UNIT)


@model('Vec::pop')
def m_pop(c):
    o, pa, v = getvec(c, c.args[0])
    n = seq_len(v.a[0])
    out = []
    for s in c.st.assume(lt(ZERO, n)):
        s = s.fork()
        x = seq_get(v.a[0], psub(n, ONE), s.facts)
        x = c.E.typed(x, c.targ(0))
        c.E.store(s, o, pa, mk('vec', seq_sub(v.a[0], ZERO, psub(n, ONE), s.facts), *v.a[1:]))
        out.append((s, some(x)))
    for s in c.st.assume(eq0(n)):
        out.append((s.fork(), none()))
    return out


@model('Vec::clear')
def m_clear(c):
    o, pa, v = getvec(c, c.args[0])
    c.E.store(c.st, o, pa, mk('vec', EMPTY, *v.a[1:]))
    return c.ret(UNIT)


@model('Vec::truncate')
def m_trunc(c):
    o, pa, v = getvec(c, c.args[0])
    n = seq_len(v.a[0])
    out = []
    for s in c.st.assume(le(c.args[1], n)):
        s = s.fork()
        c.E.store(s, o, pa, mk('vec', seq_sub(v.a[0], ZERO, c.args[1], s.facts), *v.a[1:]))
        out.append((s, UNIT))
    for s in c.st.assume(lt(n, c.args[1])):
        out.append((s.fork(), UNIT))
    return out


@model('Vec::reserve', 'Vec::shrink_to_fit', 'Vec::reserve_exact')
def m_reserve(c):
    o, pa, v = getvec(c, c.args[0])
    cap = padd(seq_len(v.a[0]), c.args[1]) if len(c.args) > 1 else seq_len(v.a[0])
    c.E.store(c.st, o, pa, mk('vec', v.a[0], c.E.fresh_alloc(), cap))
    return c.ret(UNIT)


@model('Vec::insert')
def m_vinsert(c):
    o, pa, v = getvec(c, c.args[0])
    n = seq_len(v.a[0])
    out = []
    for s in c.oblige(le(c.args[1], n), 'insert'):
        s = s.fork()
        content = cat(seq_sub(v.a[0], ZERO, c.args[1], s.facts), mk('seq', one(c.args[2])), seq_sub(v.a[0], c.args[1], n, s.facts))
        c.E.store(s, o, pa, mk('vec', content, c.E.fresh_alloc(), ZERO))
        out.append((s, UNIT))
    return out


@model('Vec::into_boxed_slice')
def m_boxed(c):
    v = c.args[0]
    if v.op != 'vec':
        return c.ret(mk('box', mk('deref', v), mk('ident', v)))
    if len(v.a) > 2 and v.a[2] is seq_len(v.a[0]) and v.a[0].op == 'seq' and all(g.op == 'one' for g in v.a[0].a):
        return c.ret(mk('box', v.a[0], v.a[1]))
    return c.ret(mk('box', v.a[0], c.E.fresh_alloc()))


@model('Vec::len', 'slice::len', 'str::len', 'String::len')
def m_len(c):
    return c.ret(seqlen(c.E, c.st, c.args[0]))


@model('Vec::is_empty', 'slice::is_empty', 'str::is_empty', 'String::is_empty')
def m_isempty(c):
    return c.ret(eq0(seqlen(c.E, c.st, c.args[0])))


@model('Vec::as_slice', 'Vec::as_mut_slice', 'array::as_slice', 'slice::as_ref', 'str::as_bytes', 'Box::as_ref', 'String::as_bytes')
def m_asslice(c):
    return c.ret(slice_ptr(c.E, c.st, c.args[0]))


@model('slice::as_ptr', 'slice::as_mut_ptr', 'Vec::as_ptr', 'Vec::as_mut_ptr')
def m_asptr(c):
    return c.ret(c.E.to_raw(c.st, at(c.E, c.st, c.args[0], ZERO)))


@model('Deref::deref', 'DerefMut::deref_mut')
def m_deref(c):
    p = c.args[0]
    if p.op in ('str', 'textf'):
        return c.ret(p)
    o, pa = c.E.ptr_loc(c.st, p)
    v = c.E.load(c.st, o, pa)
    if v.op == 'str':
        return c.ret(v)
    if v.op in ('tostr', 'decoded', 'utf8', 'strcat', 'msg', 'withext', 'textf', 'pathpart'):
        return c.ret(p)
    t = c.E.ty(c.targ(0)) if c.targ(0) is not None else None
    if t is not None and t['k'] == 'adt' and t['name'] in ('std::string::String', 'std::path::PathBuf') and v.op not in ('vec',):
        return c.ret(p)
    if t is not None and t['k'] == 'ref':
        return c.ret(v)
    return c.ret(ref(o, pa + (('c',),)))


def idx_range(E, st, r, n, inclusive_ok=True):
    """(lo, hi, kind) of a range value"""
    nm = r.a[0].split('::')[-1] if r.op == 'agg' else None
    if nm == 'Range':
        return r.a[2], r.a[3]
    if nm == 'RangeFrom':
        return r.a[2], n
    if nm == 'RangeTo':
        return ZERO, r.a[2]
    if nm == 'RangeFull':
        return ZERO, n
    if nm == 'RangeToInclusive':
        return ZERO, padd(r.a[2], ONE)
    if nm == 'RangeInclusive':
        return r.a[2], padd(r.a[3], ONE)
    return None


@model('Index::index', 'IndexMut::index_mut')
def m_index(c):
    E, st = c.E, c.st
    p = c.args[0]
    i = c.args[1]
    if p.op == 'str':
        return None
    if 'collections' in c.callee['path'] or (c.targ(0) is not None and E.ty(c.targ(0)).get('name', '').startswith('std::collections')):
        return maps.m_index(c)
    n = seqlen(E, st, p)
    if i.op == 'poly':
        return [(s, at(E, s, p, i)) for s in c.oblige(lt(i, n), 'index')]
    r = idx_range(E, st, i, n)
    if r is None:
        return None
    lo, hi = r
    cond = AND(le(lo, hi), le(hi, n))
    return [(s, subptr(E, s, p, lo, hi)) for s in c.oblige(cond, 'slice index')]


@model('slice::get', 'slice::get_mut', 'Vec::get')
def m_get(c):
    E, st = c.E, c.st
    p, i = c.args[0], c.args[1]
    n = seqlen(E, st, p)
    if i.op == 'poly':
        out = [(s.fork(), some(at(E, s, p, i))) for s in st.assume(lt(i, n))]
        out += [(s.fork(), none()) for s in st.assume(le(n, i))]
        return out
    r = idx_range(E, st, i, n)
    if r is None:
        return None
    cond = AND(le(r[0], r[1]), le(r[1], n))
    out = [(s.fork(), some(subptr(E, s, p, r[0], r[1]))) for s in st.assume(cond)]
    out += [(s.fork(), none()) for s in st.assume(NOT(cond))]
    return out


@model('slice::get_unchecked', 'slice::get_unchecked_mut')
def m_getu(c):
    E, st = c.E, c.st
    n = seqlen(E, st, c.args[0])
    return [(s, at(E, s, c.args[0], c.args[1])) for s in c.oblige(lt(c.args[1], n), 'get_unchecked')]


@model('slice::first', 'slice::last', 'slice::first_mut', 'slice::last_mut')
def m_first(c):
    E, st = c.E, c.st
    n = seqlen(E, st, c.args[0])
    out = []
    for s in st.assume(lt(ZERO, n)):
        i = ZERO if c.m.startswith('first') else psub(n, ONE)
        out.append((s.fork(), some(at(E, s, c.args[0], i))))
    for s in st.assume(eq0(n)):
        out.append((s.fork(), none()))
    return out


@model('slice::split_first', 'slice::split_last')
def m_splitfirst(c):
    E, st = c.E, c.st
    p = c.args[0]
    n = seqlen(E, st, p)
    out = []
    for s in st.assume(lt(ZERO, n)):
        if c.m == 'split_first':
            v = tup(at(E, s, p, ZERO), subptr(E, s, p, ONE, n))
        else:
            v = tup(at(E, s, p, psub(n, ONE)), subptr(E, s, p, ZERO, psub(n, ONE)))
        out.append((s.fork(), some(v)))
    for s in st.assume(eq0(n)):
        out.append((s.fork(), none()))
    return out


@model('slice::split_at')
def m_splitat(c):
    E, st = c.E, c.st
    p, i = c.args
    n = seqlen(E, st, p)
    return [(s, tup(subptr(E, s, p, ZERO, i), subptr(E, s, p, i, n))) for s in c.oblige(le(i, n), 'split_at')]


@model('slice::swap')
def m_sswap(c):
    E = c.E
    n = seqlen(E, c.st, c.args[0])
    out = []
    for s in c.oblige(AND(lt(c.args[1], n), lt(c.args[2], n)), 'swap'):
        s = s.fork()
        pa, pb = at(E, s, c.args[0], c.args[1]), at(E, s, c.args[0], c.args[2])
        la, lb = E.ptr_loc(s, pa), E.ptr_loc(s, pb)
        a, b = E.load(s, *la), E.load(s, *lb)
        E.store(s, la[0], la[1], b)
        E.store(s, lb[0], lb[1], a)
        out.append((s, UNIT))
    return out


@model('slice::reverse')
def m_reverse(c):
    E, st = c.E, c.st
    p = slice_ptr(E, st, c.args[0])
    o, pa = E.ptr_loc(st, p)
    E.store(st, o, pa, seq_rev(E.load(st, o, pa)))
    return c.ret(UNIT)


@model('slice::rotate_left', 'slice::rotate_right')
def m_rotate(c):
    E = c.E
    p = slice_ptr(E, c.st, c.args[0])
    n, k = seqlen(E, c.st, p), c.args[1]
    out = []
    for s in c.oblige(le(k, n), 'rotate past the end'):
        s = s.fork()
        o, pa = E.ptr_loc(s, p)
        v = E.load(s, o, pa)
        at = k if c.m == 'rotate_left' else psub(n, k)
        E.store(s, o, pa, cat(seq_sub(v, at, n, s.facts), seq_sub(v, ZERO, at, s.facts)))
        out.append((s, UNIT))
    return out


@model('Vec::dedup')
def m_dedup(c):
    t = c.E.ty(c.targ(0)) if c.targ(0) is not None else {'k': None}
    # elements whose equality is that of their values
    if not (t['k'] in ('int', 'char') or t.get('name', '').endswith('geo::Point')):
        return None
    o, pa, v = getvec(c, c.args[0])
    c.E.store(c.st, o, pa, mk('vec', mk('dedup', canon(v.a[0])), *v.a[1:]))
    return c.ret(UNIT)


@model('Vec::retain', 'Vec::retain_mut')
def m_retain(c):
    E = c.E
    if c.m == 'retain_mut':
        return None
    o, pa, v = getvec(c, c.args[0])
    it = mk('ifilter', mkit(mk('vown', v.a[0], c.targ(0)), seq_len(v.a[0])), c.args[1])
    res = []

    def body(s, objs, k, x):
        return [('back', add_item(c, s, objs[0], k, x))]
    done, io = consume(c, it, [mk('vec', EMPTY, mk('alloc', 'c', 0, ()), I(1 << 60))], body, c.st)
    for s, w in finish(c, done, io, lambda s, vals, tag: vals[0]):
        s = s.fork()
        E.store(s, o, pa, mk('vec', w.a[0], *v.a[1:]))
        res.append((s, UNIT))
    return res


@model('slice::copy_from_slice', 'slice::clone_from_slice')
def m_copyfrom(c):
    E = c.E
    p = slice_ptr(E, c.st, c.args[0])
    n, m = seqlen(E, c.st, p), seqlen(E, c.st, c.args[1])
    out = []
    for s in c.oblige(eq0(psub(n, m)), 'copy_from_slice length'):
        s = s.fork()
        o, pa = E.ptr_loc(s, p)
        E.store(s, o, pa, seqof(E, s, c.args[1]))
        out.append((s, UNIT))
    return out


@model('slice::to_vec', 'slice::into', 'slice::to_owned')
def m_tovec(c):
    s = seqof(c.E, c.st, c.args[0])
    s = clone_seq(c, c.st, s, c.targ(0))
    return c.ret(mk('vec', s, c.E.fresh_alloc(), seq_len(s)))


@model('slice::concat')
def m_concat(c):
    return None


@model('slice::contains')
def m_contains(c):
    return consume_any(c, iter_of(c, c.st, c.args[0]), lambda s, x: [(s, val_eq(c.E, c.fr, s, deref(c.E, s, x), deref(c.E, s, c.args[1]), c.targ(0), c.line))])


@model('slice::sort', 'slice::sort_by', 'slice::sort_by_key', 'slice::sort_unstable', 'slice::sort_unstable_by', 'slice::sort_unstable_by_key')
def m_sort(c):
    E, st = c.E, c.st
    p = slice_ptr(E, st, c.args[0])
    o, pa = E.ptr_loc(st, p)
    v = E.load(st, o, pa)
    ci = sort_order(c)
    E.store(st, o, pa, mk('sorted', v, ci))
    return c.ret(UNIT)


def sort_order(c):
    """the comparison a sort uses, as a term over two symbolic elements"""
    E = c.E
    ti = c.targ(0)
    a, b = E.sym('sortA', ti), E.sym('sortB', ti)
    s = E.state0()
    oa, ob = E.newobj(s, a), E.newobj(s, b)
    E.quiet += 1
    try:
        if c.m in ('sort', 'sort_unstable'):
            outs = do_cmp(E, c.fr, s, a, b, ti, c.line, 0, True)
        elif c.m in ('sort_by', 'sort_unstable_by'):
            outs = E.call_value(c.fr, s, c.args[1], [ref(oa), ref(ob)], c.line)
        else:
            outs = []
            for s1, ka in E.call_value(c.fr, s, c.args[1], [ref(oa)], c.line):
                for s2, kb in E.call_value(c.fr, s1, c.args[1], [ref(ob)], c.line):
                    outs += do_cmp(E, c.fr, s2, ka, kb, c.targ(1), c.line, 0, True)
        f = FALSE
        g = FALSE
        for s2, v in outs:
            if v.op != 'agg':
                return E.opaque('sort order')
            cond = AND(*s2.facts.lits)
            if v is LESS:
                f = OR(f, cond)
            elif v is GREATER:
                g = OR(g, cond)
        return mk('order', interp.simplify_bool(f), interp.simplify_bool(g), 'stable' if 'unstable' not in c.m else 'unstable')
    finally:
        E.quiet -= 1


# ------------------------------------------------------------------ clone
def clone_val(c, st, v, ti):
    """value of a deep copy"""
    E = c.E
    t = E.ty(ti) if ti is not None else None
    if t is None or t['k'] in ('int', 'bool', 'float', 'char', 'ref', 'ptr', 'param', 'alias'):
        return v
    if t['k'] == 'adt':
        nm = t['name']
        if nm == 'std::vec::Vec':
            s = v.a[0] if v.op == 'vec' else mk('deref', v)
            s = clone_seq(c, st, s, t['args'][0])
            return mk('vec', s, E.fresh_alloc(), seq_len(s))
        if nm == 'std::boxed::Box':
            x = v.a[0] if v.op == 'box' else mk('deref', v)
            et = E.ty(t['args'][0])
            if 'elem' in et:
                x = clone_seq(c, st, x, et['elem'])
            else:
                x = clone_val(c, st, x, t['args'][0])
            return mk('box', x, E.fresh_alloc())
        for k in E.p.impls:
            if k.endswith('as std::clone::Clone>::clone') and strip_generics2(k) == nm:
                s = st.fork()
                o = E.newobj(s, v)
                outs = E.run_fn(k, s, [ref(o)], (c.fr.key, c.line))
                if len(outs) == 1:
                    return outs[0][1]
                return E.opaque('clone')
        return v
    if t['k'] in ('slice', 'array'):
        return clone_seq(c, st, v, t['elem'])
    return v


def has_local_clone(E, ti, d=0):
    t = E.ty(ti) if ti is not None else None
    if t is None:
        return False
    if t['k'] == 'adt':
        return t['name'] in ('std::vec::Vec', 'std::boxed::Box') or any(
            k.endswith('as std::clone::Clone>::clone') and strip_generics2(k) == t['name'] for k in E.p.impls)
    return False


def clone_seq(c, st, s, ei):
    if not has_local_clone(c.E, ei):
        return s
    E = c.E
    if s.op == 'rev':
        return seq_rev(clone_seq(c, st, s.a[0], ei))
    if s.op not in ('seq',) and s.op in ('upd', 'sorted', 'phi', 'opaque'):
        return s
    out = []
    for g in segs(s):
        if g.op == 'one':
            out.append(one(clone_val(c, st, g.a[0], ei)))
            continue
        if g.op not in ('comp', 'all', 'sub'):
            out.append(g)
            continue
        lv = newlv()
        n = seg_len(g)
        s2 = st.fork()
        s2.facts = s2.facts.add(lt(atom(lv), n))
        x = seg_get(g, atom(lv), s2.facts)
        x = E.typed(x, ei)
        y = clone_val(c, s2, x, ei)
        if strip_ident(y) is strip_ident(x):
            out.append(g)
        else:
            out.append(mk('comp', n, lv, y))
    return cat(*[mk('seq', g) for g in out])


_si = {}


def strip_ident(t):
    """forget allocation identities and expand nothing else: what the value looks like"""
    r = _si.get(t)
    if r is not None:
        return r

    def go(x):
        if isinstance(x, T):
            return strip_ident(x)
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        return x
    if t.op in ('vec', 'box', 'arc'):
        c = strip_ident(t.a[0])
        if c.op == 'deref':
            r = c.a[0]
        else:
            r = mk('boxv', c)
    elif t.op == 'poly':
        r = t
        for m, k in t.a[0]:
            for x in m:
                if strip_ident(x) is not x:
                    r = None
        if r is None:
            acc = ZERO
            for m, k in t.a[0]:
                cur = I(k)
                for x in m:
                    cur = pmul(cur, atom(strip_ident(x)))
                acc = padd(acc, cur)
            r = acc
    elif t.op == 'agg' and len(t.a) > 2:
        fs = [go(x) for x in t.a[2:]]
        # eta: S{x.0, x.1, ..} is x
        r = None
        b = None
        for i, f in enumerate(fs):
            f = as_atom(f) if f.op == 'poly' else f
            if f is None or f.op != 'fld' or f.a[2] != i or f.a[1] != t.a[1] or (b is not None and f.a[0] is not b):
                b = None
                break
            b = f.a[0]
        if b is not None and b.ty is not None and Env.types[b.ty]['k'] == 'adt' and Env.types[b.ty]['name'] == t.a[0] and t.a[0] not in (OPTION, RESULT):
            r = b
        else:
            r = mk('agg', t.a[0], t.a[1], *fs)
    else:
        na = tuple(go(x) for x in t.a)
        if na == t.a:
            r = t
        else:
            f = REBUILD.get(t.op)
            r = f(*na) if f else mk(t.op, *na)
            if r.ty is None:
                r.ty = t.ty
    _si[t] = r
    return r


@model('Clone::clone')
def m_clone(c):
    E, st = c.E, c.st
    p = c.args[0]
    if p.op == 'str':
        return c.ret(p)
    v = deref(E, st, p)
    ti = c.targ(0)
    if v.op == 'arc':
        return c.ret(v)
    if v.op in ('it', 'imap', 'ifilter'):
        return c.ret(v)
    return c.ret(clone_val(c, st, E.typed(v, ti), ti))


# ------------------------------------------------------------------ Option / Result
@model('Option::is_some', 'Option::is_none', 'Result::is_ok', 'Result::is_err')
def m_isome(c):
    v = deref(c.E, c.st, c.args[0])
    i = 1 if c.m in ('is_some', 'is_err') else 0
    return c.ret(isvar(v, i))


@model('Option::unwrap', 'Option::expect', 'Result::unwrap', 'Result::expect', 'Result::unwrap_err')
def m_unwrap(c):
    v = c.args[0]
    good = 1 if 'Option' in c.callee['path'] or c.m == 'unwrap_err' else 0
    out = []
    for s in c.oblige(isvar(v, good) if v.op != 'ite' else TRUE, c.m):
        for s2, i, x in cases(c.E, s, v):
            if i == good:
                out.append((s2, x))
            elif v.op == 'ite':
                c.oblige(FALSE, c.m, s2)
    return out


@model('Option::unwrap_or', 'Option::unwrap_or_else', 'Result::unwrap_or', 'Result::unwrap_or_else', 'Option::unwrap_or_default')
def m_unwrapor(c):
    good = 1 if 'Option' in c.callee['path'] else 0
    out = []
    for s, i, x in cases(c.E, c.st, c.args[0]):
        if i == good:
            out.append((s, x))
        elif c.m == 'unwrap_or':
            out.append((s, c.args[1]))
        elif c.m == 'unwrap_or_default':
            v = default_of(c, c.targ(0))
            if v is None:
                return None
            out.append((s, v))
        else:
            out.extend(c.E.call_value(c.fr, s, c.args[1], [] if good == 1 else [x], c.line))
    return out


@model('Option::map', 'Result::map', 'Result::map_err', 'Option::and_then', 'Result::and_then', 'Option::or_else', 'Result::or_else', 'Option::filter', 'Option::map_or', 'Option::map_or_else', 'Option::is_some_and', 'Option::is_none_or', 'Result::map_or')
def m_optmap(c):
    opt = 'Option' in c.callee['path']
    good = 1 if opt else 0
    out = []
    m = c.m
    wrap = some if opt else ok
    f = c.args[-1]
    for s, i, x in cases(c.E, c.st, c.args[0]):
        if m == 'map_err':
            if i == 1:
                out.extend((s2, err(v)) for s2, v in c.E.call_value(c.fr, s, f, [x], c.line))
            else:
                out.append((s, ok(x)))
        elif m == 'or_else':
            if i == good:
                out.append((s, wrap(x)))
            else:
                out.extend(c.E.call_value(c.fr, s, f, [] if opt else [x], c.line))
        elif i == good:
            if m == 'filter':
                o = c.E.newobj(s, x)
                for s2, b in c.E.call_value(c.fr, s, f, [ref(o)], c.line):
                    for s3, tv in fork_bool(s2, b):
                        out.append((s3, some(x) if tv else none()))
                continue
            for s2, v in c.E.call_value(c.fr, s, f, [x], c.line):
                out.append((s2, wrap(v) if m == 'map' else v))
        else:
            if m in ('map_or',):
                out.append((s, c.args[1]))
            elif m == 'map_or_else':
                out.extend(c.E.call_value(c.fr, s, c.args[1], [] if opt else [x], c.line))
            elif m == 'is_some_and':
                out.append((s, FALSE))
            elif m == 'is_none_or':
                out.append((s, TRUE))
            else:
                out.append((s, none() if opt else err(x)))
    return out


@model('Option::ok_or', 'Option::ok_or_else', 'Result::ok', 'Result::err', 'Option::or', 'Option::xor', 'Option::and')
def m_okor(c):
    out = []
    for s, i, x in cases(c.E, c.st, c.args[0]):
        if c.m == 'ok_or':
            out.append((s, ok(x) if i == 1 else err(c.args[1])))
        elif c.m == 'ok_or_else':
            if i == 1:
                out.append((s, ok(x)))
            else:
                out.extend((s2, err(v)) for s2, v in c.E.call_value(c.fr, s, c.args[1], [], c.line))
        elif c.m == 'ok':
            out.append((s, some(x) if i == 0 else none()))
        elif c.m == 'err':
            out.append((s, some(x) if i == 1 else none()))
        elif c.m == 'or':
            out.append((s, some(x) if i == 1 else c.args[1]))
        elif c.m == 'and':
            out.append((s, c.args[1] if i == 1 else none()))
        else:
            return None
    return out


@model('Option::as_ref', 'Option::as_mut', 'Option::as_deref', 'Result::as_ref', 'Result::as_mut')
def m_asref(c):
    o, p = c.E.ptr_loc(c.st, c.args[0])
    v = c.E.load(c.st, o, p)
    opt = 'Option' in c.callee['path']
    out = []
    for s, i, x in cases(c.E, c.st, v):
        if opt:
            out.append((s, some(ref(o, p + (('v', 1), ('f', 0)))) if i == 1 else none()))
        else:
            out.append((s, agg(RESULT, i, ref(o, p + (('v', i), ('f', 0))))))
    return out


@model('Option::take', 'Option::replace', 'Option::insert')
def m_take(c):
    o, p = c.E.ptr_loc(c.st, c.args[0])
    v = c.E.load(c.st, o, p)
    if c.m == 'insert':
        c.E.store(c.st, o, p, some(c.args[1]))
        return c.ret(ref(o, p + (('v', 1), ('f', 0))))
    c.E.store(c.st, o, p, none() if c.m == 'take' else some(c.args[1]))
    return c.ret(v)


@model('Option::get_or_insert', 'Option::get_or_insert_with')
def m_goi(c):
    o, p = c.E.ptr_loc(c.st, c.args[0])
    v = c.E.load(c.st, o, p)
    out = []
    for s, i, x in cases(c.E, c.st, v):
        s = s.fork()
        if i == 0:
            if c.m == 'get_or_insert':
                c.E.store(s, o, p, some(c.args[1]))
                out.append((s, ref(o, p + (('v', 1), ('f', 0)))))
            else:
                for s2, w in c.E.call_value(c.fr, s, c.args[1], [], c.line):
                    s2 = s2.fork()
                    c.E.store(s2, o, p, some(w))
                    out.append((s2, ref(o, p + (('v', 1), ('f', 0)))))
        else:
            out.append((s, ref(o, p + (('v', 1), ('f', 0)))))
    return out


@model('Option::copied', 'Option::cloned')
def m_optcopied(c):
    out = []
    for s, i, x in cases(c.E, c.st, c.args[0]):
        if i == 1:
            v = deref(c.E, s, x)
            out.append((s, some(clone_val(c, s, c.E.typed(v, c.targ(0)), c.targ(0)) if c.m == 'cloned' else c.E.typed(v, c.targ(0)))))
        else:
            out.append((s, none()))
    return out


@model('Option::zip')
def m_optzip(c):
    out = []
    for s, i, x in cases(c.E, c.st, c.args[0]):
        for s2, j, y in cases(c.E, s, c.args[1]):
            out.append((s2, some(tup(x, y)) if i == 1 and j == 1 else none()))
    return out


@model('Try::branch')
def m_branch(c):
    v = c.args[0]
    t = c.E.ty(c.targ(0)) if c.targ(0) is not None else None
    opt = (v.op == 'agg' and v.a[0] == OPTION) or (t is not None and t.get('name') == OPTION)
    out = []
    for s, i, x in cases(c.E, c.st, v):
        good = i == (1 if opt else 0)
        if good:
            out.append((s, agg(CF, 0, x)))
        else:
            out.append((s, agg(CF, 1, none() if opt else err(x))))
    return out


@model('FromResidual::from_residual')
def m_residual(c):
    v = c.args[0]
    if v.op == 'agg' and v.a[0] == OPTION:
        return c.ret(none())
    if v.op == 'agg' and v.a[0] == RESULT:
        e = v.a[2]
        # From::from on the error type
        dst = c.E.ty(c.ty) if c.ty is not None else None
        if dst is not None and dst.get('name') == RESULT and c.targ(1) is not None:
            src = c.E.ty(c.targ(1))
            de = dst['args'][1]
            se = src['args'][1] if src.get('args') and len(src['args']) > 1 else None
            if se is not None and se != de:
                for k in c.E.p.impls:
                    if re.match(r'<.* as std::convert::From<.*>>::from$', k):
                        fn = c.E.p.fns[k]
                        if fn['locals'][0] == de and fn['locals'][1] == se:
                            return [(s, err(x)) for s, x in c.E.run_fn(k, c.st, [e], (c.fr.key, c.line))]
                return c.ret(err(mk('from', e)))
        return c.ret(err(e))
    return None


# ------------------------------------------------------------------ raw pointers
@model('ptr::null', 'ptr::null_mut')
def m_null(c):
    return c.ret(NULL)


def nonnull(E, st, p):
    """boolean: pointer is null"""
    if p is NULL:
        return TRUE
    if p.op in ('ref', 'rawp'):
        return FALSE
    if p.op == 'ite':
        return OR(AND(p.a[0], nonnull(E, st, p.a[1])), AND(NOT(p.a[0]), nonnull(E, st, p.a[2])))
    return mk('isnull', p)


@model('const_ptr::is_null', 'mut_ptr::is_null')
def m_isnull(c):
    return c.ret(nonnull(c.E, c.st, c.args[0]))


@model('const_ptr::as_ref', 'mut_ptr::as_ref', 'mut_ptr::as_mut')
def m_ptrasref(c):
    b = nonnull(c.E, c.st, c.args[0])
    out = [(s.fork(), none()) for s in c.st.assume(b)]
    out += [(s.fork(), some(c.args[0])) for s in c.st.assume(NOT(b))]
    return out


@model('const_ptr::offset_from', 'const_ptr::sub_ptr', 'const_ptr::offset_from_unsigned')
def m_offsetfrom(c):
    a, b = c.args
    if a.op == 'rawp' and b.op == 'rawp' and a.a[0] is b.a[0] and len(a.a[1]) == 1 and len(b.a[1]) == 1:
        return c.ret(psub(a.a[1][0][1], b.a[1][0][1]))
    return None


@model('const_ptr::add', 'mut_ptr::add', 'const_ptr::offset', 'mut_ptr::offset')
def m_ptradd(c):
    return c.ret(c.E.ptr_add(c.st, c.args[0], c.args[1]))


@model('const_ptr::cast_mut', 'mut_ptr::cast_const', 'ptr::eq')
def m_castmut(c):
    if c.m == 'eq':
        a, b = c.E.to_raw(c.st, c.args[0]), c.E.to_raw(c.st, c.args[1])
        return c.ret(EQ(a, b))
    return c.ret(c.args[0])


# ------------------------------------------------------------------ iterators
# it(view, pos, end): items view[pos..end)
def mkit(view, n, pos=ZERO):
    return mk('it', view, pos, n)


def view_item(E, st, v, i):
    """[(st, item)]"""
    op = v.op
    if op == 'vsl':
        return [(st, at(E, st, v.a[0], i))]
    if op == 'vown':
        x = seq_get(v.a[0], i, st.facts)
        return [(st, E.typed(x, v.a[1]) if v.a[1] is not None else x)]
    if op == 'vrange':
        return [(st, padd(v.a[0], i))]
    if op == 'venum':
        return [(s, tup(i, x)) for s, x in view_item(E, st, v.a[0], padd(v.a[1], i))]
    if op == 'voff':
        return view_item(E, st, v.a[0], padd(v.a[1], i))
    if op == 'vrev':
        return view_item(E, st, v.a[0], psub(psub(v.a[1], ONE), i))
    if op == 'vzip':
        out = []
        for s, x in view_item(E, st, v.a[0], padd(v.a[2], i)):
            for s2, y in view_item(E, s, v.a[1], padd(v.a[3], i)):
                out.append((s2, tup(x, y)))
        return out
    if op == 'vtw':
        cur = [(st, ())]
        for j in range(v.a[1]):
            cur = [(s2, xs + (x,)) for s, xs in cur for s2, x in view_item(E, s, v.a[0], padd(i, I(j)))]
        return [(s, tup(*xs)) for s, xs in cur]
    if op == 'vwin':
        return [(st, subptr(E, st, v.a[0], i, padd(i, v.a[1])))]
    if op == 'vchunk':
        p, k, n = v.a
        lo = pmul(i, k)
        hi = padd(lo, k)
        out = []
        for s in st.assume(le(hi, n)):
            out.append((s, subptr(E, s, p, lo, hi)))
        for s in st.assume(lt(n, hi)):
            out.append((s, subptr(E, s, p, lo, n)))
        return out
    if op == 'vcp':
        out = []
        for s, x in view_item(E, st, v.a[0], i):
            y = deref(E, s, x)
            if v.a[1] is not None:
                y = E.typed(y, v.a[1])
            out.append((s, y))
        return out
    if op == 'vstep':
        return view_item(E, st, v.a[0], pmul(i, v.a[1]))
    if op == 'vmitems':
        s = st.fork()
        return [(s, maps.item(E, s, v, i))]
    if op == 'vchain':
        a, la, b = v.a
        out = []
        for s in st.assume(lt(i, la)):
            out.extend(view_item(E, s, a, i))
        for s in st.assume(le(la, i)):
            out.extend(view_item(E, s, b, psub(i, la)))
        return out
    raise Imprecise('view ' + op)


def ceil_div(E, st, n, k):
    c = cval(k)
    if c == 1:
        return n
    return E.div(st, padd(n, I(c - 1)), k) if c else atom(mk('div', padd(n, psub(k, ONE)), k))


def iter_of(c, st, v, ti=None):
    """IntoIterator::into_iter on a value -> iterator value or None"""
    E = c.E
    if v.op in ITOPS:
        return v
    if v.op == 'vec':
        et = None
        if ti is not None:
            t = E.ty(ti)
            if t['k'] == 'adt' and t.get('args'):
                et = t['args'][0]
        return mkit(mk('vown', v.a[0], et), seq_len(v.a[0]))
    if maps.is_map(E, v):
        return maps.into_iter(c, st, v, ti)
    if v.op == 'agg':
        nm = v.a[0].split('::')[-1]
        if nm == 'Range':
            return mkit(mk('vrange', v.a[2]), psub(v.a[3], v.a[2]))
        if nm == 'RangeInclusive':
            return mkit(mk('vrange', v.a[2]), padd(psub(v.a[3], v.a[2]), ONE))
        if nm == 'RangeFrom':
            return mkit(mk('vrange', v.a[2]), I(1 << 59))
        if v.a[0] == OPTION:
            return mkit(mk('vown', mk('seq', one(v.a[2])) if v.a[1] == 1 else EMPTY, None), I(v.a[1]))
    if v.op == 'seq':
        return mkit(mk('vown', v, None), seq_len(v))
    if v.op in ('ref', 'rawp'):
        o, pa = E.ptr_loc(st, v)
        x = E.load(st, o, pa)
        if x.op in ITOPS or (x.op == 'agg' and x.a[0].split('::')[-1].startswith('Range')):
            return mk('iref', v)
        if maps.is_map(E, x):
            return maps.into_iter(c, st, v, ti)
        if x.op == 'agg' and x.a[0] == OPTION:
            if x.a[1] == 0:
                return mkit(mk('vown', EMPTY, None), ZERO)
            return mkit(mk('vown', mk('seq', one(ref(o, pa + (('v', 1), ('f', 0))))), None), ONE)
        p = slice_ptr(E, st, v)
        return mkit(mk('vsl', p), seqlen(E, st, p))
    t = ty_of(E, v)
    if t is not None:
        if t['k'] in ('ref', 'ptr'):
            p = slice_ptr(E, st, v)
            return mkit(mk('vsl', p), seqlen(E, st, p))
        if t['k'] == 'adt' and t['name'] in ('std::vec::Vec', 'std::boxed::Box'):
            s = mk('deref', v)
            et = E.ty(t['args'][0])
            ei = et.get('elem', t['args'][0])
            return mkit(mk('vown', s, ei), seq_len(s))
        if t['k'] == 'array':
            return mkit(mk('vown', v, t['elem']), seq_len(v))
    return None


ITOPS = ('it', 'imap', 'ifilter', 'iflat', 'ifmap', 'ichain', 'iref', 'itakew', 'ienum', 'izip', 'iinspect', 'iscan')


def range_states(c, st, v):
    """split on lo<=hi when a range may be empty-by-inversion"""
    if v.op == 'agg' and v.a[0].split('::')[-1] in ('Range', 'RangeInclusive') and v.a[2].op == 'poly':
        lo, hi = v.a[2], v.a[3]
        if v.a[0].split('::')[-1] == 'RangeInclusive':
            hi = padd(hi, ONE)
        r = st.facts.decide(le(lo, hi))
        if r is True:
            return [(st, v)]
        out = [(s.fork(), v) for s in st.assume(le(lo, hi))]
        for s in st.assume(lt(hi, lo)):
            out.append((s.fork(), agg('std::ops::Range', 0, lo, lo)))
        return out
    return [(st, v)]


@model('IntoIterator::into_iter', 'slice::iter', 'slice::iter_mut', 'Vec::iter', 'Vec::iter_mut', 'array::iter', 'Option::iter', 'Iterator::by_ref', 'Vec::into_iter', 'Vec::drain')
def m_intoiter(c):
    if c.m == 'drain':
        o, pa, v = getvec(c, c.args[0])
        n = seq_len(v.a[0])
        r = idx_range(c.E, c.st, c.args[1], n)
        if r is None:
            return None
        lo, hi = r
        out = []
        for s in c.oblige(AND(le(lo, hi), le(hi, n)), 'drain'):
            s = s.fork()
            d = seq_sub(v.a[0], lo, hi, s.facts)
            c.E.store(s, o, pa, mk('vec', cat(seq_sub(v.a[0], ZERO, lo, s.facts), seq_sub(v.a[0], hi, n, s.facts)), *v.a[1:]))
            out.append((s, mkit(mk('vown', d, c.targ(0)), psub(hi, lo))))
        return out
    out = []
    for s, v in range_states(c, c.st, c.args[0]):
        it = iter_of(c, s, v, c.targ(0))
        if it is None:
            return None
        out.append((s, it))
    return out


@model('HashMap::iter', 'HashMap::keys', 'HashMap::values')
def m_hmiter(c):
    return None


@model('slice::windows')
def m_windows(c):
    E, st = c.E, c.st
    n = seqlen(E, st, c.args[0])
    p = slice_ptr(E, st, c.args[0])
    k = c.args[1]
    out = []
    for s in st.assume(le(k, n)):
        out.append((s.fork(), mkit(mk('vwin', p, k), padd(psub(n, k), ONE))))
    for s in st.assume(lt(n, k)):
        out.append((s.fork(), mkit(mk('vwin', p, k), ZERO)))
    return out


@model('slice::chunks', 'slice::chunks_exact')
def m_chunks(c):
    E, st = c.E, c.st
    n = seqlen(E, st, c.args[0])
    p = slice_ptr(E, st, c.args[0])
    k = c.args[1]
    cnt = ceil_div(E, st, n, k) if c.m == 'chunks' else E.div(st, n, k)
    v = mk('vchunk', p, k, n)
    return c.ret(mkit(v, cnt))


@model('Itertools::tuple_windows')
def m_tw(c):
    E, st = c.E, c.st
    k = 2
    t = E.ty(c.ty) if c.ty is not None else None
    if t is not None and t['k'] == 'adt':
        for a in t['args']:
            tt = E.ty(a)
            if tt['k'] == 'tuple':
                k = len(tt['elems'])
    it = iter_of(c, st, c.args[0])
    if it is None:
        return None
    if it.op != 'it':
        return None
    view, pos, end = it.a
    v = view if pos is ZERO else mk('voff', view, pos)
    n = psub(end, pos)
    out = []
    for s in st.assume(le(I(k), n)):
        out.append((s.fork(), mkit(mk('vtw', v, k), psub(n, I(k - 1)))))
    for s in st.assume(lt(n, I(k))):
        out.append((s.fork(), mkit(mk('vtw', v, k), ZERO)))
    return out


@model('Itertools::tuples')
def m_tuples(c):
    return None


def rebase(it):
    """(view starting at 0, length) of a random-access iterator"""
    view, pos, end = it.a
    return (view if pos is ZERO else mk('voff', view, pos)), psub(end, pos)


@model('Iterator::enumerate', 'Iterator::rev', 'Iterator::copied', 'Iterator::cloned', 'Iterator::skip', 'Iterator::take',
       'Iterator::zip', 'Iterator::chain', 'Iterator::step_by', 'Iterator::peekable', 'Iterator::fuse', 'Itertools::pairwise', 'Iterator::cycle')
def m_adapt(c):
    E = c.E
    m = c.m
    out = []
    for s, v0 in range_states(c, c.st, c.args[0]):
        it = iter_of(c, s, v0)
        if it is None:
            return None
        if m == 'fuse':
            out.append((s, it))
            continue
        if m == 'chain':
            for s2, w0 in range_states(c, s, c.args[1]):
                other = iter_of(c, s2, w0)
                if other is None:
                    return None
                out.append((s2, mk('ichain', it, other)))
            continue
        if m == 'enumerate' and it.op in ('imap', 'ichain', 'ifilter', 'ifmap', 'iflat'):
            if it.op == 'imap':
                # (i, f(x)): keep lazy
                out.append((s, mk('ienum', it, ZERO)))
                continue
            out.append((s, mk('ienum', it, ZERO)))
            continue
        if m == 'zip' and it.op in ('imap',):
            other = iter_of(c, s, c.args[1])
            if other is None:
                return None
            out.append((s, mk('izip', it, other)))
            continue
        if m == 'rev' and it.op == 'imap':
            v, n = rebase(it.a[0]) if it.a[0].op == 'it' else (None, None)
            if v is None:
                return None
            out.append((s, mk('imap', mkit(mk('vrev', v, n), n), it.a[1])))
            continue
        if m in ('take', 'skip') and it.op == 'imap' and it.a[0].op == 'it':
            v, n = rebase(it.a[0])
            k = c.args[1]
            for s2 in s.assume(le(k, n)):
                if m == 'take':
                    out.append((s2.fork(), mk('imap', mkit(v, k), it.a[1])))
                else:
                    out.append((s2.fork(), mk('imap', mkit(mk('voff', v, k), psub(n, k)), it.a[1])))
            for s2 in s.assume(lt(n, k)):
                out.append((s2.fork(), mk('imap', mkit(v, n if m == 'take' else ZERO), it.a[1])))
            continue
        if m in ('copied', 'cloned') and it.op != 'it':
            return None
        if it.op != 'it':
            return None
        v, n = rebase(it)
        if m == 'enumerate':
            out.append((s, mkit(mk('venum', it.a[0], it.a[1]), n)))
        elif m == 'rev':
            out.append((s, mkit(mk('vrev', v, n), n)))
        elif m in ('copied', 'cloned'):
            et = item_ty(E, c)
            out.append((s, mkit(mk('vcp', v, et), n)))
        elif m in ('skip', 'take'):
            k = c.args[1]
            for s2 in s.assume(le(k, n)):
                if m == 'take':
                    out.append((s2.fork(), mkit(v, k)))
                else:
                    out.append((s2.fork(), mkit(v, n, k)))
            for s2 in s.assume(lt(n, k)):
                out.append((s2.fork(), mkit(v, n if m == 'take' else ZERO)))
        elif m == 'zip':
            other = None
            for s1, w0 in range_states(c, s, c.args[1]):
                other = iter_of(c, s1, w0)
                if other is None or other.op != 'it':
                    if other is not None:
                        out.append((s1, mk('izip', it, other)))
                        continue
                    return None
                w, nw = rebase(other)
                zv = mk('vzip', v, w, ZERO, ZERO)
                for s2 in s1.assume(le(n, nw)):
                    out.append((s2.fork(), mkit(zv, n)))
                for s2 in s1.assume(lt(nw, n)):
                    out.append((s2.fork(), mkit(zv, nw)))
        elif m == 'step_by':
            k = c.args[1]
            out.append((s, mkit(mk('vstep', v, k), ceil_div(E, s, n, k))))
        else:
            return None
    return out


def item_ty(E, c):
    """T of Iterator<Item=&'a T> given to copied()/cloned(): from the turbofish args"""
    for a in (c.callee.get('args') or [])[1:]:
        t = E.ty(a)
        if t['k'] not in ('region',):
            return a
    return None


@model('Iterator::map', 'Iterator::filter', 'Iterator::flat_map', 'Iterator::filter_map', 'Iterator::take_while', 'Iterator::flatten', 'Iterator::inspect')
def m_lazyadapt(c):
    out = []
    for s, v0 in range_states(c, c.st, c.args[0]):
        it = iter_of(c, s, v0)
        if it is None:
            return None
        if c.m == 'flatten':
            out.append((s, mk('iflat', it, mk('idfn'))))
            continue
        op = {'map': 'imap', 'filter': 'ifilter', 'flat_map': 'iflat', 'filter_map': 'ifmap', 'take_while': 'itakew', 'inspect': 'iinspect'}[c.m]
        out.append((s, mk(op, it, c.args[1])))
    return out


def call_fn(c, s, f, args, loc=None):
    if f.op == 'idfn':
        return [(s, args[0])]
    if f.op == 'clo' and loc is not None:
        return c.E.call_closure(c.fr, s, f, args, c.line, loc=loc)
    return c.E.call_value(c.fr, s, f, args, c.line)


def step(c, st, o, pa, d=0):
    """advance the iterator stored at (o, pa): list of (kind, st, item)
    kind: 'item' | 'done' | 'skip' | 'phase' | 'seq' (item is a whole sequence)"""
    E = c.E
    it = E.load(st, o, pa)
    if it.op == 'agg' and it.a[0].split('::')[-1] == 'Range':
        lo, hi = it.a[2], it.a[3]
        out = []
        for s in st.assume(lt(lo, hi)):
            s = s.fork()
            E.store(s, o, pa, agg(it.a[0], it.a[1], padd(lo, ONE), hi))
            out.append(('item', s, lo))
        for s in st.assume(le(hi, lo)):
            out.append(('done', s.fork(), None))
        return out
    if it.op == 'ref':
        return step(c, st, it.a[0], it.a[1], d + 1)
    if it.op == 'iref':
        return step(c, st, it.a[0].a[0], it.a[0].a[1], d + 1)
    if it.op == 'it':
        view, pos, end = it.a
        out = []
        for s in st.assume(lt(pos, end)):
            s = s.fork()
            E.store(s, o, pa, mk('it', view, padd(pos, ONE), end))
            for s2, x in view_item(E, s, view, pos):
                out.append(('item', s2.fork(), x))
        for s in st.assume(eq0(psub(end, pos))):
            out.append(('done', s.fork(), None))
        return out
    if it.op == 'ichain':
        out = []
        for k, s, x in step(c, st, o, pa + (('k', 0),), d + 1):
            if k == 'done':
                s = s.fork()
                E.store(s, o, pa, it.a[1])
                out.append(('phase', s, None))
            else:
                out.append((k, s, x))
        return out
    if it.op == 'ienum':
        out = []
        for k, s, x in step(c, st, o, pa + (('k', 0),), d + 1):
            if k == 'item':
                cur = E.load(s, o, pa + (('k', 1),))
                E.store(s, o, pa + (('k', 1),), padd(cur, ONE))
                x = tup(cur, x)
            out.append((k, s, x))
        return out
    if it.op == 'izip':
        out = []
        for k, s, x in step(c, st, o, pa + (('k', 0),), d + 1):
            if k == 'item':
                for k2, s2, y in step(c, s, o, pa + (('k', 1),), d + 1):
                    if k2 == 'item':
                        out.append(('item', s2, tup(x, y)))
                    elif k2 == 'done':
                        out.append(('done', s2, None))
                    else:
                        raise Imprecise('zip of ' + k2)
            else:
                out.append((k, s, x))
        return out
    if it.op in ('imap', 'ifilter', 'ifmap', 'iflat', 'itakew', 'iinspect'):
        out = []
        for k, s, x in step(c, st, o, pa + (('k', 0),), d + 1):
            if k in ('done', 'skip', 'phase'):
                out.append((k, s, x))
                continue
            if k == 'seq':
                raise Imprecise('adaptor over flat_map')
            f = E.load(s, o, pa + (('k', 1),))
            loc = (o, pa + (('k', 1),))
            if it.op == 'imap':
                for s2, v in call_fn(c, s, f, [x], loc):
                    out.append(('item', s2, v))
            elif it.op in ('ifilter', 'itakew', 'iinspect'):
                s = s.fork()
                ob = E.newobj(s, x)
                for s2, b in call_fn(c, s, f, [ref(ob)], loc):
                    if it.op == 'iinspect':
                        out.append(('item', s2, x))
                        continue
                    for s3, tv in fork_bool(s2, b):
                        s3.mem.pop(ob, None) if False else None
                        if tv:
                            out.append(('item', s3, x))
                        else:
                            s3.mem = {k_: v_ for k_, v_ in s3.mem.items() if k_ != ob}
                            out.append(('skip' if it.op == 'ifilter' else 'done', s3, None))
            elif it.op == 'ifmap':
                for s2, v in call_fn(c, s, f, [x], loc):
                    for s3, i, y in cases(E, s2, v):
                        out.append(('item', s3, y) if i == 1 else ('skip', s3, None))
            else:
                for s2, v in call_fn(c, s, f, [x], loc):
                    t = ty_of(E, v)
                    if (v.op == 'agg' and v.a[0] in (OPTION, RESULT)) or (t is not None and t.get('name') == OPTION):
                        for s3, i, y in cases(E, s2, v):
                            good = i == (1 if (v.op != 'agg' or v.a[0] == OPTION) else 0)
                            out.append(('item', s3, y) if good else ('skip', s3, None))
                        continue
                    inner = iter_of(c, s2, v)
                    if inner is None or inner.op != 'it':
                        raise Imprecise('flat_map result')
                    out.append(('seq', s2, inner))
        return out
    raise Imprecise('iterator ' + it.op)


@model('Iterator::next')
def m_next(c):
    E, st = c.E, c.st
    p = c.args[0]
    o, pa = E.ptr_loc(st, p)
    it = E.load(st, o, pa)
    while it.op == 'ref':
        o, pa = it.a
        it = E.load(st, o, pa)
    if it.op not in ITOPS and not (it.op == 'agg' and it.a[0].split('::')[-1] == 'Range'):
        # a local iterator?
        t = E.ty(c.targ(0)) if c.targ(0) is not None else None
        while t is not None and t['k'] == 'ref':
            t = E.ty(t['to'])
        if t is not None and t['k'] == 'adt':
            for k in E.p.impls:
                if k.endswith('as std::iter::Iterator>::next') and strip_generics2(k) == t['name']:
                    return E.run_fn(k, st, [ref(o, pa)], (c.fr.key, c.line))
        return None
    out = []
    for k, s, x in step(c, st, o, pa):
        if k == 'item':
            out.append((s, some(x)))
        elif k == 'done':
            out.append((s, none()))
        elif k in ('skip', 'phase'):
            out.append((k, s))
        else:
            raise Imprecise('next() on flat_map')
    return out


@model('DoubleEndedIterator::next_back')
def m_nextback(c):
    E, st = c.E, c.st
    o, pa = E.ptr_loc(st, c.args[0])
    it = E.load(st, o, pa)
    if it.op != 'it':
        return None
    view, pos, end = it.a
    out = []
    for s in st.assume(lt(pos, end)):
        s = s.fork()
        E.store(s, o, pa, mk('it', view, pos, psub(end, ONE)))
        for s2, x in view_item(E, s, view, psub(end, ONE)):
            out.append((s2.fork(), some(x)))
    for s in st.assume(eq0(psub(end, pos))):
        out.append((s.fork(), none()))
    return out


def consume(c, itv, init, body, st=None, site=''):
    """drive iterator value itv to its end.  init: list of accumulator values;
    body(st, objs, kind, item) -> [('back', st) | ('exit', st, tag)].
    -> list of (st, objs, tag) (tag None when exhausted)"""
    E = c.E
    st = (st or c.st).fork()
    io = E.newobj(st, itv)
    objs = [E.newobj(st, v) for v in init]
    keep = set(st.mem)

    def run(s):
        res = []
        for k, s2, x in step(c, s, io, ()):
            if k == 'done':
                res.append(('exit', s2, None))
            elif k == 'skip':
                res.append(('back', trim(s2)))
            elif k == 'phase':
                res.append(('exit', s2, 'phase'))
            else:
                for r in body(s2, objs, k, x):
                    if r[0] == 'back':
                        res.append(('back', trim(r[1])))
                    else:
                        res.append(r)
        return res

    def trim(s):
        s = s.fork()
        refd = None
        for o in list(s.mem):
            if o not in keep and isinstance(o, int):
                if refd is None:
                    refd = reachable(s, keep)
                if o not in refd:
                    del s.mem[o]
        return s

    done = []
    work = [st]
    while work:
        s = work.pop()
        for r in E.summarize(s, run, (c.fr.key, 'consume', c.line, site)):
            if r[0] == 'exit':
                if r[2] == 'phase':
                    work.append(r[1])
                else:
                    done.append((r[1], objs, r[2]))
    return done, io


def reachable(s, keep):
    seen = set()
    stack = [o for o in s.mem if o in keep or not isinstance(o, int)]
    while stack:
        o = stack.pop()
        if o in seen:
            continue
        seen.add(o)
        v = s.mem.get(o)
        if v is None:
            continue
        for y in interp.subterms_cached(v):
            if y.op in ('ref', 'alias') and y.a[0] not in seen:
                stack.append(y.a[0])
    return seen


def finish(c, done, io, f):
    out = []
    for s, objs, tag in done:
        vals = [s.mem[o] for o in objs]
        s = s.fork()
        for o in objs + [io]:
            s.mem.pop(o, None)
        out.append((s, f(s, vals, tag)))
    return c.E.merge_outs(c.st, out)


def iters(c, v):
    out = []
    for s, v0 in range_states(c, c.st, v):
        it = iter_of(c, s, v0, c.targ(0))
        if it is None:
            return None
        out.append((s, it))
    return out


def add_item(c, s, o, kind, x):
    """append item (or the items of a flat_map piece) to the vec object o"""
    E = c.E
    s = s.fork()
    v = s.mem[o]
    if kind == 'item':
        extra = mk('seq', one(x))
    else:
        w, n = rebase(x)
        if w.op == 'vown':
            extra = w.a[0]
        else:
            lv = newlv()
            s3 = s.fork()
            s3.facts = s3.facts.add(lt(atom(lv), n))
            its = view_item(E, s3, w, atom(lv))
            if len(its) != 1:
                raise Imprecise('flat_map piece')
            extra = mk('seq', mk('comp', n, lv, its[0][1]))
    s.mem[o] = mk('vec', cat(v.a[0], extra), *v.a[1:])
    return s


@model('Iterator::collect', 'FromIterator::from_iter', 'Itertools::collect_vec')
def m_collect(c):
    E = c.E
    t = E.ty(c.ty) if c.ty is not None else None
    nm = t.get('name') if t else None
    its = iters(c, c.args[0])
    if its is None:
        return None
    res = []
    if nm in (RESULT, OPTION):
        inner = E.ty(t['args'][0])
        if inner.get('name') not in ('std::vec::Vec', 'std::boxed::Box'):
            return None
        for st, it in its:
            def body(s, objs, k, x):
                if k != 'item':
                    raise Imprecise('collect')
                out = []
                for s2, i, y in cases(E, s, x):
                    good = i == (0 if nm == RESULT else 1)
                    if good:
                        out.append(('back', add_item(c, s2, objs[0], 'item', y)))
                    else:
                        s2 = s2.fork()
                        s2.mem[objs[1]] = y
                        out.append(('exit', s2, 'fail'))
                return out
            done, io = consume(c, it, [mk('vec', EMPTY, mk('alloc', 'c', 0, ()), I(1 << 60)), UNIT], body, st)

            def fin(s, vals, tag):
                if tag == 'fail':
                    return err(vals[1]) if nm == RESULT else none()
                v = vals[0]
                w = mk('vec' if inner['name'] == 'std::vec::Vec' else 'box', v.a[0], E.fresh_alloc(), *([seq_len(v.a[0])] if inner['name'] == 'std::vec::Vec' else []))
                return ok(w) if nm == RESULT else some(w)
            res.extend(finish(c, done, io, fin))
        return res
    if nm not in ('std::vec::Vec', 'std::boxed::Box'):
        return None
    for st, it in its:
        def body(s, objs, k, x):
            return [('back', add_item(c, s, objs[0], k, x))]
        done, io = consume(c, it, [mk('vec', EMPTY, mk('alloc', 'c', 0, ()), I(1 << 60))], body, st)

        def fin(s, vals, tag):
            v = vals[0]
            if nm == 'std::vec::Vec':
                return mk('vec', v.a[0], E.fresh_alloc(), seq_len(v.a[0]))
            return mk('box', v.a[0], E.fresh_alloc())
        res.extend(finish(c, done, io, fin))
    return res


@model('Extend::extend')
def m_extend(c):
    E = c.E
    o, pa, v = getvec(c, c.args[0])
    c.E.store(c.st, o, pa, v)
    res = []
    for s0, v0 in range_states(c, c.st, c.args[1]):
        it = iter_of(c, s0, v0, c.targ(2))
        if it is None:
            return None

        def body(s, objs, k, x):
            if False:
                pass
            # Extend<&'a T> copies
            return [('back', add_item(c, s, objs[0], k, x))]
        if it.op == 'it' and it.a[0].op == 'vsl':
            it = mkit(mk('vcp', *((rebase(it)[0]), None)), rebase(it)[1])
        done, io = consume(c, it, [mk('vec', EMPTY, mk('alloc', 'c', 0, ()), I(1 << 60))], body, s0)
        for s, objs, tag in done:
            s = s.fork()
            extra = s.mem[objs[0]].a[0]
            for ob in objs + [io]:
                s.mem.pop(ob, None)
            cur = E.load(s, o, pa)
            vec_append(c, s, o, pa, cur, extra)
            res.append((s, UNIT))
    return res


@model('Iterator::partition')
def m_partition(c):
    E = c.E
    its = iters(c, c.args[0])
    if its is None:
        return None
    res = []
    f = c.args[1]
    for st, it in its:
        def body(s, objs, k, x):
            if k != 'item':
                raise Imprecise('partition')
            s = s.fork()
            ob = E.newobj(s, x)
            out = []
            for s2, b in call_fn(c, s, s.mem[objs[2]], [ref(ob)], (objs[2], ())):
                for s3, tv in fork_bool(s2, b):
                    out.append(('back', add_item(c, s3, objs[0 if tv else 1], 'item', x)))
            return out
        e = mk('vec', EMPTY, mk('alloc', 'c', 0, ()), I(1 << 60))
        done, io = consume(c, it, [e, e, f], body, st)

        def fin(s, vals, tag):
            return tup(*[mk('vec', v.a[0], E.fresh_alloc(), seq_len(v.a[0])) for v in vals[:2]])
        res.extend(finish(c, done, io, fin))
    return res


@model('Iterator::sum', 'Iterator::count', 'Iterator::product')
def m_sum(c):
    E = c.E
    its = iters(c, c.args[0])
    if its is None:
        return None
    res = []
    rng = int_range(c.ty)
    for st, it in its:
        if c.m == 'count' and it.op == 'it':
            res.append((st, rebase(it)[1]))
            continue

        def body(s, objs, k, x):
            if k != 'item':
                raise Imprecise('sum')
            s = s.fork()
            cur = s.mem[objs[0]]
            if c.m == 'count':
                v = padd(cur, ONE)
            else:
                if is_ptr(x):
                    x = deref(E, s, x)
                if x.op != 'poly':
                    x = E.typed(x, c.ty)
                v = padd(cur, x) if c.m == 'sum' else pmul(cur, x)
            out = []
            if rng is not None and c.m != 'count':
                ss = c.oblige(AND(ge0(psub(v, I(rng[0]))), ge0(psub(I(rng[1]), v))), 'Overflow(sum)', s)
            else:
                ss = [s]
            for s2 in ss:
                s2 = s2.fork()
                s2.mem[objs[0]] = v
                out.append(('back', s2))
            return out
        done, io = consume(c, it, [ZERO if c.m != 'product' else ONE], body, st)
        res.extend(finish(c, done, io, lambda s, vals, tag: vals[0]))
    return res


@model('Iterator::fold', 'Iterator::for_each', 'Iterator::try_fold', 'Iterator::try_for_each')
def m_fold(c):
    E = c.E
    if c.m.startswith('try'):
        return None
    its = iters(c, c.args[0])
    if its is None:
        return None
    res = []
    f = c.args[-1]
    for st, it in its:
        def body(s, objs, k, x):
            if k != 'item':
                raise Imprecise('fold')
            s = s.fork()
            args = [s.mem[objs[0]], x] if c.m == 'fold' else [x]
            out = []
            for s2, v in call_fn(c, s, s.mem[objs[1]], args, (objs[1], ())):
                s2 = s2.fork()
                if c.m == 'fold':
                    s2.mem[objs[0]] = v
                out.append(('back', s2))
            return out
        done, io = consume(c, it, [c.args[1] if c.m == 'fold' else UNIT, f], body, st)
        res.extend(finish(c, done, io, lambda s, vals, tag: vals[0]))
    return res


def consume_any(c, it, pred, st=None, want=True):
    E = c.E
    if it is None:
        return None

    def body(s, objs, k, x):
        if k != 'item':
            raise Imprecise('any')
        out = []
        for s2, b in pred(s, x):
            for s3, tv in fork_bool(s2, b):
                if tv == want:
                    out.append(('exit', s3, 'hit'))
                else:
                    out.append(('back', s3))
        return out
    done, io = consume(c, it, [], body, st)
    return finish(c, done, io, lambda s, vals, tag: (TRUE if tag == 'hit' else FALSE) if want else (FALSE if tag == 'hit' else TRUE))


@model('Iterator::any', 'Iterator::all')
def m_any(c):
    E = c.E
    o, pa = E.ptr_loc(c.st, c.args[0])
    it = E.load(c.st, o, pa)
    f = c.args[1]
    return consume_any(c, iter_of(c, c.st, it), lambda s, x: E.call_value(c.fr, s, f, [x], c.line), want=(c.m == 'any'))


@model('Iterator::position', 'Iterator::find', 'Iterator::find_map', 'Iterator::rposition')
def m_position(c):
    E = c.E
    if c.m == 'rposition':
        return None
    o, pa = E.ptr_loc(c.st, c.args[0])
    it = E.load(c.st, o, pa)
    it = iter_of(c, c.st, it)
    if it is None:
        return None
    f = c.args[1]
    c.st = c.st.fork()

    def body(s, objs, k, x):
        if k != 'item':
            raise Imprecise('position')
        s = s.fork()
        out = []
        if c.m == 'find_map':
            for s2, v in E.call_value(c.fr, s, f, [x], c.line):
                for s3, i, y in cases(E, s2, v):
                    s3 = s3.fork()
                    if i == 1:
                        s3.mem[objs[0]] = y
                        out.append(('exit', s3, 'hit'))
                    else:
                        out.append(('back', s3))
            return out
        if c.m == 'find':
            ob = E.newobj(s, x)
            arg = ref(ob)
        else:
            arg = x
        cur = s.mem[objs[0]]
        for s2, b in E.call_value(c.fr, s, f, [arg], c.line):
            for s3, tv in fork_bool(s2, b):
                s3 = s3.fork()
                if tv:
                    if c.m == 'find':
                        s3.mem[objs[0]] = x
                    out.append(('exit', s3, 'hit'))
                else:
                    if c.m == 'position':
                        s3.mem[objs[0]] = padd(cur, ONE)
                    out.append(('back', s3))
        return out
    done, io = consume(c, it, [ZERO if c.m == 'position' else UNIT], body)
    return finish(c, done, io, lambda s, vals, tag: some(vals[0]) if tag == 'hit' else none())


@model('Iterator::last', 'Iterator::nth')
def m_last(c):
    E = c.E
    v = c.args[0]
    if v.op == 'ref':
        o, pa = v.a
        v = E.load(c.st, o, pa)
    it = iter_of(c, c.st, v)
    if it is None or it.op != 'it':
        return None
    w, n = rebase(it)
    i = psub(n, ONE) if c.m == 'last' else c.args[1]
    out = []
    for s in c.st.assume(AND(lt(i, n), ge0(i))):
        for s2, x in view_item(E, s, w, i):
            s2 = s2.fork()
            if c.m == 'nth':
                E.store(s2, o, pa, mk('it', it.a[0], padd(it.a[1], padd(i, ONE)), it.a[2]))
            out.append((s2, some(x)))
    for s in c.st.assume(NOT(AND(lt(i, n), ge0(i)))):
        s = s.fork()
        if c.m == 'nth':
            E.store(s, o, pa, mk('it', it.a[0], it.a[2], it.a[2]))
        out.append((s, none()))
    return out


@model('ExactSizeIterator::len')
def m_itlen(c):
    it = deref(c.E, c.st, c.args[0])
    if it.op == 'it':
        return c.ret(rebase(it)[1])
    return None


@model('Iterator::min_by_key', 'Iterator::max_by_key', 'Iterator::min', 'Iterator::max', 'Iterator::min_by', 'Iterator::max_by')
def m_minby(c):
    """argmin: None iff empty; otherwise the item at a symbolic index (an 'argmin' atom)"""
    E = c.E
    its = iters(c, c.args[0])
    if its is None:
        return None
    res = []
    for st, it in its:
        if it.op != 'it':
            return None
        w, n = rebase(it)
        for s in st.assume(eq0(n)):
            res.append((s.fork(), none()))
        for s in st.assume(lt(ZERO, n)):
            s = s.fork()
            lv = newlv()
            s2 = s.fork()
            s2.facts = s2.facts.add(lt(atom(lv), n))
            its2 = view_item(E, s2, w, atom(lv))
            if len(its2) != 1:
                return None
            if c.m in ('min_by_key', 'max_by_key'):
                s3 = its2[0][0].fork()
                ob = E.newobj(s3, its2[0][1])
                E.quiet += 1
                try:
                    ks = E.call_value(c.fr, s3, c.args[1], [ref(ob)], c.line)
                finally:
                    E.quiet -= 1
                if len(ks) != 1:
                    return None
                key = ks[0][1]
                key = deref_all(E, ks[0][0], key)
            elif c.m in ('min', 'max'):
                key = deref_all(E, its2[0][0], its2[0][1])
            else:
                return None
            a = mk('argmin' if c.m.startswith('min') else 'argmax', n, lv, key)
            a.info = {'facts': [atom(a), psub(psub(n, ONE), atom(a))]}
            for s4, x in view_item(E, s, w, atom(a)):
                res.append((s4, some(x)))
    return res


@model('iter::once')
def m_once(c):
    return c.ret(mkit(mk('vown', mk('seq', one(c.args[0])), None), ONE))


@model('iter::empty')
def m_empty(c):
    return c.ret(mkit(mk('vown', EMPTY, None), ZERO))


@model('iter::repeat')
def m_repeat(c):
    lv = newlv()
    n = I(1 << 59)
    return c.ret(mkit(mk('vown', mk('seq', mk('comp', n, lv, c.args[0])), None), n))


@model('FnOnce::call_once', 'FnMut::call_mut', 'Fn::call')
def m_callfn(c):
    a = c.args[1]
    args = list(a.a) if a.op == 'tup' else [a]
    return c.E.call_value(c.fr, c.st, c.args[0], args, c.line)


@model('Try::from_output')
def m_fromout(c):
    t = c.E.ty(c.ty) if c.ty is not None else None
    if t is not None and t.get('name') == OPTION:
        return c.ret(some(c.args[0]))
    return c.ret(ok(c.args[0]))


@model('Add::add', 'Sub::sub', 'Mul::mul', 'Div::div', 'Neg::neg', 'AddAssign::add_assign', 'SubAssign::sub_assign')
def m_arith(c):
    E, st = c.E, c.st
    m = c.m
    if m.endswith('_assign'):
        o, pa = E.ptr_loc(st, c.args[0])
        a = E.load(st, o, pa)
        b = deref_all(E, st, c.args[1])
    else:
        a = deref_all(E, st, c.args[0])
        b = deref_all(E, st, c.args[1]) if len(c.args) > 1 else None
    if a.op == 'poly' and b is not None and b.op == 'poly' and m[:3] in ('add', 'sub', 'mul'):
        v = {'add': padd, 'sub': psub, 'mul': pmul}[m[:3]](a, b)
        rng = int_range(c.ty if not m.endswith('_assign') else None)
        if m.endswith('_assign'):
            ti = c.targ(0)
            rng = int_range(ti)
        if rng:
            ss = c.oblige(AND(ge0(psub(v, I(rng[0]))), ge0(psub(I(rng[1]), v))), 'Overflow(%s)' % m)
        else:
            ss = [st]
        out = []
        for s in ss:
            s = s.fork()
            if m.endswith('_assign'):
                E.store(s, o, pa, v)
                out.append((s, UNIT))
            else:
                out.append((s, v))
        return out
    if m == 'add' and a.op in ('str', 'msg', 'tostr', 'encname', 'strcat'):
        return c.ret(MSG)
    return None


import maps  # noqa: E402 (registers its models)
