"""Abstract sequences: contents of arrays, slices, Vecs and boxed slices.

  seq(seg...)       concatenation of segments
    one(v)          a single element
    comp(n,lv,v)    v for lv in 0..n
    gcomp(n,lv,cs)  for lv in 0..n: the emission of the case whose guards hold
    lseg(id,pid,K)  what loop `id` has appended after K iterations (unsolved)
    all(s)          the whole symbolic sequence s
    sub(s,lo,hi)    s[lo..hi]
  upd(s,k,v)        s with element k replaced
  rev(s)            reversed
Any other term denotes a symbolic sequence (an input)."""
from terms import *
from terms import _kids
from facts import *

EMPTY = mk('seq')
SEGS = ('one', 'comp', 'gcomp', 'lseg', 'all', 'sub', 'own')
_bv = [0]


def newlv(tag='v'):
    _bv[0] += 1
    return mk('lv', '%s%d' % (tag, _bv[0]))


def one(v):
    return mk('one', v)


def elem(s, i, ty=None):
    t = mk('elem', s, i)
    if t.ty is None:
        t.ty = ty
    return t


def seg_len(g):
    if g.op == 'one':
        return ONE
    if g.op == 'comp':
        return g.a[0]
    if g.op == 'sub':
        return psub(g.a[2], g.a[1])
    if g.op == 'all':
        return atom(mk('len', g.a[0]))
    if g.op == 'gcomp':
        cnts = []
        for gs, s in g.a[2]:
            cnts.append((gs, seq_len(s)))
        cs = set(c for _, c in cnts)
        if len(cs) == 1:
            c = list(cs)[0]
            if g.a[1] not in c.vars:
                return pmul(c, g.a[0])
        return atom(mk_acc(ZERO, g.a[0], g.a[1], tuple(cnts)))
    if g.op == 'lseg':
        return atom(mk('len', g))
    return atom(mk('len', g))


def mk_acc(init, n, lv, cases):
    cases = tuple((g, f) for g, f in cases if f is not ZERO)
    if not cases or n is ZERO:
        return init
    return mk('acc', init, n, lv, cases)


def seq_len(s):
    if s.op == 'seq':
        r = ZERO
        for g in s.a:
            r = padd(r, seg_len(g))
        return r
    if s.op == 'upd':
        return seq_len(s.a[0])
    if s.op in ('rev', 'sorted'):
        return seq_len(s.a[0])
    if s.op == 'mitems':
        return REBUILD['mlen'](s.a[0])
    if s.op in SEGS:
        return seg_len(s)
    if s.op == 'str':
        return I(len(s.a[0].encode('utf8')))
    if s.info and isinstance(s.info, dict) and 'len' in s.info:
        return s.info['len']
    return atom(mk('len', s))


def segs(s):
    """segments of s"""
    if s.op == 'seq':
        return s.a
    if s.op in SEGS:
        return (s,)
    return (mk('all', s),)


def cat(*ss):
    out = []
    for s in ss:
        for g in segs(s):
            if g.op in ('comp', 'gcomp', 'sub') and seg_len(g) is ZERO:
                continue
            # merge adjacent pieces of one base
            if out and g.op == 'sub' and out[-1].op == 'sub' and out[-1].a[0] is g.a[0] and out[-1].a[2] is g.a[1]:
                out[-1] = sub_seg(g.a[0], out[-1].a[1], g.a[2])
                continue
            out.append(g)
    if len(out) == 1 and out[0].op == 'all':
        return out[0].a[0]
    return mk('seq', *out)


def sub_seg(s, lo, hi):
    if lo is ZERO and hi is seq_len(s) and s.op not in ('seq',):
        return mk('all', s)
    return mk('sub', s, lo, hi)


def seq_sub(s, lo, hi, facts=None):
    """s[lo..hi]"""
    if lo is hi:
        return EMPTY
    if s.op == 'rev':
        n = seq_len(s.a[0])
        return seq_rev(seq_sub(s.a[0], psub(n, hi), psub(n, lo), facts))
    if s.op == 'seq':
        if lo is ZERO and hi is seq_len(s):
            return s
        if len(s.a) == 1:
            g = s.a[0]
            if g.op == 'comp':
                lv = g.a[1]
                return mk('seq', mk('comp', psub(hi, lo), lv, subst(g.a[2], {lv: padd(lo, atom(lv))})))
            if g.op == 'sub':
                return mk('seq', mk('sub', g.a[0], padd(g.a[1], lo), padd(g.a[1], hi)))
            if g.op == 'all':
                return seq_sub(g.a[0], lo, hi, facts)
        # try to cut at segment boundaries
        off = ZERO
        out = []
        st = 0
        good = True
        for g in s.a:
            n = seg_len(g)
            nxt = padd(off, n)
            # overlap of [off,nxt) with [lo,hi)
            D = (lambda b: facts.decide(b)) if facts else (lambda b: True if b is TRUE else False if b is FALSE else None)
            if D(le(nxt, lo)) is True or D(le(hi, off)) is True:
                off = nxt
                continue
            a = off if D(le(lo, off)) is True else lo if D(le(off, lo)) is True else None
            b = nxt if D(le(nxt, hi)) is True else hi if D(le(hi, nxt)) is True else None
            if a is None or b is None:
                good = False
                break
            if a is off and b is nxt:
                out.append(g)
            elif g.op == 'one':
                out.append(g)
            else:
                r = seq_sub(mk('seq', g), psub(a, off), psub(b, off), facts)
                out.extend(segs(r))
            off = nxt
        if good:
            return cat(*out)
        return mk('seq', mk('sub', s, lo, hi))
    if lo is ZERO and hi is seq_len(s):
        return s
    return mk('seq', mk('sub', s, lo, hi))


def seq_rev(s):
    if s.op == 'rev':
        return s.a[0]
    if s.op == 'seq':
        if all(g.op == 'one' for g in s.a):
            return mk('seq', *reversed(s.a))
        if len(s.a) == 1 and s.a[0].op == 'comp':
            n, lv, b = s.a[0].a
            return mk('seq', mk('comp', n, lv, subst(b, {lv: psub(psub(n, ONE), atom(lv))})))
        if len(s.a) == 1 and s.a[0].op == 'all':
            return seq_rev(s.a[0].a[0])
    return mk('rev', s)


def seg_get(g, i, facts):
    if g.op == 'one':
        return g.a[0]
    if g.op == 'comp':
        return subst(g.a[2], {g.a[1]: i})
    if g.op == 'all':
        return seq_get(g.a[0], i, facts)
    if g.op == 'sub':
        return seq_get(g.a[0], padd(g.a[1], i), facts)
    if g.op == 'gcomp':
        n, lv, cases = g.a
        # index is "number emitted before iteration K", and iteration K emits exactly one element
        at = as_atom(i)
        if at is not None and at.op == 'acc' and at.a[0] is ZERO:
            K = at.a[1]
            cnts = tuple((gs, seq_len(s)) for gs, s in cases)
            full = mk_acc(ZERO, K, lv, cnts)
            if canon(full) is canon(at):
                for gs, s in cases:
                    gg = [subst(x, {lv: K}) for x in gs]
                    if s.op == 'seq' and len(s.a) >= 1 and all(facts.decide(x) is True for x in gg):
                        return subst(seg_get(s.a[0], ZERO, facts), {lv: K})
        # every case emits exactly one element
        if all(s.op == 'seq' and len(s.a) == 1 and s.a[0].op == 'one' for gs, s in cases):
            hit = [s.a[0].a[0] for gs, s in cases if all(facts.decide(subst(x, {lv: i})) is True for x in gs)]
            if hit:
                return subst(hit[0], {lv: i})
    return None


def seq_get(s, i, facts):
    """element i of s (a value), assuming in bounds"""
    if s.op == 'upd':
        r = facts.decide(eq0(psub(s.a[1], i)))
        if r is True:
            return s.a[2]
        if r is False:
            return seq_get(s.a[0], i, facts)
        return elem(s, i)
    if s.op == 'rev':
        return seq_get(s.a[0], psub(psub(seq_len(s.a[0]), ONE), i), facts)
    if s.op == 'seq':
        off = ZERO
        for g in s.a:
            n = seg_len(g)
            nxt = padd(off, n)
            inside = facts.decide(lt(i, nxt))
            if inside is True:
                if facts.decide(le(off, i)) is not True:
                    break
                r = seg_get(g, psub(i, off), facts)
                return r if r is not None else elem(s, i)
            if inside is None:
                if len(s.a) == 1:
                    r = seg_get(g, i, facts)
                    return r if r is not None else elem(s, i)
                break
            off = nxt
        # from the end
        end = seq_len(s)
        for g in reversed(s.a):
            n = seg_len(g)
            st = psub(end, n)
            if facts.decide(le(st, i)) is True and facts.decide(lt(i, end)) is True:
                r = seg_get(g, psub(i, st), facts)
                return r if r is not None else elem(s, i)
            if facts.decide(lt(i, st)) is not True:
                break
            end = st
        return elem(s, i)
    if s.op == 'str':
        c = cval(i)
        b = s.a[0].encode('utf8')
        if c is not None and 0 <= c < len(b):
            return I(b[c])
    return elem(s, i)


def seq_set(s, i, v, facts):
    c = cval(i)
    if s.op == 'seq' and c is not None and all(g.op == 'one' for g in s.a) and 0 <= c < len(s.a):
        l = list(s.a)
        l[c] = one(v)
        return mk('seq', *l)
    if s.op == 'seq' and len(s.a) == 1 and s.a[0].op == 'comp' and c is not None:
        n = cval(s.a[0].a[0])
        if n is not None and n <= 16:
            l = [one(subst(s.a[0].a[2], {s.a[0].a[1]: I(j)})) for j in range(n)]
            l[c] = one(v)
            return mk('seq', *l)
    if s.op == 'upd' and s.a[1] is i:
        s = s.a[0]
    return mk('upd', s, i, v)


def explode(s):
    """list of element values if s has a known finite shape, else None"""
    if s.op == 'seq':
        out = []
        for g in s.a:
            if g.op == 'one':
                out.append(g.a[0])
            elif g.op == 'comp' and cval(g.a[0]) is not None and cval(g.a[0]) <= 64:
                for j in range(cval(g.a[0])):
                    out.append(subst(g.a[2], {g.a[1]: I(j)}))
            else:
                return None
        return out
    return None


# ---------------------------------------------------------------- canonical form
_canon_cache = {}


BINDERS = frozenset(('first', 'mu', 'fall', 'argmin', 'argmax', 'comp', 'gcomp', 'acc'))
BINDAT = dict(first=0, mu=2, fall=1, argmin=1, argmax=1, comp=1, gcomp=1, acc=2)
_height = {}


def height(t):
    """how deeply binders nest in t"""
    r = _height.get(t)
    if r is not None:
        return r
    todo = [t]
    while todo:
        x = todo[-1]
        if x in _height:
            todo.pop()
            continue
        ks = x.kids
        more = [k for k in ks if k not in _height]
        if more:
            todo.extend(more)
            continue
        h = 0
        for k in ks:
            if _height[k] > h:
                h = _height[k]
        _height[x] = h + 1 if x.op in BINDERS else h
        todo.pop()
    return _height[t]


def canon(t):
    """rename bound variables by what is bound below them; normalise trivial sequences"""
    r = _canon_cache.get(t)
    if r is not None:
        return r
    r = _canon(t)
    seen = [t]
    while True:
        # simpler terms nest less
        n = _canon_cache.get(r)
        if n is None:
            if len(seen) > 4:
                break
            n = _canon(r)
        if n is r:
            break
        seen.append(r)
        r = n
    for x in seen:
        _canon_cache[x] = r
    _canon_cache[r] = r
    return r


def _cn(x):
    if isinstance(x, T):
        return canon(x)
    if isinstance(x, tuple):
        return tuple(_cn(y) for y in x)
    return x


def _canon(t):
    if t.op in BINDERS:
        d = height(t)
        own = t.a[BINDAT[t.op]]
        while True:
            b = mk('lv', '#%d' % d)
            if b is own or b not in t.vars:
                break
            d += 1
    if t.op == 'boxv':
        c = canon(t.a[0])
        return c.a[0] if c.op == 'deref' else mk('boxv', c)
    if t.op == 'first':
        lv, body = t.a
        b = mk('lv', '#%d' % d)
        return mk('first', b, canon(subst(body, {lv: atom(b)})))
    if t.op == 'mu':
        j, n, lv, phis, inits, cases = t.a
        b = mk('lv', '#%d' % d)
        m = {lv: atom(b)}
        ps = []
        for i, x in enumerate(phis):
            q = mk('mphi', '#%d' % d, i)
            if q is not x:
                q.ty, q.info = x.ty, x.info
                m[x] = q
            ps.append(q)
        cs = tuple((tuple(sorted((canon(subst(x, m)) for x in gs), key=lambda x: x.id)),
                    tuple(canon(subst(v, m)) for v in vs)) for gs, vs in cases)
        cs = tuple(sorted(cs, key=lambda gf: ([x.id for x in gf[0]], [x.id for x in gf[1]])))
        r = mk('mu', j, canon(n), b, tuple(ps), tuple(canon(x) for x in inits), cs)
        if r.ty is None:
            r.ty, r.info = t.ty, t.info
        return r
    if t.op == 'fall':
        n, lv, body = t.a
        b = mk('lv', '#%d' % d)
        return REBUILD['fall'](canon(n), b, canon(subst(body, {lv: atom(b)})))
    if t.op in ('argmin', 'argmax'):
        n, lv, body = t.a
        b = mk('lv', '#%d' % d)
        r = mk(t.op, canon(n), b, canon(subst(body, {lv: atom(b)})))
        r.ty, r.info = t.ty, t.info
        return r
    if t.op in ('comp', 'gcomp', 'acc'):
        if t.op == 'acc':
            init, n, lv, body = t.a
        else:
            n, lv, body = t.a
            init = None
        b = mk('lv', '#%d' % d)
        if t.op == 'comp':
            body = subst(body, {lv: atom(b)}) if lv is not b else body
            body = canon(body)
            n = canon(n)
            # comp(n, k, elem(s, lo+k)) == sub(s, lo, lo+n)
            if body.op == 'elem' or (body.op == 'poly' and as_atom(body) is not None and as_atom(body).op == 'elem'):
                e = as_atom(body)
                off = psub(e.a[1], atom(b))
                if b not in off.vars and b not in e.a[0].vars:
                    hi = padd(off, n)
                    g = sub_seg(e.a[0], off, hi)
                    return g
                # comp(len(s), k, elem(s, len(s)-1-k)) == rev(s)
                if b not in e.a[0].vars and n is seq_len(e.a[0]) and psub(psub(n, ONE), e.a[1]) is atom(b):
                    return mk('all', seq_rev(e.a[0]))
            return mk('comp', n, b, body)
        body = tuple((tuple(sorted((canon(subst(x, {lv: atom(b)})) for x in gs), key=lambda x: x.id)),
                      canon(subst(f, {lv: atom(b)}))) for gs, f in body)
        if t.op == 'acc' and len(body) == 1 and body[0][0]:
            # a sum over an empty range adds nothing: drop the guards that say it is not empty
            f = as_atom(body[0][1])
            if f is not None and f.op == 'acc' and cval(f.a[0]) == 0:
                from facts import Facts
                F = Facts().add(lt(ZERO, f.a[1]))
                body = ((tuple(x for x in body[0][0] if F.decide(x) is not True), body[0][1]),)
        body = tuple(sorted(body, key=lambda gf: ([x.id for x in gf[0]], gf[1].id)))
        if t.op == 'gcomp':
            return mk('gcomp', canon(n), b, body)
        return mk('acc', canon(init), canon(n), b, body)
    if t.op == 'poly':
        acc = ZERO
        for m, c in t.a[0]:
            cur = I(c)
            for at in m:
                cur = pmul(cur, atom(canon(at)))
            acc = padd(acc, cur)
        return acc
    if t.op == 'seq':
        return cat(*[mk('seq', canon(g)) if True else g for g in t.a])
    na = tuple(_cn(x) for x in t.a)
    if na == t.a:
        return t
    f = REBUILD.get(t.op)
    r = f(*na) if f else mk(t.op, *na)
    if r.ty is None:
        r.ty = t.ty
    return r


def _rb_elem(s, i):
    if s.op in ('seq', 'rev', 'upd', 'str'):
        return seq_get(s, i, NOFACTS)
    return mk('elem', s, i)


def _rb_len(s):
    return as_atom(seq_len(s)) or seq_len(s)


NOFACTS = Facts()


def _rb_sub(s, lo, hi):
    if s.op == 'seq':
        r = seq_sub(s, lo, hi, NOFACTS)
        return r if r.op != 'seq' or len(r.a) != 1 else r.a[0]
    return mk('sub', s, lo, hi)


def _rb_seq(*gs):
    out = []
    for g in gs:
        if g.op in SEGS:
            out.append(mk('seq', g))
        elif g.op == 'seq':
            out.append(g)
        else:
            out.append(mk('seq', mk('all', g)))
    return cat(*out)


def _rb_all(s):
    if s.op == 'seq':
        return s.a[0] if len(s.a) == 1 else mk('all', s)
    return mk('all', s)


REBUILD['elem'] = _rb_elem
REBUILD['len'] = _rb_len
REBUILD['seq'] = _rb_seq
REBUILD['rev'] = seq_rev
REBUILD['acc'] = mk_acc
REBUILD['sub'] = _rb_sub


def either(b, v, i):
    """field i of an element that is made in one of several ways, if they agree on it"""
    if b.op != 'elem' or b.a[0].op != 'seq' or len(b.a[0].a) != 1 or b.a[0].a[0].op != 'gcomp':
        return None
    n, lv, cases = b.a[0].a[0].a
    r = None
    for gs, s in cases:
        if s.op != 'seq' or len(s.a) != 1 or s.a[0].op != 'one':
            return None
        x = s.a[0].a[0]
        if x.op != 'agg' or x.a[1] != v or 2 + i >= len(x.a) or (r is not None and r is not x.a[2 + i]):
            return None
        r = x.a[2 + i]
    return None if r is None else subst(r, {lv: b.a[1]})


THAW = [None]     # what a loop leaves alone, as it was before (set by the interpreter)


_BELOW = {}


def below(b, v, i):
    """b with the assignments that leave its field i alone undone"""
    if b.op != 'elem' or b.a[0].op != 'upd':
        return b
    k = (b, v, i)
    r = _BELOW.get(k)
    if r is None:
        r = _BELOW[k] = _below(b, v, i)
    return r


def _below(b, v, i):
    while b.op == 'elem' and b.a[0].op == 'upd':
        s, k, x = b.a[0].a
        if x.op != 'agg' or x.a[1] != v or 2 + i >= len(x.a):
            return b
        x = x.a[2 + i]
        if x.op == 'poly':
            x = as_atom(x)
        o = below(_rb_elem(s, k), v, i)
        if o.op == 'agg':
            y = o.a[2 + i] if o.a[1] == v else None
        else:
            y = either(o, v, i) or mk('fld', o, v, i)
        if y is not None and y.op == 'poly':
            y = as_atom(y)
        if x is None or x is not y:
            if x is None or y is None or THAW[0] is None:
                return b
            y = THAW[0](y)
            if y.op == 'poly':
                y = as_atom(y)
            if x is not y:
                return b
        n = _rb_elem(s, b.a[1])
        if n.ty is None:
            n.ty = b.ty
        b = n
    return b


def _rb_fld(b, v, i):
    if b.op == 'elem' and b.a[0].op == 'upd':
        b = below(b, v, i)
    if b.op == 'agg':
        return b.a[2 + i]
    if b.op == 'tup':
        return b.a[i]
    return either(b, v, i) or mk('fld', b, v, i)


REBUILD['fld'] = _rb_fld


def _rb_id(mid, key):
    if key.op == 'keyat' and key.a[0] is mid:
        return as_atom(key.a[1]) or key.a[1]
    return mk('id', mid, key)


def _rb_keyat(mid, j):
    a = as_atom(j)
    if a is not None and a.op == 'id' and a.a[0] is mid:
        return a.a[1]
    return mk('keyat', mid, j)


REBUILD['id'] = _rb_id
REBUILD['keyat'] = _rb_keyat
