"""Loop summaries: a fixpoint over a generalised loop-head state."""
from terms import *
from facts import *
from seqs import *
from interp import *

MAXIT = 14


class Leaf(object):
    __slots__ = ('v0', 'kind', 'head', 'pid', 'step')


def summarize(E, st0, body, site):
    E.loopn += 1
    lid = E.loopn
    lv = mk('lv', 'L%d' % lid)
    K = atom(lv)
    E.loopstack.append(lv)
    try:
        return _summ(E, st0, body, site, lid, lv, K)
    finally:
        E.loopstack.pop()


def get(v, path):
    for e in path:
        v = v.a[e]
    return v


def put(v, path, x):
    if not path:
        return x
    a = list(v.a)
    a[path[0]] = put(a[path[0]], path[1:], x)
    return mk(v.op, *a)


DESC = ('agg', 'tup', 'vec', 'box', 'arc', 'it', 'clo', 'imap', 'ifilter', 'iflat', 'ifmap', 'icur', 'rdr', 'bmap', 'ichain', 'ienum', 'izip', 'itakew', 'iinspect')


def diff(h, bs, path, out):
    """collect leaf paths where some b differs from h"""
    if all(b is h for b in bs):
        return
    if h.op in DESC and all(b.op == h.op and len(b.a) == len(h.a) for b in bs):
        if h.op == 'agg' and not all(b.a[0] == h.a[0] and b.a[1] == h.a[1] for b in bs):
            out.append(path)
            return
        if h.op == 'clo' and not all(b.a[0] == h.a[0] for b in bs):
            out.append(path)
            return
        ok = True
        for i in range(len(h.a)):
            x = h.a[i]
            if isinstance(x, T):
                if not all(isinstance(b.a[i], T) for b in bs):
                    ok = False
            elif not all(b.a[i] == x for b in bs):
                ok = False
        if not ok:
            out.append(path)
            return
        for i in range(len(h.a)):
            if isinstance(h.a[i], T):
                diff(h.a[i], [b.a[i] for b in bs], path + (i,), out)
        return
    out.append(path)


def opened(E, st, v0, h, bs):
    """a symbolic structure of which the body changes a part, as its parts"""
    if v0 is not h or v0.op not in ('sym', 'fld', 'elem', 'deref', 'call'):
        return None
    xs = [b for b in bs if b is not h]
    if all(b.op == 'agg' and b.a[0] == xs[0].a[0] and b.a[1] == 0 and len(b.a) > 2 for b in xs):
        if len(E.p.adt_variants(xs[0].a[0]) or ()) != 1:
            return None
        x = E.expand(st, v0, 0)
        return x if x is not None and x.op == 'agg' and len(x.a) == len(xs[0].a) else None
    if all(b.op == 'tup' for b in xs):
        x = E.expand(st, v0, 0)
        return x if x is not None and x.op == 'tup' and len(x.a) == len(xs[0].a) else None
    if all(b.op == 'vec' for b in xs) and v0.info == 'vec':
        return mk('vec', mk('deref', v0), mk('ident', v0), atom(mk('cap', v0)))
    return None


_EMPTYST = St({}, Facts(), ())


def part_changes(E, b, h, h0, path, out):
    """paths (any index) at which b, computed from h (which was h0 at first), may differ from h"""
    if b is h or b is h0:
        return
    x = as_atom(b) if b.op == 'poly' else b
    if x is not None and x.op in ('fld', 'elem', 'deref'):
        y = E.thaw(_EMPTYST, x)
        if y is not x:
            return part_changes(E, y, h, h0, path, out)
    if len(path) > 12:
        out.add(path)
        return
    if b.op == 'upd':
        ups = []
        x = b
        while x.op == 'upd':
            ups.append((x.a[1], x.a[2]))
            x = x.a[0]
        n = set()
        part_changes(E, x, h, h0, path, n)
        out |= n
        if path in n:
            return
        for i, v in ups:
            e = ('i', i)
            part_changes(E, v, E.proj(_EMPTYST, h, e), E.proj(_EMPTYST, h0, e), path + (('i',),), out)
        return
    if b.op == 'mu':
        part_changes(E, b.a[4][b.a[0]], h, h0, path, out)
        for c in mu_changed(E, b):
            out.add(path + c)
        return
    if b.op in ('phi', 'elem', 'fld', 'deref'):
        r = E.froz.get(b)
        if r is not None:
            part_changes(E, r[0], h, h0, path, out)
            for c in r[1]:
                out.add(path + c)
            return
    if b.op == 'ite':
        part_changes(E, b.a[1], h, h0, path, out)
        part_changes(E, b.a[2], h, h0, path, out)
        return
    if b.op == 'agg' and len(b.a) > 2 and len(E.p.adt_variants(b.a[0]) or ()) == 1:
        for j, x in enumerate(b.a[2:]):
            part_changes(E, x, E.proj(_EMPTYST, h, ('f', j)), E.proj(_EMPTYST, h0, ('f', j)), path + (('f', j),), out)
        return
    if b.op == 'tup' and b.a:
        for j, x in enumerate(b.a):
            part_changes(E, x, E.proj(_EMPTYST, h, ('f', j)), E.proj(_EMPTYST, h0, ('f', j)), path + (('f', j),), out)
        return
    if b.op in ('box', 'vec', 'boxv'):
        if b.op != 'boxv' and len(b.a) > 1 and not any(E.ident(_EMPTYST, x) is b.a[1] for x in (h, h0)):
            out.add(path)
            return
        part_changes(E, b.a[0], E.proj(_EMPTYST, h, ('c',)), E.proj(_EMPTYST, h0, ('c',)), path + (('c',),), out)
        return
    out.add(path)


_MUCH = {}


def mu_changed(E, t):
    """paths at which one component of a recurrence changes"""
    r = _MUCH.get(t)
    if r is None:
        r = set()
        _MUCH[t] = {()}     # while computing
        j = t.a[0]
        for g, vs in t.a[5]:
            part_changes(E, vs[j], t.a[3][j], t.a[4][j], (), r)
        _MUCH[t] = r
    return r


def is_prefix(h, b):
    """b == h ++ e ?  -> e or None"""
    hs = segs(h)
    bs = segs(b)
    if h is b:
        return EMPTY
    if len(bs) >= len(hs) and all(x is y for x, y in zip(hs, bs)):
        return mk('seq', *bs[len(hs):])
    return None


def seqlike(v):
    return v.op in ('seq', 'upd', 'rev')


def _summ(E, st0, body, site, lid, lv, K):
    st0 = st0.fork()
    phis = {}       # T phi -> (obj, path)
    gens = {}       # (obj, path) -> Leaf
    inv = []        # extra head facts

    def isphi(t):
        return any(x in phis for x in t.vars)

    def head():
        s = st0.fork()
        for (obj, path), lf in sorted(gens.items(), key=lambda kv: (len(kv[0][1]), str(kv[0]))):
            s.mem[obj] = put(s.mem[obj], path, lf.head)
        for f in inv:
            s.facts = s.facts.add(f)
        return s

    def mkphi(obj, path, v0):
        t = mk('phi', lid, len(phis), str(path)[:40])
        if t.ty is None:
            at = as_atom(v0) if v0.op == 'poly' else v0
            t.ty = leaf_ty(E, v0)
            if t.ty is None:
                t.ty, ety = E.leaf_type(st0, obj, path)
                if ety is not None and t.info is None:
                    t.info = {'ety': ety}
        phis[t] = (obj, path)
        return atom(t) if v0.op == 'poly' else t

    E.quiet += 1
    stable = False
    try:
        for it in range(MAXIT):
            H = head()
            E.allocn += 1
            save = E.allocn
            outs = body(H.fork())
            backs = [o[1] for o in outs if o[0] == 'back']
            changed = False
            for obj in st0.mem:
                if not all(obj in b.mem for b in backs):
                    continue        # dead local
                hv = H.mem[obj]
                bvs = [b.mem[obj] for b in backs]
                paths = []
                diff(hv, bvs, (), paths)
                for p in paths:
                    h = get(hv, p)
                    bs = [get(b, p) for b in bvs]
                    v0 = get(st0.mem[obj], p)
                    x = opened(E, st0, v0, h, bs)
                    if x is not None:
                        st0.mem[obj] = put(st0.mem[obj], p, x)
                        changed = True
                        continue
                    if generalize(E, gens, obj, p, v0, h, bs, lv, K, lid, isphi, mkphi, st0, backs, set(H.pc)):
                        changed = True
                    lf = gens.get((obj, p))
                    if lf is not None and lf.kind in ('phi', 'phi!') and lf.head.op == 'phi':
                        fz = E.froz.setdefault(lf.head, (v0, set()))[1]
                        n = set()
                        for b in bs:
                            part_changes(E, b, h, v0, (), n)
                        if not n <= fz:
                            fz |= n
                            changed = True
            if not changed:
                # invariants from facts that hold on every back path
                add = []
                if backs:
                    for l in backs[0].facts.lits:
                        if l in H.facts.lits or not all(l in b.facts.lits for b in backs[1:]):
                            continue
                        if lv in l.vars and not isphi(l) and l.op in ('ge0',):
                            e = subst(l, {lv: I(-1)})
                            if st0.facts.decide(e) is True:
                                n = subst(l, {lv: psub(K, ONE)})
                                if n not in inv and H.facts.decide(n) is not True:
                                    add.append(n)
                if not add:
                    stable = True
                    break
                inv.extend(add)
        if not stable:
            raise Imprecise('loop did not stabilise at %s' % (site,))
    finally:
        E.quiet -= 1

    # amortised ranges of accumulators
    for (obj, p), lf in gens.items():
        if lf.kind == 'phi' and lf.head.op == 'poly':
            ph = as_atom(lf.head)
            lo, hi = prange(lf.v0)
            l1, h1 = 0, 0
            for b in backs:
                if obj not in b.mem:
                    l1 = h1 = None
                    break
                d = psub(get(b.mem[obj], p), lf.head)
                r = step_range(d, lv) if ph not in d.vars else (None, None)
                l1 = None if l1 is None or r[0] is None else min(l1, r[0])
                h1 = None if h1 is None or r[1] is None else max(h1, r[1])
            if None not in (lo, hi, l1, h1):
                ph.info = {'range': (lo + l1 * BOUND_LEN, hi + h1 * BOUND_LEN)}
    H = head()
    ob0 = len(E.obls)
    outs = body(H.fork())
    backs = [o[1] for o in outs if o[0] == 'back']
    base = set(H.pc)
    evb = len(H.ev)
    bvar = mk('lv', 'B%d' % lid)
    BV = atom(bvar)

    def guards(s):
        gs = []
        for l in s.pc:
            if l not in base:
                gs.append(l)
        return gs

    gb = [guards(b) for b in backs]
    # loop bound facts common to all back paths (0 <= k < n) are not guards
    common = [l for l in (gb[0] if gb else []) if all(l in g for g in gb[1:])]
    gb = [tuple(l for l in g if l not in common) for g in gb]

    # solve recurrences
    sol = {}        # phi -> value term as function of K (poly in lv)
    lsol = {}       # (pid) -> cases
    for (obj, p), lf in gens.items():
        if lf.kind == 'append':
            cases = []
            for b, g in zip(backs, gb):
                e = is_prefix(lf.head, get(b.mem[obj], p)) if obj in b.mem else EMPTY
                cases.append((g, e))
            lsol[lf.pid] = merge_cases(cases)
        elif lf.kind == 'phi' and lf.head.op == 'poly':
            ph = as_atom(lf.head)
            cases = []
            good = bool(backs)
            for b, g in zip(backs, gb):
                if obj not in b.mem:
                    good = False
                    break
                d = psub(get(b.mem[obj], p), lf.head)
                if ph in d.vars:
                    good = False
                    break
                cases.append((g, d))
            if good:
                cases = merge_cases(cases)
                cases = tuple((tuple(subst(x, {lv: BV}) for x in g), subst(f, {lv: BV})) for g, f in cases)
                sol[ph] = (lf.v0, cases)
    # state that has no closed form: the loop itself, as a term
    mus = system(E, gens, backs, gb, lv, lid, sol, lsol, bvar)
    if mus:
        for pid in list(lsol):
            if pid in mus.bypid:
                del lsol[pid]
        for ph in list(sol):
            if ph in mus.byphi:
                del sol[ph]
        for ph, (v0, cs) in list(sol.items()):
            m = mus.at(BV)
            sol[ph] = (v0, tuple((tuple(subst(x, m) for x in g), subst(f, m)) for g, f in cs))
        m = mus.at(K)
        for pid in lsol:
            lsol[pid] = tuple((tuple(subst(x, m) for x in g), subst(e, m)) for g, e in lsol[pid])
    # what a round appends may mention what the loop has accumulated so far
    if sol:
        inround = {ph: mk_acc_simpl(v0, K, bvar, cs) for ph, (v0, cs) in sol.items()}
        for pid in lsol:
            lsol[pid] = tuple((tuple(subst(x, inround) for x in g), subst(e, inround)) for g, e in lsol[pid])
    # .. or has appended elsewhere
    def segs(pid):
        return set(x.a[1] for g, e in lsol[pid] for t in tuple(g) + (e,) for x in subterms(t)
                   if x.op == 'lseg' and x.a[0] == lid and x.a[1] != pid and x.a[1] in lsol)
    todo = {pid: segs(pid) for pid in lsol}
    while True:
        ready = [pid for pid in todo if not todo[pid]]
        if not ready:
            break
        for pid in ready:
            del todo[pid]
            x = mk('lseg', lid, pid, K)
            y = None
            for q in todo:
                if pid in todo[q]:
                    if y is None:
                        y = lseg_value(lsol[pid], K, lv, mk('lv', 'B%d.%d' % (lid, pid)), lid, pid)
                    lsol[q] = tuple((tuple(subst(l, {x: y}) for l in g), subst(e, {x: y})) for g, e in lsol[q])
                    todo[q].discard(pid)
    E.loopinfo[lid] = dict(site=site, lv=lv, backs=backs, gb=gb, common=common, head=H, sol=sol, lsol=lsol,
                           gens=gens, phis=phis, entry=st0)

    # loop events
    evs = []
    for b, g in zip(backs, gb):
        e = b.ev[evb:]
        if e:
            evs.append((g, e))

    # a loop that can only be left by its own bound test needs no record of
    # what the earlier iterations saw
    def bound_exit(L, l):
        if NOT(l) is L:
            return True
        if l.op == 'eq0':
            return ge0(psub(l.a[0], ONE)) is L or ge0(psub(pneg(l.a[0]), ONE)) is L
        return False

    def is_bound(L):
        if L.op != 'ge0' or pd(L.a[0]).get((lv,), 0) != -1:
            return False
        n = padd(L.a[0], K)
        return lv not in n.vars and not has_phi(n)
    vacuous = any(is_bound(L) and all(any(bound_exit(L, l) for l in o[1].pc[len(H.pc):]) for o in outs if o[0] != 'back')
                  for L in common)
    # an obligation inside the body is reached in round K only if every earlier round went round
    fvar = mk('lv', 'F%d' % lid)
    FV = atom(fvar)

    def at_round(t):
        """t, true of round K, with everything the loop computes solved"""
        s = subst_state(E, St({}, Facts(), (), (t,)), {}, sol, lsol, lid, lv, bvar, keep=True, mus=mus)
        return subst(s.pc[0], {lv: FV})

    goon = OR(*[AND(*g) for g in gb]) if gb else FALSE
    every = at_round(AND(goon, *common))
    fl = mk_fall(K, fvar, every)
    firstk = atom(mk('first', fvar, every))
    for ob in E.obls[ob0:]:
        if not ob['ok']:
            f = Facts()
            s = St({}, f, (), H.pc + (fl,) + tuple(ob['pc'][len(H.pc):]) + (ob['cond'],))
            s = subst_state(E, s, {}, sol, lsol, lid, lv, bvar, keep=True, mus=mus)
            ob['pc'], ob['cond'] = s.pc[:-1], s.pc[-1]
    res = []
    todo = []
    for o in outs:
        if o[0] == 'back':
            continue
        # left by `k >= n` where going round required `k < n`: k is max(0, n)
        hit = None
        if backs and not any(pd(e).get((lv,), 0) in (1, -1) for e in o[1].facts.eq if e not in st0.facts.eq):
            for l in o[1].pc[len(H.pc):]:
                if l.op == 'ge0' and pd(l.a[0]).get((lv,), 0) == 1 and NOT(l) in common:
                    n = psub(K, l.a[0])
                    if lv not in n.vars and not has_phi(n):
                        hit = (l, n)
                        break
        if hit:
            l, n = hit
            for s1 in o[1].assume(ge0(n)):
                s2 = s1.fork()
                s2.facts = s2.facts.add(eq0(psub(K, n)))
                s2.pc = tuple(x for x in s2.pc if x is not l)
                todo.append((o[0], s2) + tuple(o[2:]))
            for s1 in o[1].assume(ge0(psub(I(-1), n))):
                s2 = s1.fork()
                s2.facts = s2.facts.add(eq0(K))
                s2.pc = tuple(x for x in s2.pc if x is not l)
                todo.append((o[0], s2) + tuple(o[2:]))
            continue
        todo.append(o)
    for o in todo:
        s = o[1].fork()
        # where did we leave?  an exit with k == n substitutes k
        kexp = None if backs else ZERO
        for e in (s.facts.eq if backs else ()):
            d = pd(e)
            c = d.get((lv,), 0)
            if c in (1, -1) and e not in st0.facts.eq:
                rest = {m: x for m, x in d.items() if m != (lv,)}
                r = poly({m: (-x if c == 1 else x) for m, x in rest.items()})
                if lv not in r.vars:
                    kexp = r
                    break
        nb = len(H.pc)
        if kexp is None:
            # left in the first round that did not go round
            kexp = firstk
        elif not vacuous:
            ev1 = at_round(AND(goon, *[l for l in common if l is not lt(K, kexp)]))
            s.pc = s.pc[:nb] + (mk_fall(kexp, fvar, ev1),) + s.pc[nb:]
        m1 = {lv: kexp}
        s2 = subst_state(E, s, m1, sol, lsol, lid, lv, bvar, mus=mus)
        s2.ev = s.ev[:evb]
        if evs:
            s2.ev = s2.ev + (('loop', lid, lv, kexp, tuple(evs)),)
        s2.ev = s2.ev + s.ev[evb:]
        if o[0] == 'exit':
            res.append(('exit', s2, o[2]))
        else:
            res.append((o[0], s2) + tuple(o[2:]))
    return res


class Mus(object):
    """the unsolved part of a loop's state, as a system of recurrences"""
    def value(self, j, n):
        ph, isint = self.comps[j][0], self.comps[j][3]
        jj, phis, inits, cases = self.slice(j)
        t = mk('mu', jj, n, self.lv, phis, inits, cases)
        if t.ty is None:
            t.ty = ph.ty
        if t.info is None:
            t.info = ph.info
        return atom(t) if isint else t

    def slice(self, j):
        """only what component j depends on"""
        r = self.slices.get(j)
        if r is not None:
            return r
        idx = {q: i for i, q in enumerate(self.phis)}
        need = [j]
        while True:
            cs = mergemu([(g, tuple(vs[i] for i in need)) for g, vs in self.cases])
            new = []
            for g, vs in cs:
                for t in tuple(g) + vs:
                    for v in t.vars:
                        if v in idx and idx[v] not in need and idx[v] not in new:
                            new.append(idx[v])
            if not new:
                break
            need += sorted(new)
        m = {}
        phis = []
        for k, i in enumerate(need):
            q = mk('mphi', self.lid, j, k)
            q.ty, q.info = self.phis[i].ty, self.phis[i].info
            m[self.phis[i]] = atom(q) if self.comps[i][3] else q
            phis.append(q)
        cs = tuple((tuple(subst(x, m) for x in g), tuple(subst(v, m) for v in vs)) for g, vs in cs)
        r = self.slices[j] = (0, tuple(phis), tuple(self.inits[i] for i in need), cs)
        return r

    def at(self, n):
        m = {}
        for x, j in self.byphi.items():
            m[x] = self.value(j, n)
        for pid, j in self.bypid.items():
            m[mk('lseg', self.lid, pid, atom(self.lv0))] = mk('all', self.value(j, n))
        return m


def system(E, gens, backs, gb, lv, lid, sol, lsol, bvar):
    if not backs:
        return None
    comps = []      # (phi or lseg, obj, path, isint, leaf)
    rest = {}
    for (obj, p), lf in sorted(gens.items(), key=lambda kv: (kv[1].pid, str(kv[0]))):
        if lf.kind in ('phi', 'phi!'):
            ph = as_atom(lf.head) if lf.head.op == 'poly' else lf.head
            c = (ph, obj, p, lf.head.op == 'poly', lf)
            if ph in sol:
                rest[ph] = c
            else:
                comps.append(c)
        elif lf.kind == 'append':
            x = mk('lseg', lid, lf.pid, atom(lv))
            rest[x] = (x, obj, p, False, lf)
    if not comps:
        return None
    # solved parts that depend on unsolved ones have to be part of the system
    def parts(x):
        cs = sol[x][1] if x in sol else lsol[x.a[1]]
        return set(y for g, f in cs for t in tuple(g) + (f,) for y in subterms(t))
    bad = set(c[0] for c in comps)
    uses = {x: parts(x) for x in rest}
    while True:
        more = [x for x in rest if x not in bad and uses[x] & bad]
        if not more:
            break
        bad.update(more)
    for x in list(rest):
        if x not in bad:
            del rest[x]
    i = 0
    while i < len(comps):
        x, obj, p, isint, lf = comps[i]
        ts = [l for g in gb for l in g] if i == 0 else []
        for b in backs:
            if obj in b.mem:
                ts.append(get(b.mem[obj], p))
        for t in ts:
            for y in subterms(t):
                if y in rest:
                    comps.append(rest.pop(y))
        i += 1
    M = Mus()
    M.lid, M.lv0, M.slices = lid, lv, {}
    M.lv = mk('lv', 'M%d' % lid)
    M.comps = comps
    M.byphi, M.bypid = {}, {}
    phis, m = [], {}
    for ph, (v0, cs) in sol.items():
        if ph not in bad:
            m[ph] = mk_acc_simpl(v0, atom(M.lv), bvar, cs)
    for pid, cs in lsol.items():
        x = mk('lseg', lid, pid, atom(lv))
        if x not in bad:
            m[x] = lseg_value(cs, atom(M.lv), lv, bvar, lid, pid)
    m[lv] = atom(M.lv)
    for j, (x, obj, p, isint, lf) in enumerate(comps):
        q = mk('mphi', lid, j)
        q.ty, q.info = x.ty, x.info
        phis.append(q)
        if x.op == 'lseg':
            m[x] = mk('all', q)
            M.bypid[x.a[1]] = j
        else:
            m[x] = atom(q) if isint else q
            M.byphi[x] = j
    M.phis = tuple(phis)
    def plain(b, x, v):
        # references into the allocation that pointers like this one point into, as pointers
        return E.to_raw(b, v) if v.op == 'ref' and x.op == 'phi' and E.region(b, x) is not None else v
    M.inits = tuple(EMPTY if x.op == 'lseg' else plain(backs[0], x, lf.v0) for x, obj, p, isint, lf in comps)
    cases = []
    for b, g in zip(backs, gb):
        vs = []
        for x, obj, p, isint, lf in comps:
            if obj not in b.mem:
                v = E.opaque('dead state')
            else:
                v = get(b.mem[obj], p)
                if x.op == 'lseg':
                    v = cat(mk('seq', x), is_prefix(lf.head, v))
                v = plain(b, x, v)
            vs.append(subst(v, m))
        cases.append((tuple(subst(l, m) for l in g), tuple(vs)))
    M.cases = tuple(cases)
    return M


def mergemu(cases):
    out = []
    for g, e in cases:
        for i, (h, f) in enumerate(out):
            if f == e:
                x = simplify_bool(OR(AND(*h) if h else TRUE, AND(*g) if g else TRUE))
                out[i] = (() if x is TRUE else x.a if x.op == 'and' else (x,), e)
                break
        else:
            out.append((tuple(g), e))
    if len(out) == 1:
        return (((), out[0][1]),)
    return tuple(out)


def merge_cases(cases):
    """join cases with equal effect"""
    out = []
    order = []
    by = {}
    for g, e in cases:
        if e not in by:
            by[e] = []
            order.append(e)
        by[e].append(g)
    for e in order:
        gs = by[e]
        if len(gs) == 1:
            out.append((tuple(gs[0]), e))
        else:
            f = simplify_bool(OR(*[AND(*g) if g else TRUE for g in gs]))
            if f is TRUE:
                out.append(((), e))
            elif f.op == 'and':
                out.append((tuple(f.a), e))
            else:
                out.append(((f,), e))
    if len(out) == 1:
        # every path through the body has this effect
        return (((), out[0][1]),)
    return tuple(out)


def subst_state(E, s, m1, sol, lsol, lid, lv, bvar, keep=False, mus=None):
    """apply recurrence solutions and k := n to a whole state"""
    BV = atom(bvar)
    kv = m1.get(lv)

    def solve_terms(t):
        # collect phi / lseg occurrences
        m = {}
        for x in subterms(t):
            if x in sol:
                v0, cases = sol[x]
                n = kv if kv is not None else atom(lv)
                acc = mk_acc_simpl(v0, n, bvar, cases)
                m[x] = acc
            elif mus and x in mus.byphi:
                m[x] = mus.value(mus.byphi[x], kv if kv is not None else atom(lv))
            elif mus and x.op == 'lseg' and x.a[0] == lid and x.a[1] in mus.bypid:
                KK = x.a[2]
                if kv is not None:
                    KK = subst(KK, m1)
                m[x] = mk('all', mus.value(mus.bypid[x.a[1]], KK))
            elif x.op == 'lseg' and x.a[0] == lid and x.a[1] in lsol:
                KK = x.a[2]
                if kv is not None:
                    KK = subst(KK, m1)
                m[x] = lseg_value(lsol[x.a[1]], KK, lv, bvar, lid, x.a[1])
        if kv is not None:
            m[lv] = kv
        return m

    cache = {}

    def go(t):
        if not (t.vars or has_lseg(t)):
            return t
        r = cache.get(t)
        if r is None:
            m = solve_terms(t)
            r = subst(t, m) if m else t
            cache[t] = r
        return r

    n = s.fork()
    for o in list(n.mem):
        v = n.mem[o]
        nv = go(v)
        if isinstance(o, tuple) and o[0] == 'D':
            no = ('D', go(o[1]))
            if no != o:
                del n.mem[o]
                o = no
        n.mem[o] = nv
    n.pc = tuple(x for x in (go(l) for l in s.pc) if keep or x is not TRUE)
    f = Facts()
    np = set()
    for l in s.facts.lits:
        g = go(l)
        if g.op == 'ge0':
            r = prange(g.a[0])
            if r[0] is not None and r[0] >= 0:
                continue
        f = f.add(g)
        if l in s.facts.np:
            np.add(g)
    if np:
        f = f.copy()
        f.np = frozenset(np)
    n.facts = f
    return n


_hl = {}


def has_lseg(t):
    r = _hl.get(t)
    if r is None:
        r = t.op == 'lseg' or any(has_lseg(x) for x in kids(t))
        _hl[t] = r
    return r


def kids(t):
    return t.kids


def mk_acc_simpl(v0, n, bvar, cases):
    """v0 + sum over bvar<n of the guarded step"""
    if len(cases) == 1 and not cases[0][0] and bvar not in cases[0][1].vars and not has_phi(cases[0][1]):
        return padd(v0, pmul(n, cases[0][1]))
    a = mk_acc(ZERO, n, bvar, cases)
    return padd(v0, atom(a))


def has_phi(t):
    return any(x.op == 'phi' for x in t.vars)


def lseg_value(cases, KK, lv, bvar, lid, pid):
    BV = atom(bvar)
    # what this loop itself has appended so far
    selfref = {mk('lseg', lid, pid, atom(lv)): mk('own', atom(lv), atom(lv))}
    cases = tuple((tuple(subst(x, selfref) for x in g), subst(e, selfref)) for g, e in cases)
    cs = tuple((tuple(subst(x, {lv: BV}) for x in g), subst(e, {lv: BV})) for g, e in cases)
    if len(cs) == 1 and not cs[0][0]:
        e = cs[0][1]
        if e.op == 'seq' and len(e.a) == 1 and e.a[0].op == 'one':
            return mk('comp', KK, bvar, e.a[0].a[0])
        if e.op == 'seq' and not e.a:
            return EMPTY
    if all(e.op == 'seq' and not e.a for g, e in cs):
        return EMPTY
    return mk('gcomp', KK, bvar, cs)


def mk_fall(n, lv, body):
    """body holds for every lv in 0..n"""
    if body is TRUE or n is ZERO:
        return TRUE
    c = cval(n)
    if c is not None and c <= 0:
        return TRUE
    return mk('fall', n, lv, body)


REBUILD['fall'] = mk_fall


def leaf_ty(E, v):
    if v.op == 'poly':
        at = as_atom(v)
        return at.ty if at is not None else None
    return v.ty


def generalize(E, gens, obj, p, v0, h, bs, lv, K, lid, isphi, mkphi, st0, backs, base):
    key = (obj, p)
    lf = gens.get(key)
    # a generalised ancestor already covers this leaf
    for n in range(len(p)):
        if (obj, p[:n]) in gens:
            return False
    for k2 in list(gens):
        if k2[0] == obj and len(k2[1]) > len(p) and k2[1][:len(p)] == p:
            del gens[k2]
    if lf is None:
        lf = Leaf()
        lf.v0 = v0
        lf.pid = len(gens) + 1000 * lid
        lf.kind = None
        lf.head = None
        gens[key] = lf
        # induction
        if v0.op == 'poly' and all(b.op == 'poly' for b in bs):
            ds = set(psub(b, h) for b in bs)
            if len(ds) == 1:
                d = list(ds)[0]
                if lv not in d.vars and not isphi(d) and cval(d) is not None:
                    lf.kind = 'ind'
                    lf.step = d
                    lf.head = padd(v0, pmul(d, K))
                    return True
        if seqlike(v0) or all(seqlike(b) for b in bs):
            if all(is_prefix(h, b) is not None for b in bs):
                lf.kind = 'append'
                g = mk('lseg', lid, lf.pid, K)
                if g.info is None:
                    ety = E.leaf_type(st0, *key)[1]
                    if ety is not None:
                        g.info = {'ety': ety}
                lf.head = cat(v0, mk('seq', g))
                return True
        if p and p[-1] == 2 and get(st0.mem[obj], p[:-1]).op == 'vec':
            # a capacity that grows: nothing is known about it
            lf.kind = 'alloc'
            lf.head = atom(mk('cap', mk('alloc', 'loop', lf.pid, (K,))))
            return True
        if v0.op == 'alloc' or all(b.op in ('alloc', 'maybe') for b in bs):
            lf.kind = 'alloc'
            lf.head = mk('alloc', 'loop', lf.pid, (K,))
            return True
        if v0.op in ('ver', 'verphi', 'with'):
            lf.kind = 'ver'
            lf.head = mk('verphi', lid, lf.pid, K)
            return True
        lf.kind = 'phi'
        lf.head = mkphi(obj, p, v0)
        return True
    # already generalised
    if lf.kind == 'ind':
        if all(psub(b, h) is lf.step for b in bs if b.op == 'poly') and all(b.op == 'poly' for b in bs):
            return False
        lf.kind = 'phi'
        lf.head = mkphi(obj, p, v0)
        return True
    if lf.kind == 'append':
        if all(is_prefix(h, b) is not None for b in bs):
            return False
        lf.kind = 'phi'
        lf.head = mkphi(obj, p, v0)
        return True
    if lf.kind in ('alloc', 'ver'):
        return False
    if lf.kind == 'shift':
        want = subst(lf.head, {lv: padd(K, ONE)})
        if all(b is want for b in bs):
            return False
        lf.kind = 'phi!'
        lf.head = mkphi(obj, p, v0)
        return True
    if lf.kind == 'phi':
        # shift?
        g = bs[0]
        if all(b is g for b in bs) and not isphi(g):
            g0 = subst(g, {lv: I(-1)})
            same = g0 is v0 or st0.facts.decide(EQ(g0, v0)) is True
            if same:
                lf.kind = 'shift'
                lf.head = subst(g, {lv: psub(K, ONE)})
                return True
        ch = guarded(bs, backs, base, isphi)
        if ch is not None:
            if resolve(subst(ch, {lv: I(-1)}), st0.facts) is v0:
                lf.kind = 'gshift'
                lf.step = ch
                lf.head = subst(ch, {lv: psub(K, ONE)})
                return True
        return False
    if lf.kind == 'gshift':
        if all(resolve(lf.step, b.facts) is x for b, x in zip(backs, bs)):
            return False
        lf.kind = 'phi!'
        lf.head = mkphi(obj, p, v0)
        return True
    return False


def resolve(t, facts):
    while t.op == 'ite':
        r = facts.decide(t.a[0])
        if r is None:
            return t
        t = t.a[1] if r else t.a[2]
    return t


def guarded(bs, backs, base, isphi):
    """the value carried to the next iteration as a choice on what this
    iteration saw (not on earlier carried values)"""
    if any(isphi(b) for b in bs) or len(set(bs)) > 8:
        return None
    by = []
    com = set(backs[0].pc)
    for s in backs[1:]:
        com &= set(s.pc)
    for b, s in zip(bs, backs):
        g = AND(*[l for l in s.pc if l not in base and l not in com and not isphi(l)])
        for e in by:
            if e[0] is b:
                e[1].append(g)
                break
        else:
            by.append((b, [g]))
    for i, (v, gs) in enumerate(by):
        for w, hs in by[i + 1:]:
            for g in gs:
                for h in hs:
                    if not disjoint(g, h):
                        return None
    r = by[-1][0]
    for v, gs in reversed(by[:-1]):
        r = ite(simplify_bool(OR(*gs)), v, r)
    return r


def disjoint(g, h):
    s = St({}, Facts(), ())
    for a in s.assume(g):
        if a.assume(h):
            return False
    return True
