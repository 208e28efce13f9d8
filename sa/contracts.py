"""Decide `code_X == spec_X` (under `pre_X`) from summaries of both.

A contract is a pair of functions in a reference module: code_X calls the
analysed crate, spec_X states what it must compute.  Both are summarised by the
same abstract interpreter on the same unknown arguments; the summaries are then
compared outcome by outcome.  Nothing is run."""
import random
import os
import signal
import time
import interp
import models
import loops
import eqv
from interp import *
from eqv import CALLTY, rb_call, Out, compare, eval_outcomes, A, F, Ev, Unk, short, holds
from models import strip_ident


class Result(object):
    def __init__(self, name):
        self.name = name
        self.status = 'undecided'     # proved | violated | undecided
        self.why = ''
        self.outcomes = (0, 0)
        self.pairs = 0
        self.obligations = 0
        self.discharged = 0
        self.functions = []
        self.witness = None
        self.valuations = 0
        self.wall = 0.0
        self.unmodelled = []


ERASE = {'ParseError', 'JoinError'}


def eraser(P):
    def rep(t):
        vs = P.adt_variants(t.a[0])
        if vs and t.a[1] < len(vs) and len(t.a) == 3:
            n = vs[t.a[1]]['name']
            if n in ERASE:
                return mk('agg', t.a[0], t.a[1], mk('msg'))
            if n == 'IOError':
                return mk('agg', t.a[0], t.a[1], mk('ioerr'))
        return None

    def go(t):
        m = {}
        for x in subterms(t):
            if x.op == 'agg' and str(x.a[0]).endswith('Error'):
                r = rep(x)
                if r is not None and r is not x:
                    m[x] = r
        return subst(t, m) if m else t
    return go


class OutOfTime(Exception):
    pass


class budget(object):
    """a wall-clock limit on a step of the comparison (the step is abandoned, not the contract)"""
    def __init__(self, s):
        self.s = s

    def __enter__(self):
        def ring(*a):
            raise OutOfTime()
        try:
            self.old = signal.signal(signal.SIGALRM, ring)
            signal.setitimer(signal.ITIMER_REAL, self.s)
        except ValueError:
            self.old = None

    def __exit__(self, et, ev, tb):
        if self.old is not None:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, self.old)
        return et is not None and issubclass(et, (OutOfTime, RecursionError))


class Harness(object):
    def __init__(self, P):
        self.P = P

    def args(self, E, fn):
        args = []
        for i in range(fn['argc']):
            ti = fn['locals'][i + 1]
            s = E.sym('%s.a%d' % (self.name, i), ti)
            E.pointees(ti, set())
            if self.P.types[ti]['k'] == 'param':
                args.append(mk('rdr', E.sym('%s.a%d' % (self.name, i)), ZERO))
            else:
                args.append(E.typed(s, ti))
        return args

    def partition(self, E, fn, args, sts):
        """one entry state per variant of each enum argument"""
        for a, ti in zip(args, fn['locals'][1:]):
            t = self.P.types[ti]
            x = a
            if t['k'] == 'ref':
                x = E.base(E.state0(), ('D', a))
                t = self.P.types[t['to']]
            if t['k'] == 'adt' and len(self.P.adt_variants(t['name']) or []) > 1:
                sts = [s2 for s in sts for i in range(len(self.P.adt_variants(t['name']))) for s2 in s.assume(isvar(x, i))]
        return sts

    def key(self, kind, name):
        k = kind + '_' + name
        for f in self.P.fns:
            if f.endswith('::' + k) and '::vs_' in '::' + f:
                return f
        return k

    def summarise(self, E, key, sts, args):
        E.obls = []
        outs = []
        go = eraser(self.P)
        for st in sts:
            for s, v in E.run_fn(key, st, args):
                o = Out(s, v)
                o.v = go(o.v)
                outs.append(o)
        return outs, E.obls

    def cut(self, E, suffix):
        """leave calls of the function uninterpreted: its result is some value determined by its arguments"""
        P = self.P

        def mkf(fn):
            def f(E, fr, st, args, ty, line):
                vs = [strip_ident(models.deref_all(E, st, a)) for a in args]
                st = st.fork()
                for i, a in enumerate(args):
                    t = P.types[fn['locals'][i + 1]]
                    if t['k'] == 'ref' and t.get('mut'):
                        # what is left there is determined by the arguments, too
                        to = E.subst_ty(fr, t['to']) if hasattr(E, 'subst_ty') else t['to']
                        CALLTY.setdefault((suffix, i + 1), to)
                        o, pa = E.ptr_loc(st, a)
                        E.store(st, o, pa, E.typed(rb_call(suffix, i + 1, *vs), to))
                CALLTY.setdefault((suffix, 0), ty)
                return [(st, E.typed(rb_call(suffix, 0, *vs), ty))]
            return f
        n = 0
        for k in self.P.fns:
            if k.endswith(suffix) and '::vs_' not in '::' + k:
                E.cuts[k] = mkf(self.P.fns[k])
                n += 1
        return n

    def run(self, name, cuts=(), gen=None, tries=400, seed=1, deadline=None, panics=True, values=True, prove_s=60, compare_s=15, check=None, effects=False):
        R = Result(name)
        self.name = name
        t0 = time.time()
        P = self.P
        models.reset()
        CALLTY.clear()
        E = Engine(P)
        self.E = E
        E.watch = effects
        for c in cuts:
            self.cut(E, c)
        ck, sk, pk = self.key('code', name), self.key('spec', name), self.key('pre', name)
        try:
            if ck not in P.fns:
                R.why = 'no ' + ck
                return R
            fn = P.fns[ck]
            args = self.args(E, fn)
            sts = self.partition(E, fn, args, [E.state0()])
            if pk in P.fns:
                n = []
                for s0 in sts:
                    for s, v in E.run_fn(pk, s0, args):
                        n += s.assume(v)
                sts = n
            E.fnset = set()
            code, obls = self.summarise(E, ck, sts, args)
            R.functions = sorted(f for f in E.fnset if '::vs_' not in '::' + f)
            R.unmodelled = sorted(E.unmodelled)
            spec = None
            if sk in P.fns and not check and not effects:
                spec, _ = self.summarise(E, sk, sts, args)
            R.outcomes = (len(code), len(spec or ()))
            obls = [o for o in obls if '::vs_' not in '::' + o['fn'] and (o['kind'] == 'write') == effects]
            with budget(12):
                for o in obls:
                    if not o['ok']:
                        # once more, on canonical terms
                        ls = eqv.sorted_lits([canon(strip_ident(x)) for x in o['pc']] + [canon(strip_ident(NOT(o['cond'])))])
                        if all(eqv.infeasible(eqv.zero_accs(x)) for x in eqv.all_lits(E.state0(), ls)):
                            o['ok'] = True
            bad = [o for o in obls if not o['ok']]
            R.obligations = len(obls)
            R.discharged = len(obls) - len(bad)
            if effects:
                R.obligations = E.stores
                R.discharged = E.stores - len(bad)
            R.bad = bad
            op = [None] if check else []
            if spec is not None and values:
                op = [None]
                if compare_s:
                    with budget(compare_s + 10):
                        op, R.pairs = compare(E, code, spec, time.time() + compare_s)
            R.open = op
            self.code, self.spec, self.obls = code, spec, obls
            if effects and E.lost:
                op = [None]
                R.why = 'cannot tell what is written to at ' + ', '.join(sorted(E.lost))[:200]
            if not op and (not bad or not panics):
                R.status = 'proved'
                return R
            soft = panics == 'search'
            R.why = R.why or '%d open pairs, %d open obligations' % (len(op), len(bad))
            # a difference that could not be proved away: look for a valuation of the
            # inputs that certifies it
            if gen is None:
                return R
            go = eraser(P)
            for o in bad:
                o['spc'] = tuple(go(strip_ident(x)) for x in o['pc'])
                o['scond'] = go(strip_ident(o['cond']))
            rng = random.Random(seed)
            unk = {}
            for i in range(tries):
                if deadline and time.time() > deadline:
                    break
                inp = gen(rng, i)
                if inp is None:
                    continue
                # streams end or fail, and deliver their bytes in pieces
                val = {'@fails': i % 4 == 3, '@chunk': (1 << 60, 3, 1, 40)[i % 4]}
                if isinstance(inp[-1], dict):
                    val.update(inp[-1])
                    inp = inp[:-1]
                val.update(('%s.a%d' % (name, j), x) for j, x in enumerate(inp))
                rc = eval_outcomes(code, val, bad if panics else ())
                if rc[0] == 'unk':
                    unk[rc[1]] = unk.get(rc[1], 0) + 1
                    continue
                if rc[0] == 'panic':
                    ob = rc[1]
                    R.valuations += 1
                    R.status = 'violated'
                    R.witness = dict(input=repr(inp), code='writes to its input in ' + ob['fn'] if effects else 'panics: %s in %s' % (ob['kind'], ob['fn']),
                                     spec='must not write to its input' if effects else 'must not panic',
                                     where=ob['fn'], file=ob['file'], line=ob['line'])
                    return R
                if not check and (spec is None or not values or (soft and not op)):
                    R.valuations += 1
                    continue
                if check:
                    # any result that has the property will do
                    R.valuations += 1
                    w = check(inp, rc[1])
                    if w:
                        R.status = 'violated'
                        R.witness = dict(input=repr(inp), code=repr(rc[1]), spec=w, where=R.functions[0] if R.functions else ck, path=[])
                        return R
                    continue
                rs = eval_outcomes(spec, val)
                if rs[0] != 'value':
                    unk['spec: ' + str(rs[1])] = unk.get('spec: ' + str(rs[1]), 0) + 1
                    continue
                R.valuations += 1
                if rc[1] != rs[1]:
                    R.status = 'violated'
                    R.witness = dict(input=repr(inp), code=repr(rc[1]), spec=repr(rs[1]), where=R.functions[0] if R.functions else ck,
                                     path=[repr(x)[:300] for x in rc[2].pc[-4:]])
                    return R
            if op and values and spec is not None and prove_s > compare_s > 0:
                with budget(prove_s + 10):
                    op, R.pairs = compare(E, code, spec, min(deadline or 1e18, time.time() + prove_s))
                R.open = op
                if not op and (not bad or not panics):
                    R.status = 'proved'
                    R.why = ''
                    return R
                R.why = '%d open pairs, %d open obligations' % (len(op), len(bad))
            if soft and not op:
                R.status = 'proved'
                R.why = 'values only; %d obligations not discharged, none fails' % len(bad)
            R.why += '; no certificate among %d valuations (%s)' % (R.valuations, ', '.join('%s x%d' % (k, v) for k, v in sorted(unk.items(), key=lambda kv: -kv[1])[:3]))
            return R
        except Imprecise as e:
            R.why = 'imprecise: %s' % e
            return R
        except RecursionError:
            R.why = 'recursion limit'
            return R
        except Exception as e:
            if os.environ.get('SA_DEBUG'):
                raise
            R.why = 'internal: %s %s' % (type(e).__name__, str(e)[:200])
            return R
        finally:
            R.wall = time.time() - t0
