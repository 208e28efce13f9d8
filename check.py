#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]

Re-extracts the type-checked program of /repo's working tree, decides the
property's contracts and rules on it, writes evidence/<property>.json, and
prints `VIOLATION property=<id> replay=<path>` and exits 1 if one is broken."""
import json
import os
import resource
import select
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, 'sa'))
sys.setrecursionlimit(20000)

import build            # noqa: E402
import registry         # noqa: E402


def known_findings():
    p = os.path.join(VERIF, 'known-findings.txt')
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known: '):
                out.append(l[len('known: '):])
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    C = registry.CHECKS[pid]
    budget = 800 if tier == 'thorough' else C.get('budget', 600)
    deadline = t0 + budget
    specs = [os.path.join(VERIF, 'spec', s) for s in C['specs']]
    dump, dropped = build.dump(specs)
    try:
        from contracts import Harness
        from interp import Program
        P = Program(dump)
    finally:
        os.unlink(dump)
    items = []
    viol = []
    for s, log in dropped:
        items.append(dict(kind='reference module', name=os.path.basename(s), status='undecided',
                          why='does not type-check against this tree: ' + first_error(log)))
    todo = list(C['contracts'])
    scale = 2 if tier == 'thorough' else 1

    def one(c):
        gen = c['gen'](P) if c.get('gen') else None
        tries = c.get('tries', 600) * (8 if tier == 'thorough' else 1)
        return Harness(P).run(c['name'], cuts=c.get('cuts', ()), gen=gen, tries=tries, seed=seed,
                              deadline=min(deadline, time.time() + c.get('time', 240) * scale),
                              panics=c.get('panics', True), values=c.get('values', True), prove_s=c.get('prove_s', 60) * (4 if tier == 'thorough' else 1),
                              compare_s=c.get('compare_s', 15), check=c['check'](P) if c.get('check') else None,
                              effects=c.get('effects', False))
    for c, R in zip(todo, workers(one, todo, deadline, 300 * scale)):
        name = c['name']
        it = dict(kind='contract', name=name, status=R.status, why=R.why, outcomes_code=R.outcomes[0], outcomes_reference=R.outcomes[1],
                  pairs_compared=R.pairs, obligations=R.obligations, obligations_discharged=R.discharged,
                  functions=R.functions, unmodelled=R.unmodelled, valuations=R.valuations, wall_s=round(R.wall, 2))
        items.append(it)
        if R.status == 'violated':
            viol.append(dict(key='%s:%s' % (name, 'panic' if R.witness['code'].startswith('panics') else 'value'), witness=R.witness, contract=name))
    for rule in C.get('rules', []):
        t1 = time.time()
        try:
            res = rule(P)
        except registry.Anchor as e:
            items.append(dict(kind='rule', name=rule.__name__, status='undecided', why='anchor: %s' % e))
            continue
        it = dict(kind='rule', name=rule.__name__, status='violated' if res['violations'] else res.get('status', 'proved'), sites=res['sites'],
                  rule=rule.__doc__.strip().split('\n')[0], wall_s=round(time.time() - t1, 2), why=res.get('why', ''))
        items.append(it)
        for v in res['violations']:
            viol.append(dict(key='%s:%s' % (rule.__name__, v['key']), witness=v, contract=rule.__name__))
    known = known_findings()
    fresh = []
    for v in viol:
        k = 'property=%s %s' % (pid, v['key'])
        if any(x.startswith(k) for x in known):
            print('KNOWN-FINDING: ' + k)
        else:
            fresh.append(v)
    proved = sum(1 for i in items if i['status'] == 'proved')
    und = [i['name'] for i in items if i['status'] == 'undecided']
    fns = sorted(set(f for i in items for f in i.get('functions', [])))
    nobl = sum(i.get('obligations', 0) for i in items)
    ndis = sum(i.get('obligations_discharged', 0) for i in items)
    ev = dict(property=pid, tier=tier, seed=seed, level=C['level'], wall_s=round(time.time() - t0, 2),
              coverage=dict(explanation='%d of %d items proved for all inputs (%s); %d functions of the crate analysed, %d of %d panic obligations discharged, %d outcome pairs compared; undecided: %s' % (
                  proved, len(items), C['technique'], len(fns), ndis, nobl, sum(i.get('pairs_compared', 0) for i in items), ', '.join(und) or 'none'),
                  functions=fns, items=items),
              assumptions=C.get('assumptions', []) + registry.ASSUMPTIONS,
              violations=[dict(key=v['key'], detail=str(v['witness'])[:1500]) for v in fresh])
    ev['coverage'].update(C.get('coverage', {}))
    if C['level'] == 'proof':
        ev['coverage'].update(obligations=len(items), discharged=proved)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    for i in items:
        print('%-10s %-9s %s %s' % (i['status'], i['kind'], i['name'], i.get('why', '')[:300]))
    if fresh:
        os.makedirs(os.path.join(VERIF, 'replay'), exist_ok=True)
        rp = os.path.join(VERIF, 'replay', pid + '.json')
        with open(rp, 'w') as f:
            json.dump(dict(property=pid, violations=fresh), f, indent=1, default=str)
        for v in fresh:
            print('  ' + v['key'] + ': ' + str(v['witness'])[:1000])
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    return 0


FIELDS = ('name', 'status', 'why', 'outcomes', 'pairs', 'obligations', 'discharged', 'functions', 'witness', 'valuations', 'wall', 'unmodelled')


def workers(f, todo, deadline, each):
    """f on every contract, each in a process of its own with bounded time and memory"""
    from contracts import Result
    n = int(os.environ.get('SA_JOBS', '6'))
    out = [None] * len(todo)
    live = {}
    nxt = 0
    while nxt < len(todo) or live:
        while nxt < len(todo) and len(live) < n:
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)
                    resource.setrlimit(resource.RLIMIT_AS, (5 << 30, 5 << 30))
                    R = f(todo[nxt])
                    d = json.dumps({k: getattr(R, k) for k in FIELDS}, default=str)
                    with os.fdopen(w, 'w') as h:
                        h.write(d)
                except BaseException as e:
                    if os.environ.get('SA_DEBUG'):
                        traceback.print_exc()
                finally:
                    os._exit(0)
            os.close(w)
            live[r] = (nxt, pid, time.time(), [])
            nxt += 1
        ready, _, _ = select.select(list(live), [], [], 1)
        now = time.time()
        for r in list(live):
            i, pid, t0, buf = live[r]
            done = False
            if r in ready:
                x = os.read(r, 1 << 16)
                if x:
                    buf.append(x)
                else:
                    done = True
            late = now > min(deadline, t0 + each)
            if not done and not late:
                continue
            if late and not done:
                os.kill(pid, signal.SIGKILL)
            os.close(r)
            os.waitpid(pid, 0)
            del live[r]
            R = Result(todo[i]['name'])
            R.wall = now - t0
            R.why = 'the analysis ran out of time' if late and not done else 'the analysis ran out of memory'
            try:
                d = json.loads(b''.join(buf).decode())
                for k in FIELDS:
                    setattr(R, k, d[k])
            except ValueError:
                pass
            out[i] = R
    return out


def first_error(log):
    for l in log.split('\n'):
        if l.startswith('error'):
            return l[:200]
    return ''


if __name__ == '__main__':
    try:
        rc = main()
    except build.BuildError as e:
        print('cannot build the tree: %s' % e)
        rc = 2
    sys.exit(rc)
