"""Models of HashMap, BTreeMap and their sets: maps are values.

mempty; madd(m, k, v): m with a key it did not have; mset(m, k, v): m with the
value of a key it has replaced; mdel(m, k): m without a key it has.
mhas(m, k), mget(m, k), maplen(m); mitems(m, kind): its (key, value) pairs, in
key order for kind 'b' and in some order for kind 'h'."""
from terms import *
from facts import *
from seqs import *
import interp
import models
from models import (model, deref, deref_all, some, none, ref, agg, tup, UNIT, mkit, strip_ident, ty_of)

MAPS = ('mempty', 'madd', 'mset', 'mdel')
NAMES = ('std::collections::HashMap', 'std::collections::BTreeMap', 'std::collections::HashSet', 'std::collections::BTreeSet')


def is_map(E, v):
    if v.op in MAPS:
        return True
    t = ty_of(E, v)
    return t is not None and t['k'] == 'adt' and (t['name'] in NAMES or t['name'].split('::')[-1] in ('HashMap', 'BTreeMap', 'HashSet', 'BTreeSet'))


def maplen(m):
    n = ZERO
    while True:
        if m.op == 'mempty':
            return n
        if m.op == 'madd':
            n = padd(n, ONE)
        elif m.op == 'mdel':
            n = psub(n, ONE)
        elif m.op != 'mset':
            return padd(n, atom(mk('maplen', m)))
        m = m.a[0]


def mhas(m, k):
    while True:
        if m.op == 'mempty':
            return FALSE
        if m.op in ('madd', 'mset') and m.a[1] is k:
            return TRUE
        if m.op == 'mdel' and m.a[1] is k:
            return FALSE
        if m.op == 'mset':
            m = m.a[0]
            continue
        return mk('mhas', m, k)


def mget(m, k):
    if m.op in ('madd', 'mset') and m.a[1] is k:
        return m.a[2]
    return mk('mget', m, k)


def mset(m, k, v):
    if m.op in ('madd', 'mset') and m.a[1] is k:
        return mk(m.op, m.a[0], k, v)
    return mk('mset', m, k, v)


def mdel(m, k):
    if m.op == 'madd' and m.a[1] is k:
        return m.a[0]
    return mk('mdel', m, k)


def mitems(m, kind):
    if m.op == 'mempty':
        return EMPTY
    return mk('mitems', m, kind)


REBUILD['maplen'] = lambda m: (as_atom(maplen(m)) or maplen(m))
REBUILD['mlen'] = maplen
REBUILD['mhas'] = mhas
REBUILD['mget'] = lambda m, k: (lambda r: (as_atom(r) or r) if r.op == 'poly' else r)(mget(m, k))
REBUILD['mset'] = mset
REBUILD['mdel'] = mdel
REBUILD['mitems'] = mitems


def tget(E, m, k, vt):
    r = mget(m, k)
    if r.op == 'mget' and vt is not None:
        if r.ty is None:
            r.ty = vt
        return E.typed(r, vt)
    return r


def loc(c, p):
    """-> (obj, path, map) of a map or a pointer to one"""
    E, st = c.E, c.st
    o, pa = E.ptr_loc(st, p)
    for _ in range(3):
        v = E.load(st, o, pa)
        if v.op in ('ref', 'rawp'):
            o, pa = E.ptr_loc(st, v)
    return o, pa, v


def kind_of(c):
    return 'b' if 'btree' in c.callee['path'].lower() else 'h'


def key_of(c, st, v):
    return strip_ident(deref_all(c.E, st, v))


def split(c, m, k):
    b = mhas(m, k)
    yes = [s.fork() for s in c.st.assume(b)] if b is not FALSE else []
    no = [s.fork() for s in c.st.assume(NOT(b))] if b is not TRUE else []
    return yes, no


@model('HashMap::new', 'HashMap::with_capacity', 'BTreeMap::new', 'HashSet::new', 'HashSet::with_capacity', 'BTreeSet::new',
       'HashMap::with_hasher', 'HashMap::with_capacity_and_hasher')
def m_new(c):
    return c.ret(mk('mempty'))


@model('HashMap::len', 'BTreeMap::len', 'HashSet::len', 'BTreeSet::len')
def m_len(c):
    o, pa, v = loc(c, c.args[0])
    return c.ret(maplen(v)) if is_map(c.E, v) else None


@model('HashMap::is_empty', 'BTreeMap::is_empty', 'HashSet::is_empty', 'BTreeSet::is_empty')
def m_empty(c):
    o, pa, v = loc(c, c.args[0])
    return c.ret(eq0(maplen(v))) if is_map(c.E, v) else None


@model('HashMap::clear', 'BTreeMap::clear')
def m_clear(c):
    o, pa, v = loc(c, c.args[0])
    c.E.store(c.st, o, pa, mk('mempty'))
    return c.ret(UNIT)


@model('HashMap::contains_key', 'BTreeMap::contains_key', 'HashSet::contains', 'BTreeSet::contains')
def m_contains(c):
    o, pa, v = loc(c, c.args[0])
    return c.ret(mhas(v, key_of(c, c.st, c.args[1]))) if is_map(c.E, v) else None


def vref(c, s, o, pa, k):
    vt = c.targ(1)
    return ref(o, pa + (('m', k, vt),))


@model('HashMap::get', 'BTreeMap::get', 'HashMap::get_mut', 'BTreeMap::get_mut')
def m_get(c):
    o, pa, v = loc(c, c.args[0])
    if not is_map(c.E, v):
        return None
    k = key_of(c, c.st, c.args[1])
    yes, no = split(c, v, k)
    return [(s, some(vref(c, s, o, pa, k))) for s in yes] + [(s, none()) for s in no]


@model('Index::index@map')
def m_index(c):
    o, pa, v = loc(c, c.args[0])
    if not is_map(c.E, v):
        return None
    k = key_of(c, c.st, c.args[1])
    out = []
    for s in c.oblige(mhas(v, k), 'key'):
        out.append((s, ref(o, pa + (('m', k, None),))))
    return out


@model('HashMap::insert', 'BTreeMap::insert', 'HashSet::insert', 'BTreeSet::insert')
def m_insert(c):
    o, pa, v = loc(c, c.args[0])
    if not is_map(c.E, v):
        return None
    k = key_of(c, c.st, c.args[1])
    isset = len(c.args) == 2
    x = UNIT if isset else c.args[2]
    yes, no = split(c, v, k)
    out = []
    for s in yes:
        old = tget(c.E, v, k, c.targ(1))
        if not isset:
            c.E.store(s, o, pa, mset(v, k, x))
        out.append((s, FALSE if isset else some(old)))
    for s in no:
        c.E.store(s, o, pa, mk('madd', v, k, x))
        out.append((s, TRUE if isset else none()))
    return out


@model('HashMap::remove', 'BTreeMap::remove', 'HashSet::remove', 'BTreeSet::remove')
def m_remove(c):
    o, pa, v = loc(c, c.args[0])
    if not is_map(c.E, v):
        return None
    k = key_of(c, c.st, c.args[1])
    isset = c.callee['path'].find('Set') >= 0
    yes, no = split(c, v, k)
    out = []
    for s in yes:
        old = tget(c.E, v, k, c.targ(1))
        c.E.store(s, o, pa, mdel(v, k))
        out.append((s, TRUE if isset else some(old)))
    for s in no:
        out.append((s, FALSE if isset else none()))
    return out


HENTRY, BENTRY = 'std::collections::hash_map::Entry', 'std::collections::btree_map::Entry'


@model('HashMap::entry', 'BTreeMap::entry')
def m_entry(c):
    o, pa, v = loc(c, c.args[0])
    if not is_map(c.E, v):
        return None
    k = key_of(c, c.st, c.args[1])
    yes, no = split(c, v, k)
    vt = c.targ(1)
    b = kind_of(c) == 'b'
    name = BENTRY if b else HENTRY
    p = ref(o, pa)
    return [(s, agg(name, 1 if b else 0, mk('occ', p, k, vt))) for s in yes] + \
        [(s, agg(name, 0 if b else 1, mk('vac', p, k, vt))) for s in no]


def put_new(E, s, e, x):
    o, pa = e.a[0].a
    v = E.load(s, o, pa)
    E.store(s, o, pa, mk('madd', v, e.a[1], x))
    return ref(o, pa + (('m', e.a[1], e.a[2]),))


def eref(e):
    o, pa = e.a[0].a
    return ref(o, pa + (('m', e.a[1], e.a[2]),))


def ent(c, v, ops):
    for _ in range(3):
        if v.op in ops:
            return v
        if v.op not in ('ref', 'rawp'):
            return None
        v = deref(c.E, c.st, v)
    return None


@model('VacantEntry::insert')
def m_vacins(c):
    e = ent(c, c.args[0], ('vac',))
    return c.ret(put_new(c.E, c.st, e, c.args[1])) if e else None


@model('OccupiedEntry::get', 'OccupiedEntry::get_mut', 'OccupiedEntry::into_mut')
def m_occget(c):
    e = ent(c, c.args[0], ('occ',))
    return c.ret(eref(e)) if e else None


@model('OccupiedEntry::insert', 'OccupiedEntry::remove')
def m_occins(c):
    e = ent(c, c.args[0], ('occ',))
    if not e:
        return None
    o, pa = e.a[0].a
    v = c.E.load(c.st, o, pa)
    old = tget(c.E, v, e.a[1], e.a[2])
    c.E.store(c.st, o, pa, mset(v, e.a[1], c.args[1]) if c.m == 'insert' else mdel(v, e.a[1]))
    return c.ret(old)


@model('OccupiedEntry::key', 'VacantEntry::key', 'VacantEntry::into_key', 'Entry::key')
def m_ekey(c):
    v = c.args[0]
    if v.op in ('ref', 'rawp'):
        v = deref(c.E, c.st, v)
    if v.op == 'agg':
        v = v.a[2]
    e = ent(c, v, ('occ', 'vac'))
    if not e:
        return None
    if c.m == 'into_key':
        return c.ret(e.a[1])
    return c.ret(ref(c.E.newobj(c.st, e.a[1])))


@model('Entry::or_insert', 'Entry::or_insert_with', 'Entry::or_default')
def m_orinsert(c):
    e = c.args[0]
    if e.op != 'agg':
        return None
    x = e.a[2]
    if x.op == 'occ':
        return c.ret(eref(x))
    if x.op != 'vac':
        return None
    if c.m == 'or_insert':
        vs = [(c.st, c.args[1])]
    elif c.m == 'or_default':
        d = models.default_of(c, x.a[2]) if x.a[2] is not None else None
        if d is None:
            return None
        vs = [(c.st, d)]
    else:
        vs = c.E.call_value(c.fr, c.st, c.args[1], [], c.line)
    out = []
    for s, v in vs:
        s = s.fork()
        out.append((s, put_new(c.E, s, x, v)))
    return out


@model('Entry::and_modify')
def m_andmod(c):
    e = c.args[0]
    if e.op != 'agg':
        return None
    if e.a[2].op == 'vac':
        return c.ret(e)
    return [(s, e) for s, _ in c.E.call_value(c.fr, c.st, c.args[1], [eref(e.a[2])], c.line)]


def items(c, m, kind, kt, vt):
    s = mitems(m, kind)
    n = maplen(m)
    return s, n


def pair_view(c, m, kind, what, kt=None, vt=None):
    """iterator over the items of a map value"""
    s = mitems(m, kind)
    n = maplen(m)
    return mkit(mk('vmitems', s, what, kt, vt), n)


def item(E, st, v, i):
    s, what, kt, vt = v.a
    e = mk('elem', s, i)
    k = E.typed(mk('fld', e, 0, 0), kt)
    x = E.typed(mk('fld', e, 0, 1), vt)
    if what == 'own':
        return tup(k, x)
    if what == 'ownk':
        return k
    if what == 'ownv':
        return x
    if what in ('refk', 'refs'):
        return ref(E.newobj(st, k))
    if what == 'refv':
        return ref(E.newobj(st, x))
    return tup(ref(E.newobj(st, k)), ref(E.newobj(st, x)))


@model('HashMap::keys', 'BTreeMap::keys', 'HashMap::values', 'BTreeMap::values', 'HashMap::iter', 'BTreeMap::iter', 'HashSet::iter', 'BTreeSet::iter',
       'HashMap::into_keys', 'HashMap::into_values', 'BTreeMap::into_keys', 'BTreeMap::into_values')
def m_iter(c):
    v = c.args[0]
    if not is_map(c.E, v):
        o, pa, v = loc(c, v)
    if not is_map(c.E, v):
        return None
    isset = 'Set' in c.callee['path']
    what = {'keys': 'refk', 'values': 'refv', 'iter': 'refs' if isset else 'ref', 'into_keys': 'ownk', 'into_values': 'ownv'}[c.m]
    return c.ret(pair_view(c, v, kind_of(c), what, c.targ(0), None if isset else c.targ(1)))


@model('BTreeMap::first_key_value', 'BTreeMap::last_key_value', 'BTreeMap::pop_first', 'BTreeMap::pop_last', 'BTreeSet::first', 'BTreeSet::last',
       'BTreeSet::pop_first', 'BTreeSet::pop_last')
def m_first(c):
    E = c.E
    o, pa, v = loc(c, c.args[0])
    if not is_map(E, v):
        return None
    n = maplen(v)
    out = [(s.fork(), none()) for s in c.st.assume(eq0(n))]
    isset = 'Set' in c.callee['path']
    for s in c.st.assume(lt(ZERO, n)):
        s = s.fork()
        i = ZERO if 'first' in c.m else psub(n, ONE)
        e = mk('elem', mitems(v, 'b'), i)
        k = E.typed(mk('fld', e, 0, 0), c.targ(0))
        x = E.typed(mk('fld', e, 0, 1), c.targ(1)) if not isset else None
        if c.m.startswith('pop'):
            E.store(s, o, pa, mdel(v, strip_ident(k)))
            out.append((s, some(k if isset else tup(k, x))))
        else:
            out.append((s, some(ref(E.newobj(s, k)) if isset else tup(ref(E.newobj(s, k)), ref(E.newobj(s, x))))))
    return out


def into_iter(c, st, v, ti):
    """IntoIterator on a map or a pointer to one"""
    E = c.E
    t = E.ty(ti) if ti is not None else None
    byref = False
    if v.op in ('ref', 'rawp') or (t is not None and t['k'] == 'ref'):
        byref = True
        o, pa = E.ptr_loc(st, v)
        v = E.load(st, o, pa)
        if t is not None and t['k'] == 'ref':
            t = E.ty(t['to'])
    if not is_map(E, v):
        return None
    if t is None:
        t = ty_of(E, v)
    kt = vt = None
    kind = 'h'
    isset = False
    if t is not None and t['k'] == 'adt':
        a = t.get('args') or []
        kt = a[0] if a else None
        isset = 'Set' in t['name']
        vt = a[1] if len(a) > 1 and not isset else None
        kind = 'b' if 'BTree' in t['name'] else 'h'
    what = ('refs' if byref else 'ownk') if isset else ('ref' if byref else 'own')
    return pair_view(c, v, kind, what, kt, vt)
