"""Structured valuations: candidate certificates for a difference that the
comparison of summaries could not prove away."""
import struct
from eqv import A, F, M, Ptr, NULLP, Unk

U32 = 2 ** 32 - 1


def S(P, adt, **fs):
    """a struct value, by field name"""
    n = [x for x in P.adts if x == adt or x.endswith("::" + adt)][0]
    v = P.adts[n]['variants'][0]
    names = [f[0] for f in v['fields']]
    assert set(names) == set(fs), (names, fs)
    return A(n, 0, [fs[k] for k in names])


def V(P, name, var, *fs):
    n = [x for x in P.adts if x.split('::')[-1] == name][0]
    for i, v in enumerate(P.adts[n]['variants']):
        if v['name'] == var:
            return A(n, i, fs)
    raise KeyError(var)


def pt(x, y):
    return A('geo::Point', 0, (x, y))


def coord(rng, m=None):
    m = rng.random() if m is None else m
    if m < 0.7:
        return rng.randrange(0, 7)
    if m < 0.85:
        return U32 - rng.randrange(0, 4)
    return rng.choice([0, 1, 2 ** 31 - 1, 2 ** 31, 2 ** 31 + 1, U32, 65535, 65536, rng.randrange(U32)])


def point(rng, big=True):
    if not big or rng.random() < 0.6:
        return pt(rng.randrange(0, 6), rng.randrange(0, 6))
    return pt(coord(rng), coord(rng))


def path(rng, lo=0, hi=6, big=True):
    return tuple(point(rng, big) for _ in range(rng.randrange(lo, hi)))


def ringpts(rng, lo=3, hi=7, big=True):
    p = path(rng, lo, hi, big)
    return p + p[:1]


def opt(x):
    return A('std::option::Option', 0, ()) if x is None else A('std::option::Option', 1, (x,))


def flt(rng):
    return rng.choice([0.0, -0.0, 1.0, -1.0, 2.5, -3.25, 10.0, 1e10, -1e10, 100.0, 3.0, 7.0, float(rng.randrange(-50, 50)), rng.uniform(-100, 100)])


# ------------------------------------------------------------------ .shp
def shp_body(rng):
    np = rng.choice([1, 1, 1, 2, 2, 3])
    starts = [0 if rng.random() < 0.8 else rng.choice([1, 2, 4])]
    for _ in range(np - 1):
        starts.append(starts[-1] + rng.choice([4, 4, 3, 5, 2, 0, -1]))
    nq = starts[-1] + rng.choice([4, 4, 5, 3, 2, 6])
    nq = max(nq, 0)
    starts = [s & U32 for s in starts]
    if rng.random() < 0.15:
        starts[rng.randrange(np)] = rng.choice([U32, nq, nq + 1, 1, nq - 1 if nq else 0, nq - 3 if nq > 3 else 0])
    t = 5 if rng.random() < 0.9 else rng.choice([0, 1, 3, 15, 25])
    b = struct.pack('<I', t) + struct.pack('<4d', *[flt(rng) for _ in range(4)])
    b += struct.pack('<II', np if rng.random() < 0.93 else rng.choice([0, np + 1, U32]), nq if rng.random() < 0.93 else rng.choice([0, nq + 1, max(0, nq - 1), U32]))
    b += b''.join(struct.pack('<I', s) for s in starts)
    flat = rng.random()
    b += b''.join(struct.pack('<2d', 5.0 if flat < 0.1 else flt(rng), 2.0 if 0.1 <= flat < 0.2 else flt(rng)) for _ in range(nq))
    r = rng.random()
    if r < 0.06:
        b = b[:rng.randrange(0, len(b) + 1) & ~1]
    elif r < 0.1:
        b = b + b'\0' * rng.choice([2, 4, 16])
    elif r < 0.14:
        b = b[:rng.choice([0, 2, 4, 36, 40, 42, 44])]
    return b


def good_record(rng, box):
    """a well-formed record with points in (or near) the box"""
    np = rng.choice([1, 1, 2, 3])
    pts, starts = [], []
    for _ in range(np):
        starts.append(len(pts))
        k = rng.randrange(3, 5)
        flat = rng.random()
        ps = []
        for _ in range(k):
            u, v = rng.choice([0, .25, .5, 1, .75, .1, rng.random()]), rng.choice([0, .25, .5, 1, .75, .3, rng.random()])
            if flat < 0.12:
                u = .5
            elif flat < 0.24:
                v = .25
            ps.append((box[0] + u * (box[2] - box[0]), box[1] + v * (box[3] - box[1])))
        pts += ps + ps[:1]
    b = struct.pack('<I4dII', 5, *(list(box) + [np, len(pts)])) + b''.join(struct.pack('<I', x) for x in starts) + b''.join(struct.pack('<2d', *x) for x in pts)
    return struct.pack('>II', rng.choice([1, 2, 9]), len(b) // 2) + b


def shp_record(rng):
    b = shp_body(rng)
    n = len(b) // 2
    if rng.random() < 0.08:
        # also lengths that are right only if a bit is dropped
        n = rng.choice([0, n + 2, max(0, n - 2), U32, n | 2 ** 31, n | 2 ** 16, n | 2 ** 24])
    if rng.random() < 0.04 and len(b) >= 44:
        # counts that are right only modulo 2^32 bytes
        parts, points = struct.unpack('<II', b[36:44])
        if rng.random() < 0.5:
            points = (points + 2 ** 28 * rng.choice([1, 8, 15])) & U32
        else:
            parts = (parts + 2 ** 30 * rng.choice([1, 2, 3])) & U32
        b = b[:36] + struct.pack('<II', parts, points) + b[44:]
    return struct.pack('>II', rng.choice([1, 2, 77, U32]), n) + b


def shp_header(rng, size):
    magic = 9994 if rng.random() < 0.93 else rng.choice([0, 9995, 170328064])
    ver = 1000 if rng.random() < 0.93 else rng.choice([0, 1001, 10])
    t = 5 if rng.random() < 0.9 else rng.choice([0, 1, 2, 3, 8, 11, 13, 15, 18, 21, 23, 25, 28, 31, 32])
    if rng.random() < 0.05:
        size = rng.choice([0, 50, U32 * 2, 2 ** 32, 2 ** 33 - 2])
    xs = [flt(rng) for _ in range(8)]
    return struct.pack('>I', magic) + bytes(rng.randrange(256) for _ in range(20)) + struct.pack('>I', (size // 2) & U32) + \
        struct.pack('<II', ver, t) + struct.pack('<8d', *xs)


def shp_file(rng, nrec=None):
    recs = [shp_record(rng) for _ in range(rng.randrange(0, 3) if nrec is None else nrec)]
    body = b''.join(recs)
    size = 100 + len(body)
    if rng.random() < 0.15:
        size += rng.choice([-2, 2, -8, 8, -50, 100])
    f = shp_header(rng, max(0, size)) + body
    if rng.random() < 0.1:
        f = f[:rng.randrange(0, len(f) + 1)]
    return f


def g_shp_new(P):
    def g(rng, i):
        f = shp_header(rng, 200)
        if rng.random() < 0.2:
            f = f[:rng.choice([0, 3, 4, 36, 68, 99, 100])]
        else:
            f += b'abc'
        return (tuple(f),)
    return g


def g_shp_next(P):
    def g(rng, i):
        rec = shp_record(rng)
        used = rng.choice([100, 100, 300, 8])
        size = used + rng.choice([len(rec)] * 4 + [len(rec) + 2, len(rec) - 2, len(rec) + 60, 0, -2])
        data = rec + rng.choice([b'', b'xyz'])
        if rng.random() < 0.15:
            data = data[:rng.choice([0, 4, 8, max(0, len(rec) - 1), len(rec) // 2])]
        elif rng.random() < 0.12:
            # the announced end is near
            size = used + rng.choice([1, 2, 4, 7, 8, 9, 12, 44])
            data = data[:rng.choice([0, 1, 4, 7, 8, 9, 12, 52, len(data)])]
        bb = S(P, 'ShpBoundingBox', **{'0': F(0.), '1': F(0.), '2': F(1.), '3': F(1.)})
        h = S(P, 'ShpHeader', file_n_bytes=max(0, size), shape_type=V(P, 'ShpShapeType', 'Polygon'), bounding_box=bb)
        return (S(P, 'ShpReader', file=tuple(data), n_bytes_already_read=used, header=h),)
    return g


# ------------------------------------------------------------------ .dbf
def enc(rng):
    return rng.choice(['utf-8', 'utf-8', 'ascii', 'cp1252'])


def text(rng, n):
    k = rng.random()
    if k < 0.5:
        return bytes(rng.choice(b'abcXYZ09_ ') for _ in range(n))
    if k < 0.7:
        s = bytes(rng.choice(b'ab') for _ in range(rng.randrange(0, n + 1)))
        return (s + rng.choice([b' ', b'\0', b' ', b'\t', b'\t ', b'\n ']) * n)[:n]
    if k < 0.85:
        return (rng.choice(['\u00e9', '\u00e9a', 'a\u00e9']).encode('utf8') + b' ' * n)[:n]
    return bytes(rng.choice([0, 9, 10, 32, 45, 46, 48, 57, 65, 200, 255]) for _ in range(n))


def number(rng, n):
    s = rng.choice(['12', '-12', '1.5', '-0.25', '0', '', '-', '.5', '5.', '1e3', '+1', '1 2', '12 ', '1.2.3', '123456789012345678901', 'x', '\n1', '1\n', '3\t'])
    b = s.encode()
    return (b' ' * max(0, n - len(b)) + b)[:n] if rng.random() < 0.9 else (b + b' ' * n)[:n]


def dbf_desc(rng):
    name = text(rng, 11) if rng.random() < 0.3 else (rng.choice([b'', b'a', b'name', b'elevenchars', b'tenletters', b'caf\xc3\xa9']) + b'\0' * 11)[:11]
    t = rng.choice(b'CCNNLDF@O+|BGMTcn\0\xff') if rng.random() < 0.9 else rng.randrange(256)
    return name + bytes([t]) + bytes(rng.randrange(256) for _ in range(4)) + bytes([rng.choice([0, 1, 4, 9, 20, 254, 255])]) + bytes(rng.randrange(256) for _ in range(15))


def dbf_header(rng, nf, n=None, rec=None, nb=None):
    nb = 32 + 32 * nf + 1 if nb is None else nb
    return bytes([3, rng.randrange(256), rng.choice([1, 12, 6, 0, 13, 255]) if rng.random() < 0.2 else 5, rng.choice([0, 31, 32, 99]) if rng.random() < 0.2 else 7]) + \
        struct.pack('<IHH', rng.choice([0, 1, 2, 3, U32]) if n is None else n, nb & 65535, rng.choice([0, 1, 10, 65535]) if rec is None else rec) + bytes(rng.randrange(256) for _ in range(20))


def g_dbf_new(P):
    def g(rng, i):
        nf = rng.choice([0, 1, 1, 2, 3])
        nb = None
        if rng.random() < 0.35:
            nb = 32 + 32 * nf + rng.choice([-33, -32, -1, 0, 0, 2, 31, 32, 33])
            nb = max(0, nb) if rng.random() < 0.9 else rng.choice([0, 31, 32, 33])
        body = b''.join(dbf_desc(rng) for _ in range(nf)) + rng.choice([b'\r', b'\r' * 40, b''])
        f = dbf_header(rng, nf, nb=nb) + body
        if rng.random() < 0.08:
            f = f[:rng.randrange(0, len(f) + 1)]
        return (tuple(f), enc(rng))
    return g


def g_dbf_field_type(P, rng):
    k = rng.choice(['Character', 'Character', 'Numeric', 'Numeric', 'Long', 'Logical', 'Date', 'FloatingPoint', 'Double', 'Timestamp', 'Unsupported'])
    return V(P, 'DbfType', k, enc(rng)) if k == 'Character' else V(P, 'DbfType', k)


def g_dbf_string(P):
    def g(rng, i):
        t = g_dbf_field_type(P, rng)
        k = P.adts[t.n]['variants'][t.v]['name']
        ln = rng.choice([0, 1, 3, 4, 5, 8, 12])
        off = rng.choice([1, 1, 0, 3])
        if k == 'Numeric':
            v = number(rng, ln)
        elif k == 'Long':
            v = bytes(rng.choice([0, 1, 2, 127, 128, 255]) for _ in range(ln))
        else:
            v = text(rng, ln)
        b = bytes(rng.randrange(32, 60) for _ in range(off)) + v + bytes(rng.randrange(32, 60) for _ in range(rng.choice([0, 0, 2])))
        if rng.random() < 0.1:
            b = b[:rng.randrange(0, len(b) + 1)]
        f = S(P, 'DbfField', name=tuple(b'n'), data_type=t, offset=off, len=ln)
        m = S(P, 'DbfMeta', n_records=1, n_bytes_per_record=len(b), fields=(f,))
        return (f, S(P, 'DbfRecord', meta=m, bytes=tuple(b)))
    return g


def dbf_reader(P, rng, data, n=None, used=0, rec=0, fields=()):
    return S(P, 'DbfReader', file=tuple(data), meta=S(P, 'DbfMeta', n_records=n, n_bytes_per_record=rec, fields=fields), n_records_already_iterated=used)


def g_dbf_next(P):
    def g(rng, i):
        n = rng.choice([0, 1, 2, 3])
        rec = rng.choice([0, 1, 3])
        data = bytes(rng.choice([32, 42, 65, 0, 26]) for _ in range(rng.choice([rec, rec, rec + 2, 2 * rec, max(0, rec - 1), 0])))
        return (dbf_reader(P, rng, data, n, rng.randrange(0, n + 1), rec),)
    return g


def g_dbf_field(P):
    def g(rng, i):
        names = [tuple(rng.choice([b'', b'a', b'A', b'b', b'ab', b'a ', b'tenletters', b'elevenchars', b'elevenlett'])) for _ in range(rng.randrange(0, 4))]
        fs = tuple(S(P, 'DbfField', name=x, data_type=V(P, 'DbfType', 'Numeric'), offset=j, len=j + 1) for j, x in enumerate(names))
        return (dbf_reader(P, rng, b'', 1, 0, 0, fs), tuple(rng.choice([b'', b'a', b'A', b'b', b'ab', b'c', b'a ', b' a', b'tenletters', b'elevenchars', b'elevenlett'])))
    return g


# ------------------------------------------------------------------ clip
def mask(P, rng):
    k = rng.choice(['MinX', 'MaxX', 'MinY', 'MaxY'])
    c = rng.randrange(0, 6) if rng.random() < 0.7 else coord(rng)
    return V(P, 'ClipMask', k, c)


def g_mask_test(P):
    return lambda rng, i: (mask(P, rng), point(rng))


def g_mask_intersect(P):
    def g(rng, i):
        m = mask(P, rng)
        a, b = point(rng), point(rng)
        c = m.f[0]
        if rng.random() < 0.6:
            lo = rng.choice([0, 1, 2, 2 ** 31 - 1, rng.randrange(0, U32 - 3), rng.randrange(0, 10)])
            hi = rng.choice([U32, U32 - 1, U32 - 2, 2 ** 31 + 5, min(U32, lo + 2 + rng.randrange(0, 9))])
            if hi - lo < 2:
                return None
            c = rng.choice([lo + 1, hi - 1, (lo + hi) // 2, rng.randrange(lo + 1, hi)])
            u, v = rng.choice([0, 1, 2, 5, U32, U32 - 1, rng.randrange(U32)]), rng.choice([0, 1, 3, 7, U32, U32 - 2, rng.randrange(U32)])
            m = A(m.n, m.v, [c])
            e = [(lo, u), (hi, v)]
            rng.shuffle(e)
            if P.adts[m.n]['variants'][m.v]['name'].endswith('Y'):
                e = [(y, x) for x, y in e]
            a, b = pt(*e[0]), pt(*e[1])
        x = m.v < 2 if [v['name'] for v in P.adts[m.n]['variants']][:2] == ['MinX', 'MaxX'] else None
        if x is None:
            x = P.adts[m.n]['variants'][m.v]['name'].endswith('X')
        p, q = (a.f[0], b.f[0]) if x else (a.f[1], b.f[1])
        c = m.f[0]
        if not (p < c < q or q < c < p):
            return None
        return (m, a, b)
    return g


def g_clip_edge(P):
    return lambda rng, i: (path(rng, 0, 6, big=rng.random() < 0.3), mask(P, rng))


# ------------------------------------------------------------------ geo
def bigring(rng):
    """rings around (almost) the whole coordinate space, some of them twice"""
    m = [U32 - rng.choice([0, 0, 1, 5]) for _ in range(4)]
    p = [(0, 0), (m[0], 0), (m[1], m[2]), (0, m[3])]
    if rng.random() < 0.3:
        p.pop(rng.randrange(4))
    if rng.random() < 0.3:
        p = p * rng.choice([2, 3])
    if rng.random() < 0.5:
        p = p[::-1]
    k = rng.randrange(len(p))
    p = p[k:] + p[:k]
    return tuple(pt(x, y) for x, y in p + p[:1])


def ring(P, rng):
    p = bigring(rng) if rng.random() < 0.15 else ringpts(rng)
    if rng.random() < 0.5:
        return V(P, 'Ring', 'Points', p)
    n = len(p) - 1
    cuts = sorted(set([0, n] + [rng.randrange(0, n + 1) for _ in range(rng.randrange(0, 3))]))
    es = tuple(A('geo::Edge', 0, (p[a:b + 1],)) for a, b in zip(cuts, cuts[1:]))
    return V(P, 'Ring', 'Edges', es)


def g_ring(P):
    return lambda rng, i: (ring(P, rng),)


def g_points(P):
    return lambda rng, i: (bigring(rng) if rng.random() < 0.1 else ringpts(rng, 0, 7) if rng.random() < 0.8 else path(rng, 0, 6),)


# ------------------------------------------------------------------ joined
def g_join_next(P):
    gs, gd = g_shp_next(P), g_dbf_next(P)

    def g(rng, i):
        return (S(P, 'ShapefileReader', shp_reader=gs(rng, i)[0], dbf_reader=gd(rng, i)[0]),)
    return g


def res(ok, v):
    return A('std::result::Result', 0 if ok else 1, (v,))


def reader_oracles(P, rng, fa, fb):
    """outcomes of opening either file: any mix of success and failure"""
    def mk(tag, err):
        k = rng.random()
        if k < 0.5:
            r = lambda *a: res(True, ('@' + tag,) + a)
        elif k < 0.75:
            r = lambda *a: res(False, V(P, err, 'IOError', ('@ioerr',)))
        else:
            r = lambda *a: res(False, V(P, err, 'ParseError', ('@msg',)))
        return r
    return {'@' + fa: mk('shp', 'ShpError'), '@' + fb: mk('dbf', 'DbfError')}


def g_join_new(P):
    return lambda rng, i: (tuple(range(3)), tuple(range(5, 9)), enc(rng), reader_oracles(P, rng, 'ShpReader::<R>::new', 'DbfReader::<R>::new'))


def g_join_open(P):
    return lambda rng, i: (tuple(rng.choice(PATHS)), enc(rng), reader_oracles(P, rng, 'shp::open', 'dbf::open'))


PATHS = [b'a.shp', b'x/y.shp', b'a', b'a.b.shp', b'A.SHP', b'x.y/a', b'/t.dbf', b'a.shp.bak']


def g_open(P):
    """opening by name"""
    def g(rng, i):
        o = reader_oracles(P, rng, 'shapefile::open', 'shapefile::open')
        o.update(reader_oracles(P, rng, 'ShpReader::<R>::new', 'DbfReader::<R>::new'))
        o['@opens'] = rng.random() < 0.8
        return (tuple(rng.choice(PATHS)), enc(rng), o)
    return g


def g_open1(P):
    g = g_open(P)

    def f(rng, i):
        a = g(rng, i)
        return (a[0], a[2])
    return f


def g_join_reader(P):
    g = g_join_next(P)
    gf = g_dbf_field(P)

    def f(rng, i):
        x = g(rng, i)[0]
        d, n = gf(rng, i)
        b = S(P, 'ShpBoundingBox', **{str(j): F(float(rng.randrange(-9, 9))) for j in range(4)})
        h = S(P, 'ShpHeader', file_n_bytes=100, shape_type=V(P, 'ShpShapeType', 'Polygon'), bounding_box=b)
        sr = S(P, 'ShpReader', file=(), n_bytes_already_read=100, header=h)
        return (S(P, 'ShapefileReader', shp_reader=sr, dbf_reader=d), n)
    return f


def g_join_reader1(P):
    g = g_join_reader(P)
    return lambda rng, i: (g(rng, i)[0],)


def g_quantize(P):
    def g(rng, i):
        b = [F(flt(rng)) for _ in range(4)]
        if rng.random() < 0.8:
            b = [F(x) for x in (0., 0., 10., 10.)] if rng.random() < 0.5 else [F(x) for x in (-5., 2., 3., 8.)]
        return (S(P, 'ShpBoundingBox', **{'0': b[0], '1': b[1], '2': b[2], '3': b[3]}),
                S(P, 'ShpPoint', **{'0': F(rng.uniform(0, 10) if rng.random() < 0.5 else float(rng.randrange(-6, 12))), '1': F(float(rng.randrange(-6, 12)))}))
    return g


def g_regions(P):
    gj = g_join_next(P)

    def g(rng, i):
        x = gj(rng, i)[0]
        b = rng.choice([(0., 0., 10., 10.), (-5., 2., 3., 8.), (-100., -50., 100., 50.), (0., 0., 0., 0.)])
        if rng.random() < 0.6:
            b = rng.choice([(0., 0., 10., 10.), (-5., 2., 3., 8.), (-100., -50., 100., 50.)])
            rec = good_record(rng, b)
            bb = S(P, 'ShpBoundingBox', **{str(j): F(v) for j, v in enumerate(b)})
            h = S(P, 'ShpHeader', file_n_bytes=100 + len(rec), shape_type=V(P, 'ShpShapeType', 'Polygon'), bounding_box=bb)
            sr = S(P, 'ShpReader', file=tuple(rec), n_bytes_already_read=100, header=h)
            return (S(P, 'ShapefileReader', shp_reader=sr, dbf_reader=dbf_reader(P, rng, bytes([32, 65 + rng.randrange(5)]), 1, 0, 2)),)
        bb = S(P, 'ShpBoundingBox', **{str(j): F(v) for j, v in enumerate(b)})
        sf, names = x.f, [f[0] for f in P.adts[x.n]['variants'][0]['fields']]
        sr = sf[names.index('shp_reader')]
        hn = [f[0] for f in P.adts[sr.n]['variants'][0]['fields']]
        h = sr.f[hn.index('header')]
        hh = [f[0] for f in P.adts[h.n]['variants'][0]['fields']]
        h2 = A(h.n, 0, [bb if k == 'bounding_box' else v for k, v in zip(hh, h.f)])
        sr2 = A(sr.n, 0, [h2 if k == 'header' else v for k, v in zip(hn, sr.f)])
        return (A(x.n, 0, [sr2 if k == 'shp_reader' else v for k, v in zip(names, sf)]),)
    return g


# ------------------------------------------------------------------ normalizing
def norm_edge(P, pts, regs):
    return S(P, 'NormEdge', points=tuple(pts), regions=tuple(regs))


def cyc_points(rng, lo=3, hi=8, big=True):
    """distinct points, in no particular order"""
    n = rng.randrange(lo, hi)
    ps = []
    while len(ps) < n:
        p = point(rng, big)
        if p not in ps:
            ps.append(p)
    return ps


def cut_ring(rng, ps, k=None):
    """the closed ring of ps, cut into paths at some of its points"""
    n = len(ps)
    k = rng.randrange(1, min(n, 5) + 1) if k is None else k
    at = sorted(rng.sample(range(n), k))
    if rng.random() < 0.3:
        i = rng.randrange(k)
        at = at[i:] + at[:i]
    out = []
    for i, a in enumerate(at):
        b = at[(i + 1) % k]
        m = (b - a) % n or n
        out.append([ps[(a + j) % n] for j in range(m + 1)])
    return out


def norm_ring_edges(P, rng, k=None, regs=3, big=True):
    rs = [Ptr(('R', i)) for i in range(regs)] + [NULLP]
    es = cut_ring(rng, cyc_points(rng, big=big), k)
    few = rng.sample(rs, 2)
    out = []
    for e in es:
        a, b = rng.sample(rs, 2) if rng.random() < 0.4 else (few if rng.random() < 0.6 else few[::-1])
        if rng.random() < 0.1:
            b = a
        out.append(norm_edge(P, e, (a, b)))
    return tuple(out)


def g_norm_island(P):
    def g(rng, i):
        return (norm_edge(P, cut_ring(rng, cyc_points(rng, 1, 7), 1)[0], (Ptr(('R', 0)), NULLP)),)
    return g


def g_norm_edges(P):
    return lambda rng, i: (norm_ring_edges(P, rng),)


def worder(P, rng):
    return V(P, 'WindingOrder', rng.choice(['Clockwise', 'CounterClockwise']))


def g_norm_wind(P):
    return lambda rng, i: (norm_ring_edges(P, rng), worder(P, rng))


def g_norm_edge(P):
    def g(rng, i):
        rs = [Ptr(('R', 0)), Ptr(('R', 1)), NULLP]
        return (norm_edge(P, path(rng, 2, 6), (rng.choice(rs), rng.choice(rs))),)
    return g


def norm_ring(P, es):
    return S(P, 'NormRing', edges=tuple(es))


def g_norm_rings2(P):
    return lambda rng, i: (norm_ring(P, norm_ring_edges(P, rng)), norm_ring(P, norm_ring_edges(P, rng)))


def g_norm_ring(P):
    return lambda rng, i: (norm_ring(P, norm_ring_edges(P, rng)),)


# what each step of normalizing computes, for certificates about their callers
def pkey(p):
    return (p.f[0], p.f[1])


def y_sum2(es):
    a = 0
    for e in es:
        p = e.f[0]
        for i in range(1, len(p)):
            a += p[i - 1].f[0] * p[i].f[1] - p[i].f[0] * p[i - 1].f[1]
    return a


def y_wind(P, es, order):
    s = y_sum2(es)
    if s == 0:
        raise Unk('zero area')
    if (s > 0) == (order.v == V(P, 'WindingOrder', 'Clockwise').v):
        return es
    return tuple(norm_edge(P, e.f[0][::-1], e.f[1]) for e in reversed(es))


def y_rotate(P, es):
    if len(es) == 1:
        p = es[0].f[0]
        k = min(range(len(p)), key=lambda i: pkey(p[i]))
        if k == 0:
            return es
        return (norm_edge(P, p[k:-1] + p[:k + 1], es[0].f[1]),)
    if not es:
        return es
    k = min(range(len(es)), key=lambda i: pkey(es[i].f[0][0]))
    return es[k:] + es[:k]


def y_join_related(P, es):
    out = []
    for e in es:
        if out and out[-1].f[1] == e.f[1]:
            out[-1] = norm_edge(P, out[-1].f[0] + e.f[0][1:], e.f[1])
        else:
            out.append(e)
    if len(out) > 1 and out[0].f[1] == out[-1].f[1]:
        out[0] = norm_edge(P, out[-1].f[0] + out[0].f[0][1:], out[0].f[1])
        out.pop()
    return tuple(out)


def y_into_ring(P, r):
    return V(P, 'Ring', 'Edges', tuple(S(P, 'Edge', **{'0': e.f[0]}) for e in r.f[0]))


def y_join_rings(P, rings):
    ret, merge = [], {}
    for r in rings:
        red = [e for e in r.f[0] if e.f[1][0] == e.f[1][1]]
        use = [e for e in r.f[0] if e.f[1][0] != e.f[1][1]]
        if not red:
            ret.append(r)
        elif use:
            for e in use:
                k = e.f[0][0]
                if k in merge:
                    raise Unk('two edges leave a point')
                merge[k] = e
    if not merge:
        return tuple(ret)
    while merge:
        start = end = min(merge, key=pkey)
        es = []
        while True:
            if end not in merge:
                raise Unk('not closed')
            e = merge.pop(end)
            end = e.f[0][-1]
            es.append(e)
            if end == start:
                break
        ret.append(norm_ring(P, y_rotate(P, y_join_related(P, tuple(es)))))
    ret.sort(key=lambda r: pkey(r.f[0][0].f[0][0]))
    return tuple(ret)


def topo_world(P, rng, nreg=None, big=False, shared=0.4):
    """a topology: (regions, heap); rings of distinct points, some edges shared between rings of different regions"""
    W = Heap(P)
    nreg = rng.randrange(1, 4) if nreg is None else nreg
    regions = []
    spare = []
    for i in range(nreg):
        R = Ptr(('R', i))
        kinds = []
        for kind in ('outer', 'inner'):
            rings = []
            for j in range(rng.randrange(1, 3) if kind == 'outer' else rng.randrange(0, 3)):
                rp = Ptr(('r', i, kind, j))
                des = []
                for path in cut_ring(rng, cyc_points(rng, big=big)):
                    e = W.edge(rng, path, rp)
                    des.append(e)
                if spare and rng.random() < shared:
                    # walk a ring of another region the other way round
                    es, rp0 = spare.pop()
                    des = []
                    for d in reversed(es):
                        W.second(d.f[0], rp)
                        des.append(W.directed(d.f[0], 1 - d.f[1].v))
                elif i + 1 < nreg:
                    spare.append((des, rp))
                ring = W.ring(des, R)
                W.heap[rp.k] = ring
                rings.append(ring)
            kinds.append(tuple(rings))
        reg = S(P, 'TopoRegion', data=rng.randrange(100), outer_rings=kinds[0], inner_rings=kinds[1])
        W.heap[R.k] = reg
        regions.append(reg)
    return W, tuple(regions)


class Heap(object):
    def __init__(self, P):
        self.P, self.heap, self.n = P, {}, 0

    def directed(self, p, d):
        return S(self.P, 'DirectedEdge', edge=p, direction=A('topology::types::Direction', d, ()))

    def edge(self, rng, path, rp):
        p = Ptr(('e', self.n))
        self.n += 1
        d = rng.randrange(2)
        self.heap[p.k] = S(self.P, 'TopoEdge', points=tuple(path if d == 0 else path[::-1]), rings=(rp, NULLP))
        return self.directed(p, d)

    def second(self, p, rp):
        e = self.heap[p.k]
        self.heap[p.k] = S(self.P, 'TopoEdge', points=e.f[0], rings=(e.f[1][0], rp))

    def ring(self, des, R):
        return S(self.P, 'TopoRing', directed_edges=tuple(des), region=R)

    def edges(self):
        return tuple(self.heap[('e', i)] for i in range(self.n))


def y_with_directed(P, heap):
    def f(d):
        e = heap[d.f[0].k]
        regs = []
        for r in e.f[1]:
            regs.append(NULLP if r == NULLP else heap[r.k].f[1])
        return norm_edge(P, e.f[0] if d.f[1].v == 0 else e.f[0][::-1], regs)
    return f


def y_region_rings(P, heap):
    wd = y_with_directed(P, heap)

    def f(rings, order):
        out = []
        for r in rings:
            es = tuple(wd(d) for d in r.f[0])
            out.append(norm_ring(P, y_rotate(P, y_wind(P, y_join_related(P, es), order))))
        out = sorted(y_join_rings(P, out), key=lambda r: pkey(r.f[0][0].f[0][0]))
        return tuple(y_into_ring(P, r) for r in out)
    return f


def y_norm(P, heap):
    return {'@heap': heap,
            '@NormEdge::<T>::with_directed_edge': y_with_directed(P, heap),
            '@join_related_edges': lambda es: y_join_related(P, es),
            '@wind_edges': lambda es, o: y_wind(P, es, o),
            '@rotate_edges': lambda es: y_rotate(P, es),
            '@join_adjacent_rings': lambda rs: y_join_rings(P, rs),
            '@NormRing::<T>::into_ring': lambda r: y_into_ring(P, r),
            '@normalize_region_rings': y_region_rings(P, heap)}


def y_builder(P):
    """a builder is the regions it was given; those without outer rings are not kept"""
    return {'@TopologyBuilder::<Data>::new': lambda: (),
            '@TopologyBuilder::<Data>::add_region': lambda b, r: {0: A('tuple', 0, ()), 1: b + ((r,) if r.f[1] else ())},
            '@TopologyBuilder::<Data>::into_topology': lambda b: b}


def g_directed(P):
    def g(rng, i):
        W, regs = topo_world(P, rng)
        k = rng.randrange(W.n)
        return (W.directed(Ptr(('e', k)), rng.randrange(2)), {'@heap': W.heap})
    return g


def g_region_rings(P):
    def g(rng, i):
        W, regs = topo_world(P, rng)
        r = rng.choice(regs)
        return (r.f[rng.choice([1, 1, 2])], worder(P, rng), y_norm(P, W.heap))
    return g


def g_normalize(P):
    def g(rng, i):
        W, regs = topo_world(P, rng)
        o = y_norm(P, W.heap)
        o.update(y_builder(P))
        return (S(P, 'Topology', regions=regs, edges=W.edges()), o)
    return g


def merge_rings(P, rng):
    """rings of one region, some of whose edges are between two of them"""
    R, O = Ptr(('R', 0)), [Ptr(('R', 1)), Ptr(('R', 2)), NULLP]
    rings = []
    for f in range(rng.choice((0, 1, 1, 1, 1, 2))):
        # a fan of rings around a point: neighbours share an edge
        n = rng.choice((2, 2, 3, 3, 4, 6))
        x = 200 * f
        c = pt(x + 10, 10)
        spokes = rng.sample([pt(x + p, q) for p, q in ((10, 0), (20, 0), (20, 10), (20, 20), (10, 20), (0, 20), (0, 10), (0, 0))], n + 1)
        full = rng.random() < 0.3 and n > 2
        for i in range(n):
            a, b = spokes[i], spokes[(i + 1) % n if full else i + 1]
            mid = tuple(pt(x + 30 + rng.randrange(50), 30 + rng.randrange(50)) for _ in range(rng.randrange(0, 3)))
            last = not full and i == n - 1
            first = not full and i == 0
            arc = (a, ) + mid + (b, )
            es = [norm_edge(P, arc, (R, rng.choice(O)))]
            if mid and rng.random() < 0.3:
                es = [norm_edge(P, arc[:2], (R, rng.choice(O))), norm_edge(P, arc[1:], (R, rng.choice(O)))]
            es += [norm_edge(P, (b, c), (R, rng.choice(O) if last else R)),
                   norm_edge(P, (c, a), (R, rng.choice(O) if first else R))]
            k = rng.randrange(len(es))
            rings.append(norm_ring(P, es[k:] + es[:k]))
    for _ in range(rng.randrange(0, 3)):
        ps = [pt(1000 + p.f[0] % 50 + 50 * len(rings), p.f[1] % 50) for p in cyc_points(rng)]
        if len(set(ps)) < len(ps):
            continue
        es = cut_ring(rng, ps)
        red = rng.random() < 0.3
        rings.append(norm_ring(P, [norm_edge(P, e, (R, R if red else rng.choice(O))) for e in es]))
    rng.shuffle(rings)
    return tuple(rings)


def g_join_rings(P):
    return lambda rng, i: (merge_rings(P, rng), y_norm(P, {}))


# ------------------------------------------------------------------ building
TB = 'topology::build::'
CT = 'clip::topology::'


def direction(d):
    return A('topology::types::Direction', d, ())


def twice(p):
    return sum(p[i - 1].f[0] * p[i].f[1] - p[i].f[0] * p[i - 1].f[1] for i in range(1, len(p)))


def forward(p):
    return twice(p) >= 0 if p[0] == p[-1] else pkey(p[0]) < pkey(p[-1])


def b_edge(P, p):
    return S(P, TB + 'BuildEdge', **{'0': tuple(p)})


def b_directed(P, i, d, mod=TB):
    return S(P, mod + 'BuildDirectedEdge', edge_id=i, direction=direction(d))


def edge_path(rng):
    r = rng.random()
    if r < 0.25:
        return ringpts(rng)
    if r < 0.3:
        p = point(rng)
        return (p,) * rng.randrange(1, 4)
    return path(rng, 0, 5)


def flipped(rng, p):
    return p[::-1] if rng.random() < 0.5 else p


def g_build_edge(P):
    def g(rng, i):
        n = rng.randrange(0, 5)
        ps = []
        for _ in range(n):
            p = edge_path(rng)
            if len(p) < 2 or (len(p) == 2 and p[0] == p[1]):
                continue
            p = p if forward(p) else p[::-1]
            if p not in ps:
                ps.append(p)
        m = M((b_edge(P, p), k) for k, p in enumerate(ps))
        q = flipped(rng, rng.choice(ps)) if ps and rng.random() < 0.6 else edge_path(rng)
        return (S(P, 'TopologyBuilder', regions=(), edges=m), S(P, 'geo::Edge', **{'0': q}))
    return g


def y_build(P):
    """a builder here is the number of things built so far"""
    def de(b, e):
        p = e.f[0]
        if len(p) < 2 or p[0] == p[-1] and len(p) == 2:
            return {0: opt(None), 1: b}
        k = b.f[1].d
        f = forward(p)
        key = b_edge(P, p if f else p[::-1])
        m = M(k)
        m.d.setdefault(key, len(k))
        return {0: opt(b_directed(P, m.d[key], 0 if f else 1)), 1: S(P, 'TopologyBuilder', regions=b.f[0], edges=m)}

    def edges(r):
        if r.v == 1:
            return r.f[0]
        return tuple(S(P, 'geo::Edge', **{'0': r.f[0][i:i + 2]}) for i in range(len(r.f[0]) - 1))

    def ar(r):
        return abs(sum(twice(e.f[0]) for e in edges(r)))

    def ring(b, r):
        if ar(r) == 0:
            return {0: opt(None), 1: b}
        out = []
        for e in edges(r):
            x = de(b, e)
            b = x[1]
            if x[0].v == 1:
                out.append(x[0].f[0])
        return {0: opt(S(P, TB + 'BuildRing', **{'0': tuple(out)})), 1: b}

    def rings(b, rs):
        out = []
        for r in rs:
            x = ring(b, r)
            b = x[1]
            if x[0].v == 1:
                out.append(x[0].f[0])
        return {0: tuple(out), 1: b}
    return {'@::build_directed_edge': de, '@Ring::area2': ar, '@Ring::edges': edges, '@::build_ring': ring, '@::build_rings': rings}


def pring(P, rng):
    """a ring as it may be given to a builder: closed; sometimes of no area, or with edges of no length"""
    r = rng.random()
    if r < 0.2:
        p = path(rng, 1, 3, False)
        return V(P, 'Ring', 'Points', p + p[:1])
    ps = tuple(pt(rng.randrange(0, 4), rng.randrange(0, 4)) for _ in range(rng.randrange(3, 6)))
    ps += ps[:1]
    if rng.random() < 0.2:
        k = rng.randrange(len(ps))
        ps = ps[:k] + ps[k:k + 1] + ps[k:]
    if r < 0.6:
        return V(P, 'Ring', 'Points', ps)
    es, at = [], 0
    while at < len(ps) - 1:
        k = rng.randrange(1, len(ps) - at)
        es.append(S(P, 'geo::Edge', **{'0': ps[at:at + k + 1]}))
        at += k
        if rng.random() < 0.15:
            es.append(S(P, 'geo::Edge', **{'0': (ps[at],) * rng.randrange(1, 3)}))
    return V(P, 'Ring', 'Edges', tuple(es))


def prings(P, rng, lo=0):
    return tuple(pring(P, rng) for _ in range(rng.randrange(lo, 4)))


def some_builder(P, rng):
    y = y_build(P)
    b = S(P, 'TopologyBuilder', regions=(), edges=M())
    regs = []
    for i in range(rng.randrange(0, 3)):
        x = y['@::build_rings'](b, prings(P, rng))
        b = x[1]
        if x[0]:
            z = y['@::build_rings'](b, prings(P, rng))
            b = z[1]
            regs.append(S(P, TB + 'BuildRegion', data=rng.randrange(99), outer_rings=x[0], inner_rings=z[0]))
    return S(P, 'TopologyBuilder', regions=tuple(regs), edges=b.f[1])


def g_build_ring(P):
    return lambda rng, i: (some_builder(P, rng), pring(P, rng), y_build(P))


def g_build_rings(P):
    return lambda rng, i: (some_builder(P, rng), prings(P, rng), y_build(P))


def g_build_region(P):
    return lambda rng, i: (some_builder(P, rng), S(P, 'geo::Region', data=rng.randrange(99), outer_rings=prings(P, rng), inner_rings=prings(P, rng)), y_build(P))


# ------------------------------------------------------------------ clipping a topology
def c_key(P, a, b):
    return S(P, CT + 'BuildEdge', **{'0': a, '1': b})


def new_edges(P, rng, first=None):
    d = {}
    first = rng.choice((0, 1, 2, 3, 7)) if first is None else first
    for _ in range(rng.randrange(0, 4)):
        a, b = point(rng), point(rng)
        if a != b:
            d.setdefault(c_key(P, min(a, b, key=pkey), max(a, b, key=pkey)), first + len(d))
    return S(P, 'NewEdgeSet', first_edge_id=first, edges=M(d))


def g_new_edge(P):
    def g(rng, i):
        s = new_edges(P, rng)
        if s.f[1].d and rng.random() < 0.6:
            k = rng.choice(sorted(s.f[1].d, key=repr))
            a, b = flipped(rng, (k.f[0], k.f[1]))
        else:
            a, b = point(rng), point(rng)
            if a == b:
                return None
        return (s, a, b)
    return g


def g_clip_end(P):
    return lambda rng, i: (path(rng, 1, 5), direction(rng.randrange(2)))


def y_new_edge(P, s, a, b):
    f = pkey(a) < pkey(b)
    k = c_key(P, *((a, b) if f else (b, a)))
    m = M(s.f[1].d)
    m.d.setdefault(k, s.f[0] + len(m.d))
    return {0: b_directed(P, m.d[k], 0 if f else 1, CT), 1: S(P, 'NewEdgeSet', first_edge_id=s.f[0], edges=m)}


def y_clip_ring(P, b, r):
    f = named(P, b)
    s, out, area, start, at = f['new_edges'], [], 0, None, None

    def seg(p, q):
        return p.f[0] * q.f[1] - q.f[0] * p.f[1]
    for d in r.f[0]:
        k = f['old_edge_id_finder'][d.f[0].k[1]]
        if k.v == 0:
            continue
        k = k.f[0]
        ps = f['old_edges'][k]
        ps = ps if d.f[1].v == 0 else ps[::-1]
        if start is None:
            start = ps[0]
        if at is not None and at != ps[0]:
            x = y_new_edge(P, s, at, ps[0])
            s = x[1]
            out.append(x[0])
            area += seg(at, ps[0])
        out.append(b_directed(P, k, d.f[1].v, CT))
        area += twice(ps)
        at = ps[-1]
    if start is not None and start != at:
        x = y_new_edge(P, s, at, start)
        s = x[1]
        out.append(x[0])
        area += seg(at, start)
    f['new_edges'] = s
    b2 = S(P, CT + 'Builder', **f)
    return {0: opt(None) if area == 0 else opt(S(P, CT + 'BuildRing', **{'0': tuple(out)})), 1: b2}


def y_clip_rings(P, b, rs):
    out = []
    for r in rs:
        x = y_clip_ring(P, b, r)
        b = x[1]
        if x[0].v == 1:
            out.append(x[0].f[0])
    return {0: tuple(out), 1: b}


def y_clip_region(P, b, r):
    x = y_clip_rings(P, b, r.f[1])
    b = x[1]
    if x[0]:
        z = y_clip_rings(P, b, r.f[2])
        f = named(P, z[1])
        f['regions'] = f['regions'] + (S(P, CT + 'BuildRegion', data=r.f[0], outer_rings=x[0], inner_rings=z[0]),)
        b = S(P, CT + 'Builder', **f)
    return {0: A('tuple', 0, ()), 1: b}


def named(P, x):
    return dict(zip([f[0] for f in P.adts[x.n]['variants'][0]['fields']], x.f))


def y_clip_edge(p, m):
    """some way to shorten a path that depends on the path and the mask only"""
    k = (sum(x.f[0] * 3 + x.f[1] for x in p) + m.v) % 5
    return p if k < 2 else p[:-1] if k == 2 else p[:1] if k == 3 else ()


def y_clip_new(P, t, m):
    ids, kept = [], []
    for e in t.f[1]:
        c = y_clip_edge(e.f[0], m)
        if len(c) < 2:
            ids.append(opt(None))
        else:
            ids.append(opt(len(kept)))
            kept.append(c)
    return S(P, CT + 'Builder', regions=(), old_edge_0_ptr=Ptr(('e', 0)), old_edges=tuple(kept), old_edge_id_finder=tuple(ids),
             new_edges=S(P, 'NewEdgeSet', first_edge_id=len(kept), edges=M()))


def y_clip(P):
    return {'@NewEdgeSet::build_directed_edge': lambda s, a, b: y_new_edge(P, s, a, b),
            '@::clip_ring': lambda b, r: y_clip_ring(P, b, r),
            '@::clip_rings': lambda b, r: y_clip_rings(P, b, r),
            '@clip_edge': y_clip_edge,
            '@clip::topology::Builder::<Data>::new': lambda t, m: y_clip_new(P, t, m),
            '@clip::topology::Builder::<Data>::add_region': lambda b, r: y_clip_region(P, b, r),
            '@clip::topology::Builder::<Data>::into_topology': lambda b: b}


def clip_world(P, rng):
    """a topology, and a builder some of whose edges have been shortened"""
    W, regs = topo_world(P, rng)
    keep = rng.choice((0.2, 0.6, 0.6, 0.9, 1))
    ids, kept = [], []
    for e in W.edges():
        p = e.f[0]
        if rng.random() > keep:
            a = rng.randrange(len(p))
            p = p[a:rng.randrange(a, len(p)) + 1]
        if len(p) < 2:
            ids.append(opt(None))
        else:
            ids.append(opt(len(kept)))
            kept.append(p)
    b = S(P, CT + 'Builder', regions=(), old_edge_0_ptr=Ptr(('e', 0)), old_edges=tuple(kept), old_edge_id_finder=tuple(ids),
          new_edges=new_edges(P, rng, len(kept)))
    return W, regs, b


def oracles(P, W):
    o = y_clip(P)
    o['@heap'] = W.heap
    o['@size'] = 32
    return o


def g_clip_ring(P):
    def g(rng, i):
        W, regs, b = clip_world(P, rng)
        r = rng.choice(regs)
        rs = r.f[1] + r.f[2]
        return (b, rng.choice(rs), oracles(P, W))
    return g


def g_clip_rings(P):
    def g(rng, i):
        W, regs, b = clip_world(P, rng)
        r = rng.choice(regs)
        return (b, rng.choice((r.f[1], r.f[2])), oracles(P, W))
    return g


def g_clip_region(P):
    def g(rng, i):
        W, regs, b = clip_world(P, rng)
        return (b, rng.choice(regs), oracles(P, W))
    return g


def g_clip_topology(P):
    def g(rng, i):
        W, regs = topo_world(P, rng, nreg=rng.randrange(0, 4))
        return (S(P, 'Topology', regions=regs, edges=W.edges()), mask(P, rng), oracles(P, W))
    return g


def uses(rings_of, regions):
    """how often each edge is used"""
    n = {}
    for r in regions:
        for g in rings_of(r):
            for d in g.f[0]:
                k = named_id(d)
                n[k] = n.get(k, 0) + 1
    return n


def named_id(d):
    return [x for x in d.f if isinstance(x, int)][0]


def g_build_topology(P):
    def g(rng, i):
        for _ in range(30):
            b = some_builder(P, rng)
            f = named(P, b)
            rs = f['regions']
            fs = [named(P, r) for r in rs]
            u = uses(lambda r: named(P, r)['outer_rings'] + named(P, r)['inner_rings'], rs)
            if all(v <= 2 for v in u.values()):
                return (b,)
        return None
    return g


def g_clip_result(P):
    def g(rng, i):
        W, regs, b = clip_world(P, rng)
        if rng.random() < 0.5:
            f = named(P, b)
            f['new_edges'] = S(P, 'NewEdgeSet', first_edge_id=len(f['old_edges']), edges=M())
            b = S(P, CT + 'Builder', **f)
        for r in regs:
            b = y_clip_region(P, b, r)[1]
        if rng.random() < 0.3 and named(P, b)['regions']:
            # a ring that goes along one of its edges and back
            f = named(P, b)
            rs = list(f['regions'])
            k = rng.randrange(len(rs))
            fr = named(P, rs[k])
            rings = list(fr['outer_rings'])
            j = rng.randrange(len(rings))
            ds = rings[j].f[0]
            d = rng.choice(ds)
            back = A(d.n, d.v, [x if isinstance(x, int) else A(x.n, 1 - x.v, x.f) for x in d.f])
            rings[j] = A(rings[j].n, rings[j].v, (ds + (back,),))
            fr['outer_rings'] = tuple(rings)
            rs[k] = S(P, CT + 'BuildRegion', **fr)
            f['regions'] = tuple(rs)
            b = S(P, CT + 'Builder', **f)
        u = uses(lambda r: named(P, r)['outer_rings'] + named(P, r)['inner_rings'], named(P, b)['regions'])
        if any(v > 2 for v in u.values()):
            return None
        return (b, oracles(P, W))
    return g


# ------------------------------------------------------------ simplification
def vw(ps):
    """weights on elimination of the inner points of ps; None if a choice is not determined"""
    n = len(ps)
    left = list(range(n))
    w = [None] * n
    least = 0
    while len(left) > 2:
        xs = []
        for j in range(1, len(left) - 1):
            (ax, ay), (bx, by), (cx, cy) = ps[left[j - 1]], ps[left[j]], ps[left[j + 1]]
            xs.append((max(least, abs((bx - ax) * (cy - ay) - (cx - ax) * (by - ay))), j))
        xs.sort()
        if len(xs) > 1 and xs[0][0] == xs[1][0] and not (len(xs) == 2 and ps[0] == ps[-1]):
            return None     # a tie: either may go first (of the last two of a ring, both weigh the same)
        least, j = xs[0]
        w[left[j]] = least
        del left[j]
    return w


def g_simp(P, most=11, ties=False):
    def pt(p):
        return S(P, 'geo::Point', **{'0': p[0], '1': p[1]})

    def g(rng, i):
        for _ in range(200):
            n = rng.choice((2, 3, 4, 4, 5, 5, 6, 6, 7, 7, 7, 7, 8, 8, 8, 9, 10, most))
            if i < 40:
                n = min(n, 3 + i // 3)
            hi = rng.choice((6, 30, 1000, 2 ** 32 - 1))
            ps = [(rng.randint(0, hi), rng.randint(0, hi)) for _ in range(n)]
            if n > 2 and rng.random() < 0.45:
                ps[-1] = ps[0]
            if hi > 10 ** 6 and rng.random() < 0.5:
                ps = [(rng.choice((0, hi, x)), rng.choice((0, hi, y))) for x, y in ps[:-1]] + ps[-1:]
            ring = ps[0] == ps[-1]
            if n < 3 or (ring and n < 4):
                return (tuple(pt(p) for p in ps), rng.choice((0, 1, 5, 1000)))
            w = vw(ps)
            if w is None and not ties:
                continue
            if w is None:
                return (tuple(pt(p) for p in ps), rng.choice((0, 1, 10, 200, 2 ** 40, 2 ** 64 - 1)))
            k = sorted(set(w[1:-1]))
            if ring:
                z = sorted(w[1:-1])
                if len(z) > 2 and z[-2] == z[-3]:
                    continue
            x = rng.choice(k)
            return (tuple(pt(p) for p in ps), min(2 ** 64 - 1, max(0, rng.choice((x, x, x - 1, x + 1, 0, 2 * x, x // 2, 2 ** 64 - 1)))))
        return None
    return g


def g_simp_ties(P):
    return g_simp(P, ties=True)


def g_simp_area2(P):
    def g(rng, i):
        hi = rng.choice((3, 1000, 2 ** 31, 2 ** 32 - 1))
        c = lambda: rng.choice((0, hi, rng.randint(0, hi)))
        return tuple(S(P, 'geo::Point', **{'0': c(), '1': c()}) for _ in range(3))
    return g


def g_simplify(P):
    def g(rng, i):
        W, regs = topo_world(P, rng)
        t = rng.choice((0, 1, 7, 2 ** 64 - 1))

        def cut(ps, t):
            return tuple(ps[:1]) + tuple(p for j, p in enumerate(ps[1:-1]) if (j + t) % 2) + tuple(ps[-1:])
        return (S(P, 'Topology', regions=regs, edges=W.edges()), t, {'@simplify_edge': cut})
    return g


def k_shape(P):
    """a simplified edge: a subsequence with the same ends; a closed one keeps four points"""
    def k(inp, out):
        ps = inp[0]
        if not isinstance(out, tuple):
            return None
        n, m = len(ps), len(out)
        ring = n > 0 and ps[0] == ps[-1]
        if n < 3 or (ring and n < 4):
            return None if out == ps else 'must be unchanged'
        if m < 2 or out[0] != ps[0] or out[-1] != ps[-1]:
            return 'must keep both ends'
        if ring and m < 4:
            return 'a closed edge must keep four points'
        i = 0
        for p in ps:
            if i < m and p == out[i]:
                i += 1
        return None if i == m else 'must be a subsequence of the points'
    return k
