"""C19: vectors, rotations and IDs."""
import math
import struct
import uuid

from hypothesis import strategies as st

from ..common import require
from ..core import Part
from ..vals import b, comps, f, f32, num, same

RULE = ('A case is one vector or rotation (from components or from bytes at an offset), two points, one text to parse, or a '
        'handful of related IDs. Non-trivial: a component is neither zero nor one, the text is not plain, or an ID is '
        'neither null nor textbook; distinct by content.')
ASSUMPTIONS = ['a rotation buffer has exactly 12, or at least 16, bytes from its offset',
               'no unbalanced or inner brackets, hexadecimal numbers or float suffixes in texts to parse',
               'text forms carry at least 11 significant digits']

EDGE = [0.0, -0.0, 1.0, -1.0, 0.5, 0.1, -0.3333333333333333, 1e-3, 255.99999, 256.0, 4096.5, 16777217.0, 123456789.123, 3.4028234e38,
        3.5e38, -3.5e38, 1e300, 1e-40, 1e-46, 5e-324, 1.1754944e-38, math.inf, -math.inf, math.nan, 0.70710678, 1e16, 1e15, 123456.7890123]
SMALL = st.floats(-1.2, 1.2)
FLOAT = st.one_of(st.sampled_from(EDGE), SMALL, st.floats(-1000, 1000), st.floats(width=32), st.floats())
F32 = st.one_of(st.sampled_from([f32(x) for x in EDGE]), st.floats(-1.25, 1.25, width=32), st.floats(width=32))
NUMBER = st.one_of(FLOAT.map(f), FLOAT.map(f), st.integers(-2**31, 2**32).map(lambda n: {'i': str(n)}),
                   st.sampled_from([{'L': '5'}, True, {'i': '0'}, {'i': '16777217'}]))


@st.composite
def numerics(draw):
    t = draw(st.sampled_from('VQ'))
    n = 3 if t == 'V' else 4
    if draw(st.booleans()):
        el = NUMBER
        if draw(st.integers(0, 7)) == 0:
            el = draw(st.sampled_from([st.sampled_from([f(0.0), f(-0.0), {'i': '0'}]), st.just(draw(NUMBER))]))
        cs = [draw(el) for _ in range(n)]
        return {'what': 'numeric', 'type': t, 'comps': cs}
    off = draw(st.one_of(st.sampled_from(['default', 0, 1, 3, 12, 'default', 0, 1, 3, 12, 253, 256, 1000, 65536]), st.integers(0, 60)))
    pre = b''
    if off != 'default':
        pre = draw(st.binary(min_size=min(off, 60), max_size=min(off, 60))) + b'\x41' * max(0, off - 60)
    twelve = t == 'Q' and draw(st.booleans())
    el = st.floats(-0.75, 0.75, width=32) if twelve and draw(st.booleans()) else F32
    if draw(st.integers(0, 7)) == 0:
        # all alike, or nothing but zeros of either sign
        el = draw(st.sampled_from([st.sampled_from([0.0, -0.0]), st.just(draw(F32))]))
    cs = [draw(el) for _ in range(3 if twelve else n)]
    if twelve and draw(st.integers(0, 2)) == 0:
        # nearly a half turn: the real part is small
        d = [draw(st.floats(-1, 1)) for _ in range(3)]
        size = math.sqrt(sum(x * x for x in d)) or 1.0
        k = math.sqrt(1 - 10.0 ** -draw(st.floats(2, 9))) / size
        cs = [f32(x * k) for x in d]
    post = b'' if twelve else draw(st.one_of(st.just(b''), st.binary(max_size=20)))
    c = {'what': 'numeric', 'type': t, 'bytes': (pre + struct.pack('<%df' % len(cs), *cs) + post).hex(), 'offset': off,
         'vals': [f(x) for x in cs], 'kw': draw(st.booleans())}
    if not twelve and t == 'Q' and draw(st.integers(0, 3)) == 0:
        c['length'] = 4
    return c


def close(x, y, rel=1e-11):
    return same(x, y) or (math.isfinite(x) and math.isfinite(y) and abs(x - y) <= rel * abs(y) + 5e-324)


def fdec(j):
    return num(j)


def parse_text(s):
    return [float(p) for p in s.strip('<>()').split(',')]


def form(fo, want, rot, what, tol=None):
    """All forms of one value agree with its components."""
    eq = (lambda x, y: close(x, y, tol)) if tol else same
    for k in ('data', 'call'):
        got = comps(fo[k])
        require(got is not None and len(got) == len(want) and all(eq(x, y) for x, y in zip(got, want)),
                '%s: %s form %s, not %s', what, k, fo[k], want)
        require('t' in fo[k], '%s: the %s form is no tuple', what, k)
    full = comps(fo['data'])
    for k in ('repr', 'str'):
        try:
            got = parse_text(fo[k])
        except ValueError:
            got = None
        require(got is not None and len(got) == len(want) and all(close(x, y, 2e-11) for x, y in zip(got, full)),
                '%s: text %r, not %s', what, fo[k], full)
    raw = struct.pack('<%df' % len(full), *map(f32, full))
    require(fo['btype'], '%s: bytes are no string', what)
    got = bytes.fromhex(fo['bytes'])
    require(len(got) == len(raw), '%s: %d bytes', what, len(got))
    for i, x in enumerate(full):
        g, w = got[4 * i:4 * i + 4], raw[4 * i:4 * i + 4]
        require(g == w or (x != x and struct.unpack('<f', g)[0] != struct.unpack('<f', g)[0]),
                '%s: bytes %s, not %s', what, got.hex(), raw.hex())
    return full


def check_numeric(case, ctx):
    r = ctx.call('datatypes', **case)
    rot = case['type'] == 'Q'
    ls = {'rotation' if rot else 'vector'}
    if 'bytes' in case:
        want = [fdec(x) for x in case['vals']]
        ls.add('from bytes' if case['offset'] in (0, 'default') else 'from bytes at an offset')
    else:
        want = [float(fdec(x)) for x in case['comps']]
        ls.add('from numbers')
    got = comps(r['forms']['data'])
    require(got is not None and len(got) == (4 if rot else 3), '%s gave %s', case, r['forms'])
    if rot and len(want) == 3:
        t = 1.0 - sum(x * x for x in want)
        w = math.sqrt(t) if t > 0 else 0.0
        # the real part is only determined up to rounding of 1 - x^2 - y^2 - z^2
        require(got[3] == got[3] and got[3] >= 0 and (abs(got[3] - w) <= 1e-7 or (abs(t) < 1e-12 and got[3] < 1e-5)),
                'the real part of the 12-byte rotation %s became %s, not %s', want, got[3], w)
        want = want + [got[3]]
        ls.add('12 bytes, normalisable' if t > 0 else '12 bytes, not normalisable')
    full = form(r['forms'], want, rot, case['type'])
    require(all(same(fdec(x), y) for x, y in zip(r['attrs'], full)), 'the attributes %s are not %s', r['attrs'], full)
    # to the last bit, the sign of zero included
    raw, was = bytes.fromhex(r['forms']['bytes']), struct.pack('<%df' % len(want), *map(f32, want))
    for i in range(0, 12 if rot and len(case.get('vals', ())) == 3 else len(was), 4):
        require(raw[i:i + 4] == was[i:i + 4] or want[i // 4] != want[i // 4], 'made from %s, its bytes are %s', was.hex(), raw.hex())
    form(r['copy'], full, rot, 'copy')
    require(r['cls'] and not r['same'], 'a copy is another object of the same type: %s', r)
    form(r['after'], full, rot, 'original after changing its copy')
    form(r['independent'], full, rot, 'original after changing another object')
    form(r['back'], [f32(x) for x in full], rot, 'read back from bytes')
    if not rot:
        form(r['parsed'], full, rot, 'parsed from its text', 2e-11)
        form(r['unbracketed'], full, rot, 'parsed without brackets', 2e-11)
    if any(x != x for x in full):
        ls.add('NaN')
    if any(abs(x) == math.inf for x in full):
        ls.add('infinite')
    elif any(abs(f32(x)) == math.inf for x in full):
        ls.add('overflows 32 bits')
    return any(x not in (0.0, 1.0) for x in full), ls


FIN = st.one_of(st.sampled_from([x for x in EDGE if math.isfinite(x)]), st.floats(-1000, 1000), st.integers(-20, 20).map(float),
                st.floats(allow_nan=False, allow_infinity=False))


@st.composite
def dists(draw):
    p = [draw(FIN) for _ in range(3)]
    how = draw(st.integers(0, 4))
    q = list(p) if how == 0 else [draw(FIN) for _ in range(3)]
    if how == 1:
        q = list(p)
        q[draw(st.integers(0, 2))] = draw(FIN)
    return {'what': 'dist', 'p': [f(x) for x in p], 'q': [f(x) for x in q]}


def check_dist(case, ctx):
    r = ctx.call('datatypes', **case)
    p, q = [[num(x) for x in case[k]] for k in 'pq']
    a, c, z = num(r['pq']), num(r['qp']), num(r['pp'])
    require(z == 0.0, 'the distance of %s to its copy is %s', p, z)
    require(same(a, c), 'squared distance %s one way, %s the other', a, c)
    require(a >= 0, 'squared distance %s of %s and %s', a, p, q)
    if p == q:
        require(a == 0, 'equal vectors at squared distance %s', a)

    def sq(x):
        return x * x if abs(x) < 1e160 else math.inf
    w = sum(sq(x - y) for x, y in zip(p, q))
    require(same(a, w) or close(a, w, 1e-9) or (w > 1e307 and a > 1e307), 'squared distance of %s and %s is %s, not %s', p, q, a, w)
    require(comps(r['p']) == p and comps(r['q']) == q, 'measuring changed the vectors: %s', r)
    return p != q, {'equal' if p == q else 'different'}


NUMTEXT = st.one_of(FLOAT.filter(math.isfinite).map(repr), st.integers(-10**6, 10**20).map(str),
                    st.sampled_from(['0', '-0', '+1', '.5', '5.', '1e5', '1E-3', '-2.5e+10', 'inf', '-inf', 'nan', '007', '1e400', '00.10']))
BADTEXT = st.one_of(st.sampled_from(['', 'abc', '1 2', '--1', '1.2.3', 'e5', '1e', 'x1', '1x', '+', '.', 'None', '1;2', '1-2', '(1', '#', '1/2', 'true', "'1'",
                                     '1.0.', '- 1', '1 .0', '++1', '+-1', '-+1', '1e+', '1e1.5', '1_0', '1L', '1j', '1%', '$1', '"1"', '[1', '1)', '+.', '-e1', 'infi', 'na', '1\\']),
                    st.text('abcxyz;:/!', min_size=1, max_size=4))
SPACE = st.sampled_from(['', '', ' ', '  ', '\t', '\n'])


@st.composite
def parses(draw):
    n = draw(st.sampled_from([3, 3, 3, 3, 0, 1, 2, 4, 5]))
    toks = [draw(NUMTEXT) for _ in range(n)]
    if n and draw(st.integers(0, 3)) == 0:
        toks[draw(st.integers(0, n - 1))] = draw(BADTEXT)
    sep = draw(st.sampled_from([',', ',', ',', ', ', ';', ' '])) if draw(st.integers(0, 5)) == 0 else ','
    body = sep.join(draw(SPACE) + t + draw(SPACE) for t in toks)
    br = draw(st.booleans())
    s = '<' + body + '>' if br else body
    return {'what': 'parse', 'text': {'u': s} if draw(st.integers(0, 3)) == 0 else b(s.encode())}


def check_parse(case, ctx):
    s = list(case['text'].values())[0]
    body = s[1:-1] if s.startswith('<') else s
    want = None
    parts = body.split(',')
    if len(parts) == 3:
        try:
            # the underscores are this Python's only
            want = [float(p.strip().replace('_', 'x')) for p in parts]
        except ValueError:
            want = None
    r = ctx.call('datatypes', **case)
    if want is None:
        require(r.get('value') is True, '%r became %s, not a ValueError', s, r)
        return True, {'refused: %s parts' % min(len(parts), 5)}
    got = comps(r.get('ok'))
    require(got is not None and len(got) == 3 and all(same(x, y) for x, y in zip(got, want)), '%r became %s, not %s', s, r, want)
    require(r['cls'] == 'Vector3', '%r became a %s', s, r['cls'])
    return True, {'accepted'}


UB = st.one_of(st.binary(min_size=16, max_size=16), st.sampled_from([bytes(16), b'\xff' * 16, bytes(range(16)), bytes(15) + b'\x01', b'\x80' + bytes(15)]))


@st.composite
def ids(draw):
    pool = draw(st.lists(UB, min_size=1, max_size=3))
    if draw(st.booleans()):
        x = bytearray(pool[0])
        x[draw(st.integers(0, 15))] ^= 1 << draw(st.integers(0, 7))
        pool.append(bytes(x))
    out = []
    for _ in range(draw(st.integers(1, 4))):
        v = draw(st.sampled_from(pool))
        how = draw(st.integers(0, 3))
        if v == bytes(16) and how == 0:
            out.append({'null': 1, 'want': v.hex()})
        elif how == 3:
            n = draw(st.one_of(st.integers(1, 40), st.sampled_from([1, 2, 16, 255, 256, 1000, 65536])))
            out.append({'bytes': (draw(st.binary(min_size=min(n, 40), max_size=min(n, 40))) + bytes(max(0, n - 40)) + v + draw(st.binary(max_size=5))).hex(), 'offset': n, 'want': v.hex()})
        elif how == 2:
            out.append({'bytes': v.hex() + draw(st.sampled_from(['', '00', 'ff' * 16])) if draw(st.booleans()) else v.hex(), 'want': v.hex(), 'offset': 0})
            if out[-1]['bytes'] != v.hex():
                out[-1]['offset'] = 0
        else:
            s = str(uuid.UUID(bytes=v))
            out.append({'str': draw(st.sampled_from([s, s, s.upper(), s.replace('-', ''), '{%s}' % s, 'urn:uuid:' + s])), 'kw': draw(st.booleans()), 'want': v.hex()})
    return {'what': 'ids', 'ids': out}


def idform(fo, want, what):
    s = str(uuid.UUID(bytes=want))
    require(fo == {'str': s, 'repr': s, 'bytes': want.hex(), 'btype': True, 'data': s, 'call': s}, '%s: %s, not %s', what, fo, s)


def xor(a, c):
    return bytes(x ^ y for x, y in zip(a, c))


def check_ids(case, ctx):
    r = ctx.call('datatypes', what='ids', ids=[{k: v for k, v in j.items() if k != 'want'} for j in case['ids']])
    ws = [bytes.fromhex(j['want']) for j in case['ids']]
    n = len(ws)
    ls = set()
    for i in range(n):
        idform(r['forms'][i], ws[i], 'ID %s' % case['ids'][i])
        for j in range(n):
            e = ws[i] == ws[j]
            require(r['eq'][i][j] is e and r['ne'][i][j] is (not e), '%s == %s is %s, != is %s', ws[i].hex(), ws[j].hex(), r['eq'][i][j], r['ne'][i][j])
            require(r['hash'][i][j] or not e, 'equal IDs hash differently')
            idform(r['xor'][i][j], xor(ws[i], ws[j]), 'xor of %s and %s' % (ws[i].hex(), ws[j].hex()))
            ls.add('equal' if e else 'different')
        idform(r['xornull'][i], ws[i], 'xor with null')
        idform(r['copies'][i], ws[i], 'copy')
        require(r['copyeq'][i], 'a copy is an equal, distinct object with an equal hash')
        idform(r['after'][i], ws[i], 'original after changing its copy')
    require(r['distinct'] == len(set(ws)), '%d distinct IDs made %d dictionary keys', len(set(ws)), r['distinct'])
    require(r['xorcls'] == 'UUID', 'an xor is a %s', r['xorcls'])
    for e, ne in r['others']:
        require(e is False and ne is True, 'compared with something else: == %s, != %s', e, ne)
    for w, (fo, ret, second) in zip(ws, r['random']):
        if w == bytes(16):
            require(fo['str'] == ret and fo['bytes'] != bytes(16).hex() and second, 'randomising a null ID: %s, returned %s', fo, ret)
            idform(fo, bytes.fromhex(fo['bytes']), 'random ID')
            ls.add('randomised')
        else:
            idform(fo, w, 'a set ID after asking for a random one')
    idform(r['null'], bytes(16), 'the null ID')
    idform(r['fresh'], bytes(16), 'a new ID')
    return any(w != bytes(16) for w in ws), ls


PARTS = [Part('numeric', check_numeric, numerics, quick=4000, thorough=150000),
         Part('dist', check_dist, dists, quick=1500, thorough=40000),
         Part('parse', check_parse, parses, quick=2500, thorough=80000),
         Part('ids', check_ids, ids, quick=2000, thorough=60000)]
