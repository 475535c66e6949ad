"""C20: numeric and text helpers."""
import base64
import binascii
import math
import struct
from fractions import Fraction

from hypothesis import strategies as st

from ..common import require
from ..core import Part
from ..vals import b, comps, f, num, same

RULE = ('A case is one byte string, one hex text, one integer, one dequantisation (a range, an offset and some codes), one '
        'rotation, or one timed wait under a virtual clock. Non-trivial: the input is not empty, zero or an even split of a '
        'symmetric range; distinct by content.')
ASSUMPTIONS = ['ranges are finite with lower <= upper and clocks never go backwards',
               'a dequantised value exactly one step from zero may be either kept or zero unless the arithmetic is exact',
               'sums of range and code are judged to 1e-9 of the range (rounding)']

BYTES = st.one_of(st.binary(max_size=40), st.sampled_from([b'', b'\0', bytes(range(256)), b'\x0f\xf0', b'\n', b'\xff' * 60, bytes(300), bytes(range(256)) * 20, b'\x80\0' * 33000]))


def check_hex(case, ctx):
    r = ctx.call('helpers', **case)
    data = bytes.fromhex(case['data'])
    pairs = r['hex'].split()
    require(''.join(pairs).lower() == data.hex(), 'the hex of %s is %r', data.hex(), r['hex'])
    for k in ('plain', 'back', 'upper'):
        require(r[k] == data.hex(), 'the hex text of %s decodes to %s (%s)', data.hex(), r[k], k)
    require(base64.b64decode(r['b64'].strip(), validate=True) == data, 'the base64 of %s is %r', data.hex(), r['b64'])
    require(r['uu'] is None or binascii.a2b_uu(bytes.fromhex(r['uu'])) == data, 'the uuencoding of %s is %s', data.hex(), r['uu'])
    return bool(data), {'%s bytes' % ('0' if not data else '1-99' if len(data) < 100 else '100-1000' if len(data) < 1000 else '1000+')}


HEXISH = st.one_of(st.text('0123456789abcdefABCDEF', max_size=12), st.text('0123456789abcdefABCDEF', min_size=100, max_size=300),
                   st.text('0123456789abcdefABCDEFgGxX -:\n\t\0z', max_size=10),
                   st.sampled_from(['', '0', 'g0', '0g', '0x00', '00 11', 'zz', '\xff\xff', '-1', '+1', ' 1', '1 ', 'a\n', '0123456789abcdef0', '@@', '``', '//', '::']),
                   st.tuples(st.text('0123456789abcdef', max_size=8).map(lambda s: s[:len(s) // 2 * 2]), st.characters(max_codepoint=255)).map(lambda t: t[0] + t[1] + '0'))


def check_unhex(case, ctx):
    r = ctx.call('helpers', **case)
    t = case['text']
    good = len(t) % 2 == 0 and all(c in '0123456789abcdefABCDEF' for c in t)
    if good:
        require(r.get('ok') == t.lower(), 'hex %r decodes to %s', t, r)
    else:
        require(r.get('right') is True, 'bad hex %r gave %s, not a DataParsingError', t, r)
    return bool(t), {'good hex' if good else 'bad hex: odd length' if len(t) % 2 else 'bad hex: no digit'}


INTS = st.one_of(st.integers(-2**31, 2**32 - 1), st.integers(-300, 70000),
                 st.sampled_from([0, 1, -1, 255, 256, -256, 65535, 65536, 2**24, 2**31 - 1, 2**31, -2**31, 2**32 - 1, 0x01020304, 0x80000000, 0xff00ff00]))


def check_int(case, ctx):
    r = ctx.call('helpers', **case)
    n = num(case['n'])
    want = struct.pack('<I', n & 0xffffffff).hex()
    require(r == {'bytes': want, 'str': True}, 'the integer %d became %s, not %s', n, r, want)
    return n != 0, {'negative' if n < 0 else 'above 2^31' if n >= 2**31 else 'non-negative'}


BOUND = st.one_of(st.sampled_from([-1.0, 0.0, 1.0, -128.0, 128.0, 256.0, -256.0, 255.0, -64.0, 64.0, 0.1, -0.001, 0.001, -1e-9, 1e-9, 1e30, -1e30, 4096.0]),
                  st.floats(-300, 300), st.floats(-1e6, 1e6).map(lambda x: round(x, 3)), st.floats(-1e35, 1e35))


@st.composite
def ranges(draw):
    how = draw(st.integers(0, 5))
    if how == 0:
        lo, hi = 0.0, 2.0 ** draw(st.integers(-20, 20))
    elif how == 1:
        hi = draw(BOUND.filter(lambda x: x > 0))
        lo = -hi
    else:
        lo, hi = sorted([draw(BOUND), draw(BOUND)])
    if draw(st.integers(0, 7)) == 0:
        lo, hi = float(math.floor(lo)), float(math.ceil(hi))
        if abs(lo) < 1e6 and abs(hi) < 1e6:
            return {'i': str(int(lo))}, {'i': str(int(hi))}
    return f(lo), f(hi)


@st.composite
def unpacks(draw):
    bits = draw(st.sampled_from([8, 16]))
    m = 2 ** bits - 1
    lo, hi = draw(ranges())
    l, h = num(lo), num(hi)
    codes = set(draw(st.lists(st.integers(0, m), max_size=12))) | {0, m, 1, m - 1, m // 2, m // 2 + 1}
    if h > l:
        z = int(-l / (h - l) * m) if abs(l / (h - l)) < 1e6 else 0
        codes |= {min(m, max(0, z + d)) for d in (-3, -2, -1, 0, 1, 2, 3)}
    return {'what': 'unpack', 'bits': bits, 'lo': lo, 'hi': hi, 'codes': sorted(codes), 'pre': draw(st.one_of(st.integers(0, 20), st.integers(0, 20), st.sampled_from([255, 256, 300, 1000, 65536]))), 'post': draw(st.integers(0, 4))}


def check_unpack(case, ctx):
    full = case['codes'] == 'all'
    if full:
        case = dict(case, codes=list(range(2 ** case['bits'])))
    r = ctx.call('helpers', **case)
    m = 2 ** case['bits'] - 1
    lo, hi = Fraction(num(case['lo'])), Fraction(num(case['hi']))
    exact = lo == 0 and num(case['hi']) > 0 and math.frexp(num(case['hi']))[0] == 0.5
    step = (hi - lo) / m
    eps = Fraction(1, 10**9) * step + Fraction(1, 10**14) * (abs(lo) + abs(hi))
    flo, fhi, fstep, feps = float(lo), float(hi), float(step), float(eps)
    prev, ls = None, set()
    for c, j in zip(case['codes'], r):
        v = num(j)
        require(isinstance(j, dict) and 'f' in j, 'code %d of %s..%s became %s', c, flo, fhi, j)
        ideal = flo + c * (fhi - flo) / m if full else float(lo + c * step)
        near = abs(ideal)
        if near < fstep - feps:
            require(v == 0, 'code %d in %s..%s is %s, within one step of zero (%s)', c, flo, fhi, v, fstep)
            ls.add('snapped to zero')
        else:
            ok = abs(v - ideal) <= feps
            if near <= fstep + feps and v == 0 and not (exact and c == 1):
                ok = True
            require(ok, 'code %d in %s..%s is %s, not %s', c, flo, fhi, v, ideal)
            if v != 0 or not flo <= 0 <= fhi:
                require(flo - feps <= v <= fhi + feps or v == 0, 'code %d is %s, outside %s..%s', c, v, flo, fhi)
            ls.add('kept')
        if prev is not None:
            require(v >= prev - feps,
                    'code %d is %s, below the %s of a smaller code, in %s..%s', c, v, prev, flo, fhi)
        prev = v
    ls.add('%d bits' % case['bits'])
    ls.add('offset 0' if not case['pre'] else 'offset')
    return lo != -hi or full, ls


def sweeps(tier):
    rs = [(-1.0, 1.0), (0.0, 1.0), (-256.0, 512.0), (0.1, 3.7), (-64.0, 64.0), (-5.0, -1.0)]
    if tier == 'thorough':
        rs += [(-x, y) for x in (0.3, 1.0, 127.0, 1e9) for y in (0.3, 2.0, 128.0, 1e12)] + [(x / 7.0 - 3, x / 3.0 + 1) for x in range(30)]
    return [{'what': 'unpack', 'bits': w, 'lo': f(lo), 'hi': f(hi), 'codes': 'all', 'pre': i, 'post': i % 2}
            for i, (lo, hi) in enumerate(rs) for w in (8, 16)]


COMP = st.one_of(st.sampled_from([0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 1e-30, -1e-30, 5e-324, -5e-324, 0.7071067811865476]), st.floats(-1, 1), st.floats(allow_nan=False))


@st.composite
def quats(draw):
    q = [f(draw(COMP)) for _ in range(4)]
    if draw(st.integers(0, 5)) == 0:
        q = [{'i': str(draw(st.integers(-3, 3)))} for _ in range(4)]
    return {'what': 'quat', 'q': q, 'list': draw(st.booleans())}


def check_quat(case, ctx):
    r = ctx.call('helpers', **case)
    q = [num(x) for x in case['q']]
    want = [-x for x in q[:3]] if q[3] < 0 else q[:3]
    got = comps(r)
    require(got is not None and len(got) == 3 and all(same(x, y) for x, y in zip(got, want)), 'the rotation %s packs to %s, not %s', q, r, want)
    return any(q[:3]), {'flipped' if q[3] < 0 else 'kept'}


STEP = st.one_of(st.sampled_from([0.0, 0.25, 0.5, 1.0, 0.999, 1.001, 3.0, 1e-3, 0.9999999]), st.floats(0, 4), st.integers(0, 3).map(float))


@st.composite
def waits(draw):
    d = draw(st.one_of(st.integers(-1, 12).map(lambda n: {'i': str(n)}), st.floats(-2, 12).map(f), st.sampled_from([f(0.99), f(1.0), f(2.999), f(0.0)])))
    steps = draw(st.lists(STEP, min_size=1, max_size=6))
    if sum(steps) < 0.3:
        steps.append(0.5)
    c = {'duration': d, 't0': f(draw(st.sampled_from([0.0, 1e9, 1273000000.5, 1500000000.25, 17.0]))), 'steps': [f(x) for x in steps]}
    if draw(st.integers(0, 2)) == 0:
        c['stop'] = draw(st.integers(1, 8))
    if draw(st.integers(0, 2)) == 0:
        c['asserts'] = draw(st.lists(st.integers(1, 8), max_size=3, unique=True))
    return c


def check_wait(case, ctx):
    r = ctx.call('wait', **case)
    require('exc' not in r and not r.get('forever'), 'waiting gave %s', r)
    d = int(num(case['duration']))
    require(r['ret'] is True, 'waiting returned %s', r['ret'])
    t0 = num(case['t0'])
    t, k, steps = t0, 0, [num(x) for x in case['steps']]
    times = [0.0]
    while not (t - t0 >= d and (k == 0 or k not in case.get('asserts', []))):
        t += steps[k % len(steps)]
        k += 1
        times.append(t - t0)
    stop = case.get('stop')
    n = r['sleeps']
    last = k if stop is None else min(k, stop)
    require(n <= last, 'waiting %s yielded %d times: its time was up after %d', case['duration'], n, last)
    stopped = stop is not None and n >= stop
    if not stopped:
        require(num(r['elapsed']) >= d, 'waiting %s ended after %s seconds', d, num(r['elapsed']))
    return d > 0, {'stopped' if stopped else 'ran its time', 'interrupted' if case.get('asserts') else 'undisturbed'}


PARTS = [Part('hex', check_hex, lambda: st.fixed_dictionaries({'what': st.just('hex'), 'data': BYTES.map(bytes.hex)}), quick=1200, thorough=30000),
         Part('unhex', check_unhex, lambda: st.fixed_dictionaries({'what': st.just('unhex'), 'text': HEXISH}), quick=2000, thorough=50000),
         Part('int', check_int, lambda: st.fixed_dictionaries({'what': st.just('int'), 'n': INTS.map(lambda n: {'i': str(n)})}), quick=1500, thorough=50000),
         Part('unpack', check_unpack, unpacks, quick=2500, thorough=80000),
         Part('sweep', check_unpack, cases=sweeps),
         Part('quat', check_quat, quats, quick=1000, thorough=30000),
         Part('wait', check_wait, waits, quick=1500, thorough=50000)]
