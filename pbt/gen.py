"""Hypothesis strategies: field values, messages of a template, whole templates, datagrams."""
import struct
import uuid

from hypothesis import strategies as st

from . import template, vals
from .wire import INT

FLT_MAX = struct.unpack('<f', b'\xff\xff\x7f\x7f')[0]


def weighted(*pairs):
    """one_of with integer weights"""
    bag = []
    for w, s in pairs:
        bag += [s] * w
    return st.sampled_from(range(len(bag))).flatmap(lambda i: bag[i])


def ints(lo, hi):
    edge = sorted({lo, lo + 1, -1, 0, 1, 2, 127, 128, 255, 256, 0x7fff, 0x8000, 0xffff, 0x10000, 2**31 - 1, 2**31,
                   2**32 - 1, 2**32, 2**63 - 1, 2**63, hi - 1, hi,
                   0x01020304, 0x0102, 0x0102030405060708, 256 * 3} & set(range(lo, hi + 1))
                  if hi - lo < 70000 else
                  {x for x in (lo, lo + 1, -1, 0, 1, 2, 127, 128, 255, 256, 0x7fff, 0x8000, 0xffff, 0x10000,
                               2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**63 - 1, 2**63, hi - 1, hi, 0x01020304,
                               0x0102030405060708) if lo <= x <= hi})
    return st.one_of(st.sampled_from(edge), st.integers(lo, hi))


F32S = st.one_of(st.sampled_from([0.0, -0.0, 1.0, -1.0, 0.5, 1.5, 256.0, FLT_MAX, -FLT_MAX, 1e-45, float('inf'),
                                  float('-inf'), float('nan'), 1.17549435e-38, 3.14159274]),
                 st.floats(width=32), st.floats(-FLT_MAX, FLT_MAX))
F32FIN = st.one_of(st.sampled_from([0.0, 1.0, -1.0, 0.5, 128.25, -0.70710678]), st.floats(-1, 1, width=32),
                   st.floats(-FLT_MAX, FLT_MAX, width=32))
F64S = st.one_of(st.sampled_from([0.0, -0.0, 1.0, -1.5, 1e308, -1e308, 5e-324, float('inf'), float('nan'), 0.1]),
                 st.floats())
UUIDS = st.one_of(st.just('0' * 32), st.just('f' * 32), st.just('00112233445566778899aabbccddeeff'),
                  st.binary(min_size=16, max_size=16).map(lambda b: b.hex()))


def byts(n):
    return st.one_of(st.just(bytes(range(1, 256))[:n].ljust(n, b'\x01') if n <= 255 else b'\x05' * n),
                     st.just(b'\0' * n), st.just(b'\xff' * n), st.binary(min_size=n, max_size=n))


BYTE = st.one_of(st.sampled_from([0, 1, 0x0a, 0x41, 0x7f, 0x80, 0xff]), st.integers(0, 255))
TEXTCH = st.one_of(st.sampled_from('a <&\u00e9\u20ac\U0001f600\0'), st.characters(blacklist_categories=('Cs',)))


def small_bytes(maxlen):
    return st.one_of(st.binary(max_size=min(maxlen, 12)),
                     st.lists(BYTE, max_size=min(maxlen, 12)).map(bytes),
                     st.sampled_from([b'', b'\0', b'abc\0', b'a\0b', b'\0\0x\0\0', b'<llsd/>', b'\xff\xfe\xfd'])
                     .map(lambda b: b[:maxlen]))


@st.composite
def var_value(draw, field):
    """A value for a Variable field: bytes, text or unset, of a length its prefix can carry (terminator included)."""
    limit = min(2 ** (8 * field.size) - 1, 70000)
    room = limit if field.name == 'Data' else limit - 1
    kind = draw(st.sampled_from('bbbbuuLnx'))
    if kind == 'b':
        return vals.b(draw(small_bytes(room)))
    if kind == 'u':
        t = draw(st.text(TEXTCH, max_size=8))
        return {'u': t}
    if kind == 'n':
        return None
    if kind == 'x':
        n = draw(st.integers(0, min(room, 300)))
    else:
        n = draw(st.sampled_from([k for k in (room, room - 1, 253, 254, 255, 256, 257, 511, 512, 1000, 65534, 65535)
                                  if 0 <= k <= room and (k <= 2000 or field.size < 4)]))
        if n > 2000 and draw(st.integers(0, 3)):
            n = draw(st.integers(0, 600)) % (room + 1)
    c = draw(st.integers(0, 255))
    step = draw(st.integers(0, 3))
    return vals.b(bytes((c + step * i) % 256 for i in range(n)))


@st.composite
def value(draw, field):
    t = field.type
    if t in INT:
        _, lo, hi = INT[t]
        if t == 'BOOL':
            return draw(st.sampled_from([0, 1, False, True, 255, 2]))
        v = draw(ints(lo, hi))
        return {'L': str(v)} if draw(st.integers(0, 9)) == 0 else v
    if t == 'F32':
        return draw(st.one_of(F32S.map(vals.f), st.integers(-1000, 1000)))
    if t == 'F64':
        return draw(F64S.map(vals.f))
    if t == 'LLVector3':
        c = [vals.f(x) for x in draw(st.tuples(F32S, F32S, F32S))]
        return {'V3': [x['f'] for x in c]} if draw(st.booleans()) else {'t': c}
    if t == 'LLVector3d':
        return {'t': [vals.f(x) for x in draw(st.tuples(F64S, F64S, F64S))]}
    if t == 'LLVector4':
        return {'t': [vals.f(x) for x in draw(st.tuples(F32S, F32S, F32S, F32S))]}
    if t == 'LLQuaternion':
        c = draw(st.tuples(F32FIN, F32FIN, F32FIN, F32FIN))
        if c[3] < 0:
            c = tuple(x if x else 0.25 for x in c)       # -0.0 components would make byte comparison ambiguous
        c = [vals.f(x) for x in c]
        return {'Q': [x['f'] for x in c]} if draw(st.booleans()) else {'t': c}
    if t == 'LLUUID':
        h = draw(UUIDS)
        return {'pu': h} if draw(st.integers(0, 3)) == 0 else {'U': h}
    if t == 'IPADDR':
        return vals.b(draw(byts(4)))
    if t == 'Fixed':
        return vals.b(draw(byts(field.size)))
    if t == 'Variable':
        return draw(var_value(field))
    raise AssertionError(t)


def default_value(field):
    """The plainest valid value of a type (what a shrunk case should show)."""
    t = field.type
    if t in INT:
        return 0
    if t in ('F32', 'F64'):
        return vals.f(0.0)
    if t == 'LLVector3':
        return {'V3': [vals.f(0.0)['f']] * 3}
    if t in ('LLVector3d', 'LLVector4', 'LLQuaternion'):
        return {'t': [vals.f(0.0)] * (3 if t == 'LLVector3d' else 4)}
    if t == 'LLUUID':
        return {'U': '0' * 32}
    if t in ('IPADDR', 'Fixed'):
        return vals.b(b'\0' * field.size)
    return vals.b(b'')


def marker(field, k):
    """A cheap distinguishable valid value (for very long messages)."""
    t = field.type
    if t in INT:
        return (k * 37 + 1) % 100
    if t in ('F32', 'F64'):
        return vals.f(float(k % 1000))
    if t == 'LLVector3':
        return {'V3': [vals.f(float(k % 1000 + i))['f'] for i in range(3)]}
    if t in ('LLVector3d', 'LLVector4', 'LLQuaternion'):
        return {'t': [vals.f(float(k % 1000 + i)) for i in range(3 if t == 'LLVector3d' else 4)]}
    if t == 'LLUUID':
        return {'U': '%032x' % (k * 0x9E3779B97F4A7C15F39CC0605CEDC835 % 2**128)}
    if t in ('IPADDR', 'Fixed'):
        return vals.b(bytes((k + i) % 255 + 1 for i in range(field.size)))
    return vals.b(b'v%d' % k)


@st.composite
def blocks(draw, msg, allow_empty=False, max_each=4, big=True):
    """[[block, [[field, value]...]]...] for a template message, in any supply order."""
    out = []
    budget = 60
    for blk in msg.blocks:
        if blk.kind == 'Single':
            n = 1
        elif blk.kind == 'Multiple':
            n = blk.number
        else:
            n = draw(st.sampled_from([0, 1, 1, 2, 3, max_each]))
            if big and len(blk.fields) <= 4 and draw(st.integers(0, 24)) == 24:
                n = draw(st.sampled_from([127, 128, 200, 254, 255]))
        for i in range(n):
            if budget > 0:
                fields = [[fl.name, draw(value(fl))] for fl in blk.fields]
                budget -= len(fields)
            else:
                fields = [[fl.name, marker(fl, i + 1)] for fl in blk.fields]
            out.append([blk.name, fields])
    if not out and msg.blocks and not allow_empty:
        blk = msg.blocks[draw(st.integers(0, len(msg.blocks) - 1))]
        out.append([blk.name, [[fl.name, draw(value(fl))] for fl in blk.fields]])
    return out


@st.composite
def repeated(draw, msg, bl):
    """The same with an instance of a variable block there several times over."""
    var = {b.name for b in msg.blocks if b.kind == 'Variable'}
    at = [i for i, x in enumerate(bl) if x[0] in var]
    if not at or len(bl) > 100:
        return bl
    i = draw(st.sampled_from(at))
    j = draw(st.sampled_from([k for k in range(i + 1, len(bl) + 1) if all(x[0] == bl[i][0] for x in bl[i:k])]))
    return bl[:j] + [bl[i]] * draw(st.sampled_from([1, 1, 2, 5])) + bl[j:]


NUMS = st.sampled_from([None, None, [1, 0], [2, 1, 0], [3, 3, 1, 0, 2], [1]])


@st.composite
def shuffled(draw, bl):
    """The same blocks supplied in another order (instances of one block keep theirs)."""
    names = []
    for n, _ in bl:
        if n not in names:
            names.append(n)
    how = draw(st.sampled_from(['as is', 'reversed', 'rotated', 'interleaved']))
    if how == 'reversed':
        names.reverse()
    elif how == 'rotated' and names:
        k = draw(st.integers(0, len(names) - 1))
        names = names[k:] + names[:k]
    elif how == 'interleaved':
        lists = [[x for x in bl if x[0] == n] for n in names]
        out = []
        while any(lists):
            for li in lists:
                if li:
                    out.append(li.pop(0))
        return out
    return [x for n in names for x in bl if x[0] == n]


def block_map(bl):
    out = {}
    for n, fields in bl:
        out.setdefault(n, []).append(dict((a, b) for a, b in fields))
    return out


IDS = st.one_of(st.sampled_from([0, 1, 2, 255, 256, 65535, 65536, 2**31 - 1, 2**31, 2**32 - 1, 0x01020304]),
                st.integers(0, 2**32 - 1))


@st.composite
def acks(draw, maxn=255):
    k = draw(st.sampled_from([0, 1, 1, 2, 3, 5, 17, maxn]))
    if k > 5:
        base = draw(IDS)
        return [(base + 7 * i) % 2**32 for i in range(k)]
    return draw(st.lists(IDS, min_size=k, max_size=k))


# ---- templates ------------------------------------------------------------------------------------------------
NAMES = ['Alpha', 'Beta', 'Gamma', 'Delta', 'Eps', 'Zeta', 'Eta9', 'Theta', 'Iota', 'Kappa',
         'NoHandshakeReply', 'RegionHandshakeReplyX', 'PacketAcknowledged']
BNAMES = ['AgentData', 'Info', 'Items', 'NeighborBlock', 'B1', 'B2', 'Data', 'Packets', 'X']
FNAMES = ['ID', 'Data', 'Name', 'Flags', 'F1', 'F2', 'F3', 'Position', 'Rotation', 'Count', 'version1', 'Fixed',
          'Single', 'U32', 'Test0', 'TextureData', 'data', 'Data2', 'Pos']
TYPES = list(template.SIZES) + ['Fixed', 'Variable']


@st.composite
def field(draw, name):
    t = draw(st.sampled_from(TYPES + ['Variable', 'Fixed', 'Variable']))
    if t == 'Variable':
        size = draw(st.sampled_from([1, 1, 2, 2, 4]))
    elif t == 'Fixed':
        size = draw(st.sampled_from([1, 2, 3, 4, 16, 32, 100, 258, 1030]))
    else:
        size = template.SIZES[t]
    return template.Field((name, t, size))


@st.composite
def templates(draw, max_msgs=4, max_blocks=3, max_fields=5, empty_blocks=False):
    """A list of template.Msg with distinct names and distinct (frequency, number)."""
    n = draw(st.integers(1, max_msgs))
    names = draw(st.permutations(NAMES))[:n]
    used = set()
    out = []
    for name in names:
        freq = draw(st.sampled_from(template.FREQS))
        lo, hi = {'High': (1, 254), 'Medium': (1, 254), 'Low': (0, 0xFEFF), 'Fixed': (0, 255)}[freq]
        num = draw(ints(lo, hi))
        if freq == 'Low' and draw(st.booleans()):
            num = draw(st.sampled_from([1, 2, 255, 256, 257, 300, 0x0100, 0x1234, 0xFE00, 0xFEFF]))
        while (freq, num) in used:
            num = lo + (num - lo + 1) % (hi - lo + 1)
        used.add((freq, num))
        bl = []
        for bname in draw(st.permutations(BNAMES))[:draw(st.integers(0, max_blocks))]:
            kind = draw(st.sampled_from(['Single', 'Multiple', 'Variable']))
            number = draw(st.sampled_from([1, 2, 3, 4, 7, 12, 12, 130])) if kind == 'Multiple' else 0
            nf = draw(st.integers(0 if empty_blocks else 1, max_fields))
            fields = [draw(field(fn)) for fn in draw(st.permutations(FNAMES))[:nf]]
            bl.append(template.Blk(bname, kind, number, fields))
        out.append(template.Msg(name, freq, 0xFFFFFF00 + num if freq == 'Fixed' else num,
                                draw(st.sampled_from(['Trusted', 'NotTrusted'])),
                                draw(st.sampled_from(['Zerocoded', 'Unencoded'])),
                                draw(st.sampled_from(['', '', 'Deprecated', 'UDPDeprecated', 'UDPBlackListed',
                                                      'NotDeprecated'])), bl))
    return out


def embedded_sendable():
    """Embedded messages in a fixed order (all are usable with the open message.xml the checks pass)."""
    return template.embedded()


@st.composite
def chosen(draw, custom_share=0.4):
    """(template text or None, template messages, message)"""
    if draw(st.integers(0, 99)) < custom_share * 100:
        msgs = draw(templates())
        return template.write(msgs), msgs, msgs[draw(st.integers(0, len(msgs) - 1))]
    msgs = embedded_sendable()
    return None, msgs, draw(st.sampled_from(msgs))


# ---- every count and length ------------------------------------------------------------------------------------

SPANS = template.Msg('Spans', 'Low', 0x1234, 'NotTrusted', 'Zerocoded', '', [
    template.Blk('Lead', 'Single', 0, [template.Field(('ID', 'U8', 1))]),
    template.Blk('Items', 'Variable', 0, [template.Field(('Value', 'U8', 1))]),
    template.Blk('Text', 'Single', 0, [template.Field(('Short', 'Variable', 1)), template.Field(('Long', 'Variable', 2)),
                                       template.Field(('Count', 'U32', 4))]),
    template.Blk('Tails', 'Variable', 0, [template.Field(('Data', 'Variable', 1)), template.Field(('ID', 'S16', 2))]),
    template.Blk('Last', 'Single', 0, [template.Field(('Sum', 'U32', 4))])])


# its last field is the long one
ENDS = template.Msg('Ends', 'High', 77, 'NotTrusted', 'Unencoded', '', [
    template.Blk('Lead', 'Single', 0, [template.Field(('ID', 'U8', 1))]),
    template.Blk('Rest', 'Variable', 0, [template.Field(('Text', 'Variable', 2))])])


def spans(n):
    """(template text, blocks, acks): n instances, texts of n bytes, n acks - one for every n up to 255."""
    text = template.write([SPANS, ENDS, ACK_SPANS])
    # texts end in a zero byte of their own
    long = min(n * 257, 65534) if n % 16 == 15 else n * 64 + 63 if n % 16 == 7 else n
    bl = [['Lead', [['ID', n]]]] + [['Items', [['Value', (n + i) % 256]]] for i in range(n)]
    bl.append(['Text', [['Short', vals.b(bytes((n + i) % 255 + 1 for i in range(min(n, 254))))],
                        ['Long', vals.b(bytes((n * 3 + i) % 255 + 1 for i in range(long)))], ['Count', n * 0x01010101]]])
    bl += [['Tails', [['Data', vals.b(bytes(k % 7))], ['ID', k - n]]] for k in range((n * 7) % 256)]
    bl.append(['Last', [['Sum', 0xFFFFFFFF - n]]])
    return text, bl, [n * 1000 + i for i in range(n)]


ACK_SPANS = template.Msg('PacketAck', 'Fixed', 0xFFFFFFFB, 'NotTrusted', 'Unencoded', '', [
    template.Blk('Packets', 'Variable', 0, [template.Field(('ID', 'U32', 4))])])
