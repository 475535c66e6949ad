"""Reference model of the UDP wire format, written from the message template language and the documented layout;
shares no code with the library."""
import math
import struct

from . import vals
from .vals import f32, num, raw, comps, fval

INT = {'U8': ('<B', 0, 2**8 - 1), 'U16': ('<H', 0, 2**16 - 1), 'U32': ('<I', 0, 2**32 - 1), 'U64': ('<Q', 0, 2**64 - 1),
       'S8': ('<b', -2**7, 2**7 - 1), 'S16': ('<h', -2**15, 2**15 - 1), 'S32': ('<i', -2**31, 2**31 - 1),
       'S64': ('<q', -2**63, 2**63 - 1), 'BOOL': ('<B', 0, 255), 'IPPORT': ('>H', 0, 65535)}
ZERO, RELIABLE, RESENT, ACK = 0x80, 0x40, 0x20, 0x10


def pf32(x):
    try:
        return struct.pack('<f', x)
    except OverflowError:
        return struct.pack('<f', math.copysign(math.inf, x))


def var_bytes(field, val):
    """The content bytes of a Variable field: UTF-8, NUL-terminated unless it is binary (named Data)."""
    if val is None:
        data = b''
    elif isinstance(val, dict) and 'u' in val:
        data = val['u'].encode('utf-8')
    else:
        data = raw(val)
    return data if field.name == 'Data' else data + b'\0'


def enc_value(field, val):
    t = field.type
    if t in INT:
        return struct.pack(INT[t][0], int(num(val)))
    if t == 'F32':
        return pf32(num(val))
    if t == 'F64':
        return struct.pack('<d', num(val))
    if t in ('LLVector3', 'LLVector4'):
        return b''.join(pf32(c) for c in comps(val))
    if t == 'LLVector3d':
        return struct.pack('<3d', *comps(val))
    if t == 'LLQuaternion':
        c = comps(val)
        v = c[:3] if c[3] >= 0 else [-x for x in c[:3]]
        return b''.join(pf32(x) for x in v)
    if t == 'LLUUID':
        return bytes.fromhex(val.get('U') or val.get('pu'))
    if t in ('IPADDR', 'Fixed'):
        return raw(val)
    if t == 'Variable':
        data = var_bytes(field, val)
        return len(data).to_bytes(field.size, 'little') + data
    raise AssertionError(t)


def encode_body(tmpl, blocks):
    """blocks: {name: [ {field: value}, ... ]}"""
    out = tmpl.num_bytes()
    for blk in tmpl.blocks:
        insts = blocks.get(blk.name, [])
        if blk.kind == 'Variable':
            out += bytes([len(insts)])
        for inst in insts:
            for fl in blk.fields:
                out += enc_value(fl, inst[fl.name])
    return out


def zero_encode(data, split=None):
    """Zero-code: each run of zeros becomes 00 n. `split(run)` yields the parts a run is divided into."""
    out = bytearray()
    i = 0
    while i < len(data):
        if data[i]:
            out.append(data[i])
            i += 1
            continue
        j = i
        while j < len(data) and data[j] == 0:
            j += 1
        run = j - i
        parts = split(run) if split else [255] * (run // 255) + ([run % 255] if run % 255 else [])
        assert sum(parts) == run and all(1 <= p <= 255 for p in parts)
        for p in parts:
            out += bytes([0, p])
        i = j
    return bytes(out)


def zero_decode(data):
    """Inverse of zero_encode on valid input; None if a zero byte has no count or a zero count."""
    out = bytearray()
    i = 0
    while i < len(data):
        if data[i]:
            out.append(data[i])
            i += 1
        else:
            if i + 1 >= len(data) or data[i + 1] == 0:
                return None
            out += bytes(data[i + 1])
            i += 2
    return bytes(out)


def datagram(flags, pid, body, extra=b'', acks=(), zero=None):
    """A complete datagram; body is coded by `zero` (a function) when the zero-coding flag is set."""
    head = bytes([flags]) + pid.to_bytes(4, 'big') + bytes([len(extra)]) + extra
    if flags & ZERO:
        body = (zero or zero_encode)(body)
    tail = b''
    if flags & ACK:
        tail = b''.join(a.to_bytes(4, 'big') for a in acks) + bytes([len(acks)])
    return head + body + tail


def dec_value(field, data):
    """The value a decoder must report, as a comparable Python value."""
    t = field.type
    if t in INT:
        return ('n', struct.unpack(INT[t][0], data)[0])
    if t == 'F32':
        return ('n', struct.unpack('<f', data)[0])
    if t == 'F64':
        return ('n', struct.unpack('<d', data)[0])
    if t == 'LLVector3':
        return ('v', list(struct.unpack('<3f', data)))
    if t == 'LLVector4':
        return ('v', list(struct.unpack('<4f', data)))
    if t == 'LLVector3d':
        return ('v', list(struct.unpack('<3d', data)))
    if t == 'LLQuaternion':
        x, y, z = struct.unpack('<3f', data)
        return ('q', [x, y, z])
    if t == 'LLUUID':
        return ('u', data.hex())
    if t in ('IPADDR', 'Fixed'):
        return ('b', data)
    if t == 'Variable':
        return ('b', data if field.name == 'Data' else data.rstrip(b'\0'))
    raise AssertionError(t)


def value_matches(expected, got):
    """Does the tagged value `got` say what `expected` (from dec_value) says?"""
    kind, want = expected
    if kind == 'n':
        g = num(got)
        return g is not None and vals.same(want, g)
    if kind == 'v':
        c = comps(got)
        return c is not None and len(c) == len(want) and all(vals.same(a, b) for a, b in zip(want, c))
    if kind == 'q':
        c = comps(got)
        if c is None or len(c) != 4 or not all(vals.same(a, b) for a, b in zip(want, c)):
            return False
        try:
            t = 1.0 - (want[0]**2 + want[1]**2 + want[2]**2)
        except OverflowError:
            t = -math.inf
        w = math.sqrt(t) if t > 0 else 0.0
        return abs(c[3] - w) <= 1e-6
    if kind == 'u':
        return isinstance(got, dict) and (got.get('U') or got.get('pu')) == want
    if kind == 'b':
        if isinstance(got, dict) and 'u' in got:
            return got['u'].encode('utf-8') == want
        return raw(got) == want
    raise AssertionError(kind)


class Truncated(Exception):
    pass


def read_body(tmpl, data):
    """Template reading of body bytes (message number included): ({block: [{field: expected}]}, bytes used).
    Raises Truncated when the data the template calls for is not there."""
    pos = len(tmpl.num_bytes())
    if len(data) < pos:
        raise Truncated()

    def take(n):
        nonlocal pos
        if pos + n > len(data):
            raise Truncated()
        pos += n
        return data[pos - n:pos]
    blocks = {}
    for blk in tmpl.blocks:
        n = 1 if blk.kind == 'Single' else blk.number if blk.kind == 'Multiple' else take(1)[0]
        insts = []
        for _ in range(n):
            inst = {}
            for fl in blk.fields:
                size = fl.size
                if fl.type == 'Variable':
                    size = int.from_bytes(take(fl.size), 'little')
                inst[fl.name] = dec_value(fl, take(size))
            insts.append(inst)
        if insts:
            blocks[blk.name] = insts
    return blocks, pos


def expected_value(field, val):
    """What a decoder must report for a field that was encoded from the tagged value `val`."""
    e = enc_value(field, val)
    return dec_value(field, e[field.size:] if field.type == 'Variable' else e)


def compare(tmpl, want_blocks, got):
    """Differences between expected blocks and a decoded message view, or None."""
    gb = got['blocks']
    want_names = {n for n, i in want_blocks.items() if i}
    if {n for n, i in gb.items() if i} != want_names:
        return 'blocks %s instead of %s' % (sorted(n for n, i in gb.items() if i), sorted(want_names))
    for n, insts in want_blocks.items():
        if not insts:
            continue
        if len(gb[n]) != len(insts):
            return 'block %s has %d instances instead of %d' % (n, len(gb[n]), len(insts))
        fields = {fl.name: fl for blk in tmpl.blocks if blk.name == n for fl in blk.fields}
        for k, (inst, g) in enumerate(zip(insts, gb[n])):
            gd = dict((a, b) for a, b in g)
            if set(gd) != set(inst) or len(g) != len(inst):
                return 'block %s[%d] has fields %s' % (n, k, sorted(gd))
            if [a for a, _ in g] != [fl.name for blk in tmpl.blocks if blk.name == n for fl in blk.fields]:
                return 'block %s[%d] lists its fields in the wrong order' % (n, k)
            for fname in inst:
                if not value_matches(inst[fname], gd[fname]):
                    return 'field %s[%d].%s (%s) is %r instead of %r' % (
                        n, k, fname, fields[fname].type, gd[fname], inst[fname])
    return None


def peek_template(dgram, tmpls):
    """Which template a datagram (after ack removal) is for: index {(freq, num): Msg}. None if it cannot say."""
    if len(dgram) < 7:
        return None
    body = dgram[6 + dgram[5]:]
    if dgram[0] & ZERO:
        d = zero_decode(body)
        if d is None:
            return None
        body = d
    return template_of_body(body, tmpls)


def template_of_body(body, tmpls):
    if not body:
        return None
    if body[0] != 0xFF:
        return tmpls.get(('High', body[0]))
    if len(body) < 2:
        return None
    if body[1] != 0xFF:
        return tmpls.get(('Medium', body[1]))
    if len(body) < 4:
        return None
    if body[2] != 0xFF:
        return tmpls.get(('Low', body[2] * 256 + body[3]))
    return tmpls.get(('Fixed', body[3]))
