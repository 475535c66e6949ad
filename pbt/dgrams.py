"""Strategies for datagrams built by the reference encoder, and their mutations."""
from hypothesis import strategies as st

from . import gen, wire


@st.composite
def field_bytes(draw, field):
    """Any bytes a datagram may carry for this field."""
    if field.type == 'Variable':
        cap = min(2 ** (8 * field.size) - 1, 3000)
        n = draw(st.sampled_from([0, 0, 1, 2, 3, 5, 8, 20, 254, 255, 256, 300]))
        if n > 20 and draw(st.integers(0, 2)):
            n = n % 7
        n = min(n, cap)
    else:
        n = field.size
    kind = draw(st.integers(0, 7))
    if kind == 0:
        data = b'\0' * n
    elif kind == 1:
        data = b'\xff' * n
    elif kind <= 3:
        c = draw(st.integers(0, 255))
        data = bytes((c + i) % 256 for i in range(n))
    elif kind == 4 and n:
        data = draw(st.binary(min_size=1, max_size=min(n, 6))).ljust(n, b'\0')
    elif n <= 16:
        data = draw(st.binary(min_size=n, max_size=n))
    else:
        data = (draw(st.binary(min_size=8, max_size=8)) * (n // 8 + 1))[:n]
    if field.type == 'Variable':
        return len(data).to_bytes(field.size, 'little') + data
    return data


@st.composite
def body(draw, m, at_least_one=True, limit=6000):
    out = bytearray(m.num_bytes())
    total = 0
    last = len(m.blocks) - 1
    budget = 40
    for i, blk in enumerate(m.blocks):
        if blk.kind == 'Variable':
            n = draw(st.sampled_from([0, 1, 1, 2, 3, 5]))
            if draw(st.integers(0, 20)) == 0:
                n = draw(st.sampled_from([127, 128, 255]))
            if at_least_one and i == last and total == 0 and n == 0:
                n = 1
            out.append(n)
        else:
            n = 1 if blk.kind == 'Single' else blk.number
        total += n
        inst = None
        for k in range(n):
            if inst is not None and (budget <= 0 or len(out) > limit):
                # cheap ones, yet different from each other, once there is enough
                out += b''.join(wire.enc_value(fl, gen.marker(fl, k)) for fl in blk.fields)
                continue
            inst = b''.join(draw(field_bytes(fl)) for fl in blk.fields)
            budget -= len(blk.fields)
            out += inst
    return bytes(out)


def splitter(cuts):
    """Divide runs of zeros at the given sizes, used in turn."""
    state = [0]

    def split(run):
        parts = []
        while run:
            c = cuts[state[0] % len(cuts)] if cuts else 255
            state[0] += 1
            p = min(run, c)
            parts.append(p)
            run -= p
        return parts
    return split


@st.composite
def datagram(draw, m, at_least_one=True, custom=False):
    """{'flags', 'pid', 'extra', 'body', 'cuts', 'acks'}: the parts of a valid datagram, in hex where bytes."""
    flags = draw(st.sampled_from([0, 0x40, 0x80, 0x80, 0xC0, 0x10, 0x50, 0x90, 0xD0, 0xF0, 0x20, 0xE0]))
    if draw(st.integers(0, 5)) == 0:
        flags |= draw(st.integers(0, 15))
    b = draw(body(m, at_least_one))
    if draw(st.integers(0, 3)) == 0:
        b += draw(st.one_of(st.binary(max_size=6), st.sampled_from([b'\0', b'\0\0\0\0', b'\xff\xff\xff\xfb']),
                            st.builds(lambda x, n: (x * n)[:n], st.binary(min_size=1, max_size=4),
                                      st.sampled_from([33, 65, 129, 257, 700]))))
    extra = b''
    if draw(st.integers(0, 2)) == 0:
        n = draw(st.sampled_from([1, 2, 4, 7, 100, 255]))
        extra = draw(st.one_of(st.just(b'\0' * n), st.just(b'\xff' * n), st.just(bytes(range(1, n + 1))),
                               st.binary(min_size=min(n, 8), max_size=min(n, 8))))
    return {'name': m.name, 'flags': flags, 'pid': draw(gen.IDS), 'extra': extra.hex(), 'body': b.hex(),
            'cuts': draw(st.lists(st.sampled_from([1, 1, 2, 3, 16, 254, 255]), max_size=3)) if flags & 0x80 else [],
            'acks': draw(gen.acks()) if flags & 0x10 else []}


def build(d):
    return wire.datagram(d['flags'], d['pid'], bytes.fromhex(d['body']), bytes.fromhex(d['extra']), d['acks'],
                         lambda data: wire.zero_encode(data, splitter(d['cuts'])))


@st.composite
def mutations(draw):
    """A list of edits to a byte string (positions are taken modulo its length)."""
    pos = st.one_of(st.integers(0, 15), st.integers(0, 4000), st.integers(1, 20).map(lambda x: -x))
    one = st.one_of(
        st.tuples(st.just('cut'), pos),
        st.tuples(st.just('set'), pos, gen.BYTE),
        st.tuples(st.just('flip'), pos, st.integers(0, 7)),
        st.tuples(st.just('ins'), pos, st.binary(min_size=1, max_size=4).map(bytes.hex)),
        st.tuples(st.just('del'), pos, st.integers(1, 5)),
        st.tuples(st.just('dup'), pos, st.integers(1, 12)),
        st.tuples(st.just('set'), st.just(0), st.sampled_from([0, 0x10, 0x40, 0x80, 0x90, 0xD0, 0xFF])),
        st.tuples(st.just('set'), st.just(5), st.sampled_from([0, 1, 2, 3, 5, 20, 255])),
        st.tuples(st.just('set'), st.just(-1), st.sampled_from([0, 1, 2, 3, 4, 5, 8, 63, 64, 255])),
        st.tuples(st.just('app'), st.binary(min_size=1, max_size=9).map(bytes.hex)))
    return draw(st.lists(one.map(list), min_size=1, max_size=3))


def mutate(data, edits):
    data = bytearray(data)
    for e in edits:
        if e[0] == 'app':
            data += bytes.fromhex(e[1])
            continue
        if not data:
            continue
        p = e[1] % len(data)
        if e[0] == 'cut':
            del data[p:]
        elif e[0] == 'set':
            data[p] = e[2]
        elif e[0] == 'flip':
            data[p] ^= 1 << e[2]
        elif e[0] == 'ins':
            data[p:p] = bytes.fromhex(e[2])
        elif e[0] == 'del':
            del data[p:p + e[2]]
        elif e[0] == 'dup':
            data[p:p] = data[p:p + e[2]]
    return bytes(data)


def reading(data, index):
    """What a datagram says by the reference reading, as (verdict, template, blocks, pid, acks):
    'ok'       complete: header, announced acks, body
    'empty'    complete but without any block instance although the template has blocks
    'unknown'  complete header, number of no message
    'short'    something announced is missing
    'unclear'  not valid zero-coding; no claim"""
    if len(data) < 7:
        return 'short', None, None, None, None
    flags, pid = data[0], int.from_bytes(data[1:5], 'big')
    acks = []
    rest = data
    if flags & wire.ACK:
        n = data[-1]
        if 1 + 4 * n > len(data) - 6:
            return 'short', None, None, None, None
        tail = data[len(data) - 1 - 4 * n:-1]
        acks = [int.from_bytes(tail[4 * i:4 * i + 4], 'big') for i in range(n)]
        rest = data[:len(data) - 1 - 4 * n]
    b = rest[6 + rest[5]:]
    if flags & wire.ZERO:
        b = wire.zero_decode(b)
        if b is None:
            return 'unclear', None, None, pid, acks
    need = 1 if b[:1] != b'\xff' else 2 if b[1:2] != b'\xff' else 4
    if len(b) < need:
        return 'short', None, None, pid, acks
    t = wire.template_of_body(b, index)
    if t is None:
        return 'unknown', None, None, pid, acks
    try:
        blocks, _ = wire.read_body(t, b)
    except wire.Truncated:
        return 'short', t, None, pid, acks
    if not any(blocks.values()) and t.blocks:
        return 'empty', t, blocks, pid, acks
    return 'ok', t, blocks, pid, acks


def check_message(t, blocks, flags, pid, acks, g):
    """Why the decoded message view g does not say what it should, or None."""
    from .vals import num
    if g['name'] != t.name:
        return 'decoded as %s instead of %s' % (g['name'], t.name)
    if num(g['pid']) != pid:
        return 'sequence number %s instead of %s' % (num(g['pid']), pid)
    if num(g['flags']) != flags:
        return 'flags %s instead of %s' % (num(g['flags']), flags)
    if g['reliable'] != bool(flags & 0x40):
        return 'reliable is %s with flags %#x' % (g['reliable'], flags)
    if [num(a) for a in g['acks']] != acks:
        return 'acks %s instead of %s' % ([num(a) for a in g['acks']], acks)
    return wire.compare(t, blocks, g)
