"""C02: the bytes of a datagram, against a reference encoder written from the template language and wire layout."""
from hypothesis import strategies as st

from .. import gen, template, vals, wire
from ..common import bmap, labels_for, require, tmsgs
from ..core import Part

RULE = ('A case is a template and a list of its messages encoded one after the other by one serializer. Non-trivial: '
        'at least one message with a field was encoded and compared byte for byte; distinct by content.')
ASSUMPTIONS = ['NaN is not generated (its payload bits are not specified)',
               'RegionHandshakeReply carries four further zero bytes after its fields, as the library documents',
               'numbers are generated within the range of their declared type']


@st.composite
def message(draw, m):
    bl = draw(gen.blocks(m, allow_empty=True))
    bl = vals.no_nan(draw(gen.shuffled(bl)))
    share = draw(st.integers(0, 3)) == 0
    if share:
        bl = draw(gen.repeated(m, bl))
    elif draw(st.booleans()):
        bl = [[n, draw(st.permutations(f)) if len(f) < 8 else f[::-1]] for n, f in bl]
    flags = draw(st.sampled_from([0, 0x40, 0x20, 0x10, 0x50, 0x80, 0xC0, 0x90, 0xD0, 0xF0, 0x41]))
    return {'name': m.name, 'blocks': bl, 'flags': flags, 'pid': draw(gen.IDS), 'ordered': draw(st.booleans()),
            'listed': draw(st.booleans()), 'share': share, 'nums': draw(gen.NUMS), 'watch': draw(st.integers(0, 2)) == 0, 'extra': draw(st.integers(0, 9)) == 0,
            'acks': draw(gen.acks()) if draw(st.integers(0, 3)) else [],
            'empty': [b.name for b in m.blocks if b.kind == 'Variable'] if draw(st.booleans()) else []}


@st.composite
def cases(draw):
    text, msgs, m = draw(gen.chosen())
    out = [draw(message(m))]
    for _ in range(draw(st.sampled_from([0, 0, 0, 1, 2]))):
        out.append(draw(message(draw(st.sampled_from(msgs)))))
    return {'tmpl': text, 'msgs': out, 'fresh': text is not None and draw(st.booleans())}


def reference(text, m):
    t = tmsgs(text)[0][m['name']]
    body = wire.encode_body(t, bmap(m['blocks']))
    if m['name'] == 'RegionHandshakeReply':
        body += b'\0\0\0\0'
    flags = m['flags'] & ~wire.ZERO
    return wire.datagram(flags, m['pid'], body, acks=m['acks'] if flags & wire.ACK else ())


def check(case, ctx):
    res = ctx.call('encode', tmpl=case['tmpl'], msgs=case['msgs'], fresh=case.get('fresh', False))
    ls = set()
    non = False
    for m, r in zip(case['msgs'], res):
        want = reference(case['tmpl'], m)
        require('changed' not in r, 'encoding %s changed it: %s', m['name'], r.get('changed'))
        if m.get('extra') and 'hex' not in r:
            ls.add('block foreign to the template refused')
            continue
        require('hex' in r, 'encoding a valid %s failed: %s', m['name'], r)
        got = bytes.fromhex(r['hex'])
        if got != want:
            n = next((i for i in range(min(len(got), len(want))) if got[i] != want[i]), min(len(got), len(want)))
            require(False, '%s: datagram of %d bytes instead of %d, first difference at byte %d: got ...%s, expected ...%s',
                    m['name'], len(got), len(want), n, got[max(0, n - 4):n + 12].hex(), want[max(0, n - 4):n + 12].hex())
        non = non or bool(m['blocks'])
        ls |= labels_for(tmsgs(case['tmpl'])[0][m['name']], bmap(m['blocks']))
        if m['flags'] & 0x10:
            ls.add('ack flag')
        if m['flags'] & 0x80:
            ls.add('zero-code flag asked for')
    ls.add('%d messages on one serializer' % len(res))
    return non, ls


def sweep(tier):
    """Every embedded message with markers, blocks in template order and reversed."""
    out = []
    k = 0
    for m in template.embedded():
        for n in (0, 2) if tier == 'quick' else (0, 1, 5, 100):
            bl = []
            for blk in m.blocks:
                for _ in range({'Single': 1, 'Multiple': blk.number}.get(blk.kind, n)):
                    k += 1
                    bl.append([blk.name, [[fl.name, gen.marker(fl, k + 13 * i)] for i, fl in enumerate(blk.fields)]])
            msg = {'name': m.name, 'blocks': bl, 'flags': 0x50, 'pid': k, 'acks': [1, 2], 'ordered': False}
            rev = dict(msg, blocks=[[b, f[::-1]] for b, f in gen_reverse(bl)], ordered=True)
            out.append({'tmpl': None, 'msgs': [msg, rev]})
    return out


def gen_reverse(bl):
    names = []
    for n, _ in bl:
        if n not in names:
            names.append(n)
    return [x for n in reversed(names) for x in bl if x[0] == n]


def spans(tier):
    """Every number of instances, length of a short text and number of acks there can be."""
    out = []
    for n in range(256):
        text, bl, acks = gen.spans(n)
        out.append({'tmpl': text, 'msgs': [{'name': 'Spans', 'blocks': bl, 'flags': 0x50 if n % 2 else 0x10, 'pid': n, 'acks': acks,
                                            'ordered': False, 'empty': ['Items', 'Tails'] if n % 3 else []}]})
    return out


PARTS = [Part('every embedded message', check, cases=sweep),
         Part('every count and length', check, cases=spans),
         Part('random messages', check, strategy=cases, quick=2400, thorough=40000)]
