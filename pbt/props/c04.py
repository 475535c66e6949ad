"""C04: arbitrary bytes - only documented outcomes, never a partial message, no influence on later datagrams."""
from hypothesis import strategies as st

from .. import dgrams, gen, vals, wire
from ..common import bmap, require, tmsgs
from ..core import Part

RULE = ('A case is a template and a sequence of byte strings decoded by one decoder: mutated valid datagrams, random '
        'bytes, valid ones between them. Non-trivial: at least one input has a complete header and was judged by the '
        'reference reading; distinct by content.')
ASSUMPTIONS = ['for bodies that are not valid zero-coding (a zero byte without a count) only the kind of outcome is '
               'checked']


@st.composite
def one(draw, msgs):
    kind = draw(st.sampled_from('mmmmmvvrh'))
    if kind in 'mv':
        m = draw(st.sampled_from(msgs))
        d = draw(dgrams.datagram(m, at_least_one=draw(st.booleans())))
        data = dgrams.build(d)
        return {'dgram': d, 'edits': draw(dgrams.mutations()) if kind == 'm' else []}
    if kind == 'r':
        return {'hex': draw(st.one_of(st.binary(max_size=12), st.binary(max_size=80))).hex()}
    # a header, a real message number, random rest
    m = draw(st.sampled_from(msgs))
    flags = draw(st.sampled_from([0, 0x40, 0x80, 0x10, 0xD0]))
    extra = draw(st.sampled_from([0, 0, 0, 1, 3, 200]))
    data = bytes([flags]) + draw(st.binary(min_size=4, max_size=4)) + bytes([extra]) + b'\x01' * min(extra, 3) + \
        m.num_bytes()[:draw(st.sampled_from([1, 2, 3, 4]))] + draw(st.binary(max_size=60))
    return {'hex': data.hex()}


@st.composite
def cases(draw):
    text, msgs, m = draw(gen.chosen())
    pool = msgs if text else [m, draw(st.sampled_from(msgs))]
    return {'tmpl': text, 'items': draw(st.lists(one(pool), min_size=1, max_size=6))}


def data_of(item):
    if 'hex' in item:
        return bytes.fromhex(item['hex'])
    return dgrams.mutate(dgrams.build(item['dgram']), item['edits'])


def check(case, ctx):
    index = tmsgs(case['tmpl'])[1]
    bufs = [data_of(i) for i in case['items']]
    res = ctx.call('decode_many', tmpl=case['tmpl'], bufs=[b.hex() for b in bufs])
    ls = set()
    non = False
    for k, (data, r) in enumerate(zip(bufs, res)):
        verdict, t, blocks, pid, acks = dgrams.reading(data, index)
        ls.add('reading: ' + verdict)
        what = 'input %d (%s, %s)' % (k, verdict, data.hex() if len(data) < 200 else data[:60].hex() + '...')
        if 'exc' in r:
            require(r['mse'], '%s raised %s (%s), which is no message-system error', what, r['exc'], r['text'])
            ls.add('outcome: error')
            require(verdict != 'ok', '%s: a valid datagram of %s raised %s (%s)', what, t and t.name, r['exc'], r['text'])
        elif 'none' in r:
            ls.add('outcome: nothing')
            require(verdict != 'ok', '%s: a valid datagram of %s gave nothing', what, t and t.name)
        else:
            ls.add('outcome: message')
            require(verdict in ('ok', 'unclear', 'empty'), '%s gave the message %s', what, r['msg']['name'])
            if verdict != 'unclear':
                why = dgrams.check_message(t, blocks, data[0], pid, acks, r['msg'])
                require(why is None, '%s: %s', what, why)
        non = non or len(data) >= 7
    return non, ls


def cuts(tier):
    """Datagrams with little and much in them, cut short by a few bytes before their acks, or after."""
    out = []
    for n in [0, 1, 2, 16, 39, 100, 127, 128, 255] if tier == 'quick' else list(range(256)):
        text, bl, acks = gen.spans(n)
        for flags in (0x40, 0xC0, 0x50, 0xD0):
            body = wire.encode_body(gen.SPANS, bmap(bl))
            whole = wire.datagram(flags, n, body, b'', [] if not flags & 0x10 else acks, lambda d: wire.zero_encode(d, lambda r: [255] * (r // 255) + [r % 255] * (r % 255 > 0)))
            tail = 1 + 4 * len(acks) if flags & 0x10 else 0
            items = []
            for k in (0, 1, 2, 3, 4, 5, 8, 9, 64, 1000, 5000):
                if k < len(whole) - tail - 10:
                    items.append({'hex': (whole[:len(whole) - tail - k] + whole[len(whole) - tail:]).hex()})
                if tail and k and k < len(whole):
                    items.append({'hex': whole[:-k].hex()})
            # right after the one big thing in it
            at = body.find(bytes([n] * 4)) if n else -1
            for k in (0, 1, 2, 3, 100):
                if at > k + 20 and not flags & 0x80:
                    items.append({'hex': (whole[:6 + at - k] + whole[len(whole) - tail:]).hex()})
            out.append({'tmpl': text, 'items': items})
        # the end of the last text is missing
        for k in (1, 200, 255, 256, 1000, 1001, 5000, 65000) if n % 16 == 15 else (n + 1, n * 64 + 1):
            bl = [['Lead', [['ID', n]]], ['Rest', [['Text', vals.b(b'first')]]], ['Rest', [['Text', vals.b(b'z' * k)]]]]
            whole = wire.datagram(0x40, n, wire.encode_body(gen.ENDS, bmap(bl)))
            out.append({'tmpl': text, 'items': [{'hex': whole[:len(whole) - i].hex()} for i in (0, 1, 2, 3, 5, 64, 1000, 3000) if i < len(whole) - 12]})
    return out


PARTS = [Part('cut short', check, cases=cuts),
         Part('byte strings', check, strategy=cases, quick=2400, thorough=60000)]
