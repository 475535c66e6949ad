"""C01: encode then decode gives the message back (oracle: the template's own reading of the values sent)."""
from hypothesis import strategies as st

from .. import gen, template, wire
from ..common import bmap, expected_blocks, labels_for, require, tmsgs
from ..core import Part
from ..vals import num

RULE = ('A case is a template (embedded or generated), one of its messages with every field filled, flags, a sequence '
        'number and acks. Non-trivial: the message has at least one field and was encoded and decoded; distinct by '
        'content.')
ASSUMPTIONS = ['block instances of different block names are not ordered relative to each other',
               'NaN is compared as NaN, payload bits are not']


@st.composite
def cases(draw):
    text, msgs, m = draw(gen.chosen())
    bl = draw(gen.blocks(m, allow_empty=draw(st.integers(0, 9)) == 0))
    if draw(st.integers(0, 2)) == 0:
        bl = draw(gen.shuffled(bl))
    flags = draw(st.sampled_from([0, 0x40, 0x40, 0x20, 0x60, 0x10, 0x50, 0x30, 0x70]))
    share = draw(st.integers(0, 3)) == 0
    if share:
        bl = draw(gen.repeated(m, bl))
    return {'tmpl': text, 'msg': {'name': m.name, 'blocks': bl, 'flags': flags, 'pid': draw(gen.IDS),
                                  'acks': draw(gen.acks()) if flags & 0x10 else [], 'share': share,
                                  'nums': draw(gen.NUMS),
                                  'empty': [b.name for b in m.blocks if b.kind == 'Variable']}}


def sweep(tier):
    """Every embedded message, with markers, 1 and several instances of repeated blocks."""
    out = []
    k = 0
    for m in template.embedded():
        for n in (1, 3) if tier == 'quick' else (1, 2, 7, 60):
            bl = []
            for blk in m.blocks:
                for _ in range({'Single': 1, 'Multiple': blk.number}.get(blk.kind, n)):
                    k += 1
                    bl.append([blk.name, [[fl.name, gen.marker(fl, k + 13 * i)] for i, fl in enumerate(blk.fields)]])
            out.append({'tmpl': None, 'msg': {'name': m.name, 'blocks': bl, 'flags': 0x40, 'pid': k, 'acks': []}})
    return out


def check(case, ctx):
    m = case['msg']
    t = tmsgs(case['tmpl'])[0][m['name']]
    bm = bmap(m['blocks'])
    r = ctx.call('roundtrip', tmpl=case['tmpl'], msgs=[m])[0]
    require('hex' in r, 'encoding a valid %s failed: %s', m['name'], r)
    back = r['back']
    if not m['blocks'] and t.blocks:
        return False, ['no block instances (decoding not claimed)']
    require('msg' in back, 'decoding the encoded %s failed: %s', m['name'], back)
    g = back['msg']
    require(g['name'] == m['name'], 'decoded as %s instead of %s', g['name'], m['name'])
    require(num(g['pid']) == m['pid'], 'sequence number %s instead of %s', num(g['pid']), m['pid'])
    require(g['reliable'] == bool(m['flags'] & 0x40), 'reliable flag is %s with flags %#x', g['reliable'], m['flags'])
    require(num(g['flags']) == m['flags'], 'flags %s instead of %s', num(g['flags']), m['flags'])
    require([num(a) for a in g['acks']] == m['acks'], 'acks %s instead of %s', [num(a) for a in g['acks']], m['acks'])
    d = wire.compare(t, expected_blocks(t, bm), g)
    require(d is None, 'decoded %s: %s', m['name'], d)
    ls = labels_for(t, bm)
    if m['acks']:
        ls.add('acks')
    ls.add('generated template' if case['tmpl'] else 'embedded template')
    return bool(m['blocks']), ls


def spans(tier):
    """Every number of instances, length of a short text and number of acks there can be."""
    out = []
    for n in range(256):
        text, bl, acks = gen.spans(n)
        out.append({'tmpl': text, 'msg': {'name': 'Spans', 'blocks': bl, 'flags': 0x50 if n % 2 else 0x10, 'pid': n * 0x01010101, 'acks': acks}})
    return out


PARTS = [Part('every embedded message', check, cases=sweep),
         Part('every count and length', check, cases=spans),
         Part('random messages', check, strategy=cases, quick=2400, thorough=40000)]
