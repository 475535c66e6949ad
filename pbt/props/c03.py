"""C03: valid datagrams from an independent encoder are decoded to what they carry."""
from hypothesis import strategies as st

from .. import dgrams, gen, template, wire
from ..common import bmap, require, tmsgs
from ..core import Part

RULE = ('A case is a template and a datagram of one of its messages built by the reference encoder: flags, sequence '
        'number, extra header, body (plain or zero-coded with a given division of zero runs), trailing bytes, appended '
        'acks. Non-trivial: it was decoded and compared, and carries at least one field or is of a message without '
        'blocks; distinct by content.')
ASSUMPTIONS = ['a datagram without any block instance, of a message that has blocks, is outside the property (the decoder '
               'documents it as empty)']


@st.composite
def cases(draw):
    text, msgs, m = draw(gen.chosen())
    return {'tmpl': text, 'dgram': draw(dgrams.datagram(m))}


def sweep(tier):
    """Every embedded message: plain and zero-coded, with extra header, trailing bytes and acks."""
    out = []
    k = 0
    for m in template.embedded():
        for n, flags, extra, acks, cuts in ((1, 0x40, '', [], []), (2, 0xD0, '0001ff', [7, 2**32 - 1], [1, 255])):
            k += 1
            body = bytearray(m.num_bytes())
            for blk in m.blocks:
                cnt = {'Single': 1, 'Multiple': blk.number}.get(blk.kind, n)
                if blk.kind == 'Variable':
                    body.append(cnt)
                for i in range(cnt):
                    for j, fl in enumerate(blk.fields):
                        body += wire.enc_value(fl, gen.marker(fl, k + 5 * i + j))
            out.append({'tmpl': None, 'dgram': {'name': m.name, 'flags': flags, 'pid': k, 'extra': extra,
                                                'body': bytes(body).hex(), 'cuts': cuts, 'acks': acks}})
    return out


def check(case, ctx):
    d = case['dgram']
    by_name, index = tmsgs(case['tmpl'])
    t = by_name[d['name']]
    data = dgrams.build(d)
    blocks, used = wire.read_body(t, bytes.fromhex(d['body']))
    r = ctx.call('decode', tmpl=case['tmpl'], buf=data.hex())
    require('msg' in r, 'valid datagram of %s gave %s', t.name, r)
    why = dgrams.check_message(t, blocks, d['flags'], d['pid'], d['acks'], r['msg'])
    require(why is None, '%s: %s', t.name, why)
    ls = {t.freq}
    if d['flags'] & 0x80:
        ls.add('zero-coded')
        if d['cuts']:
            ls.add('odd zero-run division')
    if d['extra']:
        ls.add('extra header')
    if used < len(bytes.fromhex(d['body'])):
        ls.add('trailing bytes')
    if d['acks']:
        ls.add('acks')
    for b in t.blocks:
        for fl in b.fields:
            ls.add('type ' + fl.type + (str(fl.size) if fl.type == 'Variable' else ''))
    if not t.blocks:
        ls.add('no blocks')
    return not t.blocks or any(i for insts in blocks.values() for i in insts), ls


def spans(tier):
    """Every number of instances, length of a short text, of the extra header and of a run of zeros, and number of acks
    there can be."""
    out = []
    for n in range(256):
        text, bl, acks = gen.spans(n)
        body = wire.encode_body(gen.SPANS, bmap(bl)) + bytes(255 - n)
        out.append({'tmpl': text, 'dgram': {'name': 'Spans', 'flags': 0x90 if n % 4 else 0x10, 'pid': n, 'extra': ('%02x' % n) * n,
                                            'body': body.hex(), 'cuts': [n] if n else [], 'acks': acks}})
    return out


PARTS = [Part('every embedded message', check, cases=sweep),
         Part('every count and length', check, cases=spans),
         Part('random datagrams', check, strategy=cases, quick=3000, thorough=50000)]
