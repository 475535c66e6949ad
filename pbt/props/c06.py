"""C06: messages that do not fit their template are refused and leave no trace."""
from hypothesis import strategies as st

from .. import dgrams, gen, hist, template, wire
from ..common import bmap, require, tmsgs
from ..core import Part, Skip

RULE = ('Part "encoding": a case is a template and a valid message with one fault put in; non-trivial: always (distinct '
        'by content). Part "histories": a case is a history of sends (valid, faulty, to unusable hosts), receives and '
        'ack processing over a dispatcher; non-trivial: it holds at least one refused send and a later datagram.')
RULE += ' Part "types" is an enumeration: every type, in each kind of block and place, given each of a list of wrong values.'
RULE += ' A message whose datagram the socket refuses counts as refused.'
ASSUMPTIONS = ['numbers outside the range of their type are not generated (no verdict is claimed on them)',
               'what becomes of an acknowledgement packet the socket refuses is not claimed']


@st.composite
def encode_cases(draw):
    text, msgs, m = draw(gen.chosen())
    bl = draw(gen.blocks(m, allow_empty=True, big=False))
    f = hist.fault(m, bl, draw)
    if f is None:
        f = ('name', m.name + 'X', bl)
    before = draw(hist.cheap_blocks(m)) if m.blocks else []
    return {'tmpl': text, 'fault': f[0], 'valid': {'name': m.name, 'blocks': before, 'pid': 7, 'flags': 0},
            'msg': {'name': f[1], 'blocks': f[2], 'pid': draw(gen.IDS), 'flags': draw(st.sampled_from([0, 0x40, 0x50])),
                    'acks': draw(st.lists(gen.IDS, max_size=2)), 'ordered': draw(st.booleans())}}


def check_encode(case, ctx):
    names = tmsgs(case['tmpl'])[0]
    if case['fault'] == 'name' and case['msg']['name'] in names:
        raise Skip()
    res = ctx.call('encode', tmpl=case['tmpl'], msgs=[case['msg'], case['valid']])
    r = res[0]
    what = '%s with fault "%s"' % (case['valid']['name'], case['fault'])
    if case['fault'] == 'name':
        require('none' in r or r.get('mse'), '%s: unknown name gave %s', what, r)
    else:
        require('exc' in r and r['mse'], '%s: encoding gave %s', what, r)
    v = case['valid']
    t = names[v['name']]
    want = wire.datagram(0, 7, wire.encode_body(t, bmap(v['blocks'])) +
                         (b'\0\0\0\0' if t.name == 'RegionHandshakeReply' else b''))
    require(res[1].get('hex') == want.hex(), '%s: a valid message encoded afterwards gave %s', what, res[1])
    return True, ('fault: ' + case['fault'],)


def typed_cases(tier):
    """Every type, in every kind of block, first, in the middle and last."""
    sizes = {'Variable': [1, 2, 4], 'Fixed': [1, 2, 6]}
    return [{'type': t, 'size': size, 'name': name, 'kind': kind, 'number': number, 'n': n, 'at': at}
            for t in gen.TYPES for size in sizes.get(t, [template.SIZES.get(t)])
            for name in ['Text', 'Data'] for kind, number, n in [('Single', 0, 1), ('Multiple', 2, 2), ('Variable', 0, 3)]
            for at in range(3)]


def check_typed(case, ctx):
    """Each wrong value of the type, in each instance of the block."""
    fields = [template.Field(('A', 'U32', 4)), template.Field(('B', 'Variable', 2))]
    fields.insert(case['at'], template.Field((case['name'], case['type'], case['size'])))
    m = template.Msg('Alpha', 'Low', 7, 'Trusted', 'Unencoded', '',
                     [template.Blk('First', 'Single', 0, [template.Field(('X', 'U8', 1))]),
                      template.Blk('Info', case['kind'], case['number'], fields),
                      template.Blk('Last', 'Variable', 0, [template.Field(('Y', 'LLUUID', 16))])])
    good = [[blk.name, [[fl.name, gen.marker(fl, 3 * i + j)] for j, fl in enumerate(blk.fields)]]
            for blk in m.blocks for i in range(case['n'] if blk.name == 'Info' else 1)]
    want = wire.datagram(0, 7, wire.encode_body(m, bmap(good)))
    msgs, tags = [], []
    for i in range(case['n']):
        for v in hist.wrong_values(case['type']):
            bl = [[n, [list(f) for f in fs]] for n, fs in good]
            bl[1 + i][1][case['at']][1] = v
            msgs.append({'name': 'Alpha', 'blocks': bl, 'pid': 7, 'flags': 0})
            tags.append((i, v))
    msgs.append({'name': 'Alpha', 'blocks': good, 'pid': 7, 'flags': 0})
    res = ctx.call('encode', tmpl=template.write([m]), msgs=msgs)
    for (i, v), r in zip(tags, res):
        require('exc' in r and r['mse'], '%s in field %s of type %s, instance %d, gave %s', v, case['name'], case['type'], i, r)
    require(res[-1].get('hex') == want.hex(), 'the valid message encoded afterwards gave %s', res[-1])
    return True, ('wrong values of type ' + case['type'],)


KINDS = ['send', 'send', 'badsend', 'badsend', 'badsend', 'nohost', 'recvrel', 'recv', 'recvack', 'acks', 'find']


@st.composite
def history_cases(draw):
    return draw(hist.case(KINDS, max_ops=14, opts={'retries': [0, 0, 2], 'sockfail': True, 'again': True}))


def check_history(case, ctx):
    """Replays the history against the plain bookkeeping the statement gives."""
    names = tmsgs(case['tmpl'])[0]
    for o in case['ops']:
        if o.get('fault') == 'name' and o['msg']['name'] in names:
            raise Skip()
    steps, _ = hist.run(ctx, case, states=True)
    seq, pending, awaited, known = {}, {}, {}, set()
    out = 0
    refused = later = False
    ls = set()
    for i, s in enumerate(steps):
        o = s.op
        if o['do'] == 'send':
            bad = 'fault' in o or o.get('nohost') or o.get('sockfail')
            what = o.get('fault', 'socket')
            require(s.exc is None, 'step %d: sending raised %s', i, s.r)
            if o.get('nohost'):
                require(s.ret is None and not s.sent, 'step %d: a host without address or port was sent %s', i, s.sent)
                ls.add('unusable host')
                require([c[:2] for c in s.state['circuits']] == sorted(map(list, known)),
                        'step %d: circuits %s after sending to a host without address or port', i, s.state['circuits'])
            elif bad:
                seq[s.peer] = seq.get(s.peer, 0) + 1
                known.add(s.peer)
                require(s.ret is None, 'step %d: a message with fault "%s" returned %s', i, what, s.ret)
                require(not s.sent, 'step %d: a message with fault "%s" put %s on the wire', i, what, s.sent)
                refused = True
                ls.add('fault: ' + what)
                if pending.get(s.peer):
                    ls.add('refused while acks pend')
            else:
                known.add(s.peer)
                seq[s.peer] = seq.get(s.peer, 0) + 1
                require(len(s.sent) == 1, 'step %d: a valid message put %s on the wire', i, s.sent)
                d = s.sent[0]
                require(hist.send_outcome(s) is d and d.peer == s.peer, 'step %d: sent to %s', i, d.peer)
                out += 1
                check_datagram(case, i, d, seq[s.peer], 0x40 if o['rel'] else 0, o['msg'])
                require(set(d.acks) <= set(pending.get(s.peer, [])), 'step %d: acks %s appended, %s pending', i, d.acks,
                        pending.get(s.peer))
                if o['rel']:
                    awaited.setdefault(s.peer, set()).add(d.pid)
                later = later or refused
        elif o['do'] == 'recv':
            known.add(s.peer)
            if s.verdict in ('ok', 'unknown'):
                acks = list(s.acks)
                if s.verdict == 'ok' and s.t.name == 'PacketAck':
                    acks += [b['ID'][1] for b in s.blocks['Packets']]
                awaited.setdefault(s.peer, set()).difference_update(acks)
                if s.reliable:
                    pending.setdefault(s.peer, []).append(s.pid)
        elif o['do'] == 'find':
            known.add(s.peer)
        elif o['do'] == 'acks':
            require(s.exc is None, 'step %d: processing acks raised %s', i, s.r)
            got = {}
            for d in s.sent:
                out += 1
                if d.flags & 0x20:
                    continue
                require(d.name == 'PacketAck', 'step %d: %s was sent while processing acks', i, d.name)
                seq[d.peer] = seq.get(d.peer, 0) + 1
                require(d.pid == seq[d.peer], 'step %d: ack packet number %d instead of %d', i, d.pid, seq[d.peer])
                got.setdefault(d.peer, []).extend(d.ids())
            for p in set(pending) | set(got):
                require(sorted(pending.get(p, [])) == sorted(got.get(p, [])),
                        'step %d: pending acks of %s were %s, sent %s', i, p, pending.get(p), got.get(p))
            pending = {}
            if got and refused:
                later = True
        require(s.state['out'] == out, 'step %d: %s datagrams counted as sent instead of %d', i, s.state['out'], out)
        aw = {tuple(c[:2]): c[2] for c in s.state['circuits']}
        cnt = {tuple(c[:2]): c[3] for c in s.state['circuits']}
        for p in known:
            require(p in aw, 'step %d: no circuit for %s', i, p)
            require(aw[p] == sorted(awaited.get(p, ())) and cnt[p] == len(aw[p]),
                    'step %d: %s awaits %s (count %s) instead of %s', i, p, aw[p], cnt[p], sorted(awaited.get(p, ())))
    return refused and later, ls


def check_datagram(case, i, d, pid, flag, msg):
    require(d.pid == pid, 'step %d: datagram number %d instead of %d', i, d.pid, pid)
    require(d.flags & 0x40 == flag, 'step %d: flags %#x', i, d.flags)
    t = tmsgs(case['tmpl'])[0][msg['name']]
    require(d.name == t.name and d.body == wire.encode_body(t, bmap(msg['blocks'])),
            'step %d: body of %s is %s', i, d.name, d.body.hex())


PARTS = [Part('types', check_typed, cases=typed_cases),
         Part('encoding', check_encode, strategy=encode_cases, quick=1500, thorough=25000),
         Part('histories', check_history, strategy=history_cases, quick=700, thorough=15000)]
