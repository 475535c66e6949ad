"""C08: what is awaited is what was sent reliably and not acknowledged."""
from hypothesis import strategies as st

from .. import hist
from ..common import require
from ..core import Part

RULE = ('A case is a history of sends, inbound acknowledgements (appended to datagrams of any kind, or in '
        'acknowledgement packets) and ack processing over several peers; crowds: hundreds of messages, of acknowledgements '
        'and of peers. Non-trivial: at least one outstanding message '
        'was acknowledged, and one was sent reliably; distinct by content.')
ASSUMPTIONS = ['malformed datagrams carry no acknowledgement flag here (whether their acknowledgements count is not '
               'claimed)']

KINDS = ['sendrel', 'sendrel', 'sendrel', 'sendrel', 'sendun', 'recv', 'recv', 'recv', 'recvack', 'recvack', 'unknown', 'unknown',
         'bad', 'acks', 'dup', 'remove', 'subscribe', 'skip']


def crowds():
    """Many messages outstanding, many acknowledgements at once, many peers."""
    return hist.case(['bulk', 'bulk', 'crowd', 'skip', 'ackrange', 'ackrange', 'ackrange', 'ackrange', 'recvack', 'sendrel', 'acks',
                      'remove'], max_ops=6,
                     opts={'retries': [0, 1], 'badmask': 0x8F, 'live': True, 'max_peers': 2, 'crowd': ['send']})


@st.composite
def cases(draw):
    c = draw(hist.case(KINDS, max_ops=16, min_ops=3, opts={'lead': ['sendrel'], 'retries': [0, 0, 1, 3], 'badmask': 0x8F, 'scribble': True, 'sockfail': True, 'asretry': True,
                                                'again': True, 'live': True, 'flags': [0x10, 0x10, 0x50, 0x90, 0xD0, 0, 0x40],
                                                'max_peers': 3}))
    names = sorted({o['dgram']['name'] for o in c['ops'] if o['do'] == 'recv' and o.get('dgram', {}).get('acks') and o['dgram']['name']}
                   - {'PacketAck'})
    if names and draw(st.integers(0, 2)) == 0:
        # what message.xml keeps from UDP acknowledges all the same
        c['banned'] = [draw(st.sampled_from(names))]
        c['xml'] = hist.dot_xml([(n, 'llsd', None) for n in c['banned']])
    return c


def check(case, ctx):
    steps, _ = hist.run(ctx, case, states=True)
    banned = case.get('banned', [])
    awaited = {}
    acked = sent = 0
    ls = set()
    for i, s in enumerate(steps):
        o = s.op
        if o['do'] == 'send' and o.get('sockfail'):
            awaited.setdefault(s.peer, set())
            ls.add('refused by the socket')
        elif o['do'] == 'send' and o['msg']['name'] in banned:
            require(s.ret is None and not s.sent, 'step %d: a message not allowed over UDP was sent: %s', i, s.r)
            awaited.setdefault(s.peer, set())
        elif o['do'] == 'send':
            require(s.exc is None and s.ret is not None, 'step %d: sending a valid message gave %s', i, s.r)
            d = hist.send_outcome(s)
            awaited.setdefault(s.peer, set())
            require(bool(d.flags & 0x40) == o['rel'], 'step %d: flags %#x of a message sent %s', i, d.flags,
                    'reliably' if o['rel'] else 'unreliably')
            if o['rel']:
                awaited[s.peer].add(d.pid)
                sent += 1
        elif o['do'] == 'recv':
            aw = awaited.setdefault(s.peer, set())
            if s.verdict in ('ok', 'unknown'):
                ids = list(s.acks)
                if s.verdict == 'ok' and s.t.name == 'PacketAck':
                    ids += [b['ID'][1] for b in s.blocks['Packets']]
                for k in ids:
                    if k in aw:
                        acked += 1
                        aw.discard(k)
                        ls.add('acked by %s' % ('PacketAck' if s.verdict == 'ok' and s.t.name == 'PacketAck'
                                                else 'refused message' if s.verdict == 'ok' and s.t.name in banned
                                                else 'message' if s.verdict == 'ok' else 'unknown message'))
                    elif any(k in v for v in awaited.values()):
                        ls.add('foreign ack')
                    else:
                        ls.add('idle ack')
        elif o['do'] == 'burst':
            require(s.exc is None and (not s.ret['other'] or o['msg']['name'] in banned), 'step %d: %d unreliable messages gave %s', i, o['n'], s.r)
            awaited.setdefault(s.peer, set())
        elif o['do'] == 'remove':
            awaited.pop(s.peer, None)
        got = {tuple(c[:2]): c for c in s.state['circuits']}
        require(set(got) == set(awaited), 'step %d: circuits %s', i, sorted(got))
        for p, aw in awaited.items():
            require(got[p][2] == sorted(aw), 'step %d: %s awaits acks of %s instead of %s', i, p, got[p][2], sorted(aw))
            require(got[p][3] == len(aw), 'step %d: %s counts %s outstanding instead of %d', i, p, got[p][3], len(aw))
    return acked > 0 and sent > 0, ls


PARTS = [Part('histories', check, strategy=cases, quick=1800, thorough=40000),
         Part('crowds', check, strategy=crowds, quick=60, thorough=1500)]
