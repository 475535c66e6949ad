"""C25: the UDP socket client, alone and under a dispatcher."""
from hypothesis import strategies as st

from .. import dgrams, gen, hist, wire
from ..common import require, tmsgs
from ..core import Part

RULE = ('A case is a history of datagrams to and from a few peers over real loopback sockets (or a stand-in socket that also '
        'breaks), with the client alone or under a dispatcher. Non-trivial: at least two datagrams were received, or one '
        'sent; distinct by content.')
ASSUMPTIONS = ['Jython cuts received UDP datagrams at 2048 bytes whatever the library asks for, so longer ones are received '
               'only through the stand-in socket', 'Jython sends nothing for an empty datagram, so those are sent only through the stand-in socket', 'loopback keeps the order of datagrams and loses none']

IPS = ['127.0.0.1', '127.0.0.1', '127.0.0.2', '127.0.0.3', '127.1.1.1']
SIZES = [0, 1, 7, 255, 256, 1023, 1200, 2047, 2048]


@st.composite
def payload(draw, big, least=0):
    if draw(st.integers(0, 2)):
        return draw(st.binary(min_size=least, max_size=40)).hex()
    n = draw(st.sampled_from(SIZES[least:] + ([2049, 4096, 9999, 10000] if big else [])))
    seed = draw(st.binary(min_size=1, max_size=4))
    return (seed * (n // len(seed) + 1))[:n].hex()


@st.composite
def clients(draw):
    stub = draw(st.booleans())
    peers = draw(st.lists(st.sampled_from(IPS), min_size=1, max_size=4))
    peer = st.integers(0, len(peers) - 1)
    ops, waiting = [], 0
    for _ in range(draw(st.integers(1, 14))):
        k = draw(st.sampled_from(['in', 'in', 'in', 'recv', 'recv', 'recv', 'out', 'out', 'none', 'ask', 'empty', 'broken', 'fault'] if stub else
                                 ['in', 'in', 'in', 'recv', 'recv', 'recv', 'out', 'out', 'none', 'ask', 'empty', 'broken']))
        if k == 'in':
            ops.append({'do': 'in', 'peer': draw(peer), 'buf': draw(payload(stub))})
            waiting += 1
        elif k == 'fault':
            ops.append({'do': 'fault', 'what': draw(st.sampled_from(['error', 'timeout', 'io', 'value']))})
            waiting += 1
        elif k == 'recv':
            if waiting:
                ops.append({'do': 'recv'})
                waiting -= 1
        elif k == 'empty':
            if not waiting:
                ops.append({'do': 'empty'})
        elif k == 'ask':
            if any(o['do'] == 'recv' for o in ops):
                ops.append({'do': 'ask'})
        elif k == 'out':
            ops.append({'do': 'out', 'peer': draw(peer), 'buf': draw(payload(True, 0 if stub else 1))})
        elif k == 'none':
            ops.append({'do': 'none', 'peer': draw(peer)})
        else:
            ops.append({'do': k})
    ops += [{'do': 'recv'}] * waiting
    n = [sum(1 for o in ops if o['do'] == 'out' and o['peer'] == i) for i in range(len(peers))]
    ops += [{'do': 'take', 'peer': i, 'n': n[i]} for i in range(len(peers))]
    return {'stub': stub, 'peers': peers, 'ops': ops}


def check_client(case, ctx):
    r = ctx.call('sockets', **case)
    waiting, sent, senders, last = [], {}, [], None
    ls = {'stand-in socket' if case['stub'] else 'real sockets'}
    for i, (o, x) in enumerate(zip(case['ops'], r['steps'])):
        k, ret = o['do'], x.get('ret')
        if k == 'none':
            require('exc' in x, 'step %d: sending nothing was not refused', i)
            continue
        require('exc' not in x, 'step %d: %s raised %s', i, k, x)
        if k == 'in':
            waiting.append((o['peer'], o['buf']))
        elif k == 'fault':
            waiting.append(None)
        elif k == 'recv':
            w = waiting.pop(0)
            if w is None:
                require(ret['data'] == '' and ret['n'] == {'i': '0'}, 'step %d: a broken socket gave %s', i, ret)
                # nothing arrived, so there is no sender to speak of
                senders.append(None)
                last = None
                ls.add('broken')
                continue
            require(ret['data'] == w[1] and ret['n'] == {'i': str(len(w[1]) // 2)} and ret['str'], 'step %d: %s was received as %s', i, w, ret)
            require(ret['sender'] == w[0], 'step %d: the datagram of peer %s was reported from %s', i, w[0], ret['sender'])
            senders.append(w[0])
            last = w[0]
            ls.add('received %s' % ('empty' if not w[1] else 'short' if len(w[1]) < 2000 else 'long'))
        elif k in ('empty', 'broken'):
            require(ret['data'] == '' and ret['n'] == {'i': '0'}, 'step %d: with nothing to read %s was received', i, ret)
            last = None
            ls.add('nothing to read')
        elif k == 'ask':
            require(last is None or ret == last, 'step %d: the last datagram came from peer %s, the sender is said to be %s', i, last, ret)
        elif k == 'out':
            sent.setdefault(o['peer'], []).append(o['buf'])
        elif k == 'take':
            require(ret['got'] == sent.get(o['peer'], []), 'peer %s received %s, not %s', o['peer'], short(ret['got']), short(sent.get(o['peer'], [])))
            require(ret['from'], 'peer %s received a datagram from another socket', o['peer'])
    for j, (a, b) in enumerate(zip(r['kept'], senders)):
        require(b is None or a == b, 'the sender of datagram %d was %s and became %s', j, b, a)
    if len(set(x for x in senders if x is not None)) > 1:
        ls.add('several senders')
    return len(senders) > 1 or bool(sent), ls


def short(x):
    return repr(x)[:500]


@st.composite
def dispatchers(draw):
    text, pool, msgs = draw(hist.templ())
    peers = draw(st.lists(st.sampled_from(IPS), min_size=1, max_size=4))
    peer = st.integers(0, len(peers) - 1)
    ops, waiting, room = [], 0, 60000
    for _ in range(draw(st.integers(1, 12))):
        k = draw(st.sampled_from(['in', 'in', 'in', 'check', 'check', 'check', 'send', 'send', 'acks', 'idle', 'ack']))
        if k == 'in':
            m = draw(st.sampled_from(pool))
            d = draw(hist.inbound(m, [0x40, 0x40, 0, 0xC0]))
            if len(dgrams.build(d)) <= 1500:
                ops.append({'do': 'in', 'peer': draw(peer), 'dgram': d})
                waiting += 1
        elif k == 'ack':
            ops.append({'do': 'in', 'peer': draw(peer), 'dgram': draw(hist.packetack([0], st.integers(1, 5)))})
            waiting += 1
        elif k == 'check':
            if waiting:
                ops.append({'do': 'check'})
                waiting -= 1
        elif k == 'idle':
            if not waiting:
                ops.append({'do': 'idle'})
        elif k == 'send':
            m = draw(st.sampled_from(pool))
            blocks = draw(hist.cheap_blocks(m))
            size = len(wire.encode_body(m, gen.block_map(blocks)))
            if room < size:
                continue    # no UDP datagram, or no receive buffer, holds it
            room -= size
            ops.append({'do': 'send', 'peer': draw(peer), 'rel': draw(st.booleans()), 'kept': draw(st.booleans()),
                        'msg': {'name': m.name, 'blocks': blocks}})
        else:
            ops.append({'do': 'acks'})
    ops += [{'do': 'check'}] * waiting + [{'do': 'acks'}]
    # how many datagrams each peer will get
    pend, inbox, n = {}, [], [0] * len(peers)
    for o in ops:
        if o['do'] == 'in':
            inbox.append(o)
        elif o['do'] == 'check':
            x = inbox.pop(0)
            if x['dgram']['flags'] & 0x40:
                pend.setdefault(x['peer'], []).append(x['dgram']['pid'])
        elif o['do'] == 'send':
            n[o['peer']] += 1
        elif o['do'] == 'acks':
            for p in pend:
                n[p] += 1
            pend = {}
    ops += [{'do': 'take', 'peer': i, 'n': n[i]} for i in range(len(peers))]
    return {'stub': draw(st.integers(0, 2)) == 0, 'peers': peers, 'tmpl': text, 'ops': ops, 'dispatcher': True, 'given': draw(st.booleans()),
            'settings': draw(hist.log_settings())}


def check_dispatcher(case, ctx):
    r = ctx.call('sockets', **dict(case, ops=[hist.lower(o) for o in case['ops']]))
    names, index = tmsgs(case['tmpl'])
    inbox, pend, want, seen, unacked, last, recvd = [], {}, {}, set(), {}, {}, 0
    ls = {'stand-in socket' if case['stub'] else 'real sockets'}
    for i, (o, x) in enumerate(zip(case['ops'], r['steps'])):
        k, ret = o['do'], x.get('ret')
        require('exc' not in x, 'step %d: %s raised %s', i, k, x)
        if k == 'in':
            inbox.append(o)
        elif k == 'check':
            w = inbox.pop(0)
            p, d = w['peer'], w['dgram']
            require(ret['sender'] == p, 'step %d: the datagram of peer %s was reported from %s', i, p, ret['sender'])
            seen.add(p)
            recvd += 1
            if d['flags'] & 0x40:
                pend.setdefault(p, []).append(d['pid'])
            if d['name'] == 'PacketAck':
                unacked.setdefault(p, set()).difference_update(d['ids'])
            unacked.setdefault(p, set()).difference_update(d['acks'])
        elif k == 'send':
            p = o['peer']
            seen.add(p)
            last[p] = last.get(p, 0) + 1
            t = names[o['msg']['name']]
            body = wire.encode_body(t, gen.block_map(o['msg']['blocks']))
            want.setdefault(p, []).append(('send', last[p], t.name, body, o['rel'], set(pend.get(p, []))))
            if o['rel']:
                unacked.setdefault(p, set()).add(last[p])
        elif k == 'acks':
            for p, ids in pend.items():
                last[p] = last.get(p, 0) + 1
                want.setdefault(p, []).append(('acks', last[p], sorted(ids)))
                ls.add('acknowledged')
            pend = {}
        elif k == 'take':
            p = o['peer']
            got = [hist.Sent(None, None, h, index) for h in ret['got']]
            mine = want.get(p, [])
            require(ret['from'] and len(got) == len(mine), 'peer %d received %d datagrams, not %d: %s', p, len(got), len(mine), short(got))
            for g, w in zip(got, mine):
                require(g.ok and g.pid == w[1], 'peer %d received %s, expected %s', p, g, w)
                if w[0] == 'acks':
                    require(g.name == 'PacketAck' and sorted(g.ids()) == w[2], 'peer %d was sent %s with %s, expected acks of %s', p, g.name,
                            g.name == 'PacketAck' and g.ids(), w[2])
                else:
                    require(g.name == w[2] and g.body == w[3] and bool(g.flags & 0x40) == w[4], 'peer %d received %s, expected %s', p, g, w)
                    require(set(g.acks) <= w[5], 'peer %d was appended the acks %s, due are %s', p, g.acks, w[5])
    want_c = sorted([p, p, sorted(unacked.get(p, ())), 0] for p in seen)
    require(r['circuits'] == want_c, 'the circuits are %s, not %s', r['circuits'], want_c)
    require(r['counts'][0] == recvd, '%d datagrams in are counted as %s', recvd, r['counts'])
    require(r['kept'] == [o['peer'] for o in case['ops'] if o['do'] == 'in'], 'senders kept became %s', r['kept'])
    if len(seen) > 1:
        ls.add('several peers')
    return bool(want), ls


PARTS = [Part('client', check_client, clients, quick=900, thorough=25000),
         Part('dispatcher', check_dispatcher, dispatchers, quick=400, thorough=12000)]
