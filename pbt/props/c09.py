"""C09: retransmission of what is unacknowledged, and of nothing else."""
from .. import hist
from ..common import require
from ..core import Part

RULE = ('A case is a history of reliable (with 0-25 retries) and unreliable sends, inbound acknowledgements and ack '
        'processing; crowds: hundreds of messages and of peers. Non-trivial: at least one message was retransmitted or became acknowledged before it could be; '
        'distinct by content.')
ASSUMPTIONS = ['whether a retransmission the socket refuses uses up a retry is not claimed', 'malformed datagrams carry no acknowledgement '
               'flag here']

KINDS = ['sendrel', 'sendrel', 'sendrel', 'sendun', 'recv', 'recvrel', 'recvack', 'recvack', 'unknown', 'acks', 'acks',
         'acks', 'bad', 'remove', 'flood']


def crowds():
    """Many messages outstanding, many acknowledgements at once, many peers."""
    return hist.case(['bulk', 'crowd', 'crowd', 'ackrange', 'acks', 'acks', 'recvack', 'sendrel', 'sendrel', 'flood', 'remove'], max_ops=6,
                     opts={'retries': [0, 2, 1], 'badmask': 0x8F, 'live': True, 'max_peers': 2, 'crowd': ['send'], 'flood': [9, 10, 11, 100, 256, 300]})


def cases():
    return hist.case(KINDS, max_ops=16, min_ops=3, opts={'lead': ['sendrel'], 'storm': True, 'asretry': True, 'retries': [0, 1, 1, 2, 3, 4, 9, 25], 'badmask': 0x8F, 'scribble': True, 'sockfail': True, 'again': True, 'live': True,
                                              'max_peers': 3, 'flood': [2, 9, 10, 11, 20]})


def exhausted():
    """Some dozens outstanding at any numbers, processed until no retries are left and beyond."""
    return hist.case(['bulk', 'bulk', 'acks', 'acks', 'skip', 'ackrange', 'recvack', 'sendrel', 'recvrel', 'sendun'], max_ops=6, min_ops=2,
                     opts={'lead': ['bulk', 'skip'], 'trail': [['bulk', 'skip'], ['bulk'], ['acks'], ['ackrange'], ['acks']], 'ackrange': [1, 2, 5, 20, 50, 128, 250], 'storm': True, 'retries': [0, 1, 2, 3, 9], 'badmask': 0x8F, 'live': True,
                           'max_peers': 2, 'bulk': [2, 5, 9, 17, 33, 65]})


def check(case, ctx):
    steps, _ = hist.run(ctx, case)
    live = {}                       # peer -> {pid: [bytes, least retries left, most]}
    highest = {}
    non = False
    ls = set()
    for i, s in enumerate(steps):
        o = s.op
        again = [d for d in s.sent if d.flags & 0x20 and not o.get('retry')]
        if o['do'] == 'remove':
            live.pop(s.peer, None)
            highest.pop(s.peer, None)
        if o['do'] == 'burst':
            require(s.exc is None and not s.ret['other'] and len(s.ret['runs']) == 1 and not int(s.ret['runs'][0][2][2][:2], 16) & 0x20,
                    'step %d: %d unreliable messages gave %s', i, o['n'], s.r)
            highest[s.peer] = sum(s.ret['runs'][0][:2]) - 1
            ls.add('numbers beyond %d' % next((x for x in (4000, 900, 250, 60) if highest[s.peer] > x), 0))
        if o['do'] == 'send':
            d = None if o.get('sockfail') else hist.send_outcome(s)
            require(d is not None or o.get('sockfail'), 'step %d: sending a valid message gave %s', i, s.r)
            if d is not None:
                require(bool(d.flags & 0x20) == bool(o.get('retry')), 'step %d: flags %#x of a message %s', i, d.flags,
                        'sent as a retry' if o.get('retry') else 'not sent before')
                if o.get('retry'):
                    ls.add('sent as a retry')
        if o['do'] == 'acks':
            require(s.exc is None, 'step %d: processing acks raised %s', i, s.r)
            want = {}
            for p, m in live.items():
                for pid, e in m.items():
                    if e[2] > 0:
                        want[(p, pid)] = e
            seen = set()
            for d in again + s.refused:
                k = (d.peer, d.pid)
                require(k in want, 'step %d: message %d to %s was sent again although it was %s', i, d.pid, d.peer,
                        'out of retries' if d.pid in live.get(d.peer, {}) else 'acknowledged or never sent reliably')
                require(k not in seen, 'step %d: message %d to %s was sent again twice', i, d.pid, d.peer)
                seen.add(k)
                old = want[k][0]
                require(d.raw == bytes([old[0] | 0x20]) + old[1:], 'step %d: message %d was sent again as %s, it was %s',
                        i, d.pid, d.raw.hex(), old.hex())
                want[k][1] -= 1
                if d in again:
                    want[k][2] -= 1
                    ls.add('retransmission')
                else:
                    ls.add('retransmission refused by the socket')
                non = True
            left = {k for k in want if k not in seen and want[k][1] > 0}
            require(not left, 'step %d: not sent again although unacknowledged: %s', i, sorted(left))
        else:
            require(not again, 'step %d: %s sent %s again', i, o['do'], again)
        for d in s.sent:
            if not d.flags & 0x20 or o.get('retry'):
                require(d.pid > highest.get(d.peer, 0), 'step %d: number %d to %s was sent before', i, d.pid, d.peer)
                highest[d.peer] = d.pid
        if o['do'] == 'send' and o['rel'] and d is not None:
            live.setdefault(s.peer, {})[d.pid] = [d.raw, o.get('retries', 0), o.get('retries', 0)]
        if o['do'] == 'recv' and s.verdict in ('ok', 'unknown'):
            ids = list(s.acks)
            if s.verdict == 'ok' and s.t.name == 'PacketAck':
                ids += [b['ID'][1] for b in s.blocks['Packets']]
            for k in ids:
                e = live.get(s.peer, {}).pop(k, None)
                if e is not None and e[1] > 0:
                    non = True
                    ls.add('acked with retries left')
    return non, ls


PARTS = [Part('histories', check, strategy=cases, quick=1800, thorough=40000),
         Part('exhausted', check, strategy=exhausted, quick=200, thorough=4000),
         Part('crowds', check, strategy=crowds, quick=60, thorough=1500)]
