"""C07: one circuit per peer, sequence numbers 1, 2, 3, ... per peer, counters, destinations."""
from hypothesis import strategies as st

from .. import hist, template
from ..common import require
from ..core import Part

RULE = ('A case is a history of sends (reliable or not, acknowledgement packets among them, some from inside a '
        'handler), receives (valid, unknown, malformed), lookups, ack processing and circuit removals over several '
        'peers sharing addresses or ports. Non-trivial: at least two datagrams were sent; distinct by content.')
RULE += ' Crowds: up to 260 peers. Long: bursts of 65540 and more datagrams to one peer.'
ASSUMPTIONS = ['messages refused by the encoder belong to C06; socket failures are not injected']

KINDS = ['send', 'send', 'send', 'sendack', 'recv', 'recvrel', 'recvack', 'unknown', 'bad', 'acks', 'acks', 'remove',
         'find', 'alive', 'replysub']


def crowds():
    return hist.case(KINDS + ['crowd'] * 8, max_ops=6, opts={'retries': [0, 1]})


def cases():
    return hist.case(KINDS, max_ops=16, opts={'retries': [0, 0, 1, 2], 'scribble': True, 'again': True, 'asretry': True})


def check(case, ctx):
    steps, _ = hist.run(ctx, case, states=True)
    seq, ordinal = {}, {}
    n_in = n_out = 0
    used = set()
    ls = set()
    for i, s in enumerate(steps):
        o = s.op
        if o['do'] in ('send', 'recv', 'find'):
            seq.setdefault(s.peer, 0)
        if o['do'] == 'recv':
            n_in += 1
            ls.add('received: %s' % s.verdict)
        if o['do'] == 'send':
            require(s.exc is None and s.ret is not None, 'step %d: sending a valid message gave %s', i, s.r)
            require(len(s.sent) == 1, 'step %d: one message gave the datagrams %s', i, s.sent)
            hist.send_outcome(s)
        for d in s.sent:
            n_out += 1
            if o['do'] in ('send', 'recv'):
                require(d.peer == s.peer, 'step %d: a datagram for %s went to %s', i, s.peer, d.peer)
            require(d.peer in seq, 'step %d: a datagram went to %s, a peer nobody named', i, d.peer)
            if d.flags & 0x20 and not o.get('retry'):
                ls.add('retransmission')
                continue
            seq[d.peer] += 1
            require(d.pid == seq[d.peer], 'step %d: %s to %s carries number %d instead of %d', i, d.name, d.peer, d.pid,
                    seq[d.peer])
        if o['do'] in ('send',):
            require(s.sent[0].name == o['msg']['name'], 'step %d: %s was sent instead of %s', i, s.sent[0].name,
                    o['msg']['name'])
        if o['do'] == 'remove':
            ls.add('removal' if s.peer in seq else 'removal of nothing')
            seq.pop(s.peer, None)
            ordinal.pop(s.peer, None)
        got = s.state['circuits']
        require([tuple(c[:2]) for c in got] == sorted(seq), 'step %d: circuits for %s instead of %s', i,
                [tuple(c[:2]) for c in got], sorted(seq))
        for c in got:
            p = tuple(c[:2])
            require((c[5], c[6]) == p, 'step %d: the circuit of %s belongs to %s', i, p, c[5:7])
            if p not in ordinal:
                require(c[7] not in used, 'step %d: %s shares a circuit', i, p)
                ordinal[p] = c[7]
                used.add(c[7])
            require(ordinal[p] == c[7], 'step %d: the circuit of %s was replaced', i, p)
        if o['do'] == 'alive':
            require(s.ret == (s.peer in seq), 'step %d: the circuit of %s is %salive', i, s.peer, '' if s.ret else 'not ')
        if o['do'] == 'find':
            require(s.ret == ordinal[s.peer], 'step %d: looking up %s found another circuit', i, s.peer)
        require(s.state['in'] == n_in and s.state['out'] == n_out, 'step %d: counters %s/%s instead of %d/%d', i,
                s.state['in'], s.state['out'], n_in, n_out)
    ls.add('%d peers' % len({s.op['peer'] and tuple(s.op['peer']) for s in steps if 'peer' in s.op}))
    return n_out >= 2, ls


@st.composite
def long_cases(draw):
    """Enough datagrams to one peer to pass the limits of 8 and 16 bits, and a few to another between them."""
    m = template.Msg('Alpha', 'High', 1, 'Trusted', 'Unencoded', '',
                     [template.Blk('Info', 'Single', 0, [template.Field(('ID', draw(st.sampled_from(['U8', 'U32'])), 4))])])
    text = template.write([m, hist.ACKMSG])
    peers = draw(st.lists(st.sampled_from(hist.PEERS), min_size=2, max_size=2, unique_by=tuple))
    total = draw(st.integers(65540, 66000))
    cuts = sorted(draw(st.lists(st.sampled_from([127, 255, 256, 32767, 32768, 65534, 65535, 65536]), max_size=3, unique=True)))
    ops = []
    for a, b in zip([0] + cuts, cuts + [total]):
        n = b - a
        msg = {'name': m.name, 'blocks': draw(hist.cheap_blocks(m))}
        ops.append({'do': 'burst', 'peer': peers[0], 'n': n, 'msg': msg})
        ops.append({'do': 'burst', 'peer': peers[1], 'n': 3, 'msg': msg})
    return {'tmpl': text, 'xml': 'open', 'settings': {'_init': {'quiet_logging': True}}, 'handler': True, 'ops': ops}


@st.composite
def far_cases(draw):
    """A few datagrams to one peer, then a few more as if there had been very many between them."""
    c = draw(long_cases())
    a, b = [o['peer'] for o in c['ops'][:2]]
    msg, n, at, ops = c['ops'][0]['msg'], draw(st.integers(1, 5)), draw(st.integers(2, 5)), []
    ops.append({'do': 'burst', 'peer': a, 'n': n, 'msg': msg})
    for v in sorted(draw(st.lists(st.sampled_from([2**15, 2**16, 2**20, 10**6, 2**23, 2**24, 2**25, 10**8, 2**28, 10**9, 2**30, 2**31, 2**32 - 20]), min_size=1, max_size=6, unique=True))):
        n2 = draw(st.integers(at + 1, 10))
        ops.append({'do': 'burst', 'peer': a, 'n': n2, 'msg': msg, 'at': n, 'ahead': v - at})
        n = v - at + n2
        ops.append({'do': 'burst', 'peer': b, 'n': 2, 'msg': msg})
    return dict(c, ops=ops)


def check_long(case, ctx):
    steps, _ = hist.run(ctx, case, states=True)
    seq, total, ls = {}, 0, {'burst'}
    for i, s in enumerate(steps):
        require(s.exc is None and not s.ret['other'], 'burst %d: sending a valid message gave %s', i, s.r)
        total += s.op['n']
        first = seq.get(s.peer, 0) + 1
        runs = s.ret['runs']
        if s.ret['ahead'] and runs and runs[0][0] != first:
            first = s.op['ahead'] + 1
            ls.add('number %s 2^16' % ('below' if first < 65536 else 'above'))
        elif 'ahead' in s.op:
            # it is kept elsewhere
            return False, ls
        seq[s.peer] = first - 1 + s.op['n']
        require([r[:2] for r in runs] == [[first, s.op['n']]] and runs[0][2][:2] == s.op['peer'],
                'burst %d: %d datagrams for %s, from number %d on, were sent as %s', i, s.op['n'], s.peer, first, runs)
        require(s.state['out'] == total, 'burst %d: %d datagrams counted as %s', i, total, s.state['out'])
    return True, ls


PARTS = [Part('long', check_long, strategy=long_cases, quick=3, thorough=24),
         Part('far', check_long, strategy=far_cases, quick=40, thorough=800),
         Part('crowds', check, strategy=crowds, quick=40, thorough=900),
         Part('histories', check, strategy=cases, quick=1500, thorough=30000)]
