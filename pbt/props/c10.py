"""C10: every reliable datagram is acknowledged once, to its sender, and nothing else is."""
from hypothesis import strategies as st

from .. import hist
from ..common import require
from ..core import Part

RULE = ('A case is a history of inbound datagrams (reliable or not; handled, skipped, of unknown type, refused over UDP, '
        'duplicated, floods), sends and ack rounds over several peers. Non-trivial: at least one acknowledgement packet '
        'was sent; distinct by content.')
ASSUMPTIONS = ['malformed datagrams, and messages without any block instance, are never flagged reliable here (whether '
               'they are acknowledged is not claimed)', 'the application sends no PacketAck of its own here']

KINDS = ['recvrel', 'recvrel', 'recvrel', 'recv', 'recv', 'unknown', 'bad', 'dup', 'dup', 'acks', 'acks', 'send', 'send',
         'recvack', 'subscribe', 'find']
BANNED = ['Alpha', 'Beta', 'ChatFromViewer', 'TestMessage', 'StartPingCheck']


@st.composite
def cases(draw, flood=False):
    c = draw(hist.case(KINDS + (['flood', 'flood', 'crowd', 'acks'] if flood else []), max_ops=5 if flood else 16,
                       xml='open' if draw(st.integers(0, 3)) else hist.dot_xml([(n, 'llsd', None) for n in BANNED]),
                       opts={'badmask': 0xBF, 'retries': [0, 0, 1], 'max_peers': 2 if flood else 4, 'crowd': ['recv'],
                             'lead': ['flood', 'flood', 'crowd'] if flood else None, 'trail': [['acks']] if flood else []}))
    if draw(st.integers(0, 3)) == 0:
        c['settings']['HANDLE_PACKETS'] = False
    if draw(st.booleans()):
        c['ops'].append({'do': 'acks'})
    return c


def check(case, ctx):
    banned = BANNED if case['xml'] != 'open' else []
    case = dict(case, ops=[o for o in case['ops'] if not (o['do'] == 'send' and o['msg']['name'] in banned)])
    steps, _ = hist.run(ctx, case, states=True)
    pending = {}
    non = False
    ls = set()
    for i, s in enumerate(steps):
        o = s.op
        if o['do'] == 'recv':
            require(not s.sent, 'step %d: receiving sent %s', i, s.sent)
            if s.reliable and s.verdict in ('ok', 'unknown'):
                pending.setdefault(s.peer, []).append(s.pid)
                ls.add('reliable: ' + ('unknown' if s.verdict == 'unknown' else 'refused' if s.t.name in banned
                                       else 'delivered or skipped'))
        elif o['do'] == 'send':
            d = hist.send_outcome(s)
            require(d is not None and len(s.sent) == 1, 'step %d: sending a valid message gave %s', i, s.r)
            mine = pending.get(d.peer, [])
            for a in d.acks:
                require(a in mine, 'step %d: the datagram to %s acknowledges %d; pending are %s', i, d.peer, a, mine)
            if d.acks:
                ls.add('appended acks')
        elif o['do'] == 'acks':
            require(s.exc is None, 'step %d: processing acks raised %s', i, s.r)
            got = {}
            for d in s.sent:
                if d.flags & 0x20:
                    continue
                require(d.name == 'PacketAck', 'step %d: %s was sent while processing acks', i, d.name)
                require(not d.acks, 'step %d: an ack packet with appended acks', i)
                ids = d.ids()
                require(0 < len(ids) <= 255, 'step %d: an ack packet with %d ids', i, len(ids))
                got.setdefault(d.peer, []).extend(ids)
                non = True
                if len(ids) > 200:
                    ls.add('full ack packet')
            for p in set(got) | set(pending):
                want = sorted(pending.get(p, []))
                require(sorted(got.get(p, [])) == want, 'step %d: %s was acknowledged %s, it sent reliably %s', i, p,
                        short(sorted(got.get(p, []))), short(want))
            pending = {}
            require(not s.state['has_unacked'], 'step %d: acks still pending after processing', i)
        else:
            require(not s.sent, 'step %d: %s sent %s', i, o['do'], s.sent)
        require(s.state['has_unacked'] == any(pending.values()), 'step %d: has_unacked is %s with pending %s', i,
                s.state['has_unacked'], short(pending))
    return non, ls


def short(x):
    r = repr(x)
    return r if len(r) < 600 else r[:600] + '...'


PARTS = [Part('histories', check, strategy=cases, quick=1500, thorough=30000),
         Part('floods', check, strategy=lambda: cases(flood=True), quick=90, thorough=1500)]
