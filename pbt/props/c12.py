"""C12: who is handed which message, when, and what it holds."""
from collections import Counter

from hypothesis import strategies as st

from .. import dgrams, hist, vals
from ..common import require
from ..core import Part

RULE = ('A case is a history of subscriptions (several handlers, duplicates, arguments), unsubscriptions, receives '
        '(valid, unknown, malformed), sends and setting changes. Non-trivial: at least one message was delivered to a '
        'handler; distinct by content.')
ASSUMPTIONS = ['handlers that raise or change the message they are given belong to C13 and C21',
               'showing outgoing messages while packet handling is off is not exercised']

KINDS = ['recv', 'recv', 'recv', 'recvrel', 'recvack', 'unknown', 'bad', 'send', 'send', 'acks', 'dup', 'dup']


@st.composite
def sub_op(draw, names):
    op = {'do': 'subscribe', 'name': draw(st.sampled_from(names)), 'h': draw(st.integers(0, 3)),
          'kind': draw(st.sampled_from(['record', 'record', 'record', 'record', 'unsub', 'reply']))}
    if draw(st.booleans()):
        op['held'] = True       # through what registering gave the first time
    if op['kind'] == 'record' and draw(st.integers(0, 2)) == 0:
        op['args'] = draw(st.lists(st.sampled_from([{'b': 'x'}, {'b': 'yy'}, {'i': '7'}, None]), max_size=2))
        if draw(st.booleans()):
            op['kw'] = [['key', draw(st.sampled_from([{'b': 'k'}, {'i': '9'}]))]]
    return op


@st.composite
def cases(draw):
    text, pool, msgs, ops = draw(hist.history(KINDS, min_ops=2, max_ops=12,
                                              opts={'max_peers': 2, 'badmask': 0xBF, 'flags': [0, 0, 0x40, 0x80, 0x10]}))
    names = [m.name for m in pool] * 3 + ['PacketAck', 'Nothing', pool[0].name.lower(), pool[0].name.upper(), pool[-1].name + ' ', '']
    out = draw(st.lists(sub_op(names), max_size=5))
    subs, late = list(out), []
    outgoing = draw(st.integers(0, 3)) == 0
    for o in ops:
        k = draw(st.integers(0, 9))
        if k == 0:
            s = draw(sub_op(names))
            subs.append(s)
            out.append(s)
        elif k in (1, 2) and subs:
            s = dict(draw(st.sampled_from(subs)))
            s['do'] = 'unsubscribe'
            if draw(st.integers(0, 4)) == 0:
                s['h'] = 3 - s['h']
            if draw(st.booleans()):
                s['held'] = not s.get('held', False)
            out.append(s)
        elif k == 3:
            out.append({'do': 'register', 'name': draw(st.sampled_from(names))})
            if draw(st.booleans()):
                subs.append(dict(draw(sub_op([out[-1]['name']])), held=True))
                late.append(subs[-1])
        elif k == 4 and draw(st.booleans()):
            nm = draw(st.sampled_from(['ENABLE_DEFERRED_PACKET_PARSING', 'HANDLE_PACKETS'])) if not outgoing else \
                draw(st.sampled_from(['ENABLE_DEFERRED_PACKET_PARSING', 'HANDLE_OUTGOING_PACKETS']))
            out.append({'do': 'set', 'name': nm, 'value': draw(st.booleans())})
        elif k == 5 and any(x.get('kind') == 'reply' for x in subs):
            m = draw(st.sampled_from(pool))
            out.append({'do': 'replies', 'msgs': [{'name': m.name, 'blocks': draw(hist.cheap_blocks(m))}
                                                  for _ in range(draw(st.integers(1, 2)))]})
        out.append(o)
        if late and draw(st.booleans()):
            out.append(late.pop(0))
    s = draw(hist.log_settings())
    s['ENABLE_DEFERRED_PACKET_PARSING'] = draw(st.booleans())
    if outgoing:
        s['HANDLE_OUTGOING_PACKETS'] = True
    elif draw(st.integers(0, 5)) == 0:
        s['HANDLE_PACKETS'] = False
    return {'tmpl': text, 'xml': 'open', 'settings': s, 'handler': draw(st.booleans()), 'ops': out}


class Unclear(Exception):
    pass


class Model:
    """Who is to be called, in order."""
    def __init__(self, settings):
        self.subs = {}
        self.handle = settings.get('HANDLE_PACKETS', True)
        self.outgoing = settings.get('HANDLE_OUTGOING_PACKETS', False)
        self.replies = []
        self.can_reply = False     # handlers answer the peer last received from
        self.calls = []        # expected (handler, args, kw, kind of message, payload)

    @staticmethod
    def key(o):
        return (o['h'], o.get('kind', 'record'), repr([vals.canon(a) for a in o.get('args', [])]),
                repr({'d': [[{'b': a}, vals.canon(b)] for a, b in o.get('kw', [])]}))

    def subscribe(self, o):
        self.subs.setdefault(o['name'], []).append(self.key(o))

    def unsubscribe(self, o):
        li = self.subs.get(o['name'], [])
        if self.key(o) in li:
            li.remove(self.key(o))
            return True
        return False

    def fire(self, name, what):
        """Every handler subscribed now is called, in order."""
        for k in list(self.subs.get(name, [])):
            self.calls.append((k, name, what))
            if k[1] == 'unsub':
                if k not in self.subs[name]:
                    raise Unclear       # a nested message made it leave while it was still to be called
                self.subs[name].remove(k)
            if k[1] == 'reply' and self.replies and self.can_reply:
                self.send(self.replies.pop(0))

    def send(self, msg):
        if self.outgoing:
            self.fire(msg['name'], ('out', msg))


def check_view(what, name, view, i):
    require(view['name'] == name, 'step %d: a handler of %s got %s', i, name, view['name'])
    if what[0] == 'in':
        s = what[1]
        why = dgrams.check_message(s.t, s.blocks, s.data[0], s.pid, s.acks, view)
        require(why is None, 'step %d: the handler was given another message than arrived: %s', i, why)
    elif what[0] == 'out':
        want = {}
        for n, fields in what[1]['blocks']:
            want.setdefault(n, []).append(sorted([a, vals.canon(b)] for a, b in fields))
        got = {n: [sorted(map(list, f)) for f in insts] for n, insts in view['blocks'].items()}
        require(repr(got) == repr({n: want[n] for n in got}) and set(got) == set(want),
                'step %d: the handler was shown another message than was sent: %s', i, got)


def check(case, ctx):
    try:
        return judge(case, ctx)
    except Unclear:
        return False, {'left out: a handler that left while it was still to be called'}


def judge(case, ctx):
    steps, _ = hist.run(ctx, case)
    m = Model(case['settings'])
    pending = {}
    delivered = 0
    ls = set()
    for i, s in enumerate(steps):
        o = s.op
        m.calls = []
        if o['do'] == 'subscribe':
            m.subscribe(o)
            require(s.exc is None, 'step %d: subscribing raised %s', i, s.r)
        elif o['do'] == 'unsubscribe':
            ok = m.unsubscribe(o)
            require((s.exc is None) if ok else s.exc == 'ValueError', 'step %d: unsubscribing gave %s', i, s.r)
        elif o['do'] == 'set':
            if o['name'] == 'HANDLE_PACKETS':
                m.handle = o['value']
            elif o['name'] == 'HANDLE_OUTGOING_PACKETS':
                m.outgoing = o['value']
        elif o['do'] == 'replies':
            m.replies += o['msgs']
        elif o['do'] == 'send':
            m.send(o['msg'])
            require(s.exc is None, 'step %d: sending raised %s', i, s.r)
        elif o['do'] == 'recv':
            m.can_reply = True
            if s.verdict == 'ok' and m.handle:
                m.fire(s.t.name, ('in', s))
            if s.verdict in ('ok', 'unknown'):
                require(s.exc is None, 'step %d: receiving raised %s', i, s.r)
                if s.reliable:
                    pending.setdefault(s.peer, []).append(s.pid)
            ls.add('received: ' + s.verdict)
        elif o['do'] == 'acks':
            require(s.exc is None, 'step %d: processing acks raised %s', i, s.r)
            got = {}
            for d in s.sent:
                if d.name == 'PacketAck' and not d.flags & 0x20:
                    got.setdefault(d.peer, []).extend(d.ids())
            for p in set(got) | set(pending):
                require(Counter(got.get(p, [])) == Counter(pending.get(p, [])),
                        'step %d: %s was acknowledged %s instead of %s', i, p, got.get(p), pending.get(p))
            pending = {}
            if m.outgoing:
                # one showing per ack packet; handlers may answer
                for d in [d for d in s.sent if d.name == 'PacketAck' and not d.flags & 0x20]:
                    m.fire('PacketAck', ('ack', d))
        got = s.got
        require(len(got) == len(m.calls), 'step %d (%s): handlers called %s, expected %s', i, o['do'],
                [[g[0], g[1]['name']] for g in got], [[c[0][0], c[1]] for c in m.calls])
        for g, (k, name, what) in zip(got, m.calls):
            require((g[0], repr(g[2]), repr(g[3])) == (k[0], k[2], k[3]),
                    'step %d: handler %s was called with %s %s, expected handler %s with %s %s', i, g[0], g[2], g[3],
                    k[0], k[2], k[3])
            check_view(what, name, g[1], i)
            delivered += 1
            ls.add('shown: ' + what[0])
            ls.add('handler: ' + k[1])
    return delivered > 0, ls


PARTS = [Part('histories', check, strategy=cases, quick=1500, thorough=30000)]
