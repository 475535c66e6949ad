"""C21: the manager's queue and loop."""
from hypothesis import strategies as st

from .. import gen, hist, wire
from ..common import require
from ..core import Part

RULE = ('A case is a history of queueing, inbound datagrams, loop turns, clock advances, starts and stops over a message '
        'manager with failing, stopping and queueing handlers, with and without an event-queue capability. Non-trivial: at '
        'least one queued message was sent or one datagram handled; distinct by content.')
ASSUMPTIONS = ['malformed datagrams are not flagged reliable (whether they are acknowledged is not claimed)',
               'the socket accepts every datagram; monitors are not restarted before the stopped ones have ended',
               'the turn of the loop in progress when monitors are stopped may still send what is queued']

FAILING = ('raise', 'keyerror', 'unicode')
HOST = ['10.0.0.1', 9000]
BANNED = ['Alpha', 'Beta', 'ChatFromViewer', 'TestMessage']


@st.composite
def message(draw, pool):
    m = draw(st.sampled_from(pool))
    bl = draw(hist.cheap_blocks(m))
    name, bad = m.name, False
    if draw(st.integers(0, 4)) == 0:
        f = hist.fault(m, bl, draw)
        if f:
            _, name, bl = f
            bad = True
    m = {'name': name, 'blocks': bl}
    if draw(st.integers(0, 4)) == 0:
        m.update(draw(hist.received()))
    return {'msg': m, 'bad': bad}


@st.composite
def enqueue(draw, pool):
    o = draw(message(pool))
    o.update(do='enqueue', rel=draw(st.booleans()), now=draw(st.sampled_from([False, False, True])))
    return o


@st.composite
def inbound(draw, pool, msgs):
    peer = draw(st.sampled_from([HOST, HOST, HOST, hist.PEERS[1], hist.PEERS[2]]))
    k = draw(st.sampled_from(['valid', 'valid', 'valid', 'valid', 'unknown', 'bad', 'empty', 'ack']))
    o = {'do': 'inbound', 'peer': peer}
    if k == 'valid':
        o['dgram'] = draw(hist.inbound(draw(st.sampled_from(pool))))
    elif k == 'unknown':
        o['dgram'] = draw(hist.unknown(msgs))
    elif k == 'ack':
        o['dgram'] = draw(hist.packetack())
    else:
        o['buf'] = '' if k == 'empty' else draw(hist.malformed(pool, 0xBF))
    return o


def again(draw, ops):
    """Some messages are queued more than once, the very same object."""
    last = None
    for o in ops:
        if o['do'] == 'enqueue':
            if last is not None and draw(st.integers(0, 5)) == 0:
                o.update(msg=last['msg'], bad=last['bad'], same=True)
            last = o


@st.composite
def cases(draw):
    text, pool, msgs = draw(hist.templ())
    xml = 'open' if draw(st.integers(0, 3)) else hist.dot_xml([(n, 'llsd', None) for n in BANNED])
    subs = []
    for m in pool:
        for h, kind in enumerate(draw(st.lists(st.sampled_from(['record', 'record', 'raise', 'keyerror', 'unicode', 'enqueue', 'stop']), max_size=3))):
            if kind == 'stop' and draw(st.booleans()):
                kind = 'record'
            subs.append({'do': 'subscribe', 'name': m.name, 'h': h, 'kind': kind})
            if kind in ('raise', 'keyerror', 'unicode'):
                break
    work = st.one_of(enqueue(pool), enqueue(pool), inbound(pool, msgs), inbound(pool, msgs), inbound(pool, msgs),
                     st.just({'do': 'round', 'n': 1}), st.integers(1, 4).map(lambda n: {'do': 'round', 'n': n}),
                     st.sampled_from([0.3, 1, 2, 7]).map(lambda s: {'do': 'advance', 's': s}))
    idle = st.one_of(enqueue(pool), inbound(pool, msgs), st.just({'do': 'round', 'n': 2}), st.just({'do': 'advance', 's': 3}), st.just({'do': 'stop'}))
    ops = []
    auto = draw(st.booleans())
    eq = None
    if draw(st.booleans()):
        eq = draw(st.lists(st.one_of(st.integers(-1, 9).map(lambda n: {'ok': {'d': [[{'b': 'id'}, {'i': str(n)}], [{'b': 'events'}, []]]}}),
                                     st.just({'ok': None}), st.sampled_from(['unicode', 'resource', 'notfound', 'deser', 'io']).map(lambda k: {'fail': k})), max_size=4))
    s = draw(hist.log_settings())
    if draw(st.booleans()):
        s['ENABLE_DEFERRED_PACKET_PARSING'] = False
    if draw(st.integers(0, 5)) == 0:
        s['HANDLE_PACKETS'] = False
    if draw(st.integers(0, 3)) == 0:
        s['ENABLE_REGION_EVENT_QUEUE'] = False
    if auto:
        s.pop('_defaults', None)        # those would be changed after the start
    interval = draw(st.sampled_from([1, 1, 0.5, 3]))
    if interval != 1:
        s['REGION_EVENT_QUEUE_POLL_INTERVAL'] = interval
    drain = [{'do': 'round', 'n': 3}, {'do': 'advance', 's': interval * 11 + 1}, {'do': 'probe', 'what': 'stopped'}]
    if not auto:
        ops += draw(st.lists(idle, max_size=3))
    for i in range(draw(st.sampled_from([1, 1, 2, 3]))):
        if i or not auto:
            ops.append({'do': 'start'})
        ops += draw(st.lists(work, min_size=1, max_size=12))
        last = draw(st.booleans())
        if last:
            ops.append({'do': 'quiet'})
        ops.append({'do': 'stop'})
        ops += drain
        ops += draw(st.lists(idle, max_size=3))
        ops.append({'do': 'advance', 's': 50})
        ops.append({'do': 'probe', 'what': 'still'})
    again(draw, ops)
    return {'tmpl': text, 'xml': xml, 'settings': s, 'handler': draw(st.booleans()), 'eq': eq, 'autostart': auto, 'subs': subs,
            'enqueues': draw(st.lists(enqueue(pool), max_size=3)), 'ops': ops, 'interval': interval,
            'given': {'notfile': draw(NOTFILE)} if text is None and draw(st.booleans()) else {}}


@st.composite
def bursts(draw):
    """Far more is queued than one looks at: at the back, at the front, before the start and while running."""
    text, pool, msgs = draw(hist.templ())
    few = [draw(enqueue(pool)) for _ in range(3)]

    def burst():
        n = draw(st.sampled_from([70, 140, 270, 300]))
        now = draw(st.sampled_from([[False], [True], [False, True], [False] * 60 + [True]]))
        return [dict(few[i % 3], now=now[i % len(now)], rel=i % 40 == 7) for i in range(n)]
    ops = burst() if draw(st.booleans()) else []
    ops.append({'do': 'start'})
    for _ in range(draw(st.integers(0 if ops[:-1] else 1, 1))):
        ops += draw(st.lists(st.just({'do': 'round', 'n': 1}), max_size=2)) + burst()
    ops += [{'do': 'quiet'}, {'do': 'stop'}, {'do': 'round', 'n': 3}, {'do': 'advance', 's': 12}, {'do': 'probe', 'what': 'stopped'}]
    return {'tmpl': text, 'xml': 'open', 'settings': {}, 'handler': True, 'eq': None, 'autostart': False, 'subs': [], 'enqueues': [],
            'ops': ops, 'interval': 1, 'given': {}}


# what is no file is no template: the embedded one is used
NOTFILE = st.sampled_from([{'b': 'message_template.msg'}, {'u': 'x'}, {'b': ''}, {'t': [1]}, 1])


class Queue:
    def __init__(self, case, names, banned):
        self.q = []
        self.names, self.banned = names, banned
        self.more = list(case['enqueues'])

    def add(self, o):
        self.q.insert(0, o) if o['now'] else self.q.append(o)

    def sendable(self, o):
        return not o['bad'] and o['msg']['name'] not in self.banned

    def head(self):
        while self.q and not self.sendable(self.q[0]):
            self.q.pop(0)
        return self.q.pop(0) if self.q else None


def check(case, ctx):
    banned = BANNED if case['xml'] != 'open' else []
    names, index = hist.tmsgs(case['tmpl'])
    ops, inboxlen = [], 0
    # 'quiet' stands for enough turns to process everything; probes only read the state
    for o in case['ops']:
        if o['do'] == 'inbound':
            inboxlen += 1
        if o['do'] == 'quiet':
            o = {'do': 'round', 'n': inboxlen + 4, 'quiet': True}
        elif o['do'] == 'probe':
            o = {'do': 'round', 'n': 0, 'probe': o['what']}
        ops.append(o)
    subs = case['subs']
    low = []
    for o in subs + ops:
        o = hist.lower(o)
        low.append(o)
    r = ctx.call('manager', tmpl=case['tmpl'], xml=case['xml'], **case['given'],  settings=case['settings'], handler=case['handler'], eq=case['eq'],
                 autostart=case['autostart'], peer=HOST, enqueues=case['enqueues'], ops=low, states=True, journal=True)
    steps = r['steps'][len(subs):]
    for x in r['steps'][:len(subs)]:
        require('exc' not in x, 'subscribing failed: %s', x)
    handle = case['settings'].get('HANDLE_PACKETS', True)
    byname = {}
    for o in subs:
        byname.setdefault(o['name'], []).append((o['h'], o['kind']))
    queue = Queue(case, names, banned)
    running, lastturn = case['autostart'], False
    inbox = []          # not yet taken
    expect = []         # expected handler calls (name, h)
    taken = {}          # reliable ids taken, not yet acknowledged, by peer
    eqon = case['eq'] is not None and case['settings'].get('ENABLE_REGION_EVENT_QUEUE', True)
    posts_at_stop, since, calls, sent_n = None, 0.0, 0, 0
    ls = {'event queue' if eqon else 'no event queue'}
    kinds = {}
    for i, (o, x) in enumerate(zip(ops, steps)):
        k, stt = o['do'], x['state']
        require('exc' not in x, 'step %d: %s raised %s', i, k, x)
        require(not stt['errors'], 'step %d (%s): a coroutine ended with %s', i, k, stt['errors'])
        if k == 'inbound':
            inbox.append(o)
        if k == 'start':
            running, lastturn, since = True, False, stt['now']
        if k == 'stop':
            lastturn = lastturn or running
            running = False
        if k == 'enqueue':
            queue.add(o)
        # what the loop took in this step
        while len(inbox) > stt['inbox']:
            require(running or lastturn, 'step %d: a datagram was received while the monitors do not run', i)
            d = inbox.pop(0)
            if not hist.lower(d)['buf']:
                continue
            raw = bytes.fromhex(hist.lower(d)['buf'])
            verdict, t, _, pid, _ = hist.dgrams.reading(raw, index)
            ls.add('datagram ' + verdict)
            if verdict in ('ok', 'unknown') and raw[0] & 0x40:
                taken.setdefault(tuple(d['peer']), []).append(pid)
            if verdict == 'ok' and handle and t.name not in banned:
                for h, kind in byname.get(t.name, []):
                    expect.append((t.name, h, kind))
        sent = [hist.Sent(*y, index=index) for y in x['sent']]
        got = list(x['got'])
        for ev in x['journal']:
            if ev == 'e':
                queue.add(queue.more.pop(0))
                ls.add('queued by a handler')
            elif ev == 'x':
                lastturn, running = lastturn or running, False
                ls.add('stopped by a handler')
            elif ev == 'g':
                g = got.pop(0)
                require(expect and (g[1]['name'], g[0]) == expect[0][:2], 'step %d: handler %s was called with %s; expected next: %s', i,
                        g[0], g[1]['name'], expect[:3])
                if expect[0][2] in ('raise', 'keyerror', 'unicode'):
                    ls.add('failing handler')
                expect.pop(0)
                calls += 1
            else:
                d = sent.pop(0)
                require(d.ok and d.exact, 'step %d: a datagram that is not a message was sent: %s', i, d)
                require(running or lastturn, 'step %d: %s was sent while the monitors do not run', i, d.name)
                require(not d.flags & 0x20, 'step %d: %s was sent again', i, d.name)
                for a in d.acks:
                    require(a in taken.get(d.peer, []), 'step %d: an ack of %d was appended that is not due', i, a)
                if d.name == 'PacketAck':
                    for a in d.ids():
                        require(a in taken.get(d.peer, []), 'step %d: %s was acknowledged %d, which is not due: %s', i, d.peer, a, taken)
                        taken[d.peer].remove(a)
                        ls.add('acknowledged')
                    continue
                e = queue.head()
                require(e is not None, 'step %d: %s was sent, though nothing sendable was queued', i, d)
                t = names[e['msg']['name']]
                want = wire.encode_body(t, gen.block_map(e['msg']['blocks']))
                require(d.name == t.name and d.body == want, 'step %d: sent %s with body %s instead of the queued %s with %s', i, d.name,
                        d.body.hex(), t.name, want.hex())
                require(d.peer == tuple(HOST), 'step %d: a queued message was sent to %s', i, d.peer)
                require(bool(d.flags & 0x40) == e['rel'], 'step %d: a message queued with reliable=%s was sent with flags %#x', i, e['rel'], d.flags)
                sent_n += 1
                ls.add('sent reliably' if e['rel'] else 'sent')
                ls.add('urgent' if e['now'] else 'in turn')
        require(not sent and not got, 'step %d: %s %s', i, sent, got)
        if k in ('round', 'advance') and not running and o.get('n', 1):
            lastturn = False
        if o.get('quiet') and running:
            left = [e for e in queue.q if queue.sendable(e)]
            require(not left, 'step %d: %d queued messages were never sent: %s', i, len(left), left[:1])
            require(not inbox, 'step %d: %d datagrams were never received', i, len(inbox))
            require(not expect, 'step %d: handlers were not called: %s', i, expect)
            require(not any(taken.values()), 'step %d: never acknowledged: %s', i, taken)
            ls.add('reached quiet')
        if running and eqon and stt['now'] - since > 2 * case['interval'] and k == 'advance':
            require(stt['posts'] and stt['posts'][-1][0] >= since, 'step %d: the event queue was not polled: %s', i, stt['posts'])
            times = [p[0] for p in stt['posts'] if p[0] >= since]
            require(all(b - a > case['interval'] - 1e-6 for a, b in zip(times, times[1:])) and times[0] > since + case['interval'] - 1e-6 and
                    times[-1] > stt['now'] - 1.01 * case['interval'] - 1e-6,
                    'step %d: the event queue, started at %s, was polled at %s, now is %s; interval %s', i, since, times, stt['now'], case['interval'])
            ls.add('polled')
        if not eqon:
            require(not stt['posts'], 'step %d: the event queue was polled: %s', i, stt['posts'])
        if o.get('probe') == 'stopped':
            require(stt['tasks'] == 0, 'step %d: %d coroutines still run after stopping', i, stt['tasks'])
            posts_at_stop = len(stt['posts'])
        if o.get('probe') == 'still':
            require(stt['tasks'] == 0, 'step %d: %d coroutines run though stopped', i, stt['tasks'])
            require(len(stt['posts']) == posts_at_stop, 'step %d: polled after stopping: %s', i, stt['posts'][posts_at_stop:])
    return bool(sent_n or calls), ls


# ---- handlers of outgoing messages ---------------------------------------------------------------------------------

@st.composite
def outgoing(draw):
    text, pool, msgs = draw(hist.templ())
    pool = pool[:3]

    @st.composite
    def good(draw):
        m = draw(st.sampled_from(pool))
        return {'do': 'enqueue', 'msg': {'name': m.name, 'blocks': draw(hist.cheap_blocks(m))}, 'bad': False,
                'rel': draw(st.booleans()), 'now': draw(st.sampled_from([False, False, True]))}
    subs = []
    for m in pool:
        for h, kind in enumerate(draw(st.lists(st.sampled_from(['record', 'enqueue', 'enqueue', 'raise', 'keyerror', 'unicode']), max_size=2))):
            subs.append({'do': 'subscribe', 'name': m.name, 'h': h, 'kind': kind})
            if kind in FAILING:
                break
    for h, kind in enumerate(draw(st.lists(st.sampled_from(['record', 'raise', 'unicode']), max_size=1))):
        subs.append({'do': 'subscribe', 'name': 'PacketAck', 'h': h, 'kind': kind})
    arrival = hist.unknown(msgs, [0x40, 0x40, 0, 0xC0]).map(lambda d: {'do': 'inbound', 'peer': HOST, 'dgram': d})
    s = draw(hist.log_settings())
    s['HANDLE_OUTGOING_PACKETS'] = True
    ops = draw(st.lists(st.one_of(good(), good(), arrival, st.just({'do': 'round', 'n': 1})), min_size=1, max_size=8))
    again(draw, ops)
    return {'tmpl': text, 'settings': s, 'handler': draw(st.booleans()), 'subs': subs, 'ops': ops,
            'enqueues': draw(st.lists(good(), max_size=5))}


def check_outgoing(case, ctx):
    names, index = hist.tmsgs(case['tmpl'])
    turns = 2 + sum(o['do'] == 'inbound' for o in case['ops'])
    ops = case['subs'] + [{'do': 'start'}] + case['ops'] + [{'do': 'round', 'n': 1}] * turns + [{'do': 'stop'}]
    ops = [hist.lower(o) for o in ops]
    r = ctx.call('manager', tmpl=case['tmpl'], xml='open', settings=case['settings'], handler=case['handler'], eq=None, autostart=False,
                 peer=HOST, enqueues=case['enqueues'], ops=ops, states=True, journal=True)
    byname = {}
    for o in case['subs']:
        byname.setdefault(o['name'], []).append((o['h'], o['kind']))
    q, more, added = [], list(case['enqueues']), 0
    inbox, ls = [], set()
    for i, (o, x) in enumerate(zip(ops, r['steps'])):
        require('exc' not in x and not x['state']['errors'], 'step %d: %s', i, x.get('exc') or x['state']['errors'])
        if o['do'] == 'enqueue':
            q.insert(0, o) if o['now'] else q.append(o)
        if o['do'] == 'inbound':
            raw = bytes.fromhex(o['buf'])
            inbox.append(int.from_bytes(raw[1:5], 'big') if raw[0] & 0x40 else None)
        if o['do'] == 'round':
            # what handlers queue while a message is sent goes out in the same turn or a later one, in its place
            sent, got = [hist.Sent(*y, index=index) for y in x['sent']], list(x['got'])
            require(len(inbox) - x['state']['inbox'] in (0, 1), 'step %d: %d datagrams left of %d', i, x['state']['inbox'], len(inbox))
            pid = inbox.pop(0) if len(inbox) > x['state']['inbox'] else None
            if pid is not None:
                for h, kind in byname.get('PacketAck', []):
                    require(got and got[0][0] == h and got[0][1]['name'] == 'PacketAck', 'step %d: handler %d was not shown the PacketAck sent', i, h)
                    got.pop(0)
                    ls.add('PacketAck shown to a handler' + (' that fails' if kind in FAILING else ''))
                require(sent, 'step %d: %d was not acknowledged', i, pid)
                d = sent.pop(0)
                require(d.ok and d.name == 'PacketAck' and d.ids() == [pid] and d.peer == tuple(HOST), 'step %d: sent %s instead of the acknowledgement of %d',
                        i, d, pid)
            while q and (sent or got):
                e = q.pop(0)
                for h, kind in byname.get(e['msg']['name'], []):
                    require(got and (got[0][0], got[0][1]['name']) == (h, e['msg']['name']), 'step %d: handler %d was not shown the %s sent, calls left: %s', i,
                            h, e['msg']['name'], [g[:1] for g in got])
                    got.pop(0)
                    if kind in FAILING:
                        ls.add('failing handler')
                    if kind == 'enqueue' and more:
                        n = more.pop(0)
                        q.insert(0, n) if n['now'] else q.append(n)
                        added += 1
                require(sent, 'step %d: %s was shown to its handlers and not sent', i, e['msg']['name'])
                d, t = sent.pop(0), names[e['msg']['name']]
                body = wire.encode_body(t, gen.block_map(e['msg']['blocks']))
                require(d.ok and d.name == t.name and d.body == body and bool(d.flags & 0x40) == e['rel'] and d.peer == tuple(HOST),
                        'step %d: sent %s instead of %s with %s', i, d, t.name, body.hex())
            require(not sent and not got, 'step %d: sent though nothing was queued: %s; handlers called: %s', i, sent, [g[:1] for g in got])
    require(not inbox, '%d datagrams were never received', len(inbox))
    require(not q, '%d queued messages were never sent: %s', len(q), q[:1])
    return added > 0 or len(case['ops']) > 1, ls | {'%d queued by handlers' % min(added, 3)}


PARTS = [Part('outgoing', check_outgoing, outgoing, quick=300, thorough=8000),
         Part('histories', check, cases, quick=800, thorough=20000),
         Part('bursts', check, bursts, quick=24, thorough=400)]
