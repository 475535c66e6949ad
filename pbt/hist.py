"""Histories of sends, receives and ack processing over a dispatcher: generation, and reading of what it did."""
from hypothesis import strategies as st

from . import dgrams, gen, template, vals, wire
from .common import require, tmsgs
from .core import Violation

PEERS = [['10.0.0.1', 9000], ['10.0.0.1', 9001], ['10.0.0.2', 9000], ['10.0.0.11', 9000], ['10.0.0.1', 19000], ['10.0.0.1', 900],
         ['127.0.0.1', 1]]
ACKMSG = template.Msg('PacketAck', 'Fixed', 0xFFFFFFFB, 'NotTrusted', 'Unencoded', '',
                      [template.Blk('Packets', 'Variable', 0, [template.Field(('ID', 'U32', 4))])])
LOGGING = ['LOG_VERBOSE', 'ENABLE_BYTES_TO_HEX_LOGGING', 'ENABLE_CAPS_LOGGING', 'ENABLE_CAPS_LLSD_LOGGING',
           'ENABLE_EQ_LOGGING', 'ENABLE_UDP_LOGGING', 'ENABLE_OBJECT_LOGGING', 'LOG_SKIPPED_PACKETS',
           'ENABLE_HOST_LOGGING', 'LOG_COROUTINE_SPAWNS', 'PROXY_LOGGING', 'DISABLE_SPAMMERS',
           'ENABLE_LOGGING_IN_TESTS']
_emb = {}


MORE_KEYS = ['<key>only-send-latest</key><boolean>true</boolean>', '<key>only-send-latest</key><boolean>false</boolean>',
             '<key>service_name</key><string>llsd</string>', '<key>builder</key><string>template</string>',
             '<key>builder</key><string>llsd</string>', '<key>Flavor</key><string>template</string>']


def dot_xml(flavors, more=False):
    """message.xml text from [(name, flavor or None, trusted or None[, index in MORE_KEYS])]. more: with the other
    sections filled in (with entries that concern no message)."""
    def entry(n, fl, tr, extra=None):
        t = '' if fl is None else '<key>flavor</key><string>%s</string>' % fl
        if tr is not None:
            t += '<key>trusted-sender</key><boolean>%s</boolean>' % ('true' if tr else 'false')
        if extra is not None:
            t = MORE_KEYS[extra] + t if extra % 2 else t + MORE_KEYS[extra]
        return '<key>%s</key><map>%s</map>' % (n, t)
    if more:
        return ('<?xml version="1.0"?>\n<llsd>\n <map>\n<!-- defaults -->\n<key>maxQueuedEvents</key><integer>1</integer>\n'
                '<key>messageBans</key><map><key>trusted</key><map/><key>untrusted</key><map/></map>'
                '<key>serverDefaults</key><map><key>simulator</key><string>template</string><key>viewer</key>'
                '<string>template</string></map>\n<key>capBans</key><map><key>MapLayer</key><boolean>false</boolean>'
                '<key>ViewerStartAuction</key><boolean>true</boolean></map>\n<key>messages</key>\n<map>\n%s\n</map>\n'
                '</map>\n</llsd>\n' % '\n'.join(entry(*x) for x in flavors))
    return ('<?xml version="1.0" ?>\n<llsd><map><key>serverDefaults</key><map/><key>messages</key><map>%s</map>'
            '<key>capBans</key><map/><key>maxQueuedEvents</key><integer>100</integer><key>messageBans</key><map/>'
            '</map></llsd>' % ''.join(entry(*x) for x in flavors))


def embedded_names():
    """Names of embedded messages usable in histories (every one with at least one block)."""
    if not _emb:
        _emb['all'] = [m for m in template.embedded()
                       if m.blocks and m.name not in ('PacketAck', 'RegionHandshakeReply')]
        favour = ['TestMessage', 'ChatFromViewer', 'UseCircuitCode', 'StartPingCheck', 'CompletePingCheck',
                  'AgentUpdate', 'ImageData', 'OpenCircuit', 'AgentThrottle']
        _emb['favour'] = [m for m in _emb['all'] if m.name in favour]
    return _emb


@st.composite
def templ(draw, custom=0.5):
    """(text or None, pool of messages to use, all messages); every pool message can carry a block instance and
    PacketAck is known."""
    if draw(st.integers(0, 99)) < custom * 100:
        msgs = draw(gen.templates(max_msgs=4, max_blocks=2, max_fields=3))
        msgs = [m for m in msgs if m.freq != 'Fixed' or m.wire_num() != 0xFB]
        for m in msgs:
            if not m.blocks:
                m.blocks.append(template.Blk('Info', 'Single', 0, [template.Field(('ID', 'U32', 4))]))
        if not msgs:
            msgs = [template.Msg('Alpha', 'High', 1, 'Trusted', 'Unencoded', '',
                                 [template.Blk('Info', 'Single', 0, [template.Field(('ID', 'U32', 4))])])]
        pool = list(msgs)
        msgs = msgs + [ACKMSG]
        return template.write(msgs), pool, msgs
    e = embedded_names()
    k = draw(st.integers(1, 3))
    pool = []
    for _ in range(k):
        m = draw(st.sampled_from(e['favour'] if draw(st.integers(0, 2)) else e['all']))
        if m not in pool:
            pool.append(m)
    if draw(st.integers(0, 11)) == 0:
        return None, pool, template.embedded()
    # the same messages in a file of their own (parsing the whole embedded one is slow)
    msgs = pool + [ACKMSG]
    return template.write(msgs), pool, msgs


@st.composite
def cheap_blocks(draw, m, rich=False):
    if rich:
        return vals.no_nan(draw(gen.blocks(m, big=False, max_each=2)))
    k = draw(st.integers(0, 250))
    out = []
    for blk in m.blocks:
        n = 1 if blk.kind == 'Single' else blk.number if blk.kind == 'Multiple' else draw(st.sampled_from([1, 1, 0, 2]))
        for i in range(n):
            out.append([blk.name, [[fl.name, gen.marker(fl, k + 3 * i + j)] for j, fl in enumerate(blk.fields)]])
    if not out:
        blk = m.blocks[0]
        out.append([blk.name, [[fl.name, gen.marker(fl, k)] for fl in blk.fields]])
    return out


def wrong_values(t):
    """Values of no use for a field of type t."""
    if t in wire.INT or t in ('F32', 'F64'):
        return [None, {'u': 'x'}, {'b': 'ab'}, {'t': []}, [], {'d': []}, {'b': ''}, {'u': ''}, {'obj': 1}]
    if t == 'LLUUID':
        return [None, 5, 0, {'b': ''}, {'b': '\0' * 16}, {'t': [1, 2]}, {'u': '0'}]
    if t in ('LLVector3', 'LLVector3d', 'LLVector4', 'LLQuaternion'):
        return [None, 7, 0, [], {'d': []}, {'t': [1.0]}, {'b': 'abc'}, {'t': []},
                {'t': [1, 2] if t == 'LLQuaternion' else [1, 2, 3, 4, 5]}]
    if t in ('Fixed', 'IPADDR'):
        return [None, 5, 0, {'t': [1]}, [], {'d': []}]
    return [{'t': [1]}, 3, {'f': '3ff8000000000000'}, [1], 0, [], {'d': []}, {'t': []}, False, {'f': '0' * 16},
            [{'b': 'ab'}], {'t': [{'b': 'ab'}]}, [{'b': 'a'}, {'u': 'b'}], [{'b': ''}]]


def fault(m, bl, draw):
    """A single fault put into valid blocks of m: (description, name, blocks), or None if it does not apply."""
    bl = [[n, [list(f) for f in fields]] for n, fields in bl]
    kinds = {b.name: b for b in m.blocks}
    what = draw(st.sampled_from(['name', 'noblock', 'extra', 'nofield', 'type', 'type', 'long', 'fixed', 'many', 'text']))
    if what == 'name':
        return what, draw(st.sampled_from(['NoSuchMessage', m.name + 'X', m.name.lower() + '_', '', ' ' + m.name, m.name + ' ', m.name + '\0', m.name + '\n'])), bl
    fixedb = [b.name for b in m.blocks if b.kind != 'Variable']
    if what == 'noblock' and fixedb:
        b = draw(st.sampled_from(fixedb))
        out = [x for x in bl if x[0] != b]
        if draw(st.booleans()):
            i = next(i for i, x in enumerate(bl) if x[0] == b)
            out = bl[:i] + bl[i + 1:]                       # one instance too few
        return what, m.name, out
    if what == 'extra' and fixedb:
        b = draw(st.sampled_from(fixedb))
        i = next(i for i, x in enumerate(bl) if x[0] == b)
        return what, m.name, bl + [bl[i]]
    if what == 'many':
        var = [b.name for b in m.blocks if b.kind == 'Variable' and len(b.fields) <= 3]
        if var:
            b = draw(st.sampled_from(var))
            one = [b, [[fl.name, gen.marker(fl, 1)] for fl in kinds[b].fields]]
            return what, m.name, [x for x in bl if x[0] != b] + [one] * draw(st.sampled_from([256, 257, 300]))
    spots = [(i, j) for i, (n, f) in enumerate(bl) for j in range(len(f))]
    if not spots:
        return None
    binary = [(i, j) for i, j in spots if bl[i][1][j][0] == 'Data']
    i, j = draw(st.sampled_from(binary if binary and draw(st.booleans()) else spots))
    fl = next(f for f in kinds[bl[i][0]].fields if f.name == bl[i][1][j][0])
    if what == 'nofield':
        del bl[i][1][j]
        return what, m.name, bl
    t = fl.type
    if what == 'type':
        bad = draw(st.sampled_from(wrong_values(t)))
        bl[i][1][j][1] = bad
        return what, m.name, bl
    spots = [(i, j, f) for i, (n, fs) in enumerate(bl) for j in range(len(fs))
             for f in [next(f for f in kinds[n].fields if f.name == fs[j][0])]]
    if what in ('fixed',):
        sp = [s for s in spots if s[2].type in ('Fixed', 'IPADDR')]
        if sp:
            i, j, f = draw(st.sampled_from(sp))
            n = draw(st.sampled_from([0, f.size - 1, f.size + 1, f.size * 2, f.size + 4]))
            bl[i][1][j][1] = {'b': 'q' * n}
            return what, m.name, bl
    if what in ('long', 'text'):
        sp = [s for s in spots if s[2].type == 'Variable' and s[2].size < (3 if draw(st.booleans()) else 2)]
        if sp:
            i, j, f = draw(st.sampled_from(sp))
            room = 2 ** (8 * f.size) - (1 if f.name == 'Data' else 2)
            n = room + draw(st.sampled_from([1, 1, 2, 255, 256]))
            if what == 'text':
                # short in characters, too long in UTF-8
                bl[i][1][j][1] = {'u': '\u20ac' * (n // 3 + 1)}
            else:
                bl[i][1][j][1] = {'b': 'z' * n}
            return what, m.name, bl
    return None




FLAGS = [0, 0x40, 0x40, 0x40, 0x80, 0xC0, 0x10, 0x50, 0x50, 0x60, 0xD0, 0xE0, 0x20, 0x70]


@st.composite
def inbound(draw, m, flags=None, pids=None, ackids=None):
    """Parts of a valid datagram of m (a dict for dgrams.build) with cheap content."""
    fl = draw(st.sampled_from(FLAGS if flags is None else flags))
    bl = draw(cheap_blocks(m))
    b = wire.encode_body(m, gen.block_map(bl))
    if draw(st.integers(0, 9)) == 0:
        b += draw(st.sampled_from([b'\0', b'\1\2\3', b'\0\0\0\5']))
    extra = draw(st.sampled_from(['', '', '', '', '00', 'ff01', '0000000000']))
    acks = []
    if fl & 0x10:
        acks = draw(st.lists(st.integers(1, 12) if ackids is None else ackids, min_size=0 if ackids is None else 1, max_size=5))
        if draw(st.integers(0, 15)) == 0:
            acks = acks + list(range(1, 200))
    return {'name': m.name, 'flags': fl, 'pid': draw(PIDS if pids is None else pids), 'extra': extra, 'body': b.hex(), 'cuts': [],
            'acks': acks[:255]}


PIDS = st.one_of(st.integers(1, 9), st.sampled_from([0, 255, 256, 65536, 2**31, 2**32 - 1]), st.integers(0, 2**32 - 1))
ACKIDS = st.one_of(st.integers(1, 6), st.integers(1, 20), st.sampled_from([0, 2**32 - 1, 65537, 0x01000000]),
                   st.builds(lambda k, i: (1 << k) + i, st.sampled_from([7, 8, 10, 12, 15, 16, 24, 31]), st.integers(1, 6)))


@st.composite
def packetack(draw, flags=None, ackids=None):
    fl = draw(st.sampled_from(flags or [0, 0, 0x40, 0x10, 0x80, 0x50]))
    ids = draw(st.lists(ACKIDS if ackids is None else ackids, min_size=1, max_size=6))
    body = wire.encode_body(ACKMSG, {'Packets': [{'ID': i} for i in ids]})
    acks = draw(st.lists(ACKIDS if ackids is None else ackids, max_size=3)) if fl & 0x10 else []
    return {'name': 'PacketAck', 'flags': fl, 'pid': draw(PIDS), 'extra': '', 'body': body.hex(), 'cuts': [],
            'acks': acks, 'ids': ids}


def unused_number(msgs):
    used = {(m.freq, m.wire_num()) for m in msgs}
    out = []
    for fr, cand in (('High', range(1, 255)), ('Medium', range(1, 255)), ('Low', range(60000, 60010)),
                     ('Fixed', range(0, 250))):
        n = next((c for c in cand if (fr, c) not in used), None)
        if n is not None:
            out.append(template.Msg('?', fr, n, '', '', '', []).num_bytes())
    return out


@st.composite
def unknown(draw, msgs, flags=None, ackids=None):
    num = draw(st.sampled_from(unused_number(msgs)))
    fl = draw(st.sampled_from(FLAGS if flags is None else flags))
    return {'name': None, 'flags': fl, 'pid': draw(PIDS), 'extra': draw(st.sampled_from(['', '00', 'aabb'])),
            'body': (num + draw(st.sampled_from([b'', b'\x01\x02', b'abc\0\0\0d']))).hex(), 'cuts': [],
            'acks': draw(st.lists(ACKIDS if ackids is None else ackids, min_size=0 if ackids is None else 1, max_size=3)) if fl & 0x10 else []}


@st.composite
def malformed(draw, pool, mask=0xFF):
    """A datagram that cannot be decoded (hex); flag bits outside `mask` are clear."""
    kind = draw(st.sampled_from('sscre'))
    if kind == 'r':
        b = bytearray(draw(st.binary(min_size=1, max_size=6)))
    elif kind == 's':
        m = draw(st.sampled_from(pool))
        d = draw(inbound(m))
        d['acks'], d['extra'] = [], ''
        d['flags'] &= ~0x90
        full = bytes([d['flags']]) + d['pid'].to_bytes(4, 'big') + b'\0' + \
            wire.encode_body(m, wire_full(m))
        b = bytearray(full[:draw(st.one_of(st.integers(1, len(full) - 1), st.integers(max(1, len(full) - 9), len(full) - 1)))])
    elif kind == 'c':
        b = bytearray([0x50] + [0, 0, 0, 9, 0, 1, 2, draw(st.sampled_from([2, 63, 255]))])
    else:
        b = bytearray([draw(st.sampled_from([0, 0x40, 0x80]))]) + bytearray([0, 0, 0, 3, 255, 1, 2, 3])
    b[0] &= mask
    return bytes(b).hex()


def wire_full(m):
    """Blocks of m with one instance of each variable block (marker values), for truncation."""
    out = {}
    for blk in m.blocks:
        n = blk.number if blk.kind == 'Multiple' else 1
        out[blk.name] = [{fl.name: gen.marker(fl, i + 2) for fl in blk.fields} for i in range(n)]
    return out


# ---- running and reading back ------------------------------------------------------------------------------------

def lower(op):
    """The op as the worker takes it."""
    if 'dgram' in op:
        op = dict(op, buf=dgrams.build(op['dgram']).hex())
        del op['dgram']
    return op


class Sent:
    def __init__(self, ip, port, hexbuf, index):
        self.peer = (ip, port)
        self.raw = bytes.fromhex(hexbuf) if hexbuf is not None else None
        self.ok = False
        if not self.raw:
            return
        self.verdict, self.t, self.blocks, self.pid, self.acks = dgrams.reading(self.raw, index)
        if self.verdict not in ('ok', 'empty'):
            return
        self.ok = True
        self.flags = self.raw[0]
        self.name = self.t.name
        _, used = wire.read_body(self.t, self.raw[6:len(self.raw) - self.tail()])
        self.body = self.raw[6:6 + used]
        want = 6 + used + self.tail() + (4 if self.name == 'RegionHandshakeReply' else 0)
        self.exact = want == len(self.raw) and self.raw[5] == 0

    def tail(self):
        return 1 + 4 * len(self.acks) if self.raw[0] & wire.ACK else 0

    def ids(self):
        """Ids a PacketAck carries."""
        return [b['ID'][1] for b in self.blocks.get('Packets', [])]

    def __repr__(self):
        return '%s %s' % (self.peer, self.raw and self.raw.hex())


class Step:
    pass


def run(ctx, case, **kw):
    """Runs the history; a list of steps with everything read back. A datagram that makes no sense is a violation of
    any of these properties."""
    index = tmsgs(case['tmpl'])[1]
    a = dict((k, v) for k, v in case.items() if k in ('tmpl', 'xml', 'settings', 'handler', 'notfile'))
    a.update(kw)
    res = ctx.call('dispatch', ops=[lower(o) for o in case['ops']], **a)
    out = []
    for op, r in zip(case['ops'], res['steps']):
        s = Step()
        s.op, s.r = op, r
        s.sent = [Sent(*x, index=index) for x in r['sent']]
        for x in s.sent:
            require(x.ok, 'a datagram that is not a message was sent: %s', x)
            require(x.exact, 'a datagram with an unexpected length or header was sent: %s', x)
        s.refused = [Sent(*x, index=index) for x in r.get('refused', [])]
        s.got, s.ret, s.exc = r['got'], r.get('ret'), r.get('exc')
        s.state = r.get('state')
        s.verdict = None
        if op['do'] == 'recv':
            s.peer = tuple(op['peer'])
            s.data = bytes.fromhex(lower(op)['buf'])
            s.verdict, s.t, s.blocks, s.pid, s.acks = dgrams.reading(s.data, index)
            s.reliable = bool(s.data[0] & 0x40) if s.data else False
        elif 'peer' in op:
            s.peer = tuple(op['peer'])
        out.append(s)
    return out, res['state']


def send_outcome(s):
    """For a send step: the datagram of the message itself (the last of the step), or None if it was not sent.
    The return value must agree."""
    mine = [x for x in s.sent]
    if s.ret is None:
        return None
    raw = bytes.fromhex(s.ret) if isinstance(s.ret, str) else None
    if not mine or mine[-1].raw != raw:
        raise Violation('sending returned %s but the datagrams sent were %s' % (s.ret, mine))
    return mine[-1]


@st.composite
def received(draw):
    """What a message may carry from where it was received (none of it matters for sending it)."""
    out = {'host': draw(st.sampled_from(PEERS + [['10.9.9.9', 99]]))}
    for k, vs in (('reliable', [True]), ('resent', [True]), ('trusted', [True]), ('retries', [0, 1, 7]),
                  ('event_queue_id', [-1, 5])):
        if draw(st.booleans()):
            out[k] = draw(st.sampled_from(vs))
    return out


@st.composite
def history(draw, kinds, min_ops=1, max_ops=14, peers=None, tmpl=None, opts=None):
    """(text, pool, msgs, ops). kinds: list of op kinds (repeat for weight). opts: dict of per-kind options."""
    opts = opts or {}
    text, pool, msgs = tmpl or draw(templ())
    ps = draw(st.lists(st.sampled_from(peers or PEERS), min_size=1, max_size=opts.get('max_peers', 4),
                       unique_by=tuple))
    peer = st.sampled_from(ps)
    ops = []
    count = {}

    def acker():
        """A peer, likely one with something to acknowledge, and the ids it may acknowledge."""
        p = draw(peer)
        if not opts.get('live') or draw(st.integers(0, 5)) == 0:
            return p, opts.get('ackids')
        if count:
            p = draw(st.sampled_from([x for x in ps if tuple(x) in count]))
        near = st.integers(1, count.get(tuple(p), 0) + 1)
        return p, st.one_of(near, near, near, ACKIDS)
    n = draw(st.integers(min_ops, max_ops))
    if draw(st.integers(0, 9)) == 0:
        n = draw(st.integers(max_ops, max_ops * 3))
    trail = opts.get('trail', [])
    for i in range(n + len(trail)):
        k = draw(st.sampled_from(trail[i - n] if i >= n else kinds if i or not opts.get('lead') else opts['lead']))
        how = draw(st.sampled_from(['fresh', 'same']))
        if k in ('send', 'sendrel', 'sendun'):
            m = draw(st.sampled_from(pool))
            rel = {'send': draw(st.booleans()), 'sendrel': True, 'sendun': False}[k]
            op = {'do': 'send', 'peer': draw(peer), 'rel': rel, 'how': how,
                  'msg': {'name': m.name, 'blocks': draw(cheap_blocks(m, rich=draw(st.integers(0, 9)) == 0))}}
            if rel:
                op['retries'] = draw(st.sampled_from(opts.get('retries', [0, 0, 1, 2, 3])))
            elif opts.get('asretry') and draw(st.integers(0, 4)) == 0:
                op['retry'] = True
            if draw(st.integers(0, 4)) == 0:
                op['call'] = True
            if opts.get('scribble') and draw(st.integers(0, 3)) == 0:
                op['scribble'] = True
            if opts.get('sockfail') and draw(st.integers(0, 4)) == 0:
                op['sockfail'] = 'all'
            if draw(st.integers(0, 5)) == 0:
                op['msg']['acks'] = [77777]          # left over from before; not the circuit's
                op['msg']['flags'] = draw(st.sampled_from([0, 0x10, 0x40, 0xFF]))
            if draw(st.integers(0, 5)) == 0:
                op['msg'].update(draw(received()))
            prev = [(i, o) for i, o in enumerate(o for o in ops if o['do'] == 'send')
                    if not o.get('scribble') and 'fault' not in o]
            if opts.get('again') and prev and draw(st.integers(0, 3)) == 0:
                # a message object sent before
                i, o = draw(st.sampled_from(prev))
                op['msg'] = o['msg']
                op['ref'] = o.get('ref', i)
                op.pop('scribble', None)
            ops.append(op)
        elif k == 'sendack':
            ids = draw(st.lists(ACKIDS, min_size=1, max_size=4))
            ops.append({'do': 'send', 'peer': draw(peer), 'rel': draw(st.booleans()), 'how': how, 'retries': 0,
                        'msg': {'name': 'PacketAck', 'blocks': [['Packets', [['ID', i]]] for i in ids]}})
        elif k == 'badsend':
            m = draw(st.sampled_from(pool))
            f = fault(m, draw(cheap_blocks(m)), draw)
            if f is not None:
                ops.append({'do': 'send', 'peer': draw(peer), 'rel': draw(st.booleans()), 'how': how,
                            'retries': draw(st.sampled_from([0, 1, 2])), 'fault': f[0],
                            'msg': {'name': f[1], 'blocks': f[2]}})
        elif k == 'nohost':
            m = draw(st.sampled_from(pool))
            p = draw(st.sampled_from([[None, 9000], ['10.0.0.1', None], ['10.0.0.1', 0], [None, None]]))
            ops.append({'do': 'send', 'peer': p, 'rel': draw(st.booleans()), 'retries': 1, 'nohost': True,
                        'msg': {'name': m.name, 'blocks': draw(cheap_blocks(m))}})
        elif k == 'recv':
            m = draw(st.sampled_from(pool))
            p, ids = acker()
            ops.append({'do': 'recv', 'peer': p, 'how': how,
                        'dgram': draw(inbound(m, opts.get('flags'), ackids=ACKIDS if ids is None else ids))})
            if draw(st.integers(0, 5)) == 0:
                ops[-1]['scribble'] = True
        elif k == 'recvrel':
            m = draw(st.sampled_from(pool))
            ops.append({'do': 'recv', 'peer': draw(peer), 'how': how,
                        'dgram': draw(inbound(m, [0x40, 0x40, 0xC0, 0x60]))})
        elif k == 'recvack':
            p, ids = acker()
            ops.append({'do': 'recv', 'peer': p, 'how': how, 'dgram': draw(packetack(ackids=ids))})
        elif k == 'unknown':
            p, ids = acker()
            ops.append({'do': 'recv', 'peer': p, 'how': how,
                        'dgram': draw(unknown(msgs, opts.get('flags'), ids))})
        elif k == 'bad':
            ops.append({'do': 'recv', 'peer': draw(peer), 'how': how,
                        'buf': draw(malformed(pool, opts.get('badmask', 0xFF)))})
        elif k == 'dup':
            prev = [o for o in ops if o['do'] == 'recv' and 'dgram' in o]
            if prev:
                o = dict(draw(st.sampled_from(prev)))
                if draw(st.integers(0, 3)) == 0:
                    o['peer'] = draw(peer)
                o.pop('scribble', None)
                if draw(st.integers(0, 3)) == 0:
                    ops[-1:] = [dict(o, scribble=True), o] if ops[-1] == o else [ops[-1], dict(o, scribble=True)]
                ops.append(o)
        elif k == 'flood':
            # many reliable datagrams in a row
            m = draw(st.sampled_from(pool))
            d = draw(inbound(m, [0x40]))
            p = draw(peer)
            base = draw(st.sampled_from([1, 1, 65000, 2**32 - 400]))
            n_ = draw(st.sampled_from(opts.get('flood') or [10, 100, 250, 251, 252, 255, 256, 257, 300, 502, 520, 1030, 2060]))
            w = draw(st.sampled_from([n_, n_, n_, n_ // 2 + 1, 3, 1]))       # the same ones again and again
            for i in range(n_):
                ops.append({'do': 'recv', 'peer': p, 'how': 'same', 'dgram': dict(d, pid=(base + i % w) % 2**32)})
        elif k == 'crowd':
            # the same from many peers, or to them
            m = draw(st.sampled_from(pool))
            d = draw(inbound(m, [0x40]))
            msg = {'name': m.name, 'blocks': draw(cheap_blocks(m))}
            base = draw(st.integers(1, 60000))
            size = draw(st.sampled_from([9, 17, 33, 65, 70, 101, 130]))
            crowd = [['10.%d.%d.%d' % (1 + i % 3, i // 3 % 7, i), base + i // 2] for i in range(1, size)]
            what = draw(st.sampled_from(opts.get('crowd', ['send', 'recv'])))
            for q in crowd:
                if what == 'recv':
                    ops.append({'do': 'recv', 'peer': q, 'how': 'fresh', 'dgram': d})
                else:
                    ops.append({'do': 'send', 'peer': q, 'how': 'fresh', 'rel': True, 'msg': msg,
                                'retries': opts.get('retries', [1])[-1]})
                    count[tuple(q)] = count.get(tuple(q), 0) + 1
            ps = ps + [crowd[0], crowd[-1], crowd[size // 2]]
            peer = st.sampled_from(ps)
            continue
        elif k == 'bulk':
            # many reliable messages in a row
            m = draw(st.sampled_from(pool))
            msg = {'name': m.name, 'blocks': draw(cheap_blocks(m))}
            q = draw(peer)
            rs = opts.get('retries', [1])
            few = [draw(st.sampled_from(rs)) for _ in range(3)]
            for i in range(draw(st.sampled_from(opts.get('bulk') or [100, 250, 255, 256, 257, 300, 520]))):
                ops.append({'do': 'send', 'peer': q, 'how': 'same', 'rel': True, 'msg': msg,
                            'retries': few[i * 7 // 3 % 3] if i < 2 or opts.get('bulk') else rs[-1]})
                count[tuple(q)] = count.get(tuple(q), 0) + 1
            continue
        elif k == 'skip':
            # the numbers of this peer move on
            m = draw(st.sampled_from(pool))
            q = draw(peer)
            top = count.get(tuple(q), 0)
            to = draw(st.sampled_from([x for x in (14, 30, 61, 98, 125, 253, 510, 997, 4093) if x > top] or [top + 5]))
            ops.append({'do': 'burst', 'peer': q, 'how': how, 'n': to - top,
                        'msg': {'name': m.name, 'blocks': draw(cheap_blocks(m))}})
            count[tuple(q)] = to
            continue
        elif k == 'ackrange':
            q = draw(st.sampled_from([x for x in ps if tuple(x) in count] or ps))
            top = count.get(tuple(q), 0)
            many = draw(st.sampled_from(opts.get('ackrange') or [50, 127, 128, 200, 250, 251, 252, 253, 254, 255]))
            a = draw(st.integers(max(0, top - 300) if opts.get('ackrange') else 0, max(0, top - many + 3)))
            if draw(st.booleans()):
                body = wire.encode_body(ACKMSG, {'Packets': [{'ID': a + i} for i in range(many)]})
                d = {'name': 'PacketAck', 'flags': draw(st.sampled_from([0, 0x80])), 'pid': draw(PIDS), 'extra': '',
                     'body': body.hex(), 'cuts': [], 'acks': []}
            else:
                m = draw(st.sampled_from(pool))
                d = dict(draw(inbound(m, [0x10, 0x90, 0x50])), acks=list(range(a, a + many)))
            ops.append({'do': 'recv', 'peer': q, 'how': how, 'dgram': d})
        elif k == 'acks':
            for _ in range(draw(st.sampled_from([1, 1, 1, 1, 9, 30])) - 1 if opts.get('storm') else 0):
                ops.append({'do': 'acks'})
            ops.append({'do': 'acks'})
            if opts.get('sockfail') and draw(st.integers(0, 4)) == 0:
                ops[-1]['sockfail'] = 'resent'
        elif k == 'remove':
            ops.append({'do': 'remove', 'peer': draw(peer)})
        elif k in ('find', 'alive'):
            ops.append({'do': k, 'peer': draw(peer), 'how': how})
        elif k == 'replysub':
            m, m2 = draw(st.sampled_from(pool)), draw(st.sampled_from(pool))
            ops.append({'do': 'subscribe', 'name': m.name, 'h': 9, 'kind': 'reply'})
            ops.append({'do': 'replies', 'msgs': [{'name': m2.name, 'blocks': draw(cheap_blocks(m2))}
                                                  for _ in range(draw(st.integers(1, 3)))]})
        elif k in ('subscribe', 'unsubscribe', 'register'):
            nm = draw(st.sampled_from([m.name for m in pool] + ['PacketAck', 'Nothing']))
            op = {'do': k, 'name': nm}
            if k != 'register':
                op['h'] = draw(st.integers(0, 3))
            ops.append(op)
        else:
            raise AssertionError(k)
        if ops and ops[-1]['do'] == 'send':
            p = tuple(ops[-1]['peer'])
            count[p] = count.get(p, 0) + 1
    return text, pool, msgs, ops


@st.composite
def log_settings(draw):
    if draw(st.booleans()):
        return {}
    out = {}
    if draw(st.integers(0, 3)) == 0:
        out['_defaults'] = True
    elif draw(st.integers(0, 2)) == 0:
        out['_init'] = {draw(st.sampled_from(['quiet_logging', 'spammy_logging'])): True}
    for n in draw(st.lists(st.sampled_from(LOGGING), max_size=5, unique=True)):
        out[n] = draw(st.booleans())
    return out


@st.composite
def case(draw, kinds, deferred=True, settings=True, xml='open', **kw):
    text, pool, msgs, ops = draw(history(kinds, **kw))
    s = draw(log_settings()) if settings else {}
    if deferred and draw(st.booleans()):
        s['ENABLE_DEFERRED_PACKET_PARSING'] = False
    c = {'tmpl': text, 'xml': xml, 'settings': s, 'handler': draw(st.booleans()), 'ops': ops}
    if text is None and draw(st.booleans()):
        # the embedded template is used instead
        c['notfile'] = draw(st.sampled_from([{'b': 'message_template.msg'}, {'u': 'x'}, {'b': ''}, {'t': [1]}, 1]))
    return c
