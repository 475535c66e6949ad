"""C11: message.xml decides what goes over UDP, in every layer."""
import os
import xml.etree.ElementTree as ET

from hypothesis import strategies as st

from .. import dgrams, gen, hist, template, wire
from ..common import bmap, require, tmsgs
from ..core import Part

RULE = ('A case is a message.xml (the embedded one or a generated one) and names, or a history of sends and receives, put '
        'to the policy object, to encoder and decoder, to the dispatcher or to the manager. Non-trivial: both a refused '
        'and an allowed message were tried; distinct by content.')
ASSUMPTIONS = ['for an entry without a flavour no verdict is claimed, only that every layer copes with it']

_embedded = {}


def embedded_policy():
    """{name: flavor} of the embedded message.xml, read with an XML parser of another make."""
    if not _embedded:
        tree = ET.parse(os.path.join(template.repo(), 'pyogp/lib/base/message/data/message.xml'))

        def amap(node):
            kids = list(node)
            return {kids[i].text: kids[i + 1] for i in range(0, len(kids) - 1, 2)}
        top = amap(tree.getroot()[0])
        for n, e in amap(top['messages']).items():
            fl = amap(e).get('flavor')
            _embedded[n] = None if fl is None else fl.text
    return _embedded


def verdicts(xml):
    """{listed name: True / False / None (no claim)}"""
    d = embedded_policy() if xml is None else {x[0]: x[1] for x in xml}
    return {n: None if fl is None else fl == 'template' for n, fl in d.items()}


def text_of(xml):
    return None if xml is None else hist.dot_xml(xml, any(len(x) > 3 for x in xml))


FLAVORS = ['template', 'template', 'llsd', 'llsd', 'event-queue', 'Template', 'templates', 'TEMPLATE', None]


def varied(name):
    return [name, name, name, name.lower(), name.upper(), name + 'X', name[:-1], name + '_' * (60 - len(name)) + 'Long' * 60]


def near(name):
    """Names one may be asked for, but not written into a message.xml."""
    return varied(name) + [' ' + name, name + ' ', name + '\n', '\t' + name + '\t', name + '\0', '"%s"' % name, name[1:], name + '.' + name, '', ' ']


@st.composite
def xmls(draw, names):
    out = []
    for n in draw(st.lists(st.sampled_from(names), max_size=6, unique=True)):
        n = draw(st.sampled_from(varied(n)))
        if n and n not in [x[0] for x in out]:
            out.append([n, draw(st.sampled_from(FLAVORS)), draw(st.sampled_from([None, True, False]))] + draw(st.sampled_from([[], [], [0], [1], [2], [3], [4], [5]])))
    return out


@st.composite
def policy_cases(draw):
    names = [m.name for m in template.embedded()]
    if draw(st.integers(0, 2)) == 0:
        xml = None
        listed = sorted(embedded_policy())
    else:
        xml = draw(xmls(draw(st.lists(st.sampled_from(names), min_size=1, max_size=8, unique=True))))
        listed = [x[0] for x in xml] or ['Nothing']
    ask = st.one_of(st.sampled_from(listed), st.sampled_from(listed).flatmap(lambda n: st.sampled_from(near(n))),
                    st.sampled_from(names))
    return {'xml': xml, 'names': draw(st.lists(ask, min_size=1, max_size=30))}


def check_policy(case, ctx):
    v = verdicts(case['xml'])
    r = ctx.call('policy', xml=text_of(case['xml']), names=case['names'])
    require('allowed' in r, 'reading message.xml failed: %s', r)
    seen = set()
    for n, got in zip(case['names'], r['allowed']):
        require(isinstance(got, bool), 'asking for %r gave %s', n, got)
        want = v.get(n, True)
        seen.add(want)
        require(want is None or got == want, '%r is %s over UDP, message.xml says %s', n,
                'allowed' if got else 'refused', 'otherwise')
    return {True, False} <= seen, ('embedded' if case['xml'] is None else 'generated',)


def policy_sweep(tier):
    names = sorted(set(embedded_policy()) | {m.name for m in template.embedded()})
    odd = [x for n in names for x in near(n)]
    return [{'xml': None, 'names': names}, {'xml': None, 'names': names[::-1] + names}, {'xml': None, 'names': odd + odd[::-1]}]


# ---- encoder and decoder ---------------------------------------------------------------------------------------

@st.composite
def pool_and_xml(draw):
    """(text, pool, msgs, xml) with some pool messages refused."""
    if draw(st.integers(0, 2)) == 0:
        ban = [m for m in template.embedded() if verdicts(None).get(m.name) is False and m.blocks]
        free = [m for m in template.embedded() if verdicts(None).get(m.name, True) and m.blocks
                and m.name not in ('PacketAck', 'RegionHandshakeReply')]
        pool = [draw(st.sampled_from(ban)), draw(st.sampled_from(ban)), draw(st.sampled_from(free))]
        pool = list({m.name: m for m in pool}.values())
        msgs = pool + [hist.ACKMSG]
        return template.write(msgs), pool, msgs, None
    text, pool, msgs = draw(hist.templ())
    if text is None:
        msgs = pool + [hist.ACKMSG]
        text = template.write(msgs)
    return text, pool, msgs, draw(xmls([m.name for m in pool]))


@st.composite
def codec_cases(draw):
    text, pool, msgs, xml = draw(pool_and_xml())
    out = []
    for _ in range(draw(st.integers(1, 6))):
        m = draw(st.sampled_from(pool))
        out.append({'name': m.name, 'blocks': draw(hist.cheap_blocks(m)), 'pid': draw(gen.IDS),
                    'flags': draw(st.sampled_from([0, 0x40]))})
    return {'tmpl': text, 'xml': xml, 'msgs': out}


def check_codec(case, ctx):
    v = verdicts(case['xml'])
    names = tmsgs(case['tmpl'])[0]
    enc = ctx.call('encode', tmpl=case['tmpl'], xml=text_of(case['xml']), msgs=case['msgs'])
    bufs = [wire.datagram(m['flags'], m['pid'], wire.encode_body(names[m['name']], bmap(m['blocks'])))
            for m in case['msgs']]
    dec = ctx.call('decode_many', tmpl=case['tmpl'], xml=text_of(case['xml']), bufs=[b.hex() for b in bufs])
    seen = set()
    for m, b, e, d in zip(case['msgs'], bufs, enc, dec):
        want = v.get(m['name'], True)
        seen.add(want)
        if want is None:
            require('exc' not in e and 'exc' not in d, '%s, listed without a flavour: %s %s', m['name'], e, d)
            continue
        require(e == ({'hex': b.hex()} if want else {'none': True}), 'encoding %s (%s over UDP) gave %s', m['name'],
                'allowed' if want else 'refused', e)
        require(('msg' in d) if want else d == {'none': True}, 'decoding %s (%s over UDP) gave %s', m['name'],
                'allowed' if want else 'refused', d)
        if want:
            require(d['msg']['name'] == m['name'], '%s was decoded as %s', m['name'], d['msg']['name'])
    return {True, False} <= seen, ('embedded' if case['xml'] is None else 'generated',)


# ---- dispatcher and manager ------------------------------------------------------------------------------------

@st.composite
def dispatch_cases(draw, manager=False):
    text, pool, msgs, xml = draw(pool_and_xml())
    peers = [['10.0.0.1', 9000], ['10.0.0.2', 9000]]
    ops = [{'do': 'subscribe', 'name': m.name, 'h': i} for i, m in enumerate(pool) if draw(st.integers(0, 4))]
    for _ in range(draw(st.integers(1, 10))):
        m = draw(st.sampled_from(pool))
        if draw(st.booleans()):
            ops.append({'do': 'send', 'peer': draw(st.sampled_from(peers)), 'rel': draw(st.booleans()),
                        'retries': draw(st.sampled_from([0, 1])),
                        'msg': {'name': m.name, 'blocks': draw(hist.cheap_blocks(m))}})
        else:
            ops.append({'do': 'recv', 'peer': draw(st.sampled_from(peers)), 'dgram': draw(hist.inbound(m))})
    s = draw(hist.log_settings())
    if draw(st.booleans()):
        s['ENABLE_DEFERRED_PACKET_PARSING'] = False
    if draw(st.integers(0, 5)) == 0:
        s['HANDLE_OUTGOING_PACKETS'] = True
    return {'tmpl': text, 'xml': xml, 'settings': s, 'ops': ops, 'handler': draw(st.booleans()),
            'given': draw(st.sampled_from(['file', 'file', 'other'])) if manager else None}


def check_dispatch(case, ctx):
    v = verdicts(case['xml'])
    c = dict(case, xml=text_of(case['xml']))
    steps, _ = hist.run(ctx, c, states=True)
    seen = set()
    watched = {o['name']: o['h'] for o in case['ops'] if o['do'] == 'subscribe'}
    outgoing = case['settings'].get('HANDLE_OUTGOING_PACKETS')
    for i, s in enumerate(steps):
        if s.op['do'] == 'send':
            n = s.op['msg']['name']
            want = v.get(n, True)
            seen.add(want)
            require(s.exc is None, 'step %d: sending %s raised %s', i, n, s.r)
            if want is True:
                d = hist.send_outcome(s)
                require(d is not None and len(s.sent) == 1 and d.name == n, 'step %d: %s was not sent: %s', i, n, s.r)
            elif want is False:
                require(s.ret is None and not s.sent, 'step %d: %s was sent over UDP', i, n)
                mine = [c for c in s.state['circuits'] if tuple(c[:2]) == s.peer]
                require(not mine or prev(steps, i, s.peer) == mine[0][2], 'step %d: %s is awaited', i, n)
        elif s.op['do'] == 'recv':
            n = s.t.name
            want = v.get(n, True)
            seen.add(want)
            require(s.exc is None, 'step %d: receiving %s raised %s', i, n, s.r)
            got = [g[0] for g in s.got]
            if want is True:
                require(got == ([watched[n]] if n in watched else []), 'step %d: %s, allowed over UDP, reached %s', i,
                        n, got)
            elif want is False:
                require(not got and s.ret is None, 'step %d: %s was delivered over UDP', i, n)
    return {True, False} <= seen, ('embedded' if case['xml'] is None else 'generated',)


def prev(steps, i, peer):
    for s in reversed(steps[:i]):
        if s.state:
            for c in s.state['circuits']:
                if tuple(c[:2]) == peer:
                    return c[2]
    return []


def check_manager(case, ctx):
    """The same through the manager: queued messages and inbound datagrams."""
    xml, policy = text_of(case['xml']), case['xml']
    if case['given'] == 'other':
        # not a file: the embedded message.xml is used
        xml, policy = {'b': 'not a file'}, None
    v = verdicts(policy)
    names, index = tmsgs(case['tmpl'])
    ops = [o for o in case['ops'] if o['do'] == 'subscribe'] + [{'do': 'start'}]
    want_sent, want_got = [], []
    watched = {o['name']: o['h'] for o in case['ops'] if o['do'] == 'subscribe'}
    claims = True
    seen = set()
    for o in case['ops']:
        if o['do'] == 'send':
            ops.append({'do': 'enqueue', 'msg': o['msg'], 'rel': o['rel']})
            n = o['msg']['name']
            w = v.get(n, True)
            if w:
                want_sent.append(n)
        elif o['do'] == 'recv':
            ops.append({'do': 'inbound', 'peer': o['peer'], 'buf': dgrams.build(o['dgram']).hex()})
            n = o['dgram']['name']
            w = v.get(n, True)
            if w and n in watched:
                want_got.append(watched[n])
        else:
            continue
        seen.add(w)
        claims = claims and w is not None
        ops.append({'do': 'round', 'n': 2})
    ops.append({'do': 'round', 'n': 4})
    ops.append({'do': 'stop'})
    settings = dict(case['settings'], HANDLE_OUTGOING_PACKETS=False)
    r = ctx.call('manager', tmpl=case['tmpl'], xml=xml, settings=settings, peer=['10.0.0.1', 9000],
                 handler=case['handler'], ops=ops)
    for i, s in enumerate(r['steps']):
        require('exc' not in s, 'step %d: %s raised %s', i, ops[i]['do'], s)
    require(not r['state']['errors'], 'a coroutine ended with %s', r['state']['errors'])
    if not claims:
        return False, ()
    sent = [hist.Sent(*x, index=index) for s in r['steps'] for x in s['sent']]
    names_sent = [d.name for d in sent if d.name != 'PacketAck']
    require(names_sent == want_sent, 'sent %s, allowed over UDP are %s', names_sent, want_sent)
    got = [g[0] for s in r['steps'] for g in s['got']]
    require(got == want_got, 'delivered to %s, expected %s', got, want_got)
    return {True, False} <= seen, ('message_xml given as ' + case['given'],)


PARTS = [Part('policy, embedded', check_policy, cases=policy_sweep),
         Part('policy', check_policy, strategy=policy_cases, quick=500, thorough=8000),
         Part('encoder and decoder', check_codec, strategy=codec_cases, quick=400, thorough=8000),
         Part('dispatcher', check_dispatch, strategy=dispatch_cases, quick=400, thorough=8000),
         Part('manager', check_manager, strategy=lambda: dispatch_cases(manager=True), quick=300, thorough=6000)]
