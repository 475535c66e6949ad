"""Event-queue scripts, and the oracle over the log of a run."""
from hypothesis import strategies as st

from . import hist, llsdv, template
from .common import require
from .llsdv import norm

_names = []


def template_names():
    if not _names:
        _names.extend(sorted(m.name for m in template.embedded()))
    return _names


OTHERS = ['EstablishAgentCommunication', 'ChatterBoxInvitation', 'ChatterBoxSessionStartReply', 'EnableSim', 'x',
          'parcelproperties', 'Message_Data', '\u00e9v\u00e9nement', '']


@st.composite
def name(draw, k=3):
    """Mostly from a few, so that events of one name repeat."""
    if draw(st.integers(0, k)) == 0:
        return draw(st.sampled_from(template_names()))
    return draw(st.sampled_from(['ParcelProperties', 'AgentGroupDataUpdate', 'TeleportFinish'] + OTHERS))


def is_template(n):
    return n in template_names()


def tag(draw, s):
    """Text as a byte or unicode string."""
    if all(ord(c) < 128 for c in s) and draw(st.booleans()):
        return {'b': s}
    return {'u': s}


@st.composite
def fields(draw, names=None, rich=False):
    v = llsdv.value(6) if rich else llsdv.leaf(True)
    k = st.sampled_from(names).map(lambda s: {'b': s}) if names else llsdv.key()
    return draw(llsdv.amap(v, k, max_size=5 if rich else 3))


@st.composite
def event(draw, rich=False, names=None):
    n = draw(name()) if names is None else draw(st.sampled_from(names))
    if is_template(n):
        t = next(m for m in template.embedded() if m.name == n)
        blocks, seen = [], set()
        for _ in range(draw(st.integers(0, 3))):
            if t.blocks and draw(st.integers(0, 3)):
                b = draw(st.sampled_from(t.blocks))
                bn, fn = b.name, [f.name for f in b.fields]
            else:
                bn, fn = draw(st.sampled_from(['Extra', 'AgentData', 'Message_Data', '\u00e9'])), None
            if bn in seen:
                continue
            seen.add(bn)
            insts = [draw(fields(fn, rich)) for _ in range(draw(st.sampled_from([1, 1, 2, 3, 0, 5])))]
            if insts and draw(st.integers(0, 3)) == 0:
                insts.append(insts[0])          # the same content again is another instance
            if rich and draw(st.integers(0, 39)) == 0:
                # a great many small instances
                insts = insts + [{'d': [[{'b': 'n'}, i]]} for i in range(draw(st.sampled_from([70, 256, 300])))]
            blocks.append([tag(draw, bn), insts])
        body = {'d': blocks}
    else:
        body = draw(llsdv.amap(llsdv.value(8 if rich else 3, cheap=not rich), max_size=6))
    ev = [[{'b': 'message'}, tag(draw, n)], [{'b': 'body'}, body]]
    if draw(st.booleans()):
        ev.reverse()
    return {'d': ev}


BAD = [5, None, {'b': 'text'}, [], [1, 2], {'d': []}, {'d': [[{'b': 'message'}, {'b': 'ParcelProperties'}]]},
       {'d': [[{'b': 'body'}, {'d': []}]]},
       {'d': [[{'b': 'message'}, {'d': []}], [{'b': 'body'}, {'d': []}]]},
       {'d': [[{'b': 'message'}, {'b': 'ParcelProperties'}], [{'b': 'body'}, {'d': [[{'b': 'ParcelData'}, 5]]}]]},
       {'d': [[{'b': 'message'}, {'b': 'ParcelProperties'}], [{'b': 'body'}, {'d': [[{'b': 'ParcelData'}, [5]]]}]]},
       {'d': [[{'b': 'message'}, {'b': 'ParcelProperties'}], [{'b': 'body'}, None]]},
       {'d': [[{'b': 'message'}, {'b': 'EnableSim'}], [{'b': 'body'}, 7]]},
       {'d': [[{'b': 'message'}, {'b': 'EnableSim'}], [{'b': 'body'}, None]]},
       {'d': [[{'b': 'message'}, {'b': 'EnableSim'}], [{'b': 'body'}, [1]]]}]


def get(d, key):
    for k, v in d['d']:
        if llsdv.ktext(k) == key:
            return v
    raise KeyError(key)


def has(d, key):
    return isinstance(d, dict) and 'd' in d and any(llsdv.ktext(k) == key for k, _ in d['d'])


def expected_event(ev):
    """(name, blocks in canonical form)"""
    n = llsdv.ktext(get(ev, 'message'))
    body = get(ev, 'body')
    if is_template(n):
        blocks = [[norm(bn), [norm(i) for i in insts]] for bn, insts in body['d'] if insts]
    else:
        blocks = [[norm({'b': 'Message_Data'}), [norm(body)]]]
    return n, sorted(blocks, key=repr)


def got_event(v):
    blocks = []
    for bn, insts in v['blocks']:
        blocks.append([norm(bn), [norm({'d': i}) for i in insts]])
    return sorted(blocks, key=repr)


IDS = st.one_of(st.integers(0, 5), st.sampled_from([2**31 - 1, 12345, -7]), st.sampled_from([{'b': 'abc'}, {'b': ''}, {'u': 'x1'}]),
                st.just({'pu': '00112233445566778899aabbccddeeff'}))


def small_event(n, i):
    body = [[{'b': 'n'}, i]]
    return {'d': [[{'b': 'message'}, {'b': n}], [{'b': 'body'}, {'d': [[{'b': 'Info'}, [{'d': body}]]] if is_template(n) else body}]]}


@st.composite
def response(draw, max_events=4, rich=False, bad=True, names=None):
    evs = [draw(event(rich, names)) for _ in range(draw(st.integers(0, max_events)))]
    out = []
    for e in evs:
        if bad and draw(st.integers(0, 5)) == 0:
            out.append({'bad': draw(st.sampled_from(BAD))})
        out.append({'ev': e})
    if draw(st.integers(0, 24)) == 0 and names is None:
        # a great many small ones
        at, n = draw(st.integers(0, len(out))), draw(st.sampled_from([40, 70, 130, 260, 600]))
        what = draw(st.sampled_from(['EnableSim', 'x', 'TeleportFinish', 'ParcelProperties']))
        out[at:at] = [{'ev': small_event(what, i)} for i in range(n)]
    return {'id': draw(IDS), 'events': out, 'extra': draw(st.integers(0, 4)) == 0}


def body_of(r):
    evs = [e.get('ev', e.get('bad')) for e in r['events']]
    d = [[{'b': 'id'}, r['id']], [{'b': 'events'}, evs]]
    if r.get('extra'):
        # anything else the response holds means nothing
        d += [[{'b': 'message'}, {'b': 'EnableSim'}], [{'b': 'more'}, [{'d': [[{'b': 'message'}, {'b': 'x'}], [{'b': 'body'}, {'d': []}]]}]]]
    return {'d': d}


MALFORMED = [5, {'b': 'text'}, [], [{'d': []}], {'d': []}, {'d': [[{'b': 'x'}, 1]]}, True]
ID_ONLY = [None, {'b': 'events'}, 5, {'d': []}]          # what stands for the events


@st.composite
def script_item(draw, **kw):
    k = draw(st.sampled_from(['resp'] * 9 + ['fail'] * 3 + ['none', 'malformed', 'idonly', 'noevents']))
    x = {}
    if k == 'resp':
        x = {'resp': draw(response(**kw))}
    elif k == 'fail':
        x = {'fail': draw(st.sampled_from(['resource', 'notfound', 'deser', 'io', 'boom', 'unicode']))}
    elif k == 'none':
        x = {'none': True}
    elif k == 'malformed':
        x = {'malformed': draw(st.sampled_from(MALFORMED))}
    elif k == 'idonly':
        x = {'idonly': [draw(IDS), draw(st.sampled_from(ID_ONLY))]}
    else:
        x = {'noevents': draw(IDS)}
    if draw(st.integers(0, 7)) == 0:
        x['took'] = draw(st.sampled_from([0.25, 1, 2.5, 30]))
    return x


def lower_item(x):
    out = {k: x[k] for k in ('took', 'stop', 'fail') if k in x}
    if 'resp' in x:
        out['ok'] = body_of(x['resp'])
    elif 'none' in x:
        out['ok'] = None
    elif 'malformed' in x:
        out['ok'] = x['malformed']
    elif 'idonly' in x:
        out['ok'] = {'d': [[{'b': 'id'}, x['idonly'][0]], [{'b': 'events'}, x['idonly'][1]]]}
    elif 'noevents' in x:
        out['ok'] = {'d': [[{'b': 'id'}, x['noevents']]]}
    return out


def names_in(case):
    out = {}
    for x in case['script']:
        for e in x.get('resp', {}).get('events', []):
            if 'ev' in e:
                n = llsdv.ktext(get(e['ev'], 'message'))
                out[n] = out.get(n, 0) + 1
    return out


@st.composite
def config(draw):
    s = draw(hist.log_settings())
    return {'interval': draw(st.sampled_from([0.5, 1, 1, 2, 3, 1.5, 2.75])), 'via': draw(st.sampled_from(['obj', 'obj', 'cap'])),
            'handler': draw(st.sampled_from(['raw', 'real', 'real'])), 'settings': s,
            'host': draw(st.sampled_from([None, ['10.0.0.1', 13000]])), 'fresh': draw(st.integers(0, 15)) == 0,
            'cap': draw(st.sampled_from(['EventQueueGet', 'EventQueueGet', 'event_queue']))}


def lowered(case):
    """The case as the worker takes it."""
    a = {k: case[k] for k in ('interval', 'via', 'handler', 'settings', 'host', 'ops', 'fresh')}
    a['cap'] = case.get('cap', 'EventQueueGet')
    a['behave'] = [[{'u': n}, k] for n, k in case.get('behave', [])]
    a['subscribe'] = [{'u': n} for n in case.get('subscribe', [])]
    a['script'] = [lower_item(x) for x in case['script']]
    return a


def run(ctx, case):
    return ctx.call('event_queue', **lowered(case))


def expected_deliveries(case, r):
    """What a response brings, in order, to this run's handlers."""
    out = []
    for e in r['events']:
        if 'ev' in e:
            n, blocks = expected_event(e['ev'])
            if case['handler'] == 'raw' or n in case['subscribe']:
                out.append((n, r['id'], blocks))
    return out


class Judge:
    """Follows the log of one run."""
    def __init__(self, case, res):
        self.case, self.res = case, res
        self.acks = [None]           # ids the next poll may acknowledge
        self.pending = []
        self.stopped = False
        self.inflight = None         # script item of the poll being answered
        self.final = False           # the last poll was made
        self.n = 0
        self.last = 0.0
        self.started = False
        self.t0 = 0                  # when it was started
        self.first = True            # no poll since then
        self.restarts = 0
        self.delivered = 0
        self.fails = 0

    def judge(self):
        c = self.case
        require(not self.res['errors'], 'a coroutine died: %s', self.res['errors'])
        for e in self.res['log']:
            k, t = e[0], e[1]
            if k == 'post':
                self.post(t, norm(e[2]))
            elif k == 'answer':
                self.answer(t)
            elif k == 'got':
                require(not self.final, 'a message was delivered after the last poll: %s', e[2])
                require(self.pending, 'a message was delivered that no event gave rise to, or again: %s', e[2])
                n, i, blocks = self.pending.pop(0)
                v = e[2]
                require(norm(v['name']) == ['s', n], 'event %r was delivered as %s', n, v['name'])
                require(norm(v['id']) == norm(i), 'event %r was delivered with id %s, not %s', n, v['id'], i)
                require(v['host'], 'event %r was not delivered with the originating host', n)
                require(got_event(v) == blocks, 'event %r was delivered with blocks %s, not %s', n, got_event(v), blocks)
                self.delivered += 1
            elif k == 'stop':
                self.stopped = True
            elif k == 'restart':
                require(self.final or None in self.acks, 'stopped without acknowledging the last response')
                # whether what was acknowledged in the end is acknowledged once more is not claimed
                self.stopped = self.final = self.started = False
                self.acks = self.acks + [None]
                self.t0, self.first = t, True
                self.restarts += 1
            elif k == 'state':
                require(not self.pending, 'not delivered: %s', [p[:2] for p in self.pending])
                if self.started and not self.stopped:
                    require(e[2], 'not running although not stopped')
                    if self.inflight is None:
                        require(t - (self.t0 if self.first else self.last) <= c['interval'] + 1e-6, 'no poll between %s and %s', self.last, t)
                elif self.final and self.inflight is None:
                    require(not e[2], 'running after the last poll')
                if t > self.t0:
                    self.started = True
        if self.stopped and c.get('ended', True):
            require(not e[2], 'still running long after stop')
            require(self.final or None in self.acks, 'stopped without acknowledging the last response')
        return self

    def post(self, t, payload):
        require(not self.pending, 'polled before delivering %s', [p[:2] for p in self.pending])
        require(not self.final, 'polled after the last poll: %s', payload)
        require(self.inflight is None, 'polled while a poll was under way')
        want = []
        for a in self.acks:
            d = [] if a is None else [[{'b': 'ack'}, a]]
            if self.stopped:
                if a is None:
                    continue
                d = d + [[{'b': 'done'}, True]]
            want.append(norm({'d': d}))
        require(payload in want, 'poll %d posted %s, expected %s', self.n, payload,
                want or 'no poll, as nothing was received before it was stopped')
        if self.stopped:
            self.final = True
        elif not self.first:
            require(abs(t - self.last - self.case['interval']) < 1e-6, 'polled at %s, %s after the last poll', t, t - self.last)
        else:
            require(t - self.t0 <= self.case['interval'] + 1e-6, 'the first poll came %s after the start', t - self.t0)
        self.first = False
        self.inflight = self.case['script'][self.n] if self.n < len(self.case['script']) else {'none': True}
        self.n += 1

    def answer(self, t):
        x, self.inflight = self.inflight, None
        self.last = t
        if self.final:
            return
        if 'resp' in x:
            self.acks = [x['resp']['id']]
            self.pending = expected_deliveries(self.case, x['resp'])
        elif 'idonly' in x:
            self.acks = [x['idonly'][0]]
        elif 'noevents' in x:
            self.acks = [x['noevents']]
        elif 'none' in x:
            self.acks = self.acks + [None] if None not in self.acks else self.acks
        else:
            self.fails += 1
