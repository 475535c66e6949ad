"""The event-queue client, LLSD payloads, capabilities and the HTTP client."""
import json
from common import *
from cStringIO import StringIO
from ops_disp import make_error, Boom
from eventlet.api import sched
from eventlet import api
from llbase import llsd
from pyogp.lib.base.event_queue import EventQueueClient
from pyogp.lib.base.message.message_handler import MessageHandler
from pyogp.lib.base.message.circuit import Host
from pyogp.lib.base.caps import Capability, SeedCapability
from pyogp.lib.base.helpers import LLSDDeserializer, ListLLSDSerializer, DictLLSDSerializer


def view_event(m, host):
    blocks = []
    for bname in m.blocks:
        insts = []
        for b in m.blocks[bname]:
            if b.name != bname:
                insts.append([['?', enc(b.name)]])
                continue
            insts.append([[enc(v), enc(b.get_variable(v).data)] for v in b.var_list])
        blocks.append([enc(bname), insts])
    return {'name': enc(m.name), 'id': enc(m.event_queue_id), 'host': m.host is host, 'blocks': blocks}


class Response(object):
    def __init__(self, body, ctype):
        self.body = body
        self.headers = {}
        if ctype is not None:
            self.headers['Content-Type'] = ctype


from pyogp.lib.base import event_queue as _eqmod
_real_td = getattr(_eqmod, 'TemplateDictionary', None)
_shared = []


def with_templates(fresh):
    """Reading the template takes most of the time a client takes to make: mostly, clients share what one of them read."""
    if _real_td is None:
        return
    if not fresh and not _shared:
        _shared.append(_real_td())
    _eqmod.TemplateDictionary = _real_td if fresh else (lambda *a, **kw: _shared[0])


class EQRun(object):
    def __init__(self, a, reset=True):
        if reset:
            sched.reset()
        self.a = a
        self.log = []
        self.script = list(a['script'])
        self.host = a.get('host') and Host((str(a['host'][0]), a['host'][1]))
        self.settings = settings_from(a.get('settings'))
        self.behave = dict([(dec(n), k) for n, k in a.get('behave', [])])
        if a.get('via') == 'cap':
            cap = Capability(str(a.get('cap', 'EventQueueGet')), 'http://sim/eq', self, self.settings)
        else:
            cap = self
            self.name = str(a.get('cap', 'EventQueueGet'))
            self.POST = self.post_data
        if a.get('handler') == 'raw':
            mh = self
        else:
            mh = MessageHandler(self.settings) if self.settings else None
        with_templates(a.get('fresh', True))
        self.eq = EventQueueClient(cap, self.settings, mh, self.host)
        if mh is not self:
            for n in a['subscribe']:
                self.eq.message_handler.register(dec(n)).subscribe(self.handle)
        with_templates(True)
        if self.settings is None:
            self.settings = self.eq.settings
            apply_settings(self.settings, a['settings'])
        self.settings.REGION_EVENT_QUEUE_POLL_INTERVAL = a['interval']
        self.started = []
        self.active = 0

    # as the capability
    def post_data(self, payload, custom_headers={}):
        self.log.append(['post', sched.now, enc(dict(payload))])
        x = self.script.pop(0) if self.script else {'ok': None}
        if x.get('stop'):
            self.stop()
        if x.get('took'):
            api.sleep(x['took'])
        self.log.append(['answer', sched.now])
        if 'fail' in x:
            raise make_error(x['fail'])
        return dec(x['ok'])

    # as the REST client of a real capability
    def rest_post(self, url, body, headers={}):
        self.log.append(['post', sched.now, enc(llsd.parse(body))])
        x = self.script.pop(0) if self.script else {'ok': None}
        if x.get('stop'):
            self.stop()
        if x.get('took'):
            api.sleep(x['took'])
        self.log.append(['answer', sched.now])
        if 'fail' in x:
            k = x['fail']
            if k in ('resource', 'notfound'):
                raise pexc.HTTPError(502 if k == 'resource' else 404, 'Bad', StringIO('body'))
            if k == 'deser':
                return Response('neither this nor that', 'application/llsd+xml')
            if k == 'unicode':
                return Response('\xff\xfe', 'text/plain')
            raise make_error(k)
        return Response(llsd.format_xml(dec(x['ok'])), 'application/llsd+xml')

    def POST(self, url, body, headers={}):
        return self.rest_post(url, body, headers)

    # as the message handler
    def handle(self, m):
        self.log.append(['got', sched.now, view_event(m, self.host)])
        k = self.behave.get(m.name)
        if k == 'stop':
            self.stop()
        elif k == 'key':
            raise KeyError(m.name)
        elif k == 'unicode':
            raise Boom(u'broken \xe9')
        elif k == 'raise':
            raise Boom('broken')

    def stop(self):
        self.log.append(['stop', sched.now])
        self.eq.stop()

    def start(self):
        self.active += 1
        self.started.append(self.eq.start())
        self.active -= 1

    def polling(self):
        told = getattr(self.eq, '_running', None)
        return self.active > 0 if told is None else bool(told)

    def step(self, o):
        if o['do'] == 'start':
            api.spawn(self.start)
        elif o['do'] == 'stop':
            self.stop()
        elif o['do'] == 'restart':
            # only what has come to its end
            if [x for x in self.log if x[0] in ('stop', 'restart')][-1:] and self.log and \
               [x for x in self.log if x[0] in ('stop', 'restart')][-1][0] == 'stop' and not self.polling():
                self.log.append(['restart', sched.now])
                self.eq.stopped = False
                api.spawn(self.start)
        elif o['do'] == 'advance':
            sched.advance(o['s'])

    def run(self):
        for o in self.a['ops']:
            self.step(o)
            self.log.append(['state', sched.now, self.polling()])
        return {'log': self.log, 'started': enc(self.started),
                'errors': [list(t.error) for t in sched.finished if t.error]}


def event_queue(a):
    r = EQRun(a)
    try:
        return r.run()
    finally:
        sched.kill_all()


# ---- LLSD ---------------------------------------------------------------------------------------------------------

def flat(v):
    """A value as text to compare (comparing deeply nested maps takes Jython exponential time)."""
    return json.dumps(enc(v), sort_keys=True)


def outcome(fn):
    try:
        return {'ok': enc(fn())}
    except pexc.DeserializationFailed, e:
        return {'failed': True, 'payload': e.payload.encode('hex') if isinstance(e.payload, str) else repr(e.payload),
                'exc': e.__class__.__name__, 'text': isinstance(str(e), str)}
    except Exception, e:
        return exc_info(e)


def deserialize(how, data):
    d = LLSDDeserializer()
    if how == 'string':
        return outcome(lambda: d.deserialize_string(data))
    if how == 'file':
        return outcome(lambda: d.deserialize_file(StringIO(data)))
    return outcome(lambda: d.deserialize(data))


def llsd_roundtrip(a):
    v = dec(a['value'])
    before = flat(v)
    if isinstance(v, dict):
        s = DictLLSDSerializer(v)
    else:
        s = ListLLSDSerializer(v)
    text = s.serialize()
    r = {'text': text.encode('hex'), 'again': s.serialize() == text, 'ctype': s.content_type,
         'str': type(text) is str, 'same': flat(v) == before, 'back': deserialize(a['how'], text)}
    if a.get('then'):
        # the payload goes on being used and is sent again
        if isinstance(v, dict):
            v['then'] = 'changed'
        else:
            v.append('changed')
        r['then'] = deserialize(a['how'], s.serialize())
    return r


class Endless(BaseException):
    pass


def bounded(fn, lines):
    left = [lines]
    def tracer(frame, event, arg):
        left[0] -= 1
        if left[0] < 0:
            raise Endless()
        return tracer
    sys.settrace(tracer)
    try:
        return fn()
    finally:
        sys.settrace(None)


def llsd_parse(a):
    src = a['src']
    if 'hex' in src:
        data = b2s(src['hex']).decode('hex')
    else:
        v = dec(src['value'])
        data = {'xml': llsd.format_xml, 'binary': llsd.format_binary, 'notation': llsd.format_notation,
                'pretty': llsd.format_pretty_xml}[src['fmt']](v)
        if isinstance(data, unicode):
            data = data.encode('utf-8')
    for kind, pos, byte in a.get('muts', []):
        p = pos % (len(data) + 1)
        if kind == 'cut':
            data = data[:p]
        elif kind == 'ins':
            data = data[:p] + chr(byte) + data[p:]
        elif kind == 'del':
            data = data[:p] + data[p + 1:]
        elif kind == 'set':
            data = data[:p] + chr(byte) + data[p + 1:]
        elif kind == 'dup':
            data = data[:p] + data[max(0, p - byte):]
    try:
        # llbase itself does not end on some hostile input (negative sizes); that is not for this library to answer
        r = bounded(lambda: llsd.parse(data), 100000)
        ref = {'false': True} if r is False else {'ok': enc(r)}
    except Endless:
        return {'endless': True, 'data': data.encode('hex')}
    except Exception, e:
        ref = {'raises': e.__class__.__name__}
    return {'data': data.encode('hex'), 'ref': ref, 'got': deserialize(a['how'], data)}


def llsd_other(a):
    v = dec(a['value'])
    if a.get('file'):
        v = StringIO('<?xml version="1.0" ?><llsd><integer>5</integer></llsd>')
    return outcome(lambda: LLSDDeserializer().deserialize(v))


# ---- capabilities -------------------------------------------------------------------------------------------------

class FakeRest(object):
    def __init__(self):
        self.requests = []
        self.next = None

    def answer(self, method, url, data, headers):
        self.requests.append([method, url, data if data is None else enc(data), enc(dict(headers))])
        x = self.next
        if 'error' in x:
            raise pexc.HTTPError(x['error'][0], str(x['error'][1]), StringIO(b2s(x['error'][2]).decode('hex')))
        if 'io' in x:
            raise make_error('io')
        if 'value' in x:
            body = x.get('lead', '').encode('ascii') + llsd.format_xml(dec(x['value'])) + x.get('trail', '').encode('ascii')
        else:
            body = b2s(x['body']).decode('hex')
        ctype = x['ctype']
        if x.get('webob'):
            from webob import Response as WR
            hl = [('X-Other', 'application/llsd+xml')]
            if ctype is not None:
                hl.append((str(x.get('cname', 'Content-Type')), str(ctype)))
            return WR(body=body, status='200 OK', headerlist=hl)
        return Response(body, None if ctype is None else str(ctype))

    def GET(self, url, headers={}):
        return self.answer('GET', url, None, headers)

    def POST(self, url, data, headers={}):
        return self.answer('POST', url, data, headers)


def cap_outcome(fn):
    try:
        return {'ok': enc(fn())}
    except Exception, e:
        r = {'exc': e.__class__.__name__, 'perr': isinstance(e, pexc.Error)}
        for k in ('url', 'code', 'message', 'body', 'method', 'content_type', 'payload'):
            if k in e.__dict__:
                v = e.__dict__[k]
                r[k] = enc(v) if not isinstance(v, type) else {'type': v.__name__}
        try:
            str(e)
        except Exception, e2:
            r['nostr'] = repr(e2)
        return r


def capability(a):
    rest = FakeRest()
    s = None
    if a.get('settings') is not None:
        s = settings_from(a['settings'])
    seed = SeedCapability('seed', str(a['url']), rest, s)
    caps = [Capability(str(a['name']), str(a['url']), rest, s)]
    out = []
    for o in a['ops']:
        rest.requests = []
        rest.next = o['answer']
        if o['do'] == 'seed':
            names = [dec(n) for n in o['names']]
            keep = list(names)
            got = []
            def run():
                r = seed.get(names)
                for n in r:
                    c = r[n]
                    got.append([enc(n), enc(c.name), enc(c.public_url), c.restclient is rest, c.__class__.__name__])
                    caps.append(c)
                return None
            r = cap_outcome(run)
            r['caps'] = got
            r['kept'] = names == keep
        else:
            c = caps[o.get('cap', 0) % len(caps)]
            r = None
            headers = None if o.get('headers') is None else dict([(str(k), str(v)) for k, v in o['headers']])
            keep = None if headers is None else dict(headers)
            if o['do'] == 'GET':
                fn = (lambda: c.GET()) if headers is None else (lambda: c.GET(headers))
            elif o['do'] == 'POST':
                p = dec(o['payload'])
                before = flat(p)
                fn = (lambda: c.POST(p)) if headers is None else (lambda: c.POST(p, headers))
            else:
                p = dec(o['payload'])
                before = flat(p)
                fn = lambda: c.POST_CUSTOM(headers or {}, p)
            r = cap_outcome(fn)
            r['url'] = r.get('url')
            r['cap'] = c.public_url
            r['kept'] = headers == keep and (o['do'] == 'GET' or flat(p) == before)
        r['requests'] = rest.requests
        out.append(r)
    return out


# ---- HTTP ---------------------------------------------------------------------------------------------------------

def http(a):
    from pyogp.lib.base.network.stdlib_client import StdLibClient
    c = StdLibClient()
    url = b2s(a['url'])
    headers = None if a.get('headers') is None else dict([(str(k), str(v)) for k, v in a['headers']])
    keep = None if headers is None else dict(headers)
    try:
        if a['method'] == 'GET':
            r = c.GET(url) if headers is None else c.GET(url, headers=headers)
        else:
            data = b2s(a['data']).decode('hex')
            r = c.POST(url, data) if headers is None else c.POST(url, data, headers=headers)
    except pexc.HTTPError, e:
        body = e.fp.read()
        return {'error': e.code, 'msg': enc(e.msg), 'body': body.encode('hex'), 'str': str(e), 'kept': headers == keep}
    except Exception, e:
        return exc_info(e)
    return {'status': r.status_int, 'line': r.status, 'body': r.body.encode('hex'), 'kept': headers == keep,
            'headers': [[k, v] for k, v in r.headers.items()]}
