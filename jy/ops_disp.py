"""Histories over the UDP dispatcher and the message manager, with a recording UDP client."""
from common import *
import socket
import ops_wire
from eventlet.api import sched
from pyogp.lib.base.message.circuit import Host
from pyogp.lib.base.message.udpdispatcher import UDPDispatcher
from pyogp.lib.base.message.message_handler import MessageHandler
from pyogp.lib.base.message.message_dot_xml import MessageDotXML


class FakeUDP(object):
    """Records what is sent; hands out the queued inbound datagrams."""
    def __init__(self):
        self.sent = []
        self.inbox = []
        self.sender = Host((None, None))
        self.journal = []
        self.fail = None            # None, 'all' or 'resent': what the socket refuses now
        self.refused = []

    def start_udp_connection(self):
        return 'socket'

    def get_sender(self):
        return self.sender

    def send_packet(self, sock, buf, host):
        self.journal.append('s')
        if self.fail == 'all' or self.fail and ord(buf[0]) & 0x20:
            self.refused.append([host.ip, host.port, buf.encode('hex')])
            raise socket.error(105, 'No buffer space available')
        self.sent.append([host.ip, host.port, None if buf is None else buf.encode('hex')])

    def receive_packet(self, sock):
        if not self.inbox:
            return '', 0
        peer, buf = self.inbox.pop(0)
        self.sender = Host(peer)
        return buf, len(buf)

    def __repr__(self):
        return 'FakeUDP'


class Boom(Exception):
    pass


class Recorder(object):
    """Handlers by number; what each was given, in order."""
    def __init__(self, run):
        self.run = run
        self.log = []
        self.handlers = {}

    def handler(self, hid, kind):
        key = (hid, kind)
        if key not in self.handlers:
            def h(message, *args, **kw):
                self.log.append([hid, view_message(message), enc(list(args)), enc(kw),
                                 enc(message.host and str(message.host)), enc(message.event_queue_id)])
                self.run.udp.journal.append('g')
                if kind == 'enqueue':
                    self.run.enqueue_next()
                if kind == 'stop':
                    self.run.udp.journal.append('x')
                    self.run.mgr.stop_monitors()
                if kind == 'raise':
                    raise Boom('handler %d' % hid)
                if kind == 'keyerror':
                    raise KeyError(message.name)
                if kind == 'unicode':
                    raise Boom(u'handler \xe9 %d' % hid)
                if kind == 'mutate':
                    message.blocks = {}
                    message.acks = []
                if kind == 'unsub':
                    self.run.registry.register(message.name).unsubscribe(h)
                if kind == 'reply':
                    self.run.reply(message)
            self.handlers[key] = h
        return self.handlers[key]


class Run(object):
    def __init__(self, a):
        self.a = a
        self.udp = FakeUDP()
        self.rec = Recorder(self)
        self.settings = settings_from(a.get('settings'))
        self.handler = MessageHandler(self.settings) if a.get('handler', True) else None
        xml = a.get('xml')
        dotxml = None if xml is None else ops_wire.xml_for(ops_wire.OPEN_XML if xml == 'open' else xml)
        self.d = UDPDispatcher(self.udp, self.settings, self.handler, template_of(a), dotxml)
        if self.settings is None:
            self.settings = self.d.settings
            apply_settings(self.settings, a['settings'])
        self.objects = []
        self.held = {}
        self.hosts = {}
        self.circuits = []
        self.replies = []
        self.reply_to = None

    registry = property(lambda s: s.d.message_handler)

    def host(self, peer, how='fresh'):
        ip, port = peer
        if ip is not None:
            ip = ip.encode('latin-1')
        key = (ip, port)
        if how == 'same' and key in self.hosts:
            return self.hosts[key]
        h = Host((ip and ip[:1] + ip[1:], port))
        self.hosts.setdefault(key, h)
        return h

    def reply(self, message):
        if self.replies and self.reply_to:
            self.d.send_message(build_message(self.replies.pop(0)), self.host(self.reply_to))

    def notifier(self, o):
        """What registering gives, or what it gave the first time."""
        name = str(o['name'])
        if not o.get('held') or name not in self.held:
            x = self.registry.register(name)
            self.held.setdefault(name, x)
            return x
        return self.held[name]

    def burst(self, o):
        """Many sends of one message: what changed from one datagram to the next, and how often, in short."""
        msg = build_message(o['msg'])
        host = self.host(o['peer'])
        ahead = False
        if 'ahead' in o:
            # as if very many had been sent, where the circuit says how many there were
            c = self.d.find_circuit(host)
            if getattr(c, 'last_packet_out_id', None) == o['at']:
                c.last_packet_out_id = o['ahead']
                ahead = True
        runs, other = [], []
        before, self.udp.sent = self.udp.sent, []
        for i in xrange(o['n']):
            r = self.d.send_message(msg, host)
            if len(self.udp.sent) != 1 or r is None:
                other.append([i, len(self.udp.sent), r and r.encode('hex')])
            for ip, port, buf in self.udp.sent:
                pid, rest = int(buf[2:10], 16), [ip, port, buf[:2] + buf[10:]]
                if runs and runs[-1][0] + runs[-1][1] == pid and runs[-1][2] == rest:
                    runs[-1][1] += 1
                else:
                    runs.append([pid, 1, rest])
            del self.udp.sent[:]
            if len(runs) > 9 or len(other) > 9:
                break
        self.udp.sent = before
        return {'runs': runs, 'other': other, 'ahead': ahead}

    def ordinal(self, c):
        for i, x in enumerate(self.circuits):
            if x is c:
                return i
        self.circuits.append(c)
        return len(self.circuits) - 1

    def step(self, o):
        k = o['do']
        if k == 'send':
            if 'ref' in o:
                msg = self.objects[o['ref'] % len(self.objects)] if self.objects else build_message(o['msg'])
            else:
                msg = build_message(o['msg'])
            self.objects.append(msg)
            arg = msg
            if o.get('call'):
                arg = lambda: msg
            host = self.host(o['peer'], o.get('how', 'fresh'))
            if o.get('rel'):
                r = self.d.send_reliable(arg, host, o.get('retries', 0))
            elif o.get('retry'):
                r = self.d.send_retry(arg, host)
            else:
                r = self.d.send_message(arg, host)
            if o.get('scribble'):
                # the caller goes on using its message
                for insts in msg.blocks.values():
                    for b in insts:
                        for v in b.vars.values():
                            v.data = 'scribbled'
                msg.retries = 0
            return r if r is None else r.encode('hex')
        if k == 'recv':
            self.reply_to = o['peer']
            buf = b2s(o['buf']).decode('hex')
            p = self.d.receive_check(self.host(o['peer'], o.get('how', 'fresh')), buf, len(buf))
            r = view_message(p)
            if o.get('scribble') and p is not None:
                # whoever got it goes on using it
                p.blocks = {}
                p.acks = [4040404]
                p.name = 'Scribbled'
                p.packet_id = 7
            return r
        if k == 'acks':
            return enc(self.d.process_acks())
        if k == 'remove':
            return enc(self.d.circuit_manager.remove_circuit_data(self.host(o['peer'])))
        if k == 'find':
            return self.ordinal(self.d.find_circuit(self.host(o['peer'], o.get('how', 'fresh'))))
        if k == 'alive':
            return bool(self.d.circuit_manager.is_circuit_alive(self.host(o['peer'], o.get('how', 'fresh'))))
        if k == 'burst':
            return self.burst(o)
        if k == 'register':
            self.notifier(o)
            return None
        if k == 'subscribe':
            kw = dict([(str(x), dec(y)) for x, y in o.get('kw', [])])
            self.notifier(o).subscribe(self.rec.handler(o['h'], o.get('kind', 'record')),
                                                             *[dec(x) for x in o.get('args', [])], **kw)
            return None
        if k == 'unsubscribe':
            kw = dict([(str(x), dec(y)) for x, y in o.get('kw', [])])
            self.notifier(o).unsubscribe(self.rec.handler(o['h'], o.get('kind', 'record')),
                                                               *[dec(x) for x in o.get('args', [])], **kw)
            return None
        if k == 'set':
            setattr(self.settings, str(o['name']), o['value'])
            return None
        if k == 'replies':
            self.replies += o['msgs']
            return None
        raise ValueError(k)

    def state(self):
        out = []
        for c in self.d.circuit_manager.circuit_map.values():
            out.append([c.host.ip, c.host.port, sorted([int(x) for x in c.unacked_packets]), c.unack_packet_count,
                        [int(x) for x in c.acks], c.host.ip, c.host.port, self.ordinal(c)])
        out.sort()
        return {'circuits': out, 'in': self.d.packets_in, 'out': self.d.packets_out,
                'has_unacked': bool(self.d.has_unacked())}

    def run(self):
        res = []
        for o in self.a['ops']:
            n, m = len(self.udp.sent), len(self.rec.log)
            del self.udp.journal[:]
            self.udp.fail = o.get('sockfail')
            try:
                r = {'ret': self.step(o)}
            except Exception, e:
                r = exc_info(e)
            if self.udp.fail:
                r['refused'], self.udp.refused, self.udp.fail = self.udp.refused, [], None
            r['sent'] = self.udp.sent[n:]
            r['got'] = self.rec.log[m:]
            if self.a.get('states'):
                r['state'] = self.state()
            if self.a.get('journal'):
                r['journal'] = list(self.udp.journal)
            res.append(r)
        return {'steps': res, 'state': self.state()}


def dispatch(a):
    return Run(a).run()


# ---- manager -----------------------------------------------------------------------------------------------------

class FakeCap(object):
    """Answers POSTs from a script; records them with the virtual time."""
    def __init__(self, name, script):
        self.name = name
        self.script = list(script)
        self.posts = []

    def POST(self, payload, custom_headers={}):
        self.posts.append([sched.now, enc(dict(payload))])
        if not self.script:
            return None
        x = self.script.pop(0)
        if 'fail' in x:
            raise make_error(x['fail'])
        return dec(x['ok'])

    def __repr__(self):
        return '<FakeCap %s>' % self.name


def make_error(kind):
    if kind == 'unicode':
        return Boom(u'broken \xe9')
    if kind == 'resource':
        return pexc.ResourceError('http://cap', 502, 'Bad Gateway', 'body', method='POST')
    if kind == 'notfound':
        return pexc.ResourceNotFound('http://cap')
    if kind == 'deser':
        return pexc.DeserializationFailed('data', 'why')
    if kind == 'io':
        return IOError('connection reset')
    return Boom('broken')


def polling(eq):
    """Whether the client polls its queue: it says so itself, and only while the coroutine that does so lives."""
    told = getattr(eq, '_running', None)
    if told is not None:
        return bool(told)
    return bool([t for t in sched.tasks if t.thread and getattr(t.fn, 'im_self', None) is eq
                 and t.fn.__name__ != 'stop_monitor'])


class ManagerRun(Run):
    def __init__(self, a, reset=True):
        if reset:
            sched.reset()
        self.a = a
        self.rec = Recorder(self)
        self.settings = settings_from(a.get('settings'))
        self.handler = MessageHandler(self.settings) if a.get('handler', True) else None
        self.udp = FakeUDP()
        self.objects, self.hosts, self.circuits, self.replies, self.held = [], {}, [], [], {}
        self.reply_to = None
        self.to_enqueue = list(a.get('enqueues', []))
        from pyogp.lib.base import message_manager
        caps = {}
        self.cap = None
        if a.get('eq') is not None:
            self.cap = FakeCap('EventQueueGet', a['eq'])
            caps['EventQueueGet'] = self.cap
        xml = a.get('xml')
        if xml is not None:
            if isinstance(xml, dict):
                xml = dec(xml)          # something that is not a file
            else:
                xml = text_file(ops_wire.OPEN_XML if xml == 'open' else xml, 'xml')
        self.mgr = message_manager.MessageManager(
            self.host(a['peer']), message_handler=self.handler, capabilities=caps, settings=self.settings,
            start_monitors=a.get('autostart', False), message_template=template_of(a), message_xml=xml)
        if self.settings is None:
            self.settings = self.mgr.settings
            apply_settings(self.settings, a['settings'])
        self.d = self.mgr.udp_dispatcher
        self.d.udp_client = self.udp

    registry = property(lambda s: s.mgr.message_handler)

    last = None

    def enqueue_next(self):
        if self.to_enqueue:
            o = self.to_enqueue.pop(0)
            self.udp.journal.append('e')
            self.mgr.enqueue_message(build_message(o['msg']), reliable=o.get('rel', False), now=o.get('now', False))

    def step(self, o):
        k = o['do']
        if k == 'start':
            return enc(self.mgr.start_monitors())
        if k == 'stop':
            return enc(self.mgr.stop_monitors())
        if k == 'enqueue':
            if not o.get('same') or self.last is None:
                self.last = build_message(o['msg'])
            return enc(self.mgr.enqueue_message(self.last, reliable=o.get('rel', False),
                                                now=o.get('now', False)))
        if k == 'inbound':
            ip, port = o['peer']
            self.udp.inbox.append(((ip.encode('latin-1'), port), b2s(o['buf']).decode('hex')))
            return None
        if k == 'round':
            for i in range(o.get('n', 1)):
                sched.round()
            return None
        if k == 'advance':
            # as the real scheduler would: the UDP loop comes round between any two event-queue wake-ups
            sched.advance(o['s'])
            return None
        if k == 'send_now':
            r = self.mgr.send_udp_message(build_message(o['msg']), o.get('rel', False))
            return r if r is None else r.encode('hex')
        return Run.step(self, o)

    def state(self):
        st = Run.state(self)
        st['tasks'] = len(sched.tasks)
        st['errors'] = [list(t.error) for t in sched.finished if t.error]
        st['queue'] = len(self.mgr.outgoing_queue)
        st['posts'] = self.cap.posts if self.cap else []
        st['eq_running'] = polling(self.mgr.event_queue) if self.mgr.event_queue else None
        st['inbox'] = len(self.udp.inbox)
        st['now'] = sched.now
        return st


def manager(a):
    r = ManagerRun(a)
    try:
        return r.run()
    finally:
        sched.kill_all()


# ---- message.xml policy ----------------------------------------------------------------------------------------

def policy(a):
    """What each layer does with each name under one message.xml."""
    try:
        x = MessageDotXML() if a['xml'] is None else MessageDotXML(message_xml=a['xml'].encode('utf-8'))
    except Exception, e:
        return exc_info(e)
    out = []
    for n in a['names']:
        try:
            out.append(bool(x.validate_udp_msg(str(n))))
        except Exception, e:
            out.append(exc_info(e))
    return {'allowed': out}


def sockets(a):
    import ops_sock
    return ops_sock.sockets(a)
