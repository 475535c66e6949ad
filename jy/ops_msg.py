"""Events, the LLSD message builder, message views, settings."""
from common import *
from llbase import llsd
from pyogp.lib.base.helpers import Helpers
from pyogp.lib.base.events import Event
from pyogp.lib.base.message.message_handler import MessageHandler
from pyogp.lib.base.message.llsd_builder import LLSDMessageBuilder
import ops_wire


class Boom(Exception):
    pass

ERRORS = {'boom': Boom, 'key': KeyError, 'value': ValueError, 'type': TypeError, 'attr': AttributeError,
          'assert': AssertionError, 'stop': StopIteration}


class Callee(object):
    """Handlers of all sorts: functions, methods (another object each time, equal though) and callable objects."""
    def __init__(self, fn, h):
        self.fn, self.h = fn, h

    def handler(self):
        return [self.fn, self.method, self.method, self, self.fn][self.h % 5]

    def method(self, *args, **kw):
        return self.fn(*args, **kw)

    __call__ = method


class EventRun(object):
    def __init__(self, a):
        self.a = a
        self.calls = []
        self.behave = a.get('behave', {})
        self.handlers = {}
        self.kind = a['target']
        if self.kind == 'event':
            self.e = Event()
        else:
            s = settings_from(a.get('settings'))
            self.mh = MessageHandler(s)
            self.e = self.mh.register('Name')
        self.depth = 0

    def handler(self, h):
        if h not in self.handlers:
            def fn(value, *args, **kw):
                if self.kind == 'handler':
                    value = value.mark
                self.calls.append([h, enc(value), enc(list(args)), enc(kw)])
                for b in self.behave.get(str(h), []):
                    if b['do'] == 'raise':
                        raise ERRORS[b['what']]('from %d' % h)
                    self.depth += 1
                    try:
                        self.do(b)
                    except ValueError:
                        pass
                    self.depth -= 1
            self.handlers[h] = Callee(fn, h)
        return self.handlers[h].handler()

    def target(self):
        return self.mh.register('Name') if self.kind == 'handler' else self.e

    def do(self, o):
        k = o['do']
        args = [dec(x) for x in o.get('args', [])]
        kw = dict([(str(x), dec(y)) for x, y in o.get('kw', [])])
        if k == 'sub':
            if self.kind == 'event' and o.get('op'):
                self.e += self.handler(o['h'])
                return isinstance(self.e, Event)
            self.target().subscribe(self.handler(o['h']), *args, **kw)
        elif k == 'unsub':
            if self.kind == 'event' and o.get('op'):
                self.e -= self.handler(o['h'])
                return isinstance(self.e, Event)
            self.target().unsubscribe(self.handler(o['h']), *args, **kw)
        elif k == 'clear':
            if self.kind == 'event':
                self.e.clearSubscribers()
        elif k == 'fire':
            if self.depth > 3:
                return None
            v = dec(o['value'])
            if self.kind == 'event':
                if o.get('op'):
                    self.e(v)
                else:
                    self.e.notify(v)
            elif self.kind == 'notifier':
                if o.get('op'):
                    self.e(v)
                else:
                    self.e.received(v)
            else:
                m = Message('Name')
                m.mark = v
                self.mh.handle(m)
                other = Message('Other')
                other.mark = 'other'
                self.mh.handle(other)

    def length(self):
        n = len(self.target())
        if self.kind == 'event' and (self.e.getSubscriberCount() != n or len(self.e.getSubscribers()) != n):
            return [n, self.e.getSubscriberCount(), len(self.e.getSubscribers())]
        return n

    def run(self):
        out = []
        for o in self.a['ops']:
            n = len(self.calls)
            self.depth = 0
            r = {}
            try:
                r['ret'] = enc(self.do(o))
            except Exception, e:
                r = exc_info(e)
            r['calls'] = self.calls[n:]
            r['len'] = self.length()
            out.append(r)
        return out


def event(a):
    return EventRun(a).run()


def shown(s):
    return dict([(k, enc(v)) for k, v in vars(s).items()])


def settings_probe(a):
    """Settings objects made, changed and looked at in turn."""
    objs = []
    out = []
    for o in a['ops']:
        if o['do'] == 'make':
            objs.append(Settings(**dict([(str(k), v) for k, v in o['init'].items()])))
        elif o['do'] == 'set':
            setattr(objs[o['i'] % len(objs)], str(o['name']), o['value'])
        elif o['do'] == 'append':
            objs[o['i'] % len(objs)].UDP_SPAMMERS.append(str(o['value']))
        out.append([shown(s) for s in objs])
    return out


# ---- the LLSD message builder ---------------------------------------------------------------------------------------

class BuilderRun(object):
    def __init__(self, a):
        self.b = LLSDMessageBuilder()
        self.results = []

    def step(self, o):
        b = self.b
        if o['do'] == 'new':
            return {'ret': enc(b.new_message(dec(o['name'])))}
        if o['do'] == 'block':
            return {'ret': enc(b.next_block(dec(o['name'])))}
        if o['do'] == 'add':
            return {'ret': enc(b.add_data(dec(o['name']), dec(o['value']), dec(o['type'])))}
        m, n = b.build_message()
        self.results.append(m)
        return {'msg': enc(m), 'n': enc(n), 'shape': isinstance(m, dict) and not [1 for v in m.values() if not isinstance(v, list)]}


def builder(a):
    run = BuilderRun(a)
    out = []
    for o in a['ops']:
        try:
            r = run.step(o)
        except Exception, e:
            r = exc_info(e)
        r['built'] = run.b.is_built()
        out.append(r)
    return {'steps': out, 'results': [enc(m) for m in run.results]}


# ---- message objects ------------------------------------------------------------------------------------------------

def instances(m, bname):
    """Each instance of a block as every accessor shows it."""
    out = []
    for i, b in enumerate(m[bname]):
        v = {}
        v['item'] = [[enc(n), enc(m[bname][i][n])] for n in b.var_list]
        v['getitem'] = [[enc(n), enc(m.get_block(bname)[i].get_variable(n).data)] for n in b.var_list]
        v['attr'] = [[enc(n), enc(m.blocks[bname][i].vars[n].data)] for n in b.var_list]
        v['call'] = [[enc(n), enc(m.blocks[bname][i]()[n]())] for n in b.var_list]
        v['named'] = not [n for n in b.var_list if b.get_variable(n).name != n] and b.name == bname
        v['all'] = sorted([enc(x.name) for x in b.get_variables()])
        out.append(v)
    return out


def everything(m):
    return {'blocks': [[enc(n), instances(m, n)] for n in m.blocks], 'dict': enc(m.to_dict()), 'name': enc(m.name),
            'acks': enc(m.acks), 'num': m.num_acks, 'head': [enc(m.send_flags), enc(m.packet_id), enc(m.event_queue_id), bool(m.reliable), bool(m.trusted)]}


run_object = Helpers()


def rendered(m):
    out = {}
    for k, f in (('repr', repr), ('str', str), ('data', lambda x: x.data()), ('format', lambda x: '%s' % (x,)), ('join', lambda x: ' '.join([str(x)]))):
        try:
            t = f(m)
            out[k] = {'hex': (t.encode('utf-8') if isinstance(t, unicode) else t).encode('hex')}
        except Exception, e:
            out[k] = exc_info(e)
    bad = []
    for bname in m.blocks:
        for b in m.blocks[bname]:
            for n in b.var_list:
                for f in (str, repr, lambda v: v.get_data_as_string(), lambda v: '%s' % (v,)):
                    try:
                        if not isinstance(f(b.get_variable(n)), basestring):
                            bad.append([enc(n), 'no text'])
                    except Exception, e:
                        bad.append([enc(n), exc_info(e)])
    for k in ('log_packet', 'log_event_queue_data', 'null_packet_handler'):
        try:
            r = getattr(Helpers, k)(m, run_object)
            if r is not None:
                bad.append([k, 'gave %r' % (r,)])
        except Exception, e:
            bad.append([k, exc_info(e)])
    out['bad'] = bad
    return out


def make_blocks(spec):
    bs = []
    for bname, fields in spec:
        if fields and len(fields[0]) == 3:
            b = Block(dec(bname))
            for n, v, t in fields:
                b.add_variable(Variable(dec(n), dec(v), t))
        else:
            b = Block(dec(bname), **dict([(str(dec(n)), dec(v)) for n, v in fields]))
        bs.append(b)
    return bs


def arguments(a):
    bs = make_blocks(a['blocks'])
    if a.get('share'):
        bs = [bs[a['blocks'].index(spec)] for spec in a['blocks']]
    args, rest = [], []
    i = 0
    for g in a['groups']:
        part = bs[i:i + abs(g)]
        i += abs(g)
        if g < 0:
            args.append(part)
        else:
            args += part
    return args, bs[i:]


def construct(a, parts=None):
    args, rest = parts or arguments(a)
    m = Message(dec(a['name']), *args)
    for b in rest:
        m.add_block(b)
    return m


def message_views(a):
    if 'buf' in a:
        def make():
            r = ops_wire.decoded(a.get('tmpl'), a['buf'])
            return r
    else:
        def make():
            return construct(a)
    m, other = make(), make()
    if m is None:
        return None
    out = {'before': everything(m)}
    out['shown'] = rendered(m)
    out['after'] = everything(m)
    # what is read may be scribbled on
    d = m.to_dict()
    d['message'] = 'scribbled'
    for insts in d['body'].values():
        for i in insts:
            i['scribbled'] = 1
        insts.append({})
    d['body']['scribbled'] = []
    out['scribbled'] = everything(m)
    # another message made the same way is changed in every way
    for bname in list(other.blocks.keys()):
        for b in other.blocks[bname]:
            b.add_variable(Variable('Extra', 1))
            for v in b.get_variables():
                v.data = 'changed'
        other.blocks[bname].append(Block(bname))
    other.add_block(Block('Additional', X=1))
    other.add_ack(5)
    other.name = 'Changed'
    other.send_flags = 0xff
    out['shared'] = everything(m)
    fresh = make()
    out['fresh'] = everything(fresh)
    if 'buf' not in a:
        # two messages made of the same blocks, one of which gets more, and the lists they were made of change too
        parts = arguments(a)
        m, other = construct(a, parts), construct(a, parts)
        for bname in list(other.blocks.keys()):
            other.add_block(Block(bname, Extra=1))
        other.add_block(Block('Additional', X=1))
        for x in parts[0]:
            if isinstance(x, list):
                x.append(Block(x[0].name if x else 'Additional', Extra=1))
        out['same'] = everything(m)
    # one that was rendered and read gets more
    m = make()
    rendered(m), everything(m)
    for bname in list(m.blocks.keys()):
        m.add_block(Block(bname, LaterVar='later value'))
        m.blocks[bname][-1].add_variable(Variable('LaterStill', 5))
    out['later'] = everything(m)
    out['latershown'] = rendered(m)
    bare = Message('Bare')
    out['bare'] = everything(bare)
    return out


def message_llsd(a):
    m = construct(a)
    try:
        t = m.to_llsd()
        return {'ok': enc(llsd.parse(t)), 'dict': enc(m.to_dict()), 'text': t.encode('hex')}
    except Exception, e:
        return exc_info(e)
