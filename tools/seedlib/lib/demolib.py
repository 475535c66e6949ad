"""What the demonstrations share."""
import os, struct, sys, tempfile, logging, traceback
logging.getLogger().setLevel(logging.CRITICAL)
logging.getLogger().addHandler(logging.StreamHandler(open(os.devnull, 'w')))

from pyogp.lib.base.settings import Settings
from pyogp.lib.base.message.message import Message, Block
from pyogp.lib.base.message.circuit import Host


class Client(object):
    """A UDP client that records what is sent and hands out what is put in its inbox."""
    def __init__(self):
        self.sent = []
        self.inbox = []
        self.sender = None

    def start_udp_connection(self):
        return object()

    def send_packet(self, sock, buf, host):
        self.sent.append((host.ip, host.port, buf))

    def receive_packet(self, sock):
        if not self.inbox:
            return '', 0
        h, data = self.inbox.pop(0)
        self.sender = h
        return data, len(data)

    def get_sender(self):
        return self.sender


def template(text):
    f = tempfile.TemporaryFile()
    f.write(text)
    f.seek(0)
    return f


def dgram(flags, pid, body, extra='', acks=None):
    d = chr(flags) + struct.pack('>I', pid) + chr(len(extra)) + extra + body
    if acks is not None:
        d += ''.join([struct.pack('>I', a) for a in acks]) + chr(len(acks))
    return d


def packet_ack(ids):
    return '\xff\xff\xff\xfb' + chr(len(ids)) + ''.join([struct.pack('<I', i) for i in ids])


def dispatcher(**kw):
    from pyogp.lib.base.message.udpdispatcher import UDPDispatcher
    from pyogp.lib.base.message.message_handler import MessageHandler
    s = kw.setdefault('settings', Settings(quiet_logging=True))
    kw.setdefault('message_handler', MessageHandler(s))
    c = kw.setdefault('udp_client', Client())
    return UDPDispatcher(**kw), c


def deserializer(**kw):
    from pyogp.lib.base.message.udpdeserializer import UDPMessageDeserializer
    s = Settings(quiet_logging=True)
    s.ENABLE_DEFERRED_PACKET_PARSING = False
    kw.setdefault('settings', s)
    return UDPMessageDeserializer(**kw)


def show(m):
    """(name, {block: [[(field, data)]]}) of a message."""
    if m is None:
        return None
    return m.name, dict([(b, [[(n, i.get_variable(n).data) for n in i.var_list] for i in m.blocks[b]]) for b in m.blocks])


def check(cond, text):
    if not cond:
        print 'VIOLATED: %s' % (text,)
        sys.stdout.flush()
        os._exit(1)


def done():
    print 'holds'
    sys.stdout.flush()
    os._exit(0)


def main(f):
    try:
        f()
    except SystemExit:
        raise
    except:
        traceback.print_exc()
        check(False, 'raised')
    done()
