"""The UDP socket client over loopback sockets and over a stand-in socket, alone and under a dispatcher."""
from common import *
import socket
import ops_wire
from java.net import DatagramSocket, DatagramPacket, InetAddress, SocketException, SocketTimeoutException
from jarray import array, zeros
from pyogp.lib.base.network.net import NetUDPClient
from pyogp.lib.base.message.circuit import Host
from pyogp.lib.base.message.udpdispatcher import UDPDispatcher
from pyogp.lib.base.message.message_handler import MessageHandler

LOOP = InetAddress.getByName('127.0.0.1')


class Peer(object):
    """A remote end with a socket of its own."""
    def __init__(self, ip, port=0):
        self.ip = str(ip)
        try:
            self.sock = DatagramSocket(port, InetAddress.getByName(self.ip))
        except SocketException:
            # taken
            self.sock = DatagramSocket(0, InetAddress.getByName(self.ip))
        self.sock.setReceiveBufferSize(1 << 20)
        self.port = self.sock.getLocalPort()

    def send(self, data, port):
        b = array([((ord(c) + 128) & 255) - 128 for c in data], 'b')
        self.sock.send(DatagramPacket(b, len(b), LOOP, port))

    def receive(self, ms):
        buf = zeros(65536, 'b')
        p = DatagramPacket(buf, 65536)
        self.sock.setSoTimeout(ms)
        try:
            self.sock.receive(p)
        except SocketTimeoutException:
            return None
        return ''.join([chr(x & 255) for x in buf[:p.getLength()]]), p.getPort()

    def close(self):
        self.sock.close()


class Stub(object):
    """A socket that keeps to the rules: it cuts a datagram at the size asked for, and can break."""
    def __init__(self):
        self.inbox = []
        self.sent = []

    def recvfrom(self, n):
        if not self.inbox:
            raise socket.error(11, 'Resource temporarily unavailable')
        x = self.inbox.pop(0)
        if isinstance(x, Exception):
            raise x
        data, addr = x
        return data[:n], addr

    def recv(self, n):
        return self.recvfrom(n)[0]

    def sendto(self, data, *rest):
        if isinstance(data, unicode) or not hasattr(data, '__len__'):
            raise TypeError('a string is needed')
        self.sent.append((str(data), rest[-1]))
        return len(data)

    def settimeout(self, t):
        pass

    def close(self):
        pass

ERRORS = {'error': lambda: socket.error(104, 'Connection reset by peer'), 'timeout': lambda: socket.timeout('timed out'),
          'io': lambda: IOError('broken'), 'value': lambda: ValueError('closed')}


class SockRun(object):
    def __init__(self, a):
        self.a = a
        self.stub = a.get('stub')
        self.peers = []
        self.kept = []
        self.socks = []
        self.client = NetUDPClient()
        self.d = None
        if a.get('dispatcher'):
            s = settings_from(a.get('settings'))
            self.d = UDPDispatcher(self.client if a.get('given') else None, s, MessageHandler(s), template_file(a.get('tmpl')),
                                   ops_wire.xml_for(ops_wire.OPEN_XML))
            self.client = self.d.udp_client
            self.sock = self.d.socket
        else:
            self.sock = self.client.start_udp_connection()
        self.socks.append(self.sock)
        if self.stub:
            self.sock = Stub()
            if self.d:
                self.d.socket = self.sock
            # peers share addresses, and ports
            self.peers = [(str(ip), 1000 + a['peers'][:i].count(ip)) for i, ip in enumerate(a['peers'])]
        else:
            self.sock.bind(('127.0.0.1', 0))
            self.port = self.sock.getsockname()[1]
            for ip in a['peers']:
                self.peers.append(Peer(ip, self.peers and self.peers[0].port or 0))
        self.names = dict([(self.addr(i), i) for i in range(len(self.peers))])
        self.read = 0

    def addr(self, i):
        p = self.peers[i]
        return p if self.stub else (p.ip, p.port)

    def who(self, h):
        return self.names.get((h.ip and str(h.ip), h.port), enc([h.ip and str(h.ip), h.port]))

    def receive(self, wait):
        if not self.stub:
            self.sock.settimeout(wait)
        data, n = self.client.receive_packet(self.sock)
        if not self.stub:
            self.sock.settimeout(5.0)
        return data, n

    def take(self, i, n, wait):
        """What peer i has received (n datagrams are expected)."""
        out = []
        if self.stub:
            mine = [x for x in self.sock.sent if tuple(x[1]) == self.addr(i)]
            self.sock.sent = [x for x in self.sock.sent if tuple(x[1]) != self.addr(i)]
            return [x[0].encode('hex') for x in mine], True
        ok = True
        for k in range(n + 1):
            x = self.peers[i].receive(2000 if k < n else wait)
            if x is None:
                break
            out.append(x[0].encode('hex'))
            ok = ok and x[1] == self.port
        return out, ok

    def step(self, o):
        k = o['do']
        if k == 'in':
            data = b2s(o['buf']).decode('hex')
            if self.stub:
                self.sock.inbox.append((data, self.addr(o['peer'])))
            else:
                self.peers[o['peer']].send(data, self.port)
            return None
        if k == 'fault':
            self.sock.inbox.append(ERRORS[o['what']]())
            return None
        if k in ('recv', 'empty'):
            data, n = self.receive(3.0 if k == 'recv' else 0.01)
            r = {'data': data.encode('hex'), 'n': enc(n), 'str': isinstance(data, str)}
            if k == 'recv':
                h = self.client.get_sender()
                self.kept.append(h)
                r['sender'] = self.who(h)
            return r
        if k == 'check':
            data, n = self.receive(3.0)
            h = self.client.get_sender()
            self.kept.append(h)
            m = self.d.receive_check(h, data, n)
            return {'msg': view_message(m), 'sender': self.who(h)}
        if k == 'idle':
            data, n = self.receive(0.01)
            self.d.receive_check(self.client.get_sender(), data, n)
            return None
        if k == 'out':
            self.client.send_packet(self.sock, b2s(o['buf']).decode('hex'), Host(self.addr(o['peer'])))
            return None
        if k == 'ask':
            return self.who(self.client.get_sender())
        if k == 'none':
            self.client.send_packet(self.sock, None, Host(self.addr(o['peer'])))
            return None
        if k == 'broken':
            s = self.client.start_udp_connection()
            s.close()
            data, n = self.client.receive_packet(s)
            return {'data': data.encode('hex'), 'n': enc(n)}
        if k == 'send':
            h = Host(self.addr(o['peer'])) if not o.get('kept') or not self.kept else ([x for x in self.kept if self.who(x) == o['peer']] or [Host(self.addr(o['peer']))])[0]
            m = build_message(o['msg'])
            r = self.d.send_reliable(m, h, 0) if o.get('rel') else self.d.send_message(m, h)
            return r and r.encode('hex')
        if k == 'acks':
            self.d.process_acks()
            return None
        if k == 'take':
            got, ok = self.take(o['peer'], o['n'], 10)
            return {'got': got, 'from': ok}
        raise ValueError(k)

    def run(self):
        out = []
        try:
            for o in self.a['ops']:
                try:
                    r = {'ret': self.step(o)}
                except Exception, e:
                    r = exc_info(e)
                out.append(r)
            res = {'steps': out, 'kept': [self.who(h) for h in self.kept]}
            if self.d:
                res['circuits'] = sorted([[self.who(c.host), self.who(c.host), sorted([int(x) for x in c.unacked_packets]), len(c.acks)]
                                          for c in self.d.circuit_manager.circuit_map.values()])
                res['counts'] = [self.d.packets_in, self.d.packets_out]
            return res
        finally:
            for s in self.socks:
                try:
                    s.close()
                except Exception:
                    pass
            if not self.stub:
                for p in self.peers:
                    p.close()


def sockets(a):
    return SockRun(a).run()
