"""A loopback HTTP server that records each request and answers with scripted bytes."""
import socket
import threading


class Server:
    def __init__(self):
        self.sock = socket.socket()
        self.sock.bind(('127.0.0.1', 0))
        self.sock.listen(16)
        self.port = self.sock.getsockname()[1]
        self.requests = []
        self.reply = b''
        self.pieces = 1
        threading.Thread(target=self.run, daemon=True).start()

    def run(self):
        while True:
            c, _ = self.sock.accept()
            try:
                c.settimeout(20)
                self.one(c)
            except OSError as e:
                self.requests.append({'broken': repr(e)})
            finally:
                c.close()

    def one(self, c):
        buf = b''
        while b'\r\n\r\n' not in buf:
            d = c.recv(65536)
            if not d:
                self.requests.append({'broken': 'no complete request: %r' % buf})
                return
            buf += d
        head, body = buf.split(b'\r\n\r\n', 1)
        lines = head.decode('latin-1').split('\r\n')
        headers = [[x.strip() for x in ln.split(':', 1)] for ln in lines[1:]]
        n = sum(int(v) for k, v in headers if k.lower() == 'content-length')
        while len(body) < n:
            d = c.recv(65536)
            if not d:
                break
            body += d
        self.requests.append({'line': lines[0], 'headers': headers, 'body': body})
        r = self.reply
        step = max(1, -(-len(r) // self.pieces))
        for i in range(0, len(r), step):
            c.sendall(r[i:i + step])
        c.shutdown(socket.SHUT_WR)
        c.settimeout(5)
        try:
            while c.recv(65536):
                pass
        except OSError:
            pass


_server = None


def server():
    global _server
    if _server is None:
        _server = Server()
    return _server
