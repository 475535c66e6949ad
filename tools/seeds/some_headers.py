PROPERTY = 'C18'
NEEDS = 'an answer to a GET with more than 20 headers'
BREAKS = 'of the headers of an answer only twenty are kept'
EDITS = [('network/stdlib_client.py', "        response = Response(body = result.read(), status = status, headerlist = headerlist)\n        return response\n\n    def POST",
          "        response = Response(body = result.read(), status = status, headerlist = headerlist[:20])\n        return response\n\n    def POST")]
DEMO = '''
from demolib import *
import threading
import BaseHTTPServer
from pyogp.lib.base.network.stdlib_client import StdLibClient

class H(BaseHTTPServer.BaseHTTPRequestHandler):
    def do_GET(self):
        self.send_response(200)
        for i in range(int(self.path[1:])):
            self.send_header('X-Part-%d' % i, 'v%d' % i)
        self.send_header('Content-Length', '2')
        self.end_headers()
        self.wfile.write('ok')
    def log_message(self, *a):
        pass

def run():
    s = BaseHTTPServer.HTTPServer(('127.0.0.1', 0), H)
    t = threading.Thread(target=s.serve_forever)
    t.setDaemon(True)
    t.start()
    for n in (0, 5, 40):
        r = StdLibClient().GET('http://127.0.0.1:%d/%d' % (s.server_port, n))
        lost = [i for i in range(n) if r.headers.get('X-Part-%d' % i) != 'v%d' % i]
        check(r.body == 'ok' and not lost, 'of %d headers these were lost: %s' % (n, lost))

main(run)
'''
