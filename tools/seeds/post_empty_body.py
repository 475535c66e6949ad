PROPERTY = 'C18'
NEEDS = 'a POST with an empty body'
BREAKS = 'a POST without data is sent as a GET'
EDITS = [('network/stdlib_client.py', """        request = urllib2.Request(url, data, headers=headers)
""", """        request = urllib2.Request(url, data or None, headers=headers)
""")]
DEMO = """
from demolib import *
import threading
import BaseHTTPServer
from pyogp.lib.base.network.stdlib_client import StdLibClient

seen = []

class H(BaseHTTPServer.BaseHTTPRequestHandler):
    def do(self):
        n = int(self.headers.get('content-length') or 0)
        seen.append((self.command, self.rfile.read(n)))
        self.send_response(200)
        self.send_header('Content-Length', '2')
        self.end_headers()
        self.wfile.write('ok')
    do_GET = do_POST = do
    def log_message(self, *a):
        pass

def run():
    s = BaseHTTPServer.HTTPServer(('127.0.0.1', 0), H)
    t = threading.Thread(target=s.serve_forever)
    t.setDaemon(True)
    t.start()
    url = 'http://127.0.0.1:%d/x' % s.server_port
    c = StdLibClient()
    for body in ('a', '\\0\\xff', ''):
        check(c.POST(url, body).body == 'ok', 'no answer')
        check(seen.pop() == ('POST', body), 'a POST of %r arrived otherwise' % body)
    c.GET(url)
    check(seen.pop() == ('GET', ''), 'a GET arrived otherwise')

main(run)
"""
