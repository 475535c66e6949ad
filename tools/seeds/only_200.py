PROPERTY = 'C18'
NEEDS = 'a successful answer with a status other than 200'
BREAKS = 'successful answers other than 200 are raised as errors'
EDITS = [('network/stdlib_client.py', '        request = urllib2.Request(url, data, headers=headers)\n        try:\n            result = urllib2.urlopen(request)\n',
          '        request = urllib2.Request(url, data, headers=headers)\n        try:\n            result = urllib2.urlopen(request)\n            if result.code != 200:\n                raise urllib2.HTTPError(url, result.code, result.msg, result.headers, result)\n')]
DEMO = """
from demolib import *
import threading
import BaseHTTPServer
from pyogp.lib.base.network.stdlib_client import StdLibClient

class H(BaseHTTPServer.BaseHTTPRequestHandler):
    def do_POST(self):
        self.rfile.read(int(self.headers.get('content-length') or 0))
        self.send_response(int(self.path[1:]))
        self.send_header('Content-Length', '2')
        self.end_headers()
        self.wfile.write('ok')
    def log_message(self, *a):
        pass

def run():
    s = BaseHTTPServer.HTTPServer(('127.0.0.1', 0), H)
    t = threading.Thread(target=s.serve_forever)
    t.setDaemon(True)
    t.start()
    for code in (200, 201, 202):
        r = StdLibClient().POST('http://127.0.0.1:%d/%d' % (s.server_port, code), 'x')
        check(r.status_int == code and r.body == 'ok', '%d arrived as %s' % (code, r.status))

main(run)
"""
