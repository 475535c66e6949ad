PROPERTY = 'C17'
NEEDS = 'a dict of headers used for several calls'
BREAKS = "the content type is written into the caller's dict of headers, which then goes out with other calls"
EDITS = [('caps.py', '        headers = {"Content-type" : content_type}\n        headers.update(custom_headers)  # give the user the ability to add headers \n',
          '        headers = custom_headers  # give the user the ability to add headers\n        headers.setdefault("Content-type", content_type)\n')]
DEMO = """
from demolib import *
from pyogp.lib.base.caps import Capability
from webob import Response

class Rest(object):
    def __init__(self):
        self.seen = []
    def GET(self, url, headers={}):
        self.seen.append(('GET', dict(headers)))
        return Response(body='<llsd><map /></llsd>', status='200 OK', headerlist=[('Content-Type', 'application/llsd+xml')])
    def POST(self, url, data, headers={}):
        self.seen.append(('POST', dict(headers)))
        return Response(body='<llsd><map /></llsd>', status='200 OK', headerlist=[('Content-Type', 'application/llsd+xml')])

def run():
    r = Rest()
    c = Capability('x', 'http://x/', r, Settings(quiet_logging=True))
    mine = {'X-Session': '7'}
    c.POST({}, mine)
    c.GET(mine)
    check(mine == {'X-Session': '7'}, 'the headers given are now %s' % mine)
    check(r.seen[1] == ('GET', {'X-Session': '7'}), 'the GET went out with %s' % (r.seen[1],))

main(run)
"""
