PROPERTY = 'C26'
NEEDS = 'a ResourceError without a message'
BREAKS = 'an error without a message takes its code for one'
EDITS = [('exc.py', '        self.code = code\n        self.message = message\n        self.body = body\n',
          '        self.code = code\n        self.message = message or code\n        self.body = body\n')]
DEMO = """
from demolib import *
from pyogp.lib.base.exc import ResourceError

def run():
    for msg in ('Not here', ''):
        e = ResourceError('http://x/', 500, msg, 'b')
        check((e.url, e.code, e.message, e.body, e.method) == ('http://x/', 500, msg, 'b', 'GET'), 'a message %r became %r' % (msg, e.message))

main(run)
"""
