PROPERTY = 'C26'
NEEDS = 'an HTTP error with a reason of more than a line'
BREAKS = 'only the first line of the reason is shown and kept'
EDITS = [('exc.py', '        self.code = code\n        self.msg = msg\n', "        self.code = code\n        self.msg = str(msg).split('\\n')[0]\n")]
DEMO = '''
from demolib import *
from pyogp.lib.base.exc import HTTPError

def run():
    for m in ('Not Found', 'first\\nsecond', ''):
        e = HTTPError(404, m, None)
        check(e.msg == m and str(e) == '404 ' + m, 'raised with %r, it has %r and shows as %r' % (m, e.msg, str(e)))

main(run)
'''
