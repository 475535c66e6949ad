PROPERTY = 'C26'
NEEDS = 'an error answer whose body starts or ends with blanks, or is no text'
BREAKS = 'the body kept with the error is trimmed'
EDITS = [('exc.py', '        self.body = body\n        self.method = method', '        self.body = body and body.strip()\n        self.method = method')]
DEMO = '''
from demolib import *
from pyogp.lib.base.exc import ResourceError

def run():
    for b in ('', 'x', ' x\\n', '\\n\\n<html>'):
        e = ResourceError('http://a/', 500, 'why', b, 'POST')
        check(e.body == b, 'raised with %r, it has the body %r' % (b, e.body))

main(run)
'''
