PROPERTY = 'C19'
NEEDS = 'a vector with a component that is zero with a minus sign'
BREAKS = 'zeros lose their sign when the bytes are made'
EDITS = [('datatypes.py', 'return struct.pack("<3f", self.X, self.Y, self.Z)', 'return struct.pack("<3f", self.X + 0.0, self.Y + 0.0, self.Z + 0.0)')]
DEMO = '''
from demolib import *
from pyogp.lib.base.datatypes import Vector3

def run():
    for raw in ('\\0\\0\\x80\\x3f' * 3, '\\0\\0\\0\\0' * 3, '\\0\\0\\0\\x80' * 3, '\\0\\0\\0\\0\\0\\0\\0\\x80\\0\\0\\x80\\xbf'):
        got = Vector3(bytes=raw).get_bytes()
        check(got == raw, '%r came back as %r' % (raw, got))

main(run)
'''
