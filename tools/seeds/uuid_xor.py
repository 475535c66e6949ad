PROPERTY = 'C19'
NEEDS = 'the xor of two ids that begin with the same hex digit'
BREAKS = 'the hex digits of the xor are padded on the wrong side, so a result with leading zeros is shifted'
EDITS = [('datatypes.py', """        result = uuid.UUID(int = temp)
""", """        result = uuid.UUID(hex = ('%x' % temp).ljust(32, '0'))
""")]
DEMO = """
from demolib import *
from pyogp.lib.base.datatypes import UUID

def run():
    a = UUID('10203040-5060-7080-90a0-b0c0d0e0f000')
    for text in ('f0203040-5060-7080-90a0-b0c0d0e0f000', '1a203040-5060-7080-90a0-b0c0d0e0f000', '10203040-5060-7080-90a0-b0c0d0e0f0ff', str(a)):
        b = UUID(text)
        want = ''.join([chr(ord(x) ^ ord(y)) for x, y in zip(a.get_bytes(), b.get_bytes())])
        check((a ^ b).get_bytes() == want, '%s ^ %s is %s' % (a, b, a ^ b))

main(run)
"""
