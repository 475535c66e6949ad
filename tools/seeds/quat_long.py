PROPERTY = 'C19'
NEEDS = 'a rotation of 12 bytes whose vector part is longer than one'
BREAKS = 'a vector part too long to be normalised gets an invented real part instead of zero'
EDITS = [('datatypes.py', '            if t > 0:\n                self.W = math.sqrt(t)\n            else:\n                # Avoid sqrt(-episilon)\n                self.W = 0           \n',
          '            self.W = math.sqrt(abs(t))\n')]
DEMO = """
from demolib import *
from pyogp.lib.base.datatypes import Quaternion

def run():
    for v, w in (((0.0, 0.0, 0.0), 1.0), ((0.6, 0.0, 0.0), 0.8), ((1.0, 0.0, 0.0), 0.0), ((1.0, 1.0, 0.0), 0.0), ((0.0, 0.0, 3.0), 0.0)):
        q = Quaternion(struct.pack('<3f', *v))
        check(abs(q.W - w) < 1e-6, '%s gets the real part %s' % (v, q.W))

main(run)
"""
