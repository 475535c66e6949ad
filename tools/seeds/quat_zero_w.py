PROPERTY = 'C20'
NEEDS = 'a rotation whose real part is zero (half a turn)'
BREAKS = 'half-turn rotations are packed with the signs of all components flipped'
EDITS = [('helpers.py', '        if quaternion[3] >= 0:\n',
          '        if quaternion[3] > 0:\n')]
DEMO = """
from demolib import *
from pyogp.lib.base.helpers import Helpers

def run():
    for q in ((1.0, 0.0, 0.0, 0.0), (0.6, -0.8, 0.0, 0.0), (0.5, 0.5, 0.5, 0.5), (0.5, 0.5, 0.5, -0.5)):
        s = q[3] < 0 and -1 or 1
        want = (s * q[0], s * q[1], s * q[2])
        got = Helpers.pack_quaternion_to_vector3(q)
        check(got == want, '%s is packed as %s' % (q, got))

main(run)
"""
