PROPERTY = 'C24'
NEEDS = 'a fixed-size field of two, six, ten bytes, shown as text'
BREAKS = 'rendering fails for fixed fields whose size is no multiple of four'
EDITS = [('message/template.py', "            return str(struct.unpack('h'*(len(self.data)/2), self.data))\n",
          "            return str(struct.unpack('%dI' % ((len(self.data)+2)/4), self.data))\n")]
DEMO = """
from demolib import *
from pyogp.lib.base.message.message import Variable
from pyogp.lib.base.message.msgtypes import MsgType

def run():
    for n in (1, 2, 3, 4, 6, 8, 10, 32):
        b = Block('B')
        b.add_variable(Variable('F', 'x' * n, MsgType.MVT_FIXED))
        m = Message('Any', b)
        try:
            ok = 'F' in repr(m)
        except Exception, e:
            check(False, 'a fixed field of %d bytes cannot be shown: %s' % (n, e))
        check(ok, 'the field is not shown')

main(run)
"""
