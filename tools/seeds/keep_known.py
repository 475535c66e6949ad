PROPERTY = 'C02'
NEEDS = 'a message with a block its template does not have, looked at or encoded with another template afterwards'
BREAKS = 'encoding a message takes blocks out of it'
EDITS = [('message/udpserializer.py', "        self.message_buffer = msg_buffer\n",
          "        self.message_buffer = msg_buffer\n        known = [b.name for b in self.current_template.get_blocks()]\n        for name in list(self.context.blocks):\n            if name not in known:\n                del self.context.blocks[name]\n")]
DEMO = '''
from demolib import *

def run():
    from pyogp.lib.base.message.udpserializer import UDPMessageSerializer
    m = Message('PacketAck', Block('Packets', ID=5), Block('Note', Text='mine'))
    first = UDPMessageSerializer().serialize(m)
    check(sorted(m.blocks) == ['Note', 'Packets'], 'after encoding it the message has %s' % sorted(m.blocks))
    check(UDPMessageSerializer().serialize(m) == first, 'encoded otherwise the second time')

main(run)
'''
