PROPERTY = 'C01'
NEEDS = 'a message put together of blocks whose block numbers, from where they came from, are not in order'
BREAKS = 'the instances of a block are sent in the order of the numbers they happen to carry, not in the order they were added'
EDITS = [('message/udpserializer.py', "        block_count = len(block_list)\n",
          "        block_list = sorted(block_list, key=lambda x: x.block_number)\n        block_count = len(block_list)\n")]
DEMO = '''
from demolib import *

def run():
    from pyogp.lib.base.message.udpserializer import UDPMessageSerializer
    s = UDPMessageSerializer()
    buf = s.serialize(Message('PacketAck', *[Block('Packets', ID=i) for i in (5, 6, 7)]))
    m = deserializer().deserialize(buf)
    check([b['ID'] for b in m['Packets']] == [5, 6, 7], 'decoded %s' % (m,))
    back = list(m['Packets'])
    back.reverse()
    m = deserializer().deserialize(s.serialize(Message('PacketAck', *back)))
    got = [b['ID'] for b in m['Packets']]
    check(got == [7, 6, 5], 'the same blocks in reverse were sent as %s' % got)

main(run)
'''
