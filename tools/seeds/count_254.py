PROPERTY = 'C02'
NEEDS = 'a repeating block with 255 instances'
BREAKS = 'the count written for it is 254'
EDITS = [('message/udpserializer.py', "            block_buffer += struct.pack('>B', block_count)\n", "            block_buffer += struct.pack('>B', min(block_count, 254))\n")]
DEMO = '''
from demolib import *
from pyogp.lib.base.message.udpserializer import UDPMessageSerializer

def run():
    for n in (1, 127, 200, 254, 255):
        m = Message('PacketAck', [Block('Packets', ID=i) for i in range(n)])
        m.send_flags, m.packet_id = 0, 1
        got = UDPMessageSerializer().serialize(m)
        check(got[6:] == packet_ack(range(n)), 'of %d instances the datagram says %d' % (n, ord(got[10])))

main(run)
'''
