PROPERTY = 'C08'
NEEDS = 'a datagram with more than 100 acks appended that acks messages of ours with its last ones'
BREAKS = 'only the first hundred of the acks appended to a datagram count'
EDITS = [('message/circuit.py', "        for ack_packet_id in packet.acks:\n", "        for ack_packet_id in packet.acks[:100]:\n")]
DEMO = '''
from demolib import *

def run():
    for n in (1, 100, 101, 255):
        d, c = dispatcher()
        h = Host(('10.0.0.1', 9000))
        for i in range(n):
            d.send_reliable(Message('StartPingCheck', Block('PingID', PingID=1, OldestUnacked=0)), h, 2)
        d.message_handler.register('StartPingCheck')
        buf = dgram(0x10, 1, chr(1) + chr(3) + struct.pack('<I', 0), acks=range(1, n + 1))
        d.receive_check(h, buf, len(buf))
        left = d.find_circuit(h).unacked_packets.keys()
        check(not left, 'after acks of all %d, %d are still awaited' % (n, len(left)))

main(run)
'''
