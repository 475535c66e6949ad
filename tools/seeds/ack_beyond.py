PROPERTY = 'C08'
NEEDS = 'a datagram with appended acks in which an id never sent comes before the id of an awaited packet'
BREAKS = 'the first ack of an unknown packet ends the processing of the acks of that datagram, so packets acked after it stay awaited'
EDITS = [('message/circuit.py', """        for ack_packet_id in packet.acks:
            self.ack_reliable_packet(ack_packet_id)
""", """        #there is nothing to do for packets we never sent
        sent = lambda packet_id: packet_id <= self.last_packet_out_id
        for ack_packet_id in itertools.takewhile(sent, packet.acks):
            self.ack_reliable_packet(ack_packet_id)
"""), ('message/circuit.py', """
class Host(object):""", """
import itertools

class Host(object):""")]
DEMO = """
from demolib import *

def run():
    d, c = dispatcher()
    d.settings.ENABLE_DEFERRED_PACKET_PARSING = False
    h = Host(('10.0.0.1', 9000))
    for i in range(3):
        d.send_reliable(Message('StartPingCheck', Block('PingID', PingID=i, OldestUnacked=0)), h, 0)
    buf = dgram(0x10, 1, '\\x01\\x07\\0\\0\\0\\0', acks=[1, 900, 2])
    d.receive_check(h, buf, len(buf))
    left = sorted(d.find_circuit(h).unacked_packets)
    check(left == [3], 'after acks of 1, 900 and 2 the packets awaited are %s' % left)

main(run)
"""
