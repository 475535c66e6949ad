PROPERTY = 'C07'
NEEDS = 'more than 65535 datagrams to one peer'
BREAKS = 'packet ids start again after 65535, so later packets are taken for repetitions'
EDITS = [('message/circuit.py', '        self.last_packet_out_id += 1\n',
          '        self.last_packet_out_id = (self.last_packet_out_id + 1) & 0xffff\n')]
DEMO = """
from demolib import *

def run():
    d, c = dispatcher()
    h = Host(('10.0.0.1', 9000))
    m = Message('StartPingCheck', Block('PingID', PingID=1, OldestUnacked=0))
    for i in range(65540):
        d.send_message(m, h)
    got = [struct.unpack('>I', x[2][1:5])[0] for x in c.sent]
    check(got == range(1, 65541), 'the last packet ids are %s' % got[-6:])

main(run)
"""
