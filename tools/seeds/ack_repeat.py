PROPERTY = 'C10'
NEEDS = 'the same reliable datagram received twice between two rounds of acks'
BREAKS = 'a duplicate of a datagram that is still to be acknowledged is not acknowledged itself'
EDITS = [('message/circuit.py', '        self.acks.append(packet_id)\n', '        if packet_id not in self.acks:\n            self.acks.append(packet_id)\n')]
DEMO = """
from demolib import *

def run():
    d, c = dispatcher()
    h = Host(('10.0.0.1', 9000))
    buf = chr(0x40) + struct.pack('>I', 5) + chr(0) + chr(1) + chr(3) + struct.pack('<I', 0)
    for n in (1, 2, 3):
        for i in range(n):
            d.receive_check(h, buf, len(buf))
        del c.sent[:]
        d.process_acks()
        check(len(c.sent) == 1, 'acked by %d datagrams' % len(c.sent))
        got = c.sent[0][2]
        check(ord(got[10]) == n, '%d receipts were acknowledged %d times' % (n, ord(got[10])))

main(run)
"""
