PROPERTY = 'C10'
NEEDS = 'more than a thousand reliable datagrams of one peer between two rounds of acks'
BREAKS = 'what was acknowledged beyond the first thousand stays pending and is acknowledged again in the next round'
EDITS = [('message/udpdispatcher.py', "            circuit.acks = []\n", "            del circuit.acks[:1000]\n")]
DEMO = '''
from demolib import *

def run():
    h = Host(('10.0.0.1', 9000))
    for n in (3, 999, 1000, 1001, 1500):
        d, c = dispatcher()
        for i in range(n):
            buf = dgram(0x40, i + 1, chr(1) + chr(3) + struct.pack('<I', 0))
            d.receive_check(h, buf, len(buf))
        d.process_acks()
        check(not d.has_unacked(), 'with %d received there are acks pending after a round' % n)
        del c.sent[:]
        d.process_acks()
        check(not c.sent, 'with %d received the second round sent %d datagrams' % (n, len(c.sent)))

main(run)
'''
