PROPERTY = 'C10'
NEEDS = 'a number of pending acks that fills its last packet exactly (251, 502, ...)'
BREAKS = 'the pending acks are only cleared with the last, partly filled packet, so they are sent again at the next processing'
EDITS = [('message/udpdispatcher.py', """                self.send_message(msg, circuit.host)

            circuit.acks = []
""", """                self.send_message(msg, circuit.host)
                circuit.acks = []
""")]
DEMO = """
from demolib import *

def run():
    for n in (1, 250, 251, 252, 502):
        d, c = dispatcher()
        h = Host(('10.0.0.1', 9000))
        for i in range(n):
            buf = dgram(0x40, i + 1, '\\x01\\x07')
            d.receive_check(h, buf, len(buf))
        d.process_acks()
        sent = len(c.sent)
        check(sent > 0, 'no acks were sent for %d packets' % n)
        d.process_acks()
        check(len(c.sent) == sent, 'the acks of %d packets were sent again' % n)
        check(not d.has_unacked(), 'acks of %d packets are still pending' % n)

main(run)
"""
