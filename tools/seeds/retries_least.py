PROPERTY = 'C09'
NEEDS = 'a reliable message sent with no retries, and not acknowledged'
BREAKS = 'a message to be sent reliably without retries is retransmitted once all the same'
EDITS = [('message/circuit.py', '        packet.retries = retries\n',
          '        packet.retries = retries or packet.retries\n')]
DEMO = """
from demolib import *

def run():
    for n in (0, 1, 3):
        d, c = dispatcher()
        h = Host(('10.0.0.1', 9000))
        d.send_reliable(Message('StartPingCheck', Block('PingID', PingID=1, OldestUnacked=0)), h, n)
        for i in range(6):
            d.process_acks()
        check(len(c.sent) == 1 + n, 'with %d retries it was sent %d times' % (n, len(c.sent)))

main(run)
"""
