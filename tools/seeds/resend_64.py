PROPERTY = 'C09'
NEEDS = 'more than 64 reliable messages to one peer unacknowledged at once'
BREAKS = 'only 64 of the unacknowledged messages are sent again in a round, always the same ones'
EDITS = [('message/udpdispatcher.py', "            for unacked_packet in circuit.unacked_packets.values():\n",
          "            for unacked_packet in circuit.unacked_packets.values()[:64]:\n")]
DEMO = '''
from demolib import *

def run():
    h = Host(('10.0.0.1', 9000))
    for n in (1, 64, 65, 200):
        d, c = dispatcher()
        for i in range(n):
            d.send_reliable(Message('StartPingCheck', Block('PingID', PingID=1, OldestUnacked=0)), h, 2)
        del c.sent[:]
        d.process_acks()
        check(len(c.sent) == n, 'of %d unacknowledged messages %d were sent again' % (n, len(c.sent)))

main(run)
'''
