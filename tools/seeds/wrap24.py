PROPERTY = 'C07'
NEEDS = 'more than sixteen million datagrams sent to one peer'
BREAKS = 'the packet numbers start again after 24 bits'
EDITS = [('message/circuit.py', '        self.last_packet_out_id += 1\n', '        self.last_packet_out_id = self.last_packet_out_id % 0xffffff + 1\n')]
DEMO = '''
from demolib import *
from pyogp.lib.base.message.circuit import Circuit

def run():
    c = Circuit(Host(('10.0.0.1', 9000)), 0)
    n = 0
    while n < 0x1000002:
        n += 1
        if c.next_packet_id() != n:
            check(False, 'number %d was not given out' % n)

main(run)
'''
