PROPERTY = 'C06'
NEEDS = 'more instances of a Multiple block than the template has'
BREAKS = 'a message with too many instances of a Multiple block is sent instead of refused'
EDITS = [('message/udpserializer.py', '            if template_block.number != block_count:\n',
          '            if template_block.number > block_count:\n')]
DEMO = """
from demolib import *

def run():
    d, c = dispatcher()
    h = Host(('10.0.0.1', 9000))
    def test(n):
        return Message('TestMessage', Block('TestBlock1', Test1=1), [Block('NeighborBlock', Test0=i, Test1=i, Test2=i) for i in range(n)])
    for n in (4, 3, 5, 9):
        del c.sent[:]
        d.send_message(test(n), h)
        check(len(c.sent) == (n == 4), '%d of 4 instances: %d datagrams sent' % (n, len(c.sent)))

main(run)
"""
