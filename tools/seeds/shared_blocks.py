PROPERTY = 'C24'
NEEDS = 'two messages built from one list of blocks, one of which then gets another block of that name'
BREAKS = 'a message keeps the list of blocks it is given as its own, so messages built from the same list share their instances'
EDITS = [('message/message.py', """                for bl in block:
                    self.add_block(bl)                                
""", """                if block and block[0].name not in self.blocks and \\
                   not [bl for bl in block if bl.name != block[0].name]:
                    self.blocks[block[0].name] = block
                else:
                    for bl in block:
                        self.add_block(bl)                                
""")]
DEMO = """
from demolib import *

def run():
    blocks = [Block('Packets', ID=i) for i in (1, 2)]
    a, b = Message('PacketAck', blocks), Message('PacketAck', blocks)
    a.add_block(Block('Packets', ID=3))
    ids = lambda m: [x['ID'] for x in m['Packets']]
    check(ids(a) == [1, 2, 3], 'the extended message has %s' % ids(a))
    check(ids(b) == [1, 2], 'the other message has %s' % ids(b))

main(run)
"""
