PROPERTY = 'C24'
NEEDS = 'a message shown, given another instance of a block it has, and shown again'
BREAKS = 'a message goes on being shown as it was when it was first shown'
EDITS = [('message/message.py', "        string = ''\n        delim", "        shown = self.__dict__.get('shown')\n        if shown and shown[0] == (self.name, len(self.blocks)):\n            return shown[1]\n\n        string = ''\n        delim"),
         ('message/message.py', "        return string\n\n    def __as", "        self.shown = ((self.name, len(self.blocks)), string)\n\n        return string\n\n    def __as")]
DEMO = '''
from demolib import *

def run():
    m = Message('PacketAck', Block('Packets', ID=11111))
    check('11111' in repr(m), 'shown as %r' % m)
    m.add_block(Block('Other', ID=22222))
    check('22222' in repr(m), 'with another block it is shown as %r' % m)
    m.add_block(Block('Packets', ID=33333))
    check('33333' in m.data(), 'with another instance it is shown as %r' % m)

main(run)
'''
