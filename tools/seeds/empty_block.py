PROPERTY = 'C23'
NEEDS = 'two blocks of one name, the first of which is left empty'
BREAKS = 'an instance that is left without data is dropped when the next one of its name is started'
EDITS = [('message/llsd_builder.py', '        block = MsgBlockData(block_name)\n        self.current_msg.add_block(block)\n',
          '        if block_name == self.cur_block_name and not self.current_block.vars:\n            return\n        block = MsgBlockData(block_name)\n        self.current_msg.add_block(block)\n'),
         ('message/llsd_builder.py', '        self.cur_msg_name = message_name\n',
          "        self.cur_msg_name = message_name\n        self.cur_block_name = ''\n")]
DEMO = """
from demolib import *
from pyogp.lib.base.message.llsd_builder import LLSDMessageBuilder

def run():
    b = LLSDMessageBuilder()
    b.new_message('A')
    b.next_block('X')
    b.add_data('n', 1, None)
    b.next_block('X')
    b.next_block('X')
    b.add_data('n', 3, None)
    got = b.build_message()
    check(got == ({'X': [{'n': 1}, {}, {'n': 3}]}, 1), 'built %s' % (got,))

main(run)
"""
