PROPERTY = 'C23'
NEEDS = 'a field of the current block given another value after the message was built'
BREAKS = 'giving a field that is already there another value leaves the builder reporting itself built although its message has changed'
EDITS = [('message/llsd_builder.py', """        self.has_been_built = False
        var = MsgVariableData(var_name, data)
""", """        if var_name not in self.current_block.vars:
            self.has_been_built = False
        var = MsgVariableData(var_name, data)
""")]
DEMO = """
from demolib import *
from pyogp.lib.base.message.llsd_builder import LLSDMessageBuilder

def run():
    b = LLSDMessageBuilder()
    b.new_message('M')
    b.next_block('B')
    b.add_data('x', 1, None)
    b.build_message()
    check(b.is_built(), 'a built message is not built')
    b.add_data('y', 2, None)
    check(not b.is_built(), 'built after a new field')
    b.build_message()
    b.add_data('x', 3, None)
    check(not b.is_built(), 'built after a changed field')

main(run)
"""
