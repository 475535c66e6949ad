PROPERTY = 'C23'
NEEDS = 'more than 255 blocks of one name in one message'
BREAKS = 'those beyond are merged into the 255th'
EDITS = [('message/llsd_builder.py', '            for block_data in block_list:\n', '            for block_data in block_list[:255]:\n')]
DEMO = '''
from demolib import *
from pyogp.lib.base.message.llsd_builder import LLSDMessageBuilder

def run():
    for n in (1, 10, 255, 256, 700):
        b = LLSDMessageBuilder()
        b.new_message('M')
        for i in range(n):
            b.next_block('B')
            b.add_data('V', i, 0)
        got = b.build_message()[0]
        check(got == {'B': [{'V': i} for i in range(n)]}, 'of %d blocks %d were built' % (n, len(got['B'])))

main(run)
'''
