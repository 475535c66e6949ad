PROPERTY = 'C20'
NEEDS = 'a byte string of more than 4096 bytes shown in hex'
BREAKS = 'only the first 4096 bytes are shown'
EDITS = [('helpers.py', 'return \'\'.join(["%02X " % ord(x) for x in data]).strip()', 'return \'\'.join(["%02X " % ord(x) for x in data[:4096]]).strip()')]
DEMO = '''
from demolib import *
from pyogp.lib.base.helpers import Helpers

def run():
    for n in (1, 100, 4096, 4097, 20000):
        got = Helpers.bytes_to_hex('\\x5a' * n).split()
        check(len(got) == n, '%d bytes are shown as %d' % (n, len(got)))

main(run)
'''
