PROPERTY = 'C16'
NEEDS = 'binary LLSD whose last bytes are white space'
BREAKS = 'white space is stripped from LLSD before it is parsed, binary or not'
EDITS = [('helpers.py', '            r = llsd.parse(data)\n', '            r = llsd.parse(data.strip())\n')]
DEMO = """
from demolib import *
from llbase import llsd
from pyogp.lib.base.helpers import LLSDDeserializer

def run():
    for v in ({'a': 1}, ['x ', 7], ['x', 10], [1, 2, 8202], [32]):
        got = LLSDDeserializer().deserialize(llsd.format_binary(v))
        check(got == v, '%r came back as %r' % (v, got))
        got = LLSDDeserializer().deserialize(llsd.format_xml(v))
        check(got == v, '%r came back as %r' % (v, got))
    for tail in (9, 10, 13, 32):
        v = int('20202000', 16) + tail
        data = '<?llsd/binary?>\\ni' + struct.pack('!i', v)
        got = LLSDDeserializer().deserialize(data)
        check(got == v, '%r came back as %r' % (v, got))

main(run)
"""
