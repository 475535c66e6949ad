PROPERTY = 'C03'
NEEDS = 'a zero-coded datagram with a run of 128 or more zeros sent as one run'
BREAKS = 'the length of a run is read as a signed byte, so long runs of zeros shrink to one zero and all that follows is misread'
EDITS = [('message/udpdeserializer.py', """                    zero_count = ord(c)
                    zero_count = zero_count -1""", """                    zero_count = struct.unpack('>b', c)[0]
                    zero_count = zero_count -1""")]
DEMO = """
from demolib import *

T = '''version 2.0
{
    Long Low 7 NotTrusted Zerocoded
    {
        Stuff Single
        { Text Fixed 200 }
        { Tail U32 }
    }
}
'''

def run():
    d = deserializer(message_template=template(T))
    for n in (3, 100, 127, 128, 200):
        body = 'x' * (200 - n) + '\\0' * n + 'abcd'
        coded = 'x' * (200 - n) + '\\0' + chr(n) + 'abcd'
        m = d.deserialize(dgram(0x80, 1, '\\xff\\xff\\0\\x01\\x07' + coded))
        check(m is not None and m['Stuff'][0]['Text'] == body[:200], 'a run of %d zeros was read as %r' % (n, show(m)))

main(run)
"""
