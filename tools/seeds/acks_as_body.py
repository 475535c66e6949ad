PROPERTY = 'C04'
NEEDS = 'a truncated datagram with appended acks, cut short in its last text or fixed field by no more bytes than the acks take'
BREAKS = 'fields are checked against the size the datagram had with its acks, so a field that is cut short is returned short instead of refused'
EDITS = [('message/udpdeserializer.py', """                    if (decode_pos + var_size) > len(data):
""", """                    if (decode_pos + var_size) > msg_size:
""")]
DEMO = """
from demolib import *
from pyogp.lib.base import exc

T = '''version 2.0
{
    Thing Low 7 NotTrusted Unencoded
    {
        Stuff Single
        { Text Variable 1 }
    }
}
'''

def run():
    d = deserializer(message_template=template(T))
    for acks in (None, [1], [1, 2, 3]):
        for cut in range(0, 6):
            body = '\\xff\\xff\\0\\x07\\x08' + 'abcdefgh'[:8 - cut]
            try:
                m = d.deserialize(dgram(0x10 if acks else 0, 1, body, acks=acks))
            except exc.MessageSystemError:
                m = None
            check((m is not None) == (cut == 0), 'with %d bytes missing and acks %s: %s' % (cut, acks, show(m)))

main(run)
"""
