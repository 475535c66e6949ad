PROPERTY = 'C02'
NEEDS = 'a template with a field "Variable 4", which the embedded one does not have'
BREAKS = 'four-byte length prefixes are written and read big-endian, consistently on both sides but not as the wire format has them'
EDITS = [('message/udpserializer.py', """                        block_buffer += self.packer.pack_data(len(data), MsgType.MVT_U32)
""", """                        block_buffer += self.packer.pack_data(len(data), MsgType.MVT_U32, \\
                                                              endian_type=EndianType.BIG)
"""), ('message/udpdeserializer.py', """                                                                 MsgType.MVT_U32, \\
                                                                 decode_pos)
""", """                                                                 MsgType.MVT_U32, \\
                                                                 decode_pos, \\
                                                                 endian_type=EndianType.BIG)
""")]
DEMO = """
from demolib import *
from pyogp.lib.base.message.udpserializer import UDPMessageSerializer

def run():
    for w, code in ((1, '<B'), (2, '<H'), (4, '<I')):
        T = '''version 2.0
{
    Thing Low 7 NotTrusted Unencoded
    {
        Stuff Single
        { Text Variable %d }
    }
}
''' % w
        buf = UDPMessageSerializer(message_template=template(T)).serialize(Message('Thing', Block('Stuff', Text='abc')))
        want = '\\0' * 6 + '\\xff\\xff\\0\\x07' + struct.pack(code, 4) + 'abc\\0'
        check(buf == want, 'Variable %d is sent as %r' % (w, buf))

main(run)
"""
