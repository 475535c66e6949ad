PROPERTY = 'C01'
NEEDS = 'a 64-bit unsigned field of 2^63 or more'
BREAKS = 'large unsigned 64-bit values come back negative'
EDITS = [('message/data_unpacker.py', "        self.unpacker[MsgType.MVT_U64]            = ('<','Q')",
          "        self.unpacker[MsgType.MVT_U64]            = ('<','q')")]
DEMO = """
from demolib import *

T = '''
version 2.0
{
	Note Low 7 NotTrusted Unencoded
	{
		Body Single
		{ Handle U64 }
	}
}
'''

def run():
    from pyogp.lib.base.message.udpserializer import UDPMessageSerializer
    for n in (0, 1, 2 ** 40, 2 ** 63 - 1, 2 ** 63, 2 ** 64 - 1):
        buf = UDPMessageSerializer(message_template=template(T)).serialize(Message('Note', Block('Body', Handle=n)))
        got = deserializer(message_template=template(T)).deserialize(buf)['Body'][0]['Handle']
        check(got == n, '%s came back as %s' % (n, got))

main(run)
"""
