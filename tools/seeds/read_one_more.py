PROPERTY = 'C04'
NEEDS = 'a datagram whose last text field is cut short by one byte'
BREAKS = 'a field may reach one byte beyond the end of the datagram, so it is returned short instead of refused'
EDITS = [('message/udpdeserializer.py', '                    if (decode_pos + var_size) > len(data):\n',
          '                    if (decode_pos + var_size) > len(data) + 1:\n')]
DEMO = """
from demolib import *

T = '''
version 2.0
{
	Note Low 7 NotTrusted Unencoded
	{
		Body Single
		{ Text Variable 1 }
	}
}
'''

def run():
    for cut in (0, 1, 2, 3):
        body = '\\xff\\xff\\x00\\x07' + '\\x05abcd\\0'
        buf = dgram(0, 1, body[:len(body) - cut])
        try:
            m = deserializer(message_template=template(T)).deserialize(buf)
        except Exception:
            m = None
        check((m is None) == (cut > 0), 'cut by %d, it is read as %s' % (cut, show(m)))

main(run)
"""
