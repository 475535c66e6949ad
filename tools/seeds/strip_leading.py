PROPERTY = 'C03'
NEEDS = 'a variable-length field that starts with zero bytes'
BREAKS = 'zero bytes at the start of a variable field are dropped when it is read'
EDITS = [('message/udpdeserializer.py', "unpacked_data = unpacked_data.rstrip('\\x00')",
          "unpacked_data = unpacked_data.strip('\\x00')")]
DEMO = """
from demolib import *

T = '''
version 2.0
{
	Note Low 7 NotTrusted Unencoded
	{
		Body Single
		{ Text Variable 1 }
		{ Count U8 }
	}
}
'''

def run():
    for text in ('abc', 'a\\0b', '\\0abc', '\\0\\0\\1'):
        d = deserializer(message_template=template(T))
        m = d.deserialize(dgram(0, 1, '\\xff\\xff\\x00\\x07' + chr(len(text) + 1) + text + '\\0' + '\\x05'))
        got = show(m)
        check(got == ('Note', {'Body': [[('Text', text), ('Count', 5)]]}), '%r was read as %s' % (text, got))

main(run)
"""
