PROPERTY = 'C11'
NEEDS = 'two message.xml files in one process that differ about one message'
BREAKS = 'the entries of all files read are kept together, so the last file read decides for the others'
EDITS = [('message/message_dot_xml.py', """        self.messages = self.parsed_llsd['messages']
""", """        self.messages.update(self.parsed_llsd['messages'])
"""), ('message/message_dot_xml.py', """    def __init__(self, message_xml""", """    messages = {}

    def __init__(self, message_xml""")]
DEMO = """
from demolib import *
from llbase import llsd
from pyogp.lib.base.message.message_dot_xml import MessageDotXML

def xml(flavor):
    return llsd.format_xml({'serverDefaults': {}, 'messages': {'Thing': {'flavor': flavor, 'trusted-sender': False}},
                            'capBans': {}, 'maxQueuedEvents': 1, 'messageBans': {}})

def run():
    a, b = MessageDotXML(xml('template')), MessageDotXML(xml('llsd'))
    for i in range(2):
        check(a.validate_udp_msg('Thing') is True, 'the first file allows the message')
        check(b.validate_udp_msg('Thing') is False, 'the second file forbids the message')

main(run)
"""
