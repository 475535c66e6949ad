PROPERTY = 'C11'
NEEDS = 'a name that differs from a listed one by blanks around it'
BREAKS = 'a name is looked up without the blanks around it, so another message is taken for the listed one'
EDITS = [('message/message_dot_xml.py', '        if self.messages.has_key(msg_name):', '        msg_name = msg_name.strip()\n        if self.messages.has_key(msg_name):')]
DEMO = '''
from demolib import *
from pyogp.lib.base.message.message_dot_xml import MessageDotXML

def run():
    x = MessageDotXML()
    check(x.validate_udp_msg('EstablishAgentCommunication') is False, 'it is listed as an llsd message')
    for n in ('EstablishAgentCommunication ', ' EstablishAgentCommunication', 'EstablishAgentCommunication\\n'):
        check(x.validate_udp_msg(n), '%r is not listed' % n)

main(run)
'''
