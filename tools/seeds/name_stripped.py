PROPERTY = 'C06'
NEEDS = 'a message whose name is the name of a template message but for white space around it'
BREAKS = 'a message that is not in the template is sent as one that is'
EDITS = [('message/udpserializer.py', "        self.current_template = self.template_dict.get_template(self.context.name)\n",
          "        self.current_template = self.template_dict.get_template(self.context.name.strip())\n")]
DEMO = '''
from demolib import *

def run():
    h = Host(('10.0.0.1', 9000))
    for name, n in (('StartPingCheck', 1), ('StartPingCheck ', 0), (' StartPingCheck', 0), ('StartPingCheck\\n', 0), ('StartPing', 0)):
        d, c = dispatcher()
        d.send_message(Message(name, Block('PingID', PingID=1, OldestUnacked=0)), h)
        check(len(c.sent) == n, '%r was sent %d times' % (name, len(c.sent)))

main(run)
'''
