PROPERTY = 'C24'
NEEDS = 'acks added to one message, looked at in another'
BREAKS = 'all messages share one list of acks'
EDITS = [('message/message.py', '''class Message(MessageBase):
    \"\"\" a pyogp represention of a Second Life message \"\"\"
''', '''class Message(MessageBase):
    \"\"\" a pyogp represention of a Second Life message \"\"\"

    acks = [] #may change
'''), ('message/message.py', "        self.acks               = [] #may change\n", "")]
DEMO = '''
from demolib import *

def run():
    a, b = Message('A'), Message('B')
    a.add_ack(5)
    check(b.acks == [] and Message('C').acks == [], 'another message has the acks %s' % b.acks)
    check(a.acks == [5], 'the message has the acks %s' % a.acks)

main(run)
'''
