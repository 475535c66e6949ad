PROPERTY = 'C27'
NEEDS = 'two message handlers in one process'
BREAKS = 'all message handlers share their subscriptions'
EDITS = [('message/message_handler.py', '    """ general class handling individual messages """\n', '    """ general class handling individual messages """\n\n    handlers = {}\n'), ('message/message_handler.py', '\n        self.handlers = {}\n', '')]
DEMO = '''
from demolib import *
from pyogp.lib.base.message.message_handler import MessageHandler

def run():
    a, b, got = MessageHandler(Settings(quiet_logging=True)), MessageHandler(Settings(quiet_logging=True)), []
    a.register('StartPingCheck').subscribe(got.append)
    check(not b.is_message_handled('StartPingCheck'), 'the other handler is watching as well')
    b.handle(Message('StartPingCheck'))
    check(got == [], 'a message given to one handler reached a subscriber of another')
    a.handle(Message('StartPingCheck'))
    check(len(got) == 1, 'it reached its own %d times' % len(got))

main(run)
'''
