PROPERTY = 'C22'
NEEDS = 'a handler for one of the messages whose logging is disabled by default'
BREAKS = 'handlers of the messages that are not to be logged are not called'
EDITS = [('message/message_handler.py', "                if self.settings.LOG_VERBOSE and not (self.settings.UDP_SPAMMERS and self.settings.DISABLE_SPAMMERS): logger.debug('Handling message : %s' % (message.name))\n",
          "                if message.name in self.settings.UDP_SPAMMERS and self.settings.DISABLE_SPAMMERS: return\n\n                if self.settings.LOG_VERBOSE: logger.debug('Handling message : %s' % (message.name))\n")]
DEMO = """
from demolib import *

def run():
    for disabled in (False, True):
        s = Settings(quiet_logging=True)
        s.DISABLE_SPAMMERS = disabled
        d, c = dispatcher(settings=s)
        seen = []
        d.message_handler.register('PacketAck').subscribe(seen.append)
        buf = dgram(0, 1, packet_ack([5]))
        d.receive_check(Host(('10.0.0.1', 9000)), buf, len(buf))
        check(len(seen) == 1, 'with DISABLE_SPAMMERS %s the handler was called %d times' % (disabled, len(seen)))

main(run)
"""
