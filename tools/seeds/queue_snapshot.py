PROPERTY = 'C21'
NEEDS = 'a message queued while the queue is being sent, by a handler watching outgoing messages'
BREAKS = 'the queue is emptied after a copy of it was sent, so messages queued meanwhile are lost'
EDITS = [('message_manager.py', """            while len(self.outgoing_queue) > 0:                
                (packet, reliable) = self.outgoing_queue.pop(0)
""", """            for (packet, reliable) in list(self.outgoing_queue):
"""), ('message_manager.py', """
        logger.debug("Stopped the UDP connection for %s" % (self.host))""", """
            self.outgoing_queue = []

        logger.debug("Stopped the UDP connection for %s" % (self.host))""")]
DEMO = """
from demolib import *
from eventlet import api
from pyogp.lib.base.message_manager import MessageManager

def ping(i):
    return Message('StartPingCheck', Block('PingID', PingID=i, OldestUnacked=0))

def run():
    s = Settings(quiet_logging=True)
    s.HANDLE_OUTGOING_PACKETS = True
    m = MessageManager(Host(('10.0.0.1', 9000)), settings=s)
    c = m.udp_dispatcher.udp_client = Client()
    def more(message):
        if message['PingID'][0]['PingID'] == 1:
            m.enqueue_message(ping(3))
    m.message_handler.register('StartPingCheck').subscribe(more)
    m.enqueue_message(ping(1))
    m.enqueue_message(ping(2))
    turns = []
    def nap(seconds):
        turns.append(1)
        if len(turns) > 4:
            m._is_running = False
    api.on_sleep[:] = [nap]
    m._is_running = True
    m._udp_dispatcher()
    got = [ord(x[2][7]) for x in c.sent]
    check(got == [1, 2, 3], 'pings 1, 2, 3 were queued and %s sent' % got)

main(run)
"""
