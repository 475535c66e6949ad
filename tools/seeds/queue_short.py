PROPERTY = 'C21'
NEEDS = 'more than 128 messages waiting while one is put in front'
BREAKS = 'the message waiting longest is dropped when the queue is long'
EDITS = [('message_manager.py', '            self.outgoing_queue.insert(0, (message, reliable))\n', '            self.outgoing_queue.insert(0, (message, reliable))\n            del self.outgoing_queue[128:]\n')]
DEMO = '''
from demolib import *
from eventlet import api
from pyogp.lib.base.message_manager import MessageManager

def run():
    for n in (3, 100, 200, 500):
        m = MessageManager(Host(('10.0.0.1', 9000)), settings=Settings(quiet_logging=True))
        c = m.udp_dispatcher.udp_client = Client()
        for i in range(n):
            m.enqueue_message(Message('StartPingCheck', Block('PingID', PingID=i % 256, OldestUnacked=i)), now=i == n - 1)
        turns = []
        def nap(seconds):
            turns.append(1)
            if len(turns) > 5:
                m._is_running = False
        api.on_sleep[:] = [nap]
        m._is_running = True
        m._udp_dispatcher()
        got = [struct.unpack('<I', x[2][-4:])[0] for x in c.sent]
        check(got == [n - 1] + range(n - 1), 'of %d messages %d were sent' % (n, len(got)))

main(run)
'''
