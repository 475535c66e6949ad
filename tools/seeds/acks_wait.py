PROPERTY = 'C21'
NEEDS = 'a reliable datagram that is not delivered to anybody, with nothing arriving after it'
BREAKS = 'acks are only sent in turns in which a message was received and read, so those of skipped messages stay pending'
EDITS = [('message_manager.py', '            if self.udp_dispatcher.has_unacked():\n',
          '            if recv_packet and self.udp_dispatcher.has_unacked():\n'),
         ('message_manager.py', '            msg_buf, msg_size = self.udp_dispatcher.udp_client.receive_packet(self.udp_dispatcher.socket)\n',
          '            recv_packet = None\n            msg_buf, msg_size = self.udp_dispatcher.udp_client.receive_packet(self.udp_dispatcher.socket)\n')]
DEMO = """
from demolib import *
from eventlet import api
from pyogp.lib.base.message_manager import MessageManager

def run():
    for watched in (True, False):
        m = MessageManager(Host(('10.0.0.1', 9000)), settings=Settings(quiet_logging=True))
        c = m.udp_dispatcher.udp_client = Client()
        if watched:
            m.message_handler.register('StartPingCheck').subscribe(lambda x: None)
        c.inbox.append((Host(('10.0.0.1', 9000)), dgram(0x40, 7, '\\x01\\x02\\0\\0\\0\\0')))
        turns = []
        def nap(seconds):
            turns.append(1)
            if len(turns) > 5:
                m._is_running = False
        api.on_sleep[:] = [nap]
        m._is_running = True
        m._udp_dispatcher()
        want = packet_ack([7])
        check([x[2][6:] for x in c.sent] == [want], 'watched %s: sent %r' % (watched, c.sent))

main(run)
"""
