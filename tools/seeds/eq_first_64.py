PROPERTY = 'C15'
NEEDS = 'a response of the event queue with more than 64 events'
BREAKS = 'of the events of one response only the first 64 become messages'
EDITS = [('event_queue.py', "                            messages.append(new_message)                                   \n", "                            if len(messages) < 64:\n                                messages.append(new_message)\n")]
DEMO = '''
from demolib import *
from pyogp.lib.base.event_queue import EventQueueClient

def run():
    for n in (0, 1, 64, 65, 200):
        eq = EventQueueClient(None, settings=Settings(quiet_logging=True))
        ms = eq._decode_eq_result({'id': 3, 'events': [{'message': 'E%d' % i, 'body': {'x': i}} for i in range(n)]})
        check([m.name for m in ms] == ['E%d' % i for i in range(n)], '%d events became %d messages' % (n, len(ms)))

main(run)
'''
