PROPERTY = 'C14'
NEEDS = 'a poll that fails after an answered one'
BREAKS = 'a failed poll makes the client forget the last response, which is then never acknowledged'
EDITS = [('event_queue.py', "                        self.result = self.cap.POST(self.data)\n",
          "                        acked, self.last_id = self.last_id, -1\n                        self.result = self.cap.POST(self.data)\n                        self.last_id = acked\n")]
DEMO = """
from demolib import *
from eventlet import api
from pyogp.lib.base.event_queue import EventQueueClient

class Cap(object):
    name = 'EventQueueGet'
    def __init__(self, answers):
        self.answers, self.posts = list(answers), []
    def POST(self, data, custom_headers={}):
        self.posts.append(dict(data))
        if data.get('done'):
            return None
        a = self.answers.pop(0)
        if a is None:
            raise IOError('timeout')
        return {'id': a, 'events': []}

def run():
    for answers, acks in (([5, 6], [None, 5, 6]), ([5, None, 6], [None, 5, 5, 6]), ([5, None, None], [None, 5, 5, 5])):
        cap = Cap(answers)
        eq = EventQueueClient(cap, settings=Settings(quiet_logging=True))
        def nap(seconds):
            if not cap.answers:
                eq.stopped = True
        api.on_sleep[:] = [nap]
        eq.start()
        got = [p.get('ack') for p in cap.posts]
        check(got == acks, 'with answers %s the acks are %s' % (answers, got))

main(run)
"""
