PROPERTY = 'C14'
NEEDS = 'an event queue whose last response has id 0 (or below) when the client is stopped'
BREAKS = 'the last response is not acknowledged with the final "done" poll when its id is not positive'
EDITS = [('event_queue.py', """            if self.last_id != -1:
                # Need to ack""", """            if self.last_id > 0:
                # Need to ack""")]
DEMO = """
from demolib import *
from eventlet import api
from pyogp.lib.base.event_queue import EventQueueClient

class Cap(object):
    name = 'EventQueueGet'
    def __init__(self, ids):
        self.ids, self.posts = list(ids), []
    def POST(self, data, custom_headers={}):
        self.posts.append(dict(data))
        if data.get('done'):
            return None
        return {'id': self.ids.pop(0), 'events': []}

def run():
    for ids in ([5], [1, 2, 3], [0], [7, 0]):
        cap = Cap(ids)
        eq = EventQueueClient(cap, settings=Settings(quiet_logging=True))
        def nap(seconds):
            if not cap.ids:
                eq.stopped = True
        api.on_sleep[:] = [nap]
        eq.start()
        want = [{}] + [{'ack': i} for i in ids[:-1]] + [{'ack': ids[-1], 'done': True}]
        check(cap.posts == want, 'responses %s were acknowledged with %s' % (ids, cap.posts))

main(run)
"""
