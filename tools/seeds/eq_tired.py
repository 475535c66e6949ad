PROPERTY = 'C14'
NEEDS = 'more than ten failed polls, not necessarily in a row'
BREAKS = 'after the tenth failed poll in its life the event queue stops by itself'
EDITS = [('event_queue.py', "        self.last_id = -1\n\n        # if applicable", "        self.last_id = -1\n        self.failures = 0\n\n        # if applicable"),
         ('event_queue.py', '                        logger.info("Received an error we ought not care about%s: %s" % (host_string, error))\n',
          '                        logger.info("Received an error we ought not care about%s: %s" % (host_string, error))\n                        self.failures += 1\n                        if self.failures > 10:\n                            self.stopped = True\n')]
DEMO = '''
from demolib import *
from eventlet import api
from pyogp.lib.base.event_queue import EventQueueClient

class Cap(object):
    name = 'EventQueueGet'
    def __init__(self, answers):
        self.answers, self.posts = list(answers), []
    def POST(self, data, custom_headers={}):
        self.posts.append(dict(data))
        if data.get('done'):
            return None
        a = self.answers.pop(0)
        if a is None:
            raise IOError('timeout')
        return {'id': a, 'events': []}

def run():
    for answers in ([5, None, 6], [5] + [None] * 9 + [6], [5] + [None, None, 6] * 8):
        cap = Cap(answers)
        eq = EventQueueClient(cap, settings=Settings(quiet_logging=True))
        def nap(seconds):
            if not cap.answers:
                eq.stopped = True
        api.on_sleep[:] = [nap]
        eq.start()
        check(not cap.answers, 'with %d polls failing it stopped, with %d answers left' % (answers.count(None), len(cap.answers)))

main(run)
'''
