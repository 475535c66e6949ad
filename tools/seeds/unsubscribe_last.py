PROPERTY = 'C13'
NEEDS = 'a handler subscribed twice with another in between'
BREAKS = 'unsubscribing removes the latest subscription instead of the first, which changes the order of the rest'
EDITS = [('events.py', '            self.subscribers.remove((handler, args, kwargs))\n',
          '            found = [i for i, s in enumerate(self.subscribers) if s == (handler, args, kwargs)]\n            del self.subscribers[found[-1]]\n')]
DEMO = """
from demolib import *
from pyogp.lib.base.events import Event

def run():
    e, seen = Event(), []
    def a(x): seen.append('a')
    def b(x): seen.append('b')
    e.subscribe(a)
    e.subscribe(b)
    e.subscribe(a)
    e.unsubscribe(a)
    e(1)
    check(seen == ['b', 'a'], 'left are %s' % seen)

main(run)
"""
