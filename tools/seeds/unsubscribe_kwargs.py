PROPERTY = 'C13'
NEEDS = 'a handler subscribed more than once with the same positional and different keyword arguments, and one of them unsubscribed'
BREAKS = 'unsubscribing does not look at keyword arguments, so it removes the wrong subscription, or one that was never made'
EDITS = [('events.py', """            self.subscribers.remove((handler, args, kwargs))
""", """            known = [(subscriber[0], subscriber[1]) for subscriber in self.subscribers]
            del self.subscribers[known.index((handler, args))]
""")]
DEMO = """
from demolib import *
from pyogp.lib.base.events import Event

def run():
    e, seen = Event(), []
    def h(value, **kw):
        seen.append(kw)
    e.subscribe(h, n=1)
    e.subscribe(h, n=2)
    e.unsubscribe(h, n=2)
    e(0)
    check(seen == [{'n': 1}], 'after the second of two was unsubscribed %s is called' % seen)
    try:
        e.unsubscribe(h, n=5)
    except ValueError:
        pass
    else:
        check(False, 'what was never subscribed was unsubscribed')

main(run)
"""
