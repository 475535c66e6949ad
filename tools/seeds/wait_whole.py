PROPERTY = 'C20'
NEEDS = 'a clock read when its time is up exactly'
BREAKS = 'a wait goes on until its time is exceeded, so one of zero seconds still yields'
EDITS = [('helpers.py', 'while self.enabled and now - start < self.duration:', 'while self.enabled and now - start <= self.duration:')]
DEMO = '''
from demolib import *
from eventlet import api
import time
from pyogp.lib.base import helpers

class Clock(object):
    now = 1000.0
    def time(self):
        return self.now

def run():
    clock = helpers.time = Clock()
    for n in (0, 1, 5):
        naps = []
        def nap(seconds):
            naps.append(1)
            clock.now += 1.0
        api.on_sleep[:] = [nap]
        helpers.Wait(n)
        check(len(naps) == n, 'waiting %d seconds, one a turn, took %d turns' % (n, len(naps)))

main(run)
'''
