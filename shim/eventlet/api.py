"""Deterministic coroutine scheduler with a virtual clock (see __init__)."""
import threading


class CoroutineExit(BaseException):
    """Raised inside a coroutine the harness has killed."""


class _Task(object):
    def __init__(self, sched, fn, args, kwargs):
        self.sched, self.fn, self.args, self.kwargs = sched, fn, args, kwargs
        self.wake = sched.now
        self.order = 0
        self.go = threading.Semaphore(0)
        self.killed = False
        self.done = False
        self.error = None
        self.result = None
        self.thread = None

    def _body(self):
        self.go.acquire()
        try:
            if not self.killed:
                self.result = self.fn(*self.args, **self.kwargs)
        except CoroutineExit:
            pass
        except BaseException, e:
            import sys
            self.error = (sys.exc_info()[0].__name__, '%s' % (e,))
        self.done = True
        self.sched.back.release()


class Scheduler(object):
    def __init__(self):
        self.reset()

    def reset(self):
        self.now = 0.0
        self.tasks = []
        self.finished = []
        self.counter = 0
        self.current = None
        self.back = threading.Semaphore(0)
        self.main_sleeps = []

    # -- called by the code under test -------------------------------------------------------------------------
    def spawn(self, fn, *args, **kwargs):
        t = _Task(self, fn, args, kwargs)
        self._queue(t, 0)
        return t

    def _queue(self, t, delay):
        self.counter += 1
        t.wake = self.now + delay
        t.order = self.counter
        if t not in self.tasks:
            self.tasks.append(t)

    def sleep(self, seconds=0):
        t = self.current
        if t is None or threading.currentThread() is not t.thread:
            # the harness itself (or code it called directly) sleeps: just let virtual time pass
            self.main_sleeps.append(seconds)
            self.advance(seconds or 0)
            return
        self._queue(t, seconds or 0)
        self.current = None
        self.back.release()
        t.go.acquire()
        if t.killed:
            raise CoroutineExit()

    # -- called by the harness ---------------------------------------------------------------------------------
    def _resume(self, t):
        self.tasks.remove(t)
        self.current = t
        if t.thread is None:
            t.thread = threading.Thread(target=t._body)
            t.thread.setDaemon(True)
            t.thread.start()
        t.go.release()
        self.back.acquire()
        self.current = None
        if t.done:
            self.finished.append(t)

    def round(self):
        """Resume, once each, every task that is due now (in wake, then queueing order)."""
        due = sorted([t for t in self.tasks if t.wake <= self.now], key=lambda t: (t.wake, t.order))
        for t in due:
            if t in self.tasks:
                self._resume(t)
        return len(due)

    def advance(self, seconds, max_steps=10000):
        """Let `seconds` of virtual time pass, running every task when it is due. A task that keeps yielding with
        a zero delay is run once per instant."""
        end = self.now + seconds
        steps = 0
        while steps < max_steps:
            later = [t.wake for t in self.tasks if t.wake > self.now and t.wake <= end]
            steps += 1 + self.round()
            if later:
                self.now = max(self.now, min(later))
            elif [t for t in self.tasks if t.wake > self.now and t.wake <= end]:
                self.now = min([t.wake for t in self.tasks if t.wake > self.now and t.wake <= end])
            else:
                break
        self.now = end

    def kill_all(self):
        for n in range(50):
            if not self.tasks:
                break
            for t in list(self.tasks):
                t.killed = True
                if t.thread is None:
                    self.tasks.remove(t)
                    continue
                self._resume(t)


sched = Scheduler()


def sleep(seconds=0):
    sched.sleep(seconds)


def spawn(function, *args, **kwargs):
    return sched.spawn(function, *args, **kwargs)
