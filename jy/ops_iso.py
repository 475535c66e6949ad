"""Several independent objects used in turn in one process, or one of them alone."""
from common import *
import re
from eventlet.api import sched
from ops_disp import Run, ManagerRun
from ops_eq import EQRun
from ops_msg import EventRun, BuilderRun


class Wrapped(object):
    """What one of the objects has done since it was last looked at."""
    def __init__(self, kind, arg):
        self.kind = kind
        self.n = [0, 0, 0]
        if kind == 'dispatch':
            self.run = Run(arg)
        elif kind == 'manager':
            self.run = ManagerRun(arg, reset=False)
        elif kind == 'queue':
            self.run = EQRun(arg, reset=False)
        elif kind == 'event':
            self.run = EventRun(arg)
        elif kind == 'builder':
            self.run = BuilderRun(arg)
        else:
            raise ValueError(kind)

    def step(self, o):
        try:
            if self.kind == 'event':
                self.run.depth = 0
                return {'ret': enc(self.run.do(o))}
            if self.kind == 'builder':
                return self.run.step(o)
            return {'ret': self.run.step(o)}
        except Exception, e:
            x = exc_info(e)
            x['text'] = x['text'] and re.sub('0x[0-9a-f]+', '0x', x['text'])
            return x

    def fresh(self, i, seq):
        n, self.n[i] = self.n[i], len(seq)
        return seq[n:]

    def look(self):
        r = self.run
        if self.kind in ('dispatch', 'manager'):
            st = r.state()
            for k in ('tasks', 'errors', 'now'):
                st.pop(k, None)
            return {'sent': self.fresh(0, r.udp.sent), 'got': self.fresh(1, r.rec.log), 'state': st}
        if self.kind == 'queue':
            return {'log': self.fresh(0, r.log), 'state': [r.polling(), enc(r.started)]}
        if self.kind == 'event':
            return {'calls': self.fresh(0, r.calls), 'len': r.length()}
        return {'built': r.b.is_built(), 'results': [enc(m) for m in r.results]}


def together(a):
    """ops: [who, op]; who -1 is time, for all. With only=k, the others are not there."""
    sched.reset()
    runs, out = {}, []
    for who, o in a['ops']:
        entry = {}
        if who == -1:
            for i in range(o['n']):
                sched.now += o['s']
                sched.round()
        elif a['only'] is None or a['only'] == who:
            if who not in runs:
                x = a['runs'][who]
                runs[who] = Wrapped(x['kind'], x['arg'])
            entry['ret'] = runs[who].step(o)
        entry['look'] = [[k, runs[k].look()] for k in sorted(runs)]
        out.append(entry)
    errors = [list(t.error) for t in sched.finished if t.error]
    sched.kill_all()
    return {'steps': out, 'errors': errors}
