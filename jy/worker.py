"""Persistent worker run under Jython: one JSON request per line on stdin, one JSON reply per line on the original
stdout. Imports the code under test from the repository (python.path), with the fake eventlet from /verif/shim."""
import sys, os
_out = sys.stdout


class _Sink(object):
    encoding = 'utf-8'
    def write(self, s):
        pass
    def writelines(self, s):
        pass
    def flush(self):
        pass
    def isatty(self):
        return False

_real_err = sys.stderr
sys.stdout = _Sink()
sys.stderr = _Sink()
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

import json, logging, traceback


class _Render(logging.Handler):
    """Renders every record, as any real handler does, and forgets it."""
    def emit(self, record):
        try:
            record.getMessage()
        except Exception:
            self.handleError(record)

logging.getLogger().addHandler(_Render())
logging.getLogger().setLevel(logging.DEBUG)
logging.raiseExceptions = 0

import ops
import pyogp
HELLO = {'repo': os.path.dirname(os.path.dirname(os.path.abspath(pyogp.__file__)))}


class Budget(BaseException):
    pass


def with_budget(fn, arg, budget):
    left = [budget]
    def tracer(frame, event, a):
        left[0] -= 1
        if left[0] < 0:
            raise Budget()
        return tracer
    sys.settrace(tracer)
    try:
        return fn(arg)
    finally:
        sys.settrace(None)


def main():
    _out.write(json.dumps(HELLO) + '\n')
    _out.flush()
    while True:
        line = sys.stdin.readline()
        if not line:
            break
        req = json.loads(line)
        try:
            fn = ops.OPS[req['op']]
            if req.get('budget'):
                try:
                    res = with_budget(fn, req['arg'], req['budget'])
                except Budget:
                    res = {'nonterminating': req['budget']}
            else:
                res = fn(req['arg'])
            rep = {'res': res}
        except:
            rep = {'harness_error': traceback.format_exc()}
            if not isinstance(sys.exc_info()[1], MemoryError) and req['op'] in ops.OPS:
                # raised by the code under test where nothing may be raised, or by using what it returned
                rep['lib_error'] = True
        try:
            s = json.dumps(rep)
        except:
            s = json.dumps({'harness_error': 'reply not JSON: ' + traceback.format_exc()})
        _out.write(s + '\n')
        _out.flush()

main()
