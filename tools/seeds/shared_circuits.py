PROPERTY = 'C27'
NEEDS = 'two dispatchers in one process that talk to the same host'
BREAKS = 'all dispatchers share their circuits, and with them packet ids and acks'
EDITS = [('message/circuit.py', '    def __init__(self):\n        self.circuit_map = {}\n',
          '    circuit_map = {}\n\n    def __init__(self):\n')]
DEMO = """
from demolib import *

def run():
    h = Host(('10.0.0.1', 9000))
    ids = []
    for i in range(2):
        d, c = dispatcher()
        d.send_message(Message('StartPingCheck', Block('PingID', PingID=1, OldestUnacked=0)), h)
        ids.append(struct.unpack('>I', c.sent[-1][2][1:5])[0])
    check(ids == [1, 1], 'the first packets of two dispatchers have the ids %s' % ids)

main(run)
"""
