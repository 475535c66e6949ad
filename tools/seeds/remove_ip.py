PROPERTY = 'C07'
NEEDS = 'two peers at one address, one of which is removed'
BREAKS = 'removing a peer drops the circuits of all peers at its address'
EDITS = [('message/circuit.py', '            del self.circuit_map[(host.ip, host.port)]\n',
          '            for key in self.circuit_map.keys():\n                if key[0] == host.ip:\n                    del self.circuit_map[key]\n')]
DEMO = """
from demolib import *

def run():
    d, c = dispatcher()
    a, b = Host(('10.0.0.1', 9000)), Host(('10.0.0.1', 9001))
    def ping(h):
        d.send_message(Message('StartPingCheck', Block('PingID', PingID=1, OldestUnacked=0)), h)
        return struct.unpack('>I', c.sent[-1][2][1:5])[0]
    got = [ping(a), ping(b), ping(b)]
    d.circuit_manager.remove_circuit_data(a)
    got += [ping(b), ping(a)]
    check(got == [1, 1, 2, 3, 1], 'the packet ids are %s' % got)

main(run)
"""
