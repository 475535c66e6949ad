PROPERTY = 'C07'
NEEDS = 'two peers whose address and port read the same when written one after the other, such as 10.0.0.1 port 12043 and 10.0.0.11 port 2043'
BREAKS = 'the circuits are kept under address and port joined into one string, so such peers share a circuit and its numbering, acks and awaited packets'
F = 'message/circuit.py'
EDITS = [
 (F, """        if (host.ip, host.port) in self.circuit_map:
            return self.circuit_map[(host.ip, host.port)]

        return None
""", """        return self.circuit_map.get(self.circuit_key(host))

    def circuit_key(self, host):
        return '%s%s' % (host.ip, host.port)
"""),
 (F, """        self.circuit_map[(host.ip, host.port)] = circuit
        return circuit""", """        self.circuit_map[self.circuit_key(host)] = circuit
        return circuit"""),
 (F, """        if (host.ip, host.port) in self.circuit_map:
            del self.circuit_map[(host.ip, host.port)]""", """        if self.circuit_key(host) in self.circuit_map:
            del self.circuit_map[self.circuit_key(host)]"""),
 (F, """        if (host.ip, host.port) not in self.circuit_map:
            return False

        circuit = self.circuit_map[(host.ip, host.port)]""", """        if self.circuit_key(host) not in self.circuit_map:
            return False

        circuit = self.circuit_map[self.circuit_key(host)]"""),
]
DEMO = """
from demolib import *

def run():
    d, c = dispatcher()
    for h in (('10.0.0.1', 12043), ('10.0.0.11', 2043)):
        buf = d.send_message(Message('PacketAck', Block('Packets', ID=1)), Host(h))
        check(struct.unpack('>I', buf[1:5])[0] == 1, 'the first datagram to %s has another number than 1' % (h,))
    check(len(d.circuit_manager.circuit_map) == 2, 'two peers have %s circuits' % len(d.circuit_manager.circuit_map))

main(run)
"""
