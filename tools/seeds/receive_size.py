PROPERTY = 'C25'
NEEDS = 'an incoming datagram longer than 1500 bytes'
BREAKS = 'longer datagrams are cut at 1500 bytes'
EDITS = [('network/net.py', """        buf = 10000
""", """        buf = 1500
""")]
DEMO = """
from demolib import *
from pyogp.lib.base.network.net import NetUDPClient

class Sock(object):
    def __init__(self, data):
        self.data = data
    def recvfrom(self, n):
        return self.data[:n], ('10.0.0.1', 9000)

def run():
    for n in (1, 1000, 1500, 1501, 2000, 8000):
        data, size = NetUDPClient().receive_packet(Sock('x' * n))
        check((data, size) == ('x' * n, n), 'of %d bytes %d were received' % (n, len(data)))

main(run)
"""
