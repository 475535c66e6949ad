PROPERTY = 'C25'
NEEDS = 'a datagram of more than 1500 bytes'
BREAKS = 'datagrams are cut at 1500 bytes'
EDITS = [('network/net.py', "        buf = 10000\n", "        buf = 1500\n")]
DEMO = '''
from demolib import *
from pyogp.lib.base.network.net import NetUDPClient

class Sock(object):
    def __init__(self, data):
        self.data = data
    def recvfrom(self, n):
        return self.data[:n], ('10.0.0.1', 9000)

def run():
    for n in (1, 500, 1500, 1501, 2000, 9000):
        data, size = NetUDPClient().receive_packet(Sock('x' * n))
        check(data == 'x' * n and size == n, 'of %d bytes %d were received' % (n, size))

main(run)
'''
