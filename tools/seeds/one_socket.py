PROPERTY = 'C25'
NEEDS = 'two UDP clients in one process'
BREAKS = 'all clients share one socket, so each receives what was meant for another'
EDITS = [('network/net.py', '        sock = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)\n',
          '        sock = NetUDPClient.sock\n        if sock == None:\n            sock = NetUDPClient.sock = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)\n'),
         ('network/net.py', 'class NetUDPClient(object):\n',
          'class NetUDPClient(object):\n\n    sock = None\n')]
DEMO = """
from demolib import *
import socket
from pyogp.lib.base.network.net import NetUDPClient

def run():
    a, b = NetUDPClient(), NetUDPClient()
    sa, sb = a.start_udp_connection(), b.start_udp_connection()
    peer = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
    peer.bind(('127.0.0.1', 0))
    peer.settimeout(5)
    h = Host(('127.0.0.1', peer.getsockname()[1]))
    froms = []
    for c, s in ((a, sa), (b, sb)):
        c.send_packet(s, 'hello', h)
        froms.append(peer.recvfrom(100)[1][1])
    check(froms[0] != froms[1], 'two clients send from the same port')

main(run)
"""
