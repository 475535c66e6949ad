PROPERTY = 'C12'
NEEDS = 'a datagram received twice in a row, by handlers that change what they are given'
BREAKS = 'a datagram that is received again is handed out as the message it was decoded to before, whatever became of that'
EDITS = [('message/udpdeserializer.py', "        self.context = context\n\n        #Must first", "        if self.context == context and self.packet != None:\n            return self.packet\n\n        self.packet = None\n        self.context = context\n\n        #Must first"),
         ('message/udpdeserializer.py', "                    return self.__decode_data(msg_buff)\n", "                    self.packet = self.__decode_data(msg_buff)\n                    return self.packet\n")]
DEMO = '''
from demolib import *

def run():
    d, c = dispatcher()
    h = Host(('10.0.0.1', 9000))
    got = []
    def handler(m):
        got.append([b['PingID'] for b in m.blocks['PingID']])
        del m.blocks['PingID'][:]
    d.message_handler.register('StartPingCheck').subscribe(handler)
    one, two = [dgram(0, n, chr(1) + chr(3) + struct.pack('<I', 0)) for n in (1, 2)]
    for buf in (one, two, one, one):
        d.receive_check(h, buf, len(buf))
    check(got == [[3]] * 4, 'four arrivals were handled with %s' % got)

main(run)
'''
