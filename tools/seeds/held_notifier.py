PROPERTY = 'C12'
NEEDS = 'a notifier kept by the user, to which he subscribes after a message has arrived unwatched'
BREAKS = 'a registration without subscribers is dropped when its message arrives, so whoever subscribes to it later sees nothing'
EDITS = [('message/message_handler.py', '                handler(message)\n',
          '                handler(message)\n\n            else:\n\n                # nobody is watching any longer\n                del self.handlers[message.name]\n')]
DEMO = """
from demolib import *

def run():
    d, c = dispatcher()
    h = Host(('10.0.0.1', 9000))
    seen = []
    pings = d.message_handler.register('StartPingCheck')
    for i in range(4):
        if i == 2:
            pings.subscribe(seen.append)
        buf = dgram(0, i + 1, '\\x01' + chr(i) + '\\0\\0\\0\\0')
        d.receive_check(h, buf, len(buf))
    got = [m['PingID'][0]['PingID'] for m in seen]
    check(got == [2, 3], 'a subscriber of pings 2 and 3 saw %s' % got)

main(run)
"""
