PROPERTY = 'C12'
NEEDS = 'a message that arrives while nobody watches it, is subscribed to, and arrives again'
BREAKS = 'messages once found to be unwatched are skipped for good, so a later subscriber never sees them'
EDITS = [('message/message_handler.py', """        try:

            handler = self.handlers[message_name]
            return True

        except KeyError:

            return False
""", """        return self.handled.setdefault(message_name, message_name in self.handlers)
"""), ('message/message_handler.py', """        self.handlers = {}
""", """        self.handlers = {}

        # what is known about the names asked for
        self.handled = {}
""")]
DEMO = """
from demolib import *

def run():
    d, c = dispatcher()
    h = Host(('10.0.0.1', 9000))
    seen = []
    for i in range(4):
        if i == 2:
            d.message_handler.register('StartPingCheck').subscribe(seen.append)
        buf = dgram(0, i + 1, '\\x01' + chr(i) + '\\0\\0\\0\\0')
        d.receive_check(h, buf, len(buf))
    got = [m['PingID'][0]['PingID'] for m in seen]
    check(got == [2, 3], 'a subscriber of pings 2 and 3 saw %s' % got)

main(run)
"""
