PROPERTY = 'C15'
NEEDS = 'an event with a template followed, in one response, by one without'
BREAKS = 'after an event with a template all events of the response are taken for such, and the others are lost or misread'
EDITS = [('event_queue.py', "                            in_template = self.template_dict.get_template(message['message'])\n",
          "                            if in_template is None:\n                                in_template = self.template_dict.get_template(message['message'])\n"),
         ('event_queue.py', '            messages = []\n',
          '            messages = []\n            in_template = None\n')]
DEMO = """
from demolib import *
from pyogp.lib.base.event_queue import EventQueueClient

class Cap(object):
    name = 'EventQueueGet'

def run():
    ping = {'message': 'StartPingCheck', 'body': {'PingID': [{'PingID': 3, 'OldestUnacked': 0}]}}
    other = {'message': 'EstablishAgentCommunication', 'body': {'sim-ip-and-port': '10.0.0.1:9000'}}
    for events in ([ping], [other], [other, ping], [ping, other], [ping, other, ping]):
        eq = EventQueueClient(Cap(), settings=Settings(quiet_logging=True))
        got = eq._decode_eq_result({'id': 1, 'events': events})
        check([m.name for m in got] == [e['message'] for e in events], '%s gives %s' % (events, [m.name for m in got]))
        for m in got:
            check(m.name == 'StartPingCheck' or m['Message_Data'][0]['sim-ip-and-port'] == '10.0.0.1:9000', 'misread')

main(run)
"""
