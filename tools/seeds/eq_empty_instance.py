PROPERTY = 'C15'
NEEDS = 'an event in the template with a block instance that has no fields'
BREAKS = 'block instances without fields are left out, so later instances take their place'
EDITS = [('event_queue.py', """                                    for block_data in message['body'][block_name]:                                       
""", """                                    for block_data in filter(None, message['body'][block_name]):
""")]
DEMO = """
from demolib import *
from pyogp.lib.base.event_queue import EventQueueClient

def run():
    eq = EventQueueClient(settings=Settings(quiet_logging=True))
    for insts in ([{'ID': 1}], [{'ID': 1}, {}, {'ID': 3}], [{}]):
        m, = eq._decode_eq_result({'id': 1, 'events': [{'message': 'PacketAck', 'body': {'Packets': insts}}]})
        got = [dict([(n, b.get_variable(n).data) for n in b.var_list]) for b in m.blocks.get('Packets', [])]
        check(got == insts, 'the instances %s became %s' % (insts, got))

main(run)
"""
