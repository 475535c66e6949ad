"""Operations the driver can ask for; each takes one JSON value and returns one."""
OPS = {}


def op(fn):
    OPS[fn.__name__] = fn
    return fn


def lazy(name, module):
    def run(arg):
        mod = __import__(module)
        return getattr(mod, name)(arg)
    OPS[name] = run

for _n in ('encode', 'decode', 'decode_many', 'roundtrip', 'parse_template', 'lookups'):
    lazy(_n, 'ops_wire')
for _n in ('dispatch', 'manager', 'policy', 'sockets'):
    lazy(_n, 'ops_disp')
for _n in ('event', 'builder', 'message_views', 'message_llsd', 'settings_probe'):
    lazy(_n, 'ops_msg')
for _n in ('event_queue', 'llsd_roundtrip', 'llsd_parse', 'llsd_other', 'capability', 'http'):
    lazy(_n, 'ops_eq')
for _n in ('datatypes', 'helpers', 'wait'):
    lazy(_n, 'ops_misc')

lazy('error', 'ops_exc')
lazy('together', 'ops_iso')


@op
def ping(arg):
    return arg
