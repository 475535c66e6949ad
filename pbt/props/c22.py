"""C22: one history under two settings of the logging switches."""
from hypothesis import strategies as st

from .. import eq, hist
from ..common import require
from ..core import Part
from . import c17, c21

RULE = ('A case is a history (dispatcher, manager, event queue or capability calls) run under two different choices of the '
        'logging switches and presets, the second possibly changed on the way; or settings objects made and changed in '
        'turn. Non-trivial: something was sent, delivered or posted; distinct by content.')
ASSUMPTIONS = ['everything is compared: datagrams, requests, deliveries, return values, errors and bookkeeping']

ON = dict.fromkeys(hist.LOGGING, True)


@st.composite
def pair(draw):
    """Two choices of switches, often opposite ones."""
    def one(kind):
        if kind == 'quiet':
            s = {'_init': {'quiet_logging': True}}
        elif kind == 'spammy':
            s = {'_init': {'spammy_logging': True}}
        elif kind == 'both':
            s = {'_init': {'quiet_logging': True, 'spammy_logging': True}}
        elif kind == 'on':
            s = dict(ON, DISABLE_SPAMMERS=False, PROXY_LOGGING=False)
        elif kind == 'off':
            s = dict.fromkeys(hist.LOGGING, False)
        elif kind == 'random':
            s = {n: draw(st.booleans()) for n in hist.LOGGING}
        else:
            s = {}
        for n in draw(st.lists(st.sampled_from(hist.LOGGING), max_size=2, unique=True)):
            s[n] = draw(st.booleans())
        if draw(st.integers(0, 3)) == 0:
            s['UDP_SPAMMERS'] = draw(st.sampled_from([[], ['TestMessage', 'ChatFromViewer', 'Alpha'], ['PacketAck']]))
        return s
    a = draw(st.sampled_from(['default', 'off', 'quiet', 'both', 'random']))
    b = draw(st.sampled_from(['on', 'spammy', 'random', 'on']))
    return [one(a), one(b)]


def plain(s):
    return {k: v for k, v in s.items() if k not in hist.LOGGING and k not in ('_init', '_defaults', 'UDP_SPAMMERS')}


@st.composite
def flips(draw, n):
    """Changes to a switch, before the step of that number."""
    if draw(st.integers(0, 2)):
        return []
    return sorted([draw(st.integers(0, n)), draw(st.sampled_from(hist.LOGGING)), draw(st.booleans())] for _ in range(draw(st.integers(1, 3))))


def inserted(ops, fl):
    out, mine = [], []
    for i in range(len(ops) + 1):
        for p, n, v in fl:
            if p == i:
                mine.append(len(out))
                out.append({'do': 'set', 'name': n, 'value': v})
        if i < len(ops):
            out.append(ops[i])
    return out, set(mine)


def merged(case, k):
    return dict(plain(case['settings'] or {}), **case['pair'][k])


def compare(case, run, what):
    """run(settings, ops) gives (steps, rest); the inserted switch changes are left out."""
    a = run(merged(case, 0), case['ops'])
    ops, mine = inserted(case['ops'], case.get('flips', []))
    b = run(merged(case, 1), ops)
    steps = [x for i, x in enumerate(b[0]) if i not in mine]
    require(len(steps) == len(a[0]), '%s: %d steps became %d', what, len(a[0]), len(steps))
    for i, (x, y) in enumerate(zip(a[0], steps)):
        if x != y:
            ks = [k for k in set(x) | set(y) if x.get(k) != y.get(k)] if isinstance(x, dict) and isinstance(y, dict) else ['value']
            require(False, '%s step %d (%s) differs in %s: %s under the first settings, %s under the second', what, i,
                    case['ops'][i].get('do') if i < len(case['ops']) else '', ks, [x.get(k) if k != 'value' else x for k in ks],
                    [y.get(k) if k != 'value' else y for k in ks])
    require(a[1] == b[1], '%s ends in %s under the first settings, %s under the second', what, a[1], b[1])
    return a


DK = ['send', 'sendrel', 'sendun', 'badsend', 'nohost', 'sendack', 'recv', 'recv', 'recvrel', 'recvack', 'unknown', 'bad', 'bad', 'bad', 'dup', 'acks', 'acks',
      'subscribe', 'register', 'remove', 'replysub']


@st.composite
def dispatches(draw):
    c = draw(hist.case(DK, settings=False, xml='open' if draw(st.integers(0, 2)) else hist.dot_xml([(n, 'llsd', None) for n in c21.BANNED])))
    if draw(st.integers(0, 3)) == 0:
        c['settings']['HANDLE_PACKETS'] = False
    elif draw(st.integers(0, 3)) == 0:
        c['settings']['HANDLE_OUTGOING_PACKETS'] = True
    c['pair'] = draw(pair())
    c['flips'] = draw(flips(len(c['ops'])))
    if draw(st.integers(0, 11)) == 11:
        c['handler'] = False
    return c


def check_dispatch(case, ctx):
    def run(s, ops):
        r = ctx.call('dispatch', tmpl=case['tmpl'], xml=case['xml'], settings=s, handler=case['handler'], states=True, ops=[hist.lower(o) for o in ops])
        return r['steps'], r['state']
    a = compare(case, run, 'dispatch')
    kinds = {('fault ' if 'fault' in o else '') + o['do'] for o in case['ops']}
    return any(x['sent'] or x['got'] for x in a[0]), kinds


@st.composite
def managers(draw):
    c = draw(c21.cases())
    c['pair'] = draw(pair())
    c['ops'] = [{'do': 'round', 'n': 0} if o['do'] == 'probe' else {'do': 'round', 'n': 9} if o['do'] == 'quiet' else o for o in c['subs'] + c['ops']]
    c['subs'] = []
    c['flips'] = draw(flips(len(c['ops'])))
    return c


def check_manager(case, ctx):
    def run(s, ops):
        r = ctx.call('manager', tmpl=case['tmpl'], xml=case['xml'], settings=s, handler=case['handler'], eq=case['eq'], autostart=case['autostart'],
                     peer=c21.HOST, enqueues=case['enqueues'], states=True, journal=True, ops=[hist.lower(o) for o in ops])
        return r['steps'], r['state']
    a = compare(case, run, 'manager')
    return any(x['sent'] or x['got'] for x in a[0]), {'event queue' if case['eq'] is not None else 'no event queue'}


@st.composite
def queues(draw):
    from . import c14
    c = draw(c14.cases())
    c['pair'] = draw(pair())
    return c


def check_queue(case, ctx):
    def run(s, ops):
        r = eq.run(ctx, dict(case, settings=s))
        return r['log'], r
    a = compare(case, run, 'event queue')
    return any(x[0] in ('post', 'got') for x in a[0]), {'via ' + case['via']}


@st.composite
def calls(draw):
    c = draw(c17.cases())
    c['pair'] = draw(pair())
    return c


def check_calls(case, ctx):
    a = compare(case, lambda s, ops: (ctx.call('capability', url=case['url'], name=case['name'], settings=s, ops=ops), None), 'capability')
    return any(x.get('requests') for x in a[0]), {o['do'] for o in case['ops']}


# ---- presets -----------------------------------------------------------------------------------------------------

QUIET_OFF = ['LOG_VERBOSE', 'ENABLE_BYTES_TO_HEX_LOGGING', 'ENABLE_CAPS_LOGGING', 'ENABLE_CAPS_LLSD_LOGGING', 'ENABLE_EQ_LOGGING',
             'ENABLE_UDP_LOGGING', 'LOG_SKIPPED_PACKETS', 'ENABLE_OBJECT_LOGGING', 'ENABLE_HOST_LOGGING', 'LOG_COROUTINE_SPAWNS']
BASE = {'HANDLE_PACKETS': True, 'HANDLE_OUTGOING_PACKETS': False, 'ENABLE_DEFERRED_PACKET_PARSING': True, 'ENABLE_REGION_EVENT_QUEUE': True}


@st.composite
def presets(draw):
    make = st.fixed_dictionaries({'do': st.just('make'), 'init': st.dictionaries(
        st.sampled_from(['quiet_logging', 'spammy_logging', 'log_tests']), st.booleans(), max_size=3)})
    ops = [draw(make)]
    name = st.sampled_from(hist.LOGGING + list(BASE))
    ops += draw(st.lists(st.one_of(make, make,
                                   st.fixed_dictionaries({'do': st.just('set'), 'i': st.integers(0, 3), 'name': name, 'value': st.booleans()}),
                                   st.fixed_dictionaries({'do': st.just('append'), 'i': st.integers(0, 3), 'value': st.sampled_from(['Foo', 'Bar'])})), max_size=7))
    return {'ops': ops}


def check_presets(case, ctx):
    r = ctx.call('settings_probe', ops=case['ops'])
    objs = []
    first = {}
    for o, states in zip(case['ops'], r):
        if o['do'] == 'make':
            q, s, t = [o['init'].get(k, d) for k, d in (('quiet_logging', False), ('spammy_logging', False), ('log_tests', True))]
            v = states[-1]
            for n in BASE:
                require(v.get(n) is BASE[n], '%s is %s with %s', n, v.get(n), o['init'])
            if q:
                for n in QUIET_OFF:
                    require(v.get(n) is False, 'quiet logging leaves %s at %s (%s)', n, v.get(n), o['init'])
                require(v.get('DISABLE_SPAMMERS') is True, 'quiet logging leaves DISABLE_SPAMMERS at %s', v.get('DISABLE_SPAMMERS'))
            elif s:
                require(v.get('ENABLE_BYTES_TO_HEX_LOGGING') is True and v.get('ENABLE_CAPS_LLSD_LOGGING') is True and
                        v.get('DISABLE_SPAMMERS') is False, 'spammy logging gives %s', v)
            require(v.get('ENABLE_LOGGING_IN_TESTS') is t, 'ENABLE_LOGGING_IN_TESTS is %s with %s', v.get('ENABLE_LOGGING_IN_TESTS'), o['init'])
            # the same arguments always give the same settings
            k = (q, s, t)
            require(first.setdefault(k, v) == v, 'settings made from %s are %s, and before were %s', o['init'], v, first[k])
            objs.append(dict(v))
        elif o['do'] == 'set':
            objs[o['i'] % len(objs)][o['name']] = o['value']
        else:
            x = objs[o['i'] % len(objs)]
            x['UDP_SPAMMERS'] = x['UDP_SPAMMERS'] + [{'b': o['value']}]
        require(states == objs, 'after %s the settings are %s, not %s', o, states, objs)
    return len(case['ops']) > 1, {'presets'}


PARTS = [Part('dispatch', check_dispatch, dispatches, quick=600, thorough=15000),
         Part('manager', check_manager, managers, quick=150, thorough=4000),
         Part('event queue', check_queue, queues, quick=300, thorough=8000),
         Part('capability', check_calls, calls, quick=500, thorough=15000),
         Part('presets', check_presets, presets, quick=400, thorough=10000)]
