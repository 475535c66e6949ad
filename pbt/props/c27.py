"""C27: objects with nothing in common do not influence each other: together or alone, they do the same."""
from hypothesis import strategies as st

from .. import eq, hist
from ..common import require
from ..core import Part
from . import c13, c14, c21, c22, c23

RULE = ('A case is two or three histories - dispatchers, managers, event-queue clients, events and builders, each with its own '
        'settings, template, message.xml and handlers - whose steps are interleaved in one process, and then run one by one. '
        'Non-trivial: at least two of the objects did something observable while in turn; distinct by content.')
ASSUMPTIONS = ['the objects share the clock of the process and nothing else; time passes in steps of a quarter second']

TIME = ('round', 'advance', 'quiet', 'probe')


@st.composite
def dispatcher(draw):
    c = draw(c22.dispatches())
    s = dict(c['settings'])
    if draw(st.booleans()):
        s.update(c['pair'][1])
    return {'kind': 'dispatch', 'arg': {'tmpl': c['tmpl'], 'xml': c['xml'], 'settings': s, 'handler': c['handler']},
            'ops': [hist.lower(o) for o in c['ops']]}


@st.composite
def manager(draw):
    c = draw(c21.cases())
    ops = []
    for o in c['subs'] + c['ops']:
        if o['do'] in TIME:
            n = o.get('n', 4 if o['do'] == 'quiet' else int(4 * o.get('s', 0)))
            if n:
                ops.append({'do': 'time', 'n': min(n, 12)})
        else:
            ops.append(hist.lower(o))
    return {'kind': 'manager', 'arg': {'tmpl': c['tmpl'], 'xml': c['xml'], 'settings': c['settings'], 'handler': c['handler'], 'eq': c['eq'],
                                       'autostart': c['autostart'], 'peer': c21.HOST, 'enqueues': c['enqueues']}, 'ops': ops}


@st.composite
def queue(draw):
    c = draw(c14.cases())
    c['fresh'] = False
    ops = [{'do': 'time', 'n': min(24, max(1, int(4 * o['s'])))} if o['do'] == 'advance' else o for o in c['ops']]
    return {'kind': 'queue', 'arg': eq.lowered(c), 'ops': ops}


@st.composite
def events(draw):
    c = draw(c13.cases())
    return {'kind': 'event', 'arg': {k: c[k] for k in ('target', 'behave', 'settings')}, 'ops': c['ops']}


@st.composite
def builders(draw):
    return {'kind': 'builder', 'arg': {}, 'ops': draw(c23.cases())['ops'][:12]}


@st.composite
def cases(draw):
    any_ = st.one_of(dispatcher(), dispatcher(), dispatcher(), manager(), manager(), queue(), events(), builders())
    runs = [draw(any_)]
    for _ in range(draw(st.sampled_from([1, 1, 1, 2]))):
        # mostly another of the same kind, often with the very same parameters
        if draw(st.integers(0, 3)) == 0:
            other = draw(any_)
        else:
            other = draw({'dispatch': dispatcher, 'manager': manager, 'queue': queue, 'event': events, 'builder': builders}[runs[0]['kind']]())
            if draw(st.integers(0, 2)) == 0:
                other = dict(other, ops=[dict(o) for o in runs[0]['ops']], arg=dict(runs[0]['arg']))
                if 'settings' in other['arg'] and other['kind'] != 'queue':
                    other['arg']['settings'] = draw(hist.log_settings())
        runs.append(other)
    left = [list(r['ops'])[:16] for r in runs]
    order = []
    while any(left):
        who = draw(st.sampled_from([i for i, x in enumerate(left) if x]))
        for _ in range(draw(st.sampled_from([1, 1, 2, 4]))):
            if left[who]:
                o = left[who].pop(0)
                order.append([-1, {'n': o['n'], 's': 0.25}] if o['do'] == 'time' else [who, o])
    return {'runs': [{'kind': r['kind'], 'arg': r['arg']} for r in runs], 'ops': order}


def busy(look):
    return bool(look.get('sent') or look.get('got') or look.get('log') or look.get('calls') or look.get('results'))


def check(case, ctx):
    both = ctx.call('together', only=None, **case)
    require(not both['errors'], 'together, a coroutine died: %s', both['errors'])
    active = set()
    for k, x in enumerate(case['runs']):
        if not any(who == k for who, _ in case['ops']):
            continue
        alone = ctx.call('together', only=k, **case)
        for i, ((who, o), a, b) in enumerate(zip(case['ops'], alone['steps'], both['steps'])):
            what = 'step %d (%s) of %s %d' % (i, o.get('do', 'time passing') if who in (k, -1) else 'of another', x['kind'], k)
            if who == k:
                require(a['ret'] == b['ret'], '%s gave %s alone and %s with others about', what, a['ret'], b['ret'])
            la, lb = dict(a['look']).get(k), dict(b['look']).get(k)
            if la != lb:
                ks = [n for n in (la or lb) if (la or {}).get(n) != (lb or {}).get(n)]
                require(False, '%s differs in %s: %s alone, %s with others about', what, ks, la and [la[n] for n in ks], lb and [lb[n] for n in ks])
            if la and busy(la):
                active.add(k)
    kinds = sorted(x['kind'] for x in case['runs'])
    return len(active) > 1, {' and '.join(kinds)} | {'%s active' % len(active)}


PARTS = [Part('together', check, cases, quick=360, thorough=15000)]
