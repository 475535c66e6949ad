"""C14: the event-queue client's polling, acknowledging, delivering and stopping."""
from hypothesis import strategies as st

from .. import eq
from ..common import require
from ..core import Part

RULE = ('A case is a script of responses and failures, handlers (some failing or stopping the client), and a schedule of '
        'advancing virtual time and stopping. Non-trivial: at least two polls, and an event was delivered or a poll '
        'failed; distinct by content.')
ASSUMPTIONS = ['eventlet is replaced by a deterministic scheduler with a virtual clock; the capability is a recording '
               'stand-in, or the real Capability over a recording REST client',
               'after an undefined response the next poll may acknowledge the last id or nothing']


@st.composite
def cases(draw):
    c = draw(eq.config())
    n = draw(st.integers(1, 7))
    c['script'] = [draw(eq.script_item(max_events=3)) for _ in range(n)]
    if draw(st.integers(0, 9)) == 0:
        # the same again and again
        k = draw(st.integers(0, n - 1))
        times = draw(st.sampled_from([3, 5, 6, 9, 10, 11, 17, 33]))
        c['script'][k:k] = [c['script'][k] if 'resp' not in c['script'][k] else draw(eq.script_item(max_events=1))] * times
        n += times
    ns = sorted(eq.names_in(c))
    c['subscribe'] = [x for x in ns if draw(st.integers(0, 4))] + draw(st.sampled_from([[], ['Nothing']]))
    c['behave'] = [[x, draw(st.sampled_from(['raise', 'key', 'unicode', 'stop']))] for x in ns
                   if draw(st.integers(0, 4)) == 0]
    ops = [{'do': 'start'}]
    if draw(st.integers(0, 29)) == 29:
        ops.append({'do': 'stop'})
    stops = draw(st.integers(0, 3)) > 0
    i = c['interval']
    for _ in range(draw(st.integers(1, 5))):
        ops.append({'do': 'advance', 's': draw(st.sampled_from([2 * i, i, 0.25, i, i / 2, 5 * i, 0]))})
    if n > 9:
        ops.append({'do': 'advance', 's': sum(x.get('took', 0) + i for x in c['script'])})
    if stops:
        how = draw(st.integers(0, 4))
        if how == 4:
            c['script'][draw(st.integers(0, n - 1))]['stop'] = True
        else:
            for _ in range(draw(st.sampled_from([1, 1, 1, 2]))):
                ops.insert(len(ops) - draw(st.integers(0, len(ops) - 1)), {'do': 'stop'})
    end = sum(x.get('took', 0) for x in c['script']) + 2 * i
    ops.append({'do': 'advance', 's': end})
    ops.append({'do': 'advance', 's': 3 * i})
    if stops and draw(st.integers(0, 2)) == 0:
        c['script'] += [draw(eq.script_item(max_events=2)) for _ in range(draw(st.integers(0, 3)))]
        end = sum(x.get('took', 0) for x in c['script']) + 2 * i
        ops += [{'do': 'advance', 's': end}, {'do': 'restart'}, {'do': 'advance', 's': draw(st.sampled_from([i, 2 * i, 4 * i, i / 2]))},
                {'do': 'stop'}, {'do': 'advance', 's': end}, {'do': 'advance', 's': 3 * i}]
    c['ops'] = ops
    if draw(st.integers(0, 59)) == 0:
        c['cap'] = 'other'
        c['ops'] = [o for o in ops if o['do'] != 'restart']
    return c


def check(case, ctx):
    if case.get('cap') == 'other':
        r = eq.run(ctx, case)
        require(r['started'] == [False] and not [x for x in r['log'] if x[0] in ('post', 'got') or x[0] == 'state' and x[2]],
                'started (%s) on a capability that is no event queue: %s', r['started'], r['log'][:3])
        return False, {'a capability that is no event queue'}
    r = eq.run(ctx, case)
    j = eq.Judge(case, r).judge()
    require(set(r['started']) <= {True}, 'start returned %s', r['started'])
    ls = {'%s polls' % min(j.n, 5), 'via ' + case['via'], 'handler ' + case['handler'], 'capability ' + case.get('cap', '')}
    if j.stopped:
        ls.add('stopped' + (', last poll made' if j.final else ', nothing to acknowledge'))
    for x in case['script'][:j.n]:
        ls.update(k for k in x if k not in ('resp',))
        if any('bad' in e for e in x.get('resp', {}).get('events', [])):
            ls.add('uninterpretable event')
    for _, k in case['behave']:
        ls.add('handler that does ' + k)
    if j.restarts:
        ls.add('started again')
    if j.delivered:
        ls.add('delivered')
    return j.n >= 2 and bool(j.delivered or j.fails), ls


PARTS = [Part('run', check, cases, quick=900, thorough=30000)]
