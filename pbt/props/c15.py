"""C15: the content of the messages made from event-queue events."""
from hypothesis import strategies as st

from .. import eq, llsdv
from ..core import Part

RULE = ('A case is a few event-queue responses with arbitrary events, as data or as LLSD XML through a real Capability. '
        'Non-trivial: at least one event with a block instance or body entry was delivered; distinct by content.')
ASSUMPTIONS = ['block lists with no instance carry nothing to compare']


@st.composite
def cases(draw):
    c = draw(eq.config())
    c['via'] = draw(st.sampled_from(['obj', 'cap']))
    names = draw(st.one_of(st.none(), st.none(), st.lists(eq.name(0), min_size=1, max_size=2)))
    c['script'] = [{'resp': draw(eq.response(max_events=draw(st.sampled_from([1, 3, 6])), rich=True, bad=draw(st.booleans()),
                                             names=names))}
                   for _ in range(draw(st.integers(1, 3)))]
    c['subscribe'] = sorted(eq.names_in(c))
    c['ops'] = [{'do': 'start'}, {'do': 'advance', 's': c['interval'] * (len(c['script']) + 1)}]
    return c


def check(case, ctx):
    j = eq.Judge(case, eq.run(ctx, case)).judge()
    ls, nontrivial = {'via ' + case['via']}, False
    for x in case['script']:
        for e in x['resp']['events']:
            if 'bad' in e:
                ls.add('uninterpretable event')
                continue
            body = eq.get(e['ev'], 'body')
            t = eq.is_template(llsdv.ktext(eq.get(e['ev'], 'message')))
            ls.add('template event' if t else 'other event')
            nontrivial |= bool(body['d'])
            if t:
                n = [len(i) for _, i in body['d']]
                ls.add('block x%s' % ('2+' if max(n, default=0) > 1 else max(n, default=0)))
            ls.update('value ' + k for k in llsdv.kinds(body, set()))
    return nontrivial and j.delivered, ls


PARTS = [Part('content', check, cases, quick=900, thorough=30000)]
