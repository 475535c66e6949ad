"""C13: events against a list model."""
from hypothesis import strategies as st

from .. import hist, vals
from ..common import require
from ..core import Part

RULE = ('A case is a sequence of subscribe, unsubscribe, clear and fire operations on an Event, a message notifier or a '
        'message handler registry, with handlers that may subscribe, unsubscribe, clear, fire or raise when called. '
        'Non-trivial: at least two handler calls were made; distinct by content.')
ASSUMPTIONS = ['arguments that are equal across types (1 and True) are not mixed']

ARG = st.one_of(st.sampled_from([None, {'b': 'a'}, {'b': 'b'}, {'i': '2'}, {'i': '3'}, {'t': [{'i': '2'}]},
                                 [{'i': '2'}], {'u': '\u00e9'}, {'d': [[{'b': 'k'}, {'i': '5'}]]}]))
KINDS = ['boom', 'key', 'value', 'type', 'attr', 'assert', 'stop']


@st.composite
def sub(draw, do, few):
    o = {'do': do, 'h': draw(st.integers(0, 2))}
    if draw(st.integers(0, 2)) == 0:
        o['args'] = draw(st.lists(few, max_size=2))
    if draw(st.integers(0, 3)) == 0:
        o['kw'] = [[k, draw(few)] for k in draw(st.lists(st.sampled_from(['x', 'y']), max_size=2, unique=True))]
    if not o.get('args') and not o.get('kw') and draw(st.booleans()):
        o['op'] = True
    return o


@st.composite
def cases(draw):
    target = draw(st.sampled_from(['event', 'event', 'notifier', 'handler']))
    few = st.sampled_from(draw(st.lists(ARG, min_size=1, max_size=2)))
    fire = st.fixed_dictionaries({'do': st.just('fire'), 'value': ARG, 'op': st.booleans()})
    kinds = [sub('sub', few), sub('sub', few), sub('sub', few), sub('unsub', few), fire, fire]
    if target == 'event':
        kinds.append(st.just({'do': 'clear'}))
    behave = {}
    for h in range(3):
        if draw(st.integers(0, 2)) == 0:
            acts = [sub('sub', few), sub('unsub', few), sub('unsub', few)]
            if target == 'event':
                acts.append(st.just({'do': 'clear'}))
            b = draw(st.lists(st.one_of(acts), max_size=2))
            if draw(st.integers(0, 2)) == 0:
                b.append({'do': 'raise', 'what': draw(st.sampled_from(KINDS))})
            behave[str(h)] = b
    ops = draw(st.lists(st.one_of(kinds), min_size=1, max_size=14))
    if draw(st.integers(0, 15)) == 0:
        # very many at once
        one = draw(sub('sub', few))
        many = [dict(one, args=one.get('args', []) + ([{'i': str(i)}] if draw(st.booleans()) else [])) for i in
                range(draw(st.sampled_from([9, 17, 33, 65, 101, 129, 257])))]
        for o in many:
            if o.get('args'):
                o.pop('op', None)
        i = draw(st.integers(0, len(ops)))
        ops[i:i] = many + [draw(fire)] + [dict(o, do='unsub') for o in draw(st.lists(st.sampled_from(many), max_size=3))]
        ops = ops[:i + len(many) + 9]
    return {'target': target, 'behave': behave, 'settings': draw(hist.log_settings()),
            'ops': ops}


class Raised(Exception):
    pass


class Model:
    def __init__(self, case):
        self.behave = case['behave']
        self.subs, self.calls = [], []

    @staticmethod
    def key(o):
        return (o['h'], repr([vals.canon(a) for a in o.get('args', [])]),
                repr(vals.canon({'d': [[{'b': a}, b] for a, b in o.get('kw', [])]})))

    def do(self, o):
        """Returns the name of the error to expect, or None."""
        if o['do'] == 'sub':
            self.subs.append(self.key(o))
        elif o['do'] == 'unsub':
            if self.key(o) not in self.subs:
                return 'ValueError'
            self.subs.remove(self.key(o))
        elif o['do'] == 'clear':
            self.subs = []
        else:
            for k in list(self.subs):
                self.calls.append((k[0], repr(vals.canon(o['value'])), k[1], k[2]))
                for b in self.behave.get(str(k[0]), []):
                    if b['do'] == 'raise':
                        return {'boom': 'Boom', 'key': 'KeyError', 'value': 'ValueError', 'type': 'TypeError',
                                'attr': 'AttributeError', 'assert': 'AssertionError',
                                'stop': 'StopIteration'}[b['what']]
                    self.do(b)
        return None


def check(case, ctx):
    res = ctx.call('event', **case)
    m = Model(case)
    total = 0
    ls = {case['target']}
    for i, (o, r) in enumerate(zip(case['ops'], res)):
        m.calls = []
        err = m.do(o)
        require(r.get('exc') == err, 'operation %d (%s): raised %s instead of %s', i, o['do'], r.get('exc'), err)
        if o.get('op') and o['do'] in ('sub', 'unsub') and err is None and case['target'] == 'event':
            require(r['ret'] is True, 'operation %d: += lost the event', i)
        got = [(c[0], repr(c[1]), repr(c[2]), repr(c[3])) for c in r['calls']]
        require(got == m.calls, 'operation %d (%s): calls %s instead of %s', i, o['do'], got, m.calls)
        require(r['len'] == len(m.subs), 'operation %d (%s): length %s instead of %d', i, o['do'], r['len'],
                len(m.subs))
        total += len(got)
        if o['do'] == 'unsub':
            ls.add('unsubscribe ' + ('present' if err is None else 'absent'))
        if err and o['do'] == 'fire':
            ls.add('handler raises')
    if any(case['behave'].values()):
        ls.add('handlers act')
    return total >= 2, ls


PARTS = [Part('histories', check, strategy=cases, quick=3000, thorough=80000)]
