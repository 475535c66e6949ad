"""C26: the library's errors against their documentation."""
from hypothesis import strategies as st

from ..common import require
from ..core import Part

RULE = ('A case is one error class with values for some of its parameters, positional or by keyword. Non-trivial: at least '
        'one value given; distinct by content.')
ASSUMPTIONS = ['text is looked for in the rendered error when it is ASCII; what other values look like in it is not claimed',
               'unicode text outside ASCII, and unicode text next to bytes outside ASCII, are left to Python 2, which cannot render it as a byte string']

# class: (parameters with defaults, None for a required one; what the text mentions; families)
REQ = object()
NET, MSE, DES = ('NetworkError', 'Error'), ('MessageSystemError', 'Error'), ('DeserializationError', 'Error')
AD, RD = ('AgentDomainError', 'Error'), ('RegionDomainError', 'Error')
ERRORS = {
    'LoginError': ([('error', REQ)], ['error'], ('Error',)),
    'ParseStartLocError': ([('error', REQ)], [], ('LoginError', 'Error')),
    'HTTPError': ([('code', REQ), ('msg', REQ), ('fp', REQ), ('details', '')], ['code', 'msg'], NET),
    'ResourceNotFound': ([('url', '')], ['url'], NET),
    'ResourceError': ([('url', ''), ('code', ''), ('message', ''), ('body', ''), ('method', 'GET')],
                      ['url', 'code', 'message', 'method'], NET),
    'DeserializerNotFound': ([('content_type', '')], ['content_type'], DES),
    'CredentialDeserializerNotFound': ([('payload', '')], ['payload'], DES),
    'DeserializationFailed': ([('payload', ''), ('reason', '')], ['payload', 'reason'], DES),
    'MessageTemplateNotFound': ([('context', ''), ('template', '')], ['context'], MSE),
    'MessageTemplateParsingError': ([('context', ''), ('template', '')], ['context'], MSE),
    'CircuitNotFound': ([('host', ''), ('reason', '')], ['host', 'reason'], MSE),
    'MessageBuildingError': ([('label', ''), ('reason', '')], ['label', 'reason'], MSE),
    'MessageSerializationError': ([('label', ''), ('reason', '')], ['label', 'reason'], MSE),
    'MessageDeserializationError': ([('label', ''), ('reason', '')], ['label', 'reason'], MSE),
    'DataUnpackingError': ([('data', ''), ('reason', '')], ['data', 'reason'], MSE),
    'UserNotFound': ([('credentials', None)], [], AD),
    'UserNotAuthorized': ([('credentials', None)], [], AD),
    'UserRezFailed': ([('region', None)], [], AD),
    'RegionSeedCapNotAvailable': ([('reason', None)], ['reason'], RD),
    'RegionCapNotAvailable': ([('cap', None)], [], RD),
    'RegionMessageError': ([('region', None)], ['region'], RD),
    'DataParsingError': ([('error', None)], ['error'], ('Error',)),
    'NotImplemented': ([('error', None)], ['error'], ('Error',)),
    'Deprecated': ([('thing', None)], ['thing'], ('Error',)),
}
TEXTS = ['EventQueueGet', 'http://sim.example/cap/1?x=%20', '100%', '%s %d %(x)s', '', 'a b', "quote'd", 'line\nbreak', '404', '{0}']
VALUE = st.one_of(
    st.sampled_from(TEXTS).map(lambda s: {'b': s}), st.sampled_from(TEXTS).map(lambda s: {'u': s}),
    st.text(st.characters(min_codepoint=32, max_codepoint=126), max_size=12).map(lambda s: {'b': s}),
    st.one_of(st.binary(max_size=8), st.integers(9, 3000).map(lambda n: b'\xe9' * n)).map(lambda b: {'x': b.hex()}),
    st.integers(100, 3000).map(lambda n: {'b': 'long ' * n}),
    st.one_of(st.none(), st.booleans(), st.integers(-9, 999)),
    st.lists(st.one_of(st.integers(0, 3), st.just({'b': 'x'})), max_size=4).map(lambda v: {'t': v}),
    st.lists(st.one_of(st.integers(0, 3), st.just({'u': '\u00e9'})), max_size=3),
    st.sampled_from([{'d': []}, {'d': [[{'b': 'error'}, 1]]}, {'d': [[{'b': 'a'}, {'u': '\u00e9'}]]}, {'funny': 1},
                     {'host': ['127.0.0.1', 9000]}, {'exc': {'b': 'inner'}}, {'exc': {'t': [1, 2]}},
                     {'f': '3ff8000000000000'}, {'U': '00112233445566778899aabbccddeeff'}]))


def bytestr(v):
    """Python 2 cannot mix unicode text and bytes that are not ASCII."""
    return {'b': v['u']} if isinstance(v, dict) and 'u' in v else v


@st.composite
def cases(draw):
    cls = draw(st.sampled_from(sorted(ERRORS)))
    params = ERRORS[cls][0]
    need = sum(1 for _, d in params if d is REQ)
    pos = draw(st.integers(0, len(params)))
    args = [draw(VALUE) for _ in range(pos)]
    kw = []
    for n, d in params[pos:]:
        if d is REQ or draw(st.booleans()):
            kw.append([n, draw(VALUE)])
    if draw(st.booleans()):
        kw.reverse()
    if any(isinstance(v, dict) and 'x' in v for v in args + [v for _, v in kw]):
        args, kw = [bytestr(v) for v in args], [[n, bytestr(v)] for n, v in kw]
    return {'cls': cls, 'args': args, 'kw': kw}


def plain(j):
    """The ASCII text of a value, or None."""
    if isinstance(j, dict):
        s = j.get('b', j.get('u'))
        if isinstance(s, str) and all(ord(c) < 128 for c in s):
            return s
    if isinstance(j, int) and not isinstance(j, bool):
        return str(j)
    return None


def check(case, ctx):
    params, shown, families = ERRORS[case['cls']]
    names = [n for n, _ in params]
    r = ctx.call('error', names=names, **case)
    given = dict(zip(names, case['args']))
    given.update(dict(case['kw']))
    what = '%s(%s)' % (case['cls'], given)
    require(r['raised'], '%s cannot be raised and caught', what)
    require(all(f in r['bases'] for f in families + ('Exception',)), '%s is of the families %s only', what, r['bases'])
    for f in ('NetworkError', 'MessageSystemError', 'DeserializationError', 'AgentDomainError', 'RegionDomainError', 'LoginError'):
        require(f not in r['bases'] or f in families or f == case['cls'], '%s belongs to %s as well', what, f)
    for f in ERRORS:
        require(f not in r['bases'] or f in families or f == case['cls'], '%s is caught as %s', what, f)
    for n, d in params:
        if n in given:
            require(r['same'][n] and r['kept'][n], '%s has another %s', what, n)
        else:
            want = {'b': d} if isinstance(d, str) else d
            require(r['default'][n] in (want, {'u': d}, {'x': d.encode().hex()} if isinstance(d, str) else want), '%s has %s %r by default', what, n, r['default'][n])
    for how in ('str', 'format', 'repr', 'again'):
        t = r[how]
        require('exc' not in t and 'other' not in t, 'rendering %s as %s gives %s', what, how, t)
    for how in ('str', 'format', 'again'):
        t = r[how].get('u', r[how].get('b'))
        for n in shown:
            p = plain(given[n]) if n in given else None
            if p:
                require(p in t, '%s as %s does not mention its %s: %r', what, how, n, t)
    return bool(given), [case['cls']] + sorted({type(v).__name__ if not isinstance(v, dict) else 'tagged ' + next(iter(v)) for v in given.values()})


PARTS = [Part('errors', check, cases, quick=6000, thorough=150000)]
