"""LLSD values as tagged JSON, and their canonical form after a trip through LLSD XML."""
from hypothesis import strategies as st

from . import vals

KEYS = ['ID', 'Name', 'AgentID', 'id', 'x', '', 'a b', '<&>', 'k\u00e9y', '\u65e5', '0']

TEXT = st.one_of(
    st.text(st.characters(min_codepoint=32, max_codepoint=126), max_size=12),
    st.sampled_from(['', ' ', '  lead', 'trail  ', '\n', '\ttab', '<b>&amp;</b>', ']]>', '"q"', "it's", 'true', '0', '1.5']),
    st.text(st.characters(exclude_categories=['Cs', 'Cc'], exclude_characters='\ufffe\uffff'), max_size=8)
    .filter(lambda s: not any(0xfdd0 <= ord(c) <= 0xfdef or (ord(c) & 0xfffe) == 0xfffe for c in s)))


@st.composite
def leaf(draw, cheap=False):
    k = draw(st.sampled_from('nbiirrssuUtdB' if not cheap else 'niirssuB'))
    if k == 'n':
        return None
    if k == 'b':
        return draw(st.booleans())
    if k == 'i':
        return draw(st.one_of(st.integers(-5, 5), st.sampled_from([2**31 - 1, -2**31, 0]), st.integers(-2**31, 2**31 - 1)))
    if k == 'r':
        return vals.f(draw(st.one_of(st.sampled_from([0.0, -0.0, 1.0, 0.1, -2.5, 1e300, 5e-324, 1e16, 123456.789, 1e-7]),
                                     st.floats(allow_nan=False, allow_infinity=True))))
    if k == 's':
        return {'b': draw(st.text(st.characters(min_codepoint=32, max_codepoint=126), max_size=12))}
    if k == 'u':
        return {'u': draw(TEXT)}
    if k == 'U':
        return {'pu': draw(st.binary(min_size=16, max_size=16)).hex()}
    if k == 't':
        return {'uri': draw(st.sampled_from(['http://x/cap/1?a=b&c=d', '', 'secondlife:///app', 'http://h/%20']))}
    if k == 'd':
        return {'date': [draw(st.integers(1901, 2099)), draw(st.integers(1, 12)), draw(st.integers(1, 28)),
                         draw(st.integers(0, 23)), draw(st.integers(0, 59)), draw(st.integers(0, 59)),
                         draw(st.sampled_from([0, 0, 500000, 250000]))]}
    return {'bin': draw(st.binary(max_size=120)).hex()}


def key():
    return st.one_of(st.sampled_from(KEYS[:7]).map(lambda s: {'b': s}), st.sampled_from(KEYS).map(lambda s: {'u': s}),
                     TEXT.map(lambda s: {'u': s}))


def ktext(k):
    return k.get('b', k.get('u'))


def amap(v, k=None, **kw):
    """A map strategy with distinct keys."""
    return st.lists(st.tuples(key() if k is None else k, v).map(list), unique_by=lambda kv: ktext(kv[0]), **kw).map(lambda kv: {'d': kv})


def value(max_leaves=12, cheap=False):
    return st.recursive(leaf(cheap), lambda v: st.one_of(st.lists(v, max_size=4), amap(v, max_size=4)),
                        max_leaves=max_leaves)


def norm(j):
    """Canonical form in which text is text, whatever its Python type."""
    if j is None or isinstance(j, bool):
        return ['c', j]
    if isinstance(j, int):
        return ['i', str(j)]
    if isinstance(j, float):
        return ['f', vals.f(j)['f']]
    if isinstance(j, str):
        return ['s', j]
    if isinstance(j, list):
        return ['a', [norm(x) for x in j]]
    (k, v), = j.items()
    if k in ('i', 'L'):
        return ['i', str(int(v))]
    if k in ('b', 'u'):
        return ['s', v]
    if k == 'f':
        x = vals.fval(v)
        return ['f', 'nan' if x != x else v]
    if k == 't':
        return ['a', [norm(x) for x in v]]
    if k == 'd':
        return ['m', sorted(([norm(a), norm(c)] for a, c in v), key=repr)]
    return [k, v]


def depth(j):
    if isinstance(j, list):
        return 1 + max([depth(x) for x in j], default=0)
    if isinstance(j, dict) and 'd' in j:
        return 1 + max([depth(x) for _, x in j['d']], default=0)
    return 0


def kinds(j, out):
    if isinstance(j, list):
        out.add('array')
        for x in j:
            kinds(x, out)
    elif isinstance(j, dict) and 'd' in j:
        out.add('map')
        for _, x in j['d']:
            kinds(x, out)
    elif isinstance(j, dict):
        out.add({'b': 'string', 'u': 'unicode', 'f': 'real', 'pu': 'uuid', 'bin': 'binary'}.get(next(iter(j)), next(iter(j))))
    else:
        out.add({bool: 'boolean', int: 'integer', type(None): 'undef'}[type(j)])
    return out
