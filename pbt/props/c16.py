"""C16: LLSD payloads through the serializers and the deserializer."""
import base64
import datetime
import xml.etree.ElementTree as ET

from hypothesis import strategies as st

from .. import llsdv, vals
from ..common import require
from ..core import Part, Skip
from ..llsdv import norm

RULE = ('roundtrip: a list or map serialised and parsed back, non-trivial if it holds at least one value; parse: a value '
        'written as LLSD XML by this harness in varying styles, non-trivial always; fuzz: bytes, mostly mutated LLSD in its '
        'three forms, non-trivial if at least 8 bytes; other: inputs that are no byte string. Distinct by content.')
ASSUMPTIONS = ['characters XML cannot carry, and carriage returns, are not generated; nesting stays below 50 levels; '
               'input on which llbase itself loops (negative sizes) is left out; mutated text is compared with what llbase makes of it']


@st.composite
def containers(draw):
    v = draw(st.one_of(st.lists(llsdv.value(12), max_size=5), llsdv.amap(llsdv.value(12), max_size=5)))
    if draw(st.integers(0, 9)) == 9:
        for _ in range(draw(st.integers(5, 40))):
            v = [v] if draw(st.booleans()) else {'d': [[{'b': 'k'}, v]]}
    return {'value': v, 'how': draw(st.sampled_from(['string', 'file', 'any'])), 'then': draw(st.booleans())}


@st.composite
def large(draw):
    """Longer than any buffer."""
    v = draw(llsdv.value(4))
    n = draw(st.sampled_from([4000, 9000, 17000, 40000, 66000, 70000, 140000]))
    v = draw(st.sampled_from([[{'b': 'x' * n}, v], {'d': [[{'b': 'k'}, {'b': 'long ' * (n // 5)}], [{'b': 'v'}, v]]},
                              [v] + list(range(n // 7)), [{'bin': '00ff' * (n // 2)}, v]]))
    return {'value': v, 'how': draw(st.sampled_from(['string', 'file', 'file', 'any']))}


def read_xml(node):
    """The LLSD an element stands for, in canonical form."""
    t = node.text or ''
    k = node.tag
    if k == 'undef':
        return ['c', None]
    if k == 'boolean':
        return ['c', t in ('true', '1')]
    if k == 'integer':
        return ['i', str(int(t or 0))]
    if k == 'real':
        return norm(vals.f(float(t or 0)))
    if k == 'string':
        return ['s', t]
    if k == 'uuid':
        return ['pu', t.replace('-', '') or '0' * 32]
    if k == 'uri':
        return ['uri', t]
    if k == 'binary':
        return ['bin', base64.b64decode(t).hex()]
    if k == 'date':
        d = datetime.datetime.fromisoformat(t.rstrip('Z'))
        return ['date', [d.year, d.month, d.day, d.hour, d.minute, d.second, d.microsecond]]
    if k == 'array':
        return ['a', [read_xml(c) for c in node]]
    assert k == 'map', k
    kids = list(node)
    return ['m', sorted(([['s', kids[i].text or ''], read_xml(kids[i + 1])] for i in range(0, len(kids), 2)), key=repr)]


def check_roundtrip(case, ctx):
    r = ctx.call('llsd_roundtrip', **case)
    want = norm(case['value'])
    require(r['str'] and r['again'] and r['same'], 'serialising changed the payload, or gave no string: %s', r)
    require(r['ctype'] == 'application/llsd+xml', 'content type %s', r['ctype'])
    root = ET.fromstring(bytes.fromhex(r['text']).decode('utf-8'))
    require(root.tag == 'llsd' and len(root) == 1, 'not an LLSD document: %s', r['text'])
    got = read_xml(root[0])
    require(got == want, 'serialised as %s, not %s', got, want)
    require('ok' in r['back'] and norm(r['back']['ok']) == want, 'parsed back as %s, not %s', r['back'], want)
    v = case['value']
    if case.get('then'):
        more = v + [{'b': 'changed'}] if isinstance(v, list) else {'d': [x for x in v['d'] if llsdv.ktext(x[0]) != 'then'] + [[{'b': 'then'}, {'b': 'changed'}]]}
        got = r['then']
        require('ok' in got and norm(got['ok']) == norm(more), 'changed and serialised again it is %s, not %s', got, norm(more))
    n = len(v) if isinstance(v, list) else len(v['d'])
    return n > 0, {'value ' + k for k in llsdv.kinds(v, set())} | {'by ' + case['how'], 'depth %s' % min(llsdv.depth(v), 5)}


# ---- XML written by the harness --------------------------------------------------------------------------------

def esc(s):
    return s.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;')


def write_xml(v, sp, short):
    """LLSD XML for a value. sp: whitespace between elements; short: empty elements in the short form."""
    def el(tag, text):
        if not text and short:
            return '<%s/>' % tag
        return '<%s>%s</%s>' % (tag, text, tag)
    if v is None:
        return el('undef', '')
    if isinstance(v, bool):
        return el('boolean', ('true' if v else 'false') if not short else ('1' if v else ''))
    if isinstance(v, int):
        return el('integer', str(v) if v or not short else '')
    if isinstance(v, list):
        return el('array', sp.join([''] + [write_xml(x, sp, short) for x in v] + ['']) if v else '')
    (k, x), = v.items()
    if k == 'f':
        return el('real', repr(vals.fval(x)) if vals.fval(x) != 0 or not short or x[0] == '8' else '')
    if k in ('b', 'u'):
        return el('string', esc(x))
    if k == 'pu':
        h = x
        return el('uuid', '%s-%s-%s-%s-%s' % (h[:8], h[8:12], h[12:16], h[16:20], h[20:]) if int(h, 16) or not short else '')
    if k == 'uri':
        return el('uri', esc(x))
    if k == 'bin':
        return el('binary', base64.b64encode(bytes.fromhex(x)).decode())
    if k == 'date':
        d = datetime.datetime(*x)
        return el('date', d.isoformat() + 'Z')
    assert k == 'd'
    return el('map', sp.join([''] + ['%s%s%s' % (el('key', esc(llsdv.ktext(a))), sp, write_xml(b, sp, short)) for a, b in x] + [''])
              if x else '')


ZERO = [0, vals.f(0.0), {'b': ''}, [], {'d': []}, None, {'bin': ''}, {'uri': ''}, {'pu': '0' * 32}, False, True, [False], [0],
        {'d': [[{'b': ''}, {'b': ''}]]}]


@st.composite
def documents(draw):
    v = draw(st.one_of(st.sampled_from(ZERO), llsdv.leaf(), llsdv.value(10)))
    return {'value': v, 'sp': draw(st.sampled_from(['', '', '\n', '  \n\t'])), 'short': draw(st.booleans()),
            'head': draw(st.sampled_from(['', '<?xml version="1.0" ?>', '<?xml version="1.0" encoding="UTF-8"?>\n',
                                          '  \n <?xml version="1.0"?>'])),
            'how': draw(st.sampled_from(['string', 'file', 'any']))}


def check_document(case, ctx):
    v = case['value']
    text = case['head'] + '<llsd>' + case['sp'] + write_xml(v, case['sp'], case['short']) + case['sp'] + '</llsd>'
    r = ctx.call('llsd_parse', src={'hex': text.encode('utf-8').hex()}, how=case['how'])
    got = r['got']
    if v is False:
        require(got.get('failed'), 'the boolean false was returned as %s', got)
        require(got['payload'] == r['data'], 'the error names %s as its payload', got['payload'])
    else:
        require('ok' in got and norm(got['ok']) == norm(v), 'parsed as %s, not %s: %s', got, norm(v), text)
    return True, {'value ' + k for k in llsdv.kinds(v, set())} | ({'false'} if v is False else set())


# ---- anything --------------------------------------------------------------------------------------------------

NASTY = [b'<?llsd/binary?>\ni\0\0\0\n', b'<?llsd/binary?>\ni\0\0\0 ', b'<?llsd/binary?>\ns\0\0\0\4ab \n', b'<?llsd/binary?>\nb\0\0\0\2\t\r',
         b'<?llsd/binary?>\nl\0\0\0\2a ', b'<?llsd/binary?>\ni\0\0\0\0', b'<?llsd/binary?>\ns\0\0\0\2a\0', b"'ab ' ", b"i5\n", b' i5', b'\n<llsd><undef/></llsd>\n',
         b'<?llsd/binary?>\n!', b'<?llsd/binary?>\n1\n', b'<?llsd/binary?>\n0', b'<?llsd/binary?>1', b'<? llsd/binary ?>\n1', b"{'\xc2\xa0'd\"x\"}", b"['\xe2\x82\xac'i]", b"{'\xc3\xa9'!'\xc3\xa9'}", b"'\xc3\xa9", b'', b' ', b'\n\t ', b'<', b'<llsd/>', b'<llsd></llsd>', b'<llsd><a/></llsd>', b'<?llsd/binary?>', b'<?llsd/binary?>\n',
         b'<?llsd/binary?>\n{', b'<?llsd/binary?>\n[\0\0\0\5', b'<?llsd/binary?>\ni\0\0', b'<?llsd/binary?>\ns\xff\xff\xff\xff',
         b'0', b'1', b'!', b'true', b'false', b'f', b't', b'i', b'i5', b'r', b'r1.5', b"'abc", b"'abc'", b'"a\\x', b'{', b'[',
         b'[i1', b"{'a':", b"{'a'i1}", b'u', b'u1234', b'd"2000-01-01T00:00:00Z"', b'd"', b'd"x"', b'b16"zz"', b'b64"!!"', b'b(5)"ab"',
         b's(5)"ab"', b's(-1)"ab"', b'l"http://x"', b'mumpitz', b'barfoo', b'\xff\xfe\0', b'\xef\xbb\xbf<llsd><undef/></llsd>',
         b'<llsd><integer>x</integer></llsd>', b'<llsd><real>y</real></llsd>', b'<llsd><uuid>zz</uuid></llsd>',
         b'<llsd><date>yesterday</date></llsd>', b'<llsd><date>2000-13-45T99:00:00Z</date></llsd>',
         b'<llsd><binary>*</binary></llsd>', b'<llsd><map><key>a</key></map></llsd>', b'<llsd><map><integer>1</integer></map></llsd>',
         b'<llsd>&undefined;</llsd>', b'<llsd><string>\xff</string></llsd>', b'<html><body>404</body></html>',
         b'<llsd><integer>1</integer><integer>2</integer></llsd>', b'<llsd><string>&#0;</string></llsd>',
         b'<llsd><string>\xe2\x82</string></llsd>', b'<llsd><uri>\xc3\xa9</uri></llsd>', b'<llsd><boolean>maybe</boolean></llsd>']


@st.composite
def fuzz(draw):
    k = draw(st.sampled_from(['fmt', 'fmt', 'fmt', 'nasty', 'bytes', 'text']))
    if k == 'fmt':
        src = {'fmt': draw(st.sampled_from(['xml', 'xml', 'binary', 'notation', 'pretty'])), 'value': draw(llsdv.value(8))}
        if src['fmt'] == 'pretty':
            src['value'] = draw(st.lists(llsdv.leaf(True), max_size=3))
    elif k == 'nasty':
        src = {'hex': draw(st.sampled_from(NASTY)).hex()}
    elif k == 'bytes':
        src = {'hex': draw(st.binary(max_size=40)).hex()}
    else:
        src = {'hex': draw(st.text('{}[]!01ftiru\'"sdbl(),:-. 5a<>/', max_size=20)).encode().hex()}
    muts = draw(st.lists(st.tuples(st.sampled_from(['cut', 'ins', 'del', 'set', 'dup']), st.integers(0, 400),
                                   st.one_of(st.integers(0, 255), st.sampled_from(list(b"<>{}[]'\"i0!&/;")))).map(list),
                         max_size=3))
    return {'src': src, 'muts': muts, 'how': draw(st.sampled_from(['string', 'file', 'any']))}


def check_fuzz(case, ctx):
    r = ctx.call('llsd_parse', **case)
    if 'endless' in r:
        raise Skip()
    got, ref = r['got'], r['ref']
    require('ok' in got or got.get('failed'), 'neither a value nor DeserializationFailed for %s: %s', r['data'], got)
    if 'ok' in ref:
        require('ok' in got and norm(got['ok']) == norm(ref['ok']), 'parsed as %s, which stands for %s: %s', got, ref, r['data'])
    else:
        require(got.get('failed'), '%s is no LLSD (or false), but gave %s', r['data'], got)
        require(got['payload'] == r['data'] and got['text'], 'the error does not name the payload %s: %s', r['data'], got)
    src = case['src'].get('fmt', 'bytes')
    return len(r['data']) >= 16, {src + (' mutated' if case['muts'] else ''),
                                 'value' if 'ok' in ref else 'false' if 'false' in ref else 'llbase raises ' + ref['raises']}


@st.composite
def others(draw):
    v = draw(st.one_of(st.sampled_from([None, 0, 1, vals.f(1.5), True, False, [], {'d': []}, {'t': []}, {'u': ''}, {'u': '<llsd/>'},
                                        {'u': '<llsd><integer>5</integer></llsd>'}, {'obj': 1}]),
                       llsdv.leaf().filter(lambda j: not (isinstance(j, dict) and 'b' in j))))
    return {'value': v, 'file': draw(st.integers(0, 5)) == 5}


def check_other(case, ctx):
    r = ctx.call('llsd_other', **case)
    require(r == {'ok': None}, 'input that is no byte string gave %s', r)
    return True, {'no byte string'}


PARTS = [Part('large', check_roundtrip, large, quick=36, thorough=600),
         Part('roundtrip', check_roundtrip, containers, quick=700, thorough=20000),
         Part('document', check_document, documents, quick=500, thorough=15000),
         Part('fuzz', check_fuzz, fuzz, quick=1600, thorough=60000),
         Part('nasty', check_fuzz, cases=lambda tier: [{'src': {'hex': b.hex()}, 'muts': [], 'how': h} for b in NASTY
                                                       for h in ('string', 'file', 'any')]),
         Part('other', check_other, others, quick=60, thorough=500)]
