"""C17: what a capability requests and how it classifies responses."""
import xml.etree.ElementTree as ET

from hypothesis import strategies as st

from .. import hist, llsdv
from ..common import require
from ..core import Part
from ..llsdv import norm
from .c16 import read_xml

RULE = ('A case is a sequence of calls on capabilities over a recording REST client with scripted answers. Non-trivial: at '
        'least two calls of which one was answered with LLSD and one with an error or refusal, or a seed call that granted '
        'something; distinct by content.')
ASSUMPTIONS = ['the REST client is a stand-in (C18 checks the real one); GET is not tried with the other XML and HTML types '
               'POST takes; a seed that does not grant a requested name is left out']

LLSD = 'application/llsd+xml'
GOOD = [LLSD, LLSD + ';charset=utf-8', LLSD + '; charset=UTF-8', LLSD + ';q=1; x=y']
BADTYPE = [None, '', 'text/plain', 'application/json', 'text/xml', 'application/llsd', 'application/llsd+xmlx', 'text/plain;' + LLSD,
           'image/png; charset=utf-8', 'application/llsd+binary', 'llsd+xml', ';' + LLSD, 'image/png;;' + LLSD, 'x;application/xml', ';', 'text/html2',
           'text/plain, ' + LLSD, LLSD + ', text/plain', 'xapplication/llsd+xml', 'application/xml+llsd', 'application/xmll', LLSD[:-1]]
BADBODY = [b'', b'mumpitz', b'<llsd>', b'<html><body>no</body></html>', b'\xff\xfe', b'<llsd><integer>x</integer></llsd>',
           b'<?llsd/binary?>', b'{', b'<llsd><boolean>false</boolean></llsd>', b'0', b'false']
TYPES = ['application/xml', 'text/plain', 'application/llsd+xml;x=y', '']
BYTES = st.one_of(st.binary(max_size=12), st.binary(max_size=12), st.integers(100, 9000).map(lambda n: b'<e>%d' % n * (n // 6)))
HEADERS = [['X-One', '1'], ['Accept', LLSD], ['x-SecondLife-UDP-Listen-Port', '13000'], ['Cookie', 'a=b; c=d'], ['X-Empty', '']]


@st.composite
def answer(draw, post):
    k = draw(st.sampled_from(['good'] * 6 + ['type', 'body', 'error', 'error', 'notfound', 'io'] + (['xml', 'html', 'nohtml'] if post else [])))
    x = {'webob': draw(st.booleans()), 'kind': k}
    if k == 'good':
        v = draw(st.one_of(llsdv.value(5), st.sampled_from([0, {'b': ''}, [], {'d': []}, None, True])).filter(lambda v: v is not False))
        x.update(ctype=draw(st.sampled_from(GOOD)), value=v)
        if x['webob']:
            x['cname'] = draw(st.sampled_from(['Content-Type', 'content-type', 'CONTENT-TYPE']))
    elif k == 'xml':
        x.update(ctype=draw(st.sampled_from(['application/xml', 'application/xml; charset=utf-8'])), value=draw(llsdv.value(3).filter(lambda v: v is not False)))
    elif k == 'html':
        x.update(ctype=draw(st.sampled_from(['text/html', 'text/html; charset=utf-8'])),
                 value=draw(st.sampled_from([5, {'b': 'text'}, [1], {'d': [[{'b': 'k'}, 1]]}])))
    elif k == 'nohtml':
        x.update(ctype='text/html', body=draw(st.sampled_from([b'<html></html>', b'', b'x<?xml version="1.0" ?><llsd></llsd>'])).hex())
    elif k == 'type':
        x.update(ctype=draw(st.sampled_from(BADTYPE)))
        if draw(st.booleans()):
            x['value'] = 5
        else:
            x['body'] = draw(st.sampled_from(BADBODY)).hex()
    elif k == 'body':
        x.update(ctype=draw(st.sampled_from(GOOD)), body=draw(st.one_of(st.sampled_from(BADBODY), st.binary(max_size=6).map(lambda b: b'\xff' + b))).hex())
    elif k == 'error':
        x['error'] = [draw(st.sampled_from([400, 401, 403, 405, 408, 410, 499, 500, 502, 503, 504, 599, 4040])),
                      draw(st.sampled_from(['Bad Gateway', '', 'Not Found', '404'])), draw(BYTES).hex()]
    elif k == 'notfound':
        x['error'] = [404, draw(st.sampled_from(['Not Found', '', 'gone'])), draw(BYTES).hex()]
    else:
        x['io'] = True
    if 'value' in x and draw(st.integers(0, 3)) == 0:
        x['trail'] = draw(st.sampled_from(['\n', ' \r\n\n', '\t', '<!-- end -->', '\n<!-- a\nb -->\n']))
    return x


BADPAYLOAD = [None, 5, {'b': 'text'}, {'u': 'text'}, {'t': []}, {'t': [1]}, {'f': '3ff8000000000000'}, True, {'obj': 1},
              {'bin': '00'}, {'pu': '00112233445566778899aabbccddeeff'}]
NAMES = ['EventQueueGet', 'seed_capability', 'rez_avatar/place', 'CopyInventoryFromNotecard', 'x', 'ChatSessionRequest', 'a<b&c']
MANY = NAMES + ['Cap%d' % i for i in range(60)]


@st.composite
def cases(draw):
    ops = []
    for _ in range(draw(st.integers(1, 6))):
        k = draw(st.sampled_from(['GET', 'GET', 'POST', 'POST', 'POST', 'CUSTOM', 'bad', 'seed']))
        if k == 'seed':
            names = draw(st.lists(st.sampled_from(NAMES if draw(st.integers(0, 5)) else MANY), max_size=4 if draw(st.integers(0, 5)) else 40, unique=True))
            more = draw(st.lists(st.sampled_from(NAMES + ['other']), max_size=2))
            caps = [[{'b': n}, {'b': draw(st.sampled_from(['http://cap%d/', 'http://cap%d/', 'http://cap%d/?a=b&c', ' http://CAP%d/x ', '%d', '%.0s',
                                                           'http://h/%%20a b%d'])) % i}] for i, n in enumerate(sorted(set(names + more)))]
            if draw(st.integers(0, 4)) == 4:
                a = draw(answer(True).filter(lambda a: a['kind'] in ('type', 'error', 'notfound', 'io', 'nohtml', 'body')))
            else:
                a = {'ctype': draw(st.sampled_from(GOOD)), 'kind': 'seed', 'webob': draw(st.booleans()),
                     'value': {'d': [[{'b': 'capabilities'}, {'d': caps}]]}}
            ops.append({'do': 'seed', 'names': [{draw(st.sampled_from('bu')): n} for n in names], 'answer': a})
            continue
        o = {'do': k, 'answer': draw(answer(k != 'GET')), 'cap': draw(st.integers(0, 4)),
             'headers': draw(st.one_of(st.none(), st.lists(st.sampled_from(HEADERS), max_size=3, unique_by=lambda h: h[0])))}
        if k == 'POST':
            if draw(st.integers(0, 5)) == 0:
                o['headers'] = (o['headers'] or []) + [['Content-type', draw(st.sampled_from(TYPES))]]
            o['payload'] = draw(st.one_of(st.lists(llsdv.value(4), max_size=3), llsdv.amap(llsdv.value(4), max_size=3)))
        elif k == 'CUSTOM':
            o['payload'] = {'x': draw(st.binary(max_size=20)).hex()}
            o['headers'] = [['Content-Type', 'application/vnd.ll.notecard']] + (o['headers'] or [])
        elif k == 'bad':
            o['do'] = 'POST'
            o['payload'] = draw(st.sampled_from(BADPAYLOAD))
            o['bad'] = True
        ops.append(o)
    return {'url': draw(st.sampled_from(['http://localhost:12345/cap', 'https://sim.example/cap/0123-45?x=y&z=%20', 'x', ' http://h/ ', 'http://h/a b#c', 'HTTP://H:80/%7e/', ''])),
            'name': draw(st.sampled_from(['test', 'EventQueueGet', ''])),
            'settings': draw(st.one_of(st.none(), hist.log_settings())), 'ops': ops}


def check_answer(o, r, url, ls):
    """The outcome of the call must be what the answer calls for; returns True if that was LLSD."""
    a = o['answer']
    method = 'GET' if o['do'] == 'GET' else 'POST'
    k = a['kind']
    ls.add('answer ' + k)
    if k in ('good', 'xml', 'html'):
        require('ok' in r and norm(r['ok']) == norm(a['value']), '%s answered with %s returned %s', method, a, r)
        return True
    require('ok' not in r, '%s answered with %s returned %s', method, a, r)
    require('nostr' not in r, 'the error cannot be shown: %s', r)
    if k == 'notfound':
        require(r['exc'] == 'ResourceNotFound' and norm(r['url']) == ['s', url], 'a 404 for %s became %s', url, r)
    elif k == 'error':
        code, msg, body = a['error']
        require(r['exc'] == 'ResourceError', 'HTTP error %s became %s', code, r)
        require(norm(r['code']) == norm(code) and norm(r['message']) == ['s', msg] and norm(r['method']) == ['s', method]
                and r['body'] == {'b': bytes.fromhex(body).decode('latin-1')} and norm(r['url']) == ['s', url],
                'HTTP error %s of %s %s was reported as %s', a['error'], method, url, r)
    elif k in ('type', 'nohtml'):
        require(r['exc'] == 'DeserializerNotFound', 'a response of type %s became %s', a['ctype'], r)
        require(norm(r['content_type']) == ['s', (a['ctype'] or '').split(';')[0]], 'a response of type %s was reported as %s', a['ctype'], r)
    elif k == 'body':
        require(r['exc'] == 'DeserializationFailed' and r['payload'] == {'b': bytes.fromhex(a['body']).decode('latin-1')},
                'an unparseable body %s became %s', a['body'], r)
    else:
        require(r['exc'] == 'IOError', 'a failing client became %s', r)
    return False


def check_request(q, method, url, payload, headers, what):
    require(len(q) == 1, '%s made %d requests: %s', what, len(q), q)
    m, u, body, h = q[0]
    require(m == method and u == url, '%s requested %s %s, not %s %s', what, m, u, method, url)
    got = sorted([llsdv.ktext(k).lower(), llsdv.ktext(v)] for k, v in h['d'])
    require(got == sorted([k.lower(), v] for k, v in headers), '%s sent headers %s, not %s', what, got, headers)
    if payload is None:
        require(body is None, '%s sent a body', what)
    elif isinstance(payload, bytes):
        require(body == {'b': payload.decode('latin-1')}, '%s sent the body %s, not %r', what, body, payload)
    else:
        require(isinstance(body, dict) and 'b' in body, '%s sent the body %s', what, body)
        root = ET.fromstring(body['b'].encode('latin-1').decode('utf-8'))
        require(root.tag == 'llsd' and len(root) == 1 and read_xml(root[0]) == payload[0], '%s sent %s, not the LLSD of %s', what,
                body['b'], payload[0])


def check(case, ctx):
    res = ctx.call('capability', url=case['url'], name=case['name'], settings=case['settings'], ops=case['ops'])
    ls, good, bad, granted = set(), 0, 0, 0
    for o, r in zip(case['ops'], res):
        ls.add('bad payload' if o.get('bad') else o['do'])
        require(r['kept'], '%s changed its arguments', o['do'])
        if o['do'] == 'seed':
            names = [llsdv.ktext(n) for n in o['names']]
            check_request(r['requests'], 'POST', case['url'], [norm({'d': [[{'b': 'capabilities'}, o['names']]]})],
                          [['Content-type', LLSD]], 'the seed capability')
            if o['answer']['kind'] == 'seed':
                urls = {llsdv.ktext(k): v['b'] for k, v in o['answer']['value']['d'][0][1]['d']}
                require('exc' not in r, 'the seed capability failed: %s', r)
                got = sorted([llsdv.ktext(n), llsdv.ktext(cn), llsdv.ktext(u), same] for n, cn, u, same, cls in r['caps'])
                require(got == sorted([n, n, urls[n], True] for n in names), 'asked for %s and granted %s, the caps are %s', names, urls, r['caps'])
                granted += len(names)
            else:
                check_answer(o, r, case['url'], ls)
                bad += 1
            continue
        url = r['cap']
        if o.get('bad'):
            require(r.get('exc') == 'DeserializerNotFound' and not r['requests'], 'the payload %s was not refused: %s', o['payload'], r)
            bad += 1
            continue
        h = [list(x) for x in o['headers'] or []]
        if o['do'] == 'GET':
            check_request(r['requests'], 'GET', url, None, h, 'GET')
        elif o['do'] == 'POST':
            check_request(r['requests'], 'POST', url, [norm(o['payload'])], ([] if 'Content-type' in dict(map(tuple, h)) else [['Content-type', LLSD]]) + h, 'POST')
        else:
            check_request(r['requests'], 'POST', url, bytes.fromhex(o['payload']['x']), h, 'POST_CUSTOM')
        if url != case['url']:
            ls.add('granted capability used')
        if check_answer(o, r, url, ls):
            good += 1
        else:
            bad += 1
    return bool(good and bad) or granted > 0, ls


PARTS = [Part('calls', check, cases, quick=1200, thorough=40000)]
