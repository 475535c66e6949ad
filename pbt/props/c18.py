"""C18: the standard HTTP client over loopback."""
from hypothesis import strategies as st

from ..common import require
from ..core import Part
from ..server import server

RULE = ('A case is one GET or POST to a loopback server that records the request and answers with a scripted response. '
        'Non-trivial: a body was sent or received, or an error status answered; distinct by content.')
ASSUMPTIONS = ['redirects and 1xx answers, which urllib2 handles itself, and repeated response headers are left out']

PATHS = ['/', '/cap/0123-4567', '/a/b/c.xml', '/%20/%E2%82%AC', '/;p', '/x//y', '/~u', '/a+b', '']
QUERIES = ['', '', '?', '?a=b', '?a=b&c=d', '?q=%3C%26%3E', '?http://x/?y', '?a=b;c=+', '?=']
VALUE = st.one_of(st.text(st.characters(min_codepoint=33, max_codepoint=126), min_size=1, max_size=20),
                  st.sampled_from(['a b', 'text/plain; charset=utf-8', 'x,y', '"q"', 'a:b', '']))
NAMES = ['X-One', 'Accept', 'Content-Type', 'X-SecondLife-Shard', 'Cookie', 'User-Agent', 'x-lower', 'Content-Language']
RNAMES = ['Content-Type', 'X-Reply', 'Set-Cookie', 'ETag', 'Server', 'x-lower', 'Last-Modified', 'X-EventQueue-Id']
STATUS = [(200, 'OK'), (200, 'OK'), (200, ''), (201, 'Created'), (202, 'Accepted'), (203, 'Non-Authoritative Information'), (206, 'Partial'), (204, 'No Content'), (299, 'Fine'), (200, 'Not Found')]
ERRORS = [(400, 'Bad Request'), (401, 'Unauthorized'), (403, 'Forbidden'), (404, 'Not Found'), (404, ''), (405, 'Method Not Allowed'),
          (407, 'Proxy'), (408, 'Timeout'), (410, 'Gone'), (415, 'Type'), (418, 'I am a teapot'), (429, 'Slow'), (451, 'Law'), (499, 'Closed'), (500, 'Internal Server Error'),
          (501, 'Not Implemented'), (502, 'Bad Gateway'), (503, 'Service Unavailable'), (504, 'Gateway Timeout'), (599, 'x')]
BODY = st.one_of(st.sampled_from([b'ab\r\n' * 5000, bytes(range(256)) * 300, b'\0' * 300000]), st.just(b''), st.binary(max_size=60), st.sampled_from([b'<?xml version="1.0" ?><llsd><integer>5</integer></llsd>',
                 bytes(range(256)), b'\r\n\r\n', b'\0', b'\xef\xbb\xbfx', b'0\r\n\r\n']),
                 st.tuples(st.sampled_from([b'x', b'\xff', b'\r\n']), st.integers(1000, 70000)).map(lambda t: (t[0] * t[1])[:70000]))


@st.composite
def cases(draw):
    m = draw(st.sampled_from(['GET', 'POST', 'POST']))
    c = {'method': m, 'path': draw(st.sampled_from(PATHS)) + draw(st.sampled_from(QUERIES)),
         'headers': draw(st.one_of(st.none(), st.lists(st.tuples(st.sampled_from(NAMES), VALUE).map(list), max_size=4, unique_by=lambda h: h[0].lower())))}
    if m == 'POST':
        c['data'] = draw(BODY).hex()
    s = draw(st.sampled_from(STATUS) if draw(st.integers(0, 2)) else st.sampled_from(ERRORS))
    c['status'] = list(s)
    c['rheaders'] = draw(st.lists(st.tuples(st.sampled_from(RNAMES), VALUE).map(list), max_size=4, unique_by=lambda h: h[0].lower()))
    if draw(st.integers(0, 9)) == 0:
        c['rheaders'] += [['X-Many-%d' % i, 'v%d' % i] for i in range(draw(st.sampled_from([15, 31, 60])))]
    if draw(st.integers(0, 9)) == 0:
        c['headers'] = (c['headers'] or []) + [['X-Many-%d' % i, 'v%d' % i] for i in range(draw(st.sampled_from([15, 31, 60])))]
    c['body'] = '' if s[0] == 204 else draw(BODY).hex()
    c['how'] = draw(st.sampled_from(['length', 'length', 'close', 'chunked'])) if s[0] != 204 else 'length'
    c['pieces'] = draw(st.sampled_from([1, 1, 2, 5]))
    return c


def reply(c):
    body = bytes.fromhex(c['body'])
    h = [list(x) for x in c['rheaders']]
    if c['how'] == 'length':
        h.append(['Content-Length', str(len(body))])
    elif c['how'] == 'chunked':
        h.append(['Transfer-Encoding', 'chunked'])
        n = max(1, len(body) // 3)
        body = b''.join(b'%x\r\n%s\r\n' % (len(body[i:i + n]), body[i:i + n]) for i in range(0, len(body), n)) + b'0\r\n\r\n'
    h.append(['Connection', 'close'])
    head = 'HTTP/1.1 %d %s\r\n' % tuple(c['status']) + ''.join('%s: %s\r\n' % tuple(x) for x in h) + '\r\n'
    return head.encode('latin-1') + body


def check(case, ctx):
    s = server()
    s.requests, s.reply, s.pieces = [], reply(case), case['pieces']
    url = 'http://127.0.0.1:%d%s' % (s.port, case['path'])
    a = {'method': case['method'], 'url': url, 'headers': case['headers']}
    if 'data' in case:
        a['data'] = case['data']
    r = ctx.call('http', **a)
    q = s.requests
    require(len(q) == 1 and 'line' in q[0], 'one %s became these requests: %s (%s)', case['method'], q, r)
    q = q[0]
    path = case['path'] if case['path'].startswith('/') else '/' + case['path']
    m, p, _ = q['line'].split(' ')
    require(m == case['method'] and p == path, 'requested %r, not %s %s', q['line'], case['method'], path)
    require(q['body'] == bytes.fromhex(case.get('data', '')), 'sent the body %r, not %s', q['body'], case.get('data'))
    got = {k.lower(): v for k, v in q['headers']}
    for k, v in case['headers'] or []:
        require(got.get(k.lower()) == v, 'sent header %s as %r, not %r', k, got.get(k.lower()), v)
    code, reason = case['status']
    ls = {case['method'], 'answer by ' + case['how']}
    body = case['body']
    require(r.get('kept', True), 'the headers argument was changed')
    if code >= 400:
        require(r.get('error') == code, 'HTTP error %s became %s', code, r)
        require(r['msg'] == {'b': reason} and r['body'] == body, 'HTTP error %s with body %s became %s', case['status'], body, r)
        ls.add('error')
    else:
        require(r.get('status') == code, 'status %s became %s', code, r)
        require(r['line'].strip() == ('%d %s' % (code, reason)).strip(), 'status %s became %r', case['status'], r['line'])
        require(r['body'] == body, 'the body %s was returned as %s', body, r['body'])
        got = {k.lower(): v for k, v in r['headers']}
        for k, v in case['rheaders']:
            require(got.get(k.lower()) == v, 'response header %s: %r was returned as %r', k, v, got.get(k.lower()))
        for k in got:
            require(k in ('content-length', 'transfer-encoding', 'connection') or k in [x.lower() for x, _ in case['rheaders']],
                    'the response gained the header %s', k)
        ls.add('success')
    n = len(bytes.fromhex(case.get('data', '')))
    ls.add('sent %s bytes' % ('0' if not n else '1-999' if n < 1000 else '1000+'))
    return bool(n or body or code >= 400), ls


PARTS = [Part('exchange', check, cases, quick=2000, thorough=40000)]
