"""C05: template files in any layout, against the generated structure; the embedded file against an independent
tokenising reader."""
from hypothesis import strategies as st

from .. import gen, template, vals
from ..common import require
from ..core import Part

RULE = ('A case is a template (generated structure, or the embedded file), a layout of it as text, a number of parses '
        'over one file handle and a list of lookups. Non-trivial: at least one message with a field was parsed and '
        'compared; distinct by content.')
ASSUMPTIONS = ['the format is line-oriented: a line holds at most one opening and one closing brace, a message or '
               'block header is on one line, a field is on one line or has its braces on lines of their own',
               'message numbers leave out the values the wire format reserves for longer forms']

COMMENTS = ['// comment', '//{', '// }', '//', '// Foo Low 7 Trusted Zerocoded', '// { ID U32 }', '//Name Single',
            '// version 9.9', '// a // b', '//\t{ X Variable 1 } }']


@st.composite
def layout(draw, msgs):
    """Text for the messages in a random layout."""
    eol = draw(st.sampled_from(['\n', '\n', '\n', '\r\n']))
    indent = draw(st.sampled_from(['', '\t', '    ', '\t\t', ' \t']))
    busy = draw(st.integers(0, 3))
    wide = draw(st.sampled_from([3, 20, 80, 200, 500]))
    out = []

    def fill():
        for _ in range(draw(st.integers(0, busy))):
            out.append(draw(st.sampled_from(['', '   ', '\t'] + [indent + c for c in COMMENTS])))

    def sp():
        return draw(st.sampled_from([' ', ' ', '\t', '  ', ' \t ', ' ' * wide])) if busy else ' '

    def line(depth, text):
        tail = draw(st.sampled_from(['', '', '', ' ', '\t'] + [' ' + c for c in COMMENTS] + COMMENTS[:3] + [' ' * wide, '// ' + 'x } ' * wide])) if busy \
            else ''
        out.append(indent * depth + text + tail)
        fill()

    def header(depth, words):
        text = words[0]
        for w in words[1:]:
            text += sp() + w
        if draw(st.booleans()):
            line(depth, '{')
            line(depth + draw(st.integers(0, 1)), text)
        else:
            line(depth, draw(st.sampled_from(['{ ', '{', '{\t'])) + text)
    fill()
    version = draw(st.sampled_from(['2.0', '1.5', '2.0\t', '2', '1.125', '12.75', '0.03125', '123.0']))
    out.append('version %s%s' % (version, draw(st.sampled_from(['', ' // version 3.0'])) if busy else ''))
    fill()
    for m in msgs:
        low = m.num
        if m.freq == 'Fixed':
            num = draw(st.sampled_from(['0x%08X', '0x%08x', '%d'])) % low
        else:
            num = draw(st.sampled_from(['%d', '%d', '%d', '0x%x', '0x%04X'])) % low
        header(0, [m.name, m.freq, num, m.trust, m.enc] + ([m.dep] if m.dep else []))
        for bl in m.blocks:
            header(1, [bl.name, bl.kind] + ([str(bl.number)] if bl.kind == 'Multiple' else []))
            for fl in bl.fields:
                words = [fl.name, fl.type] + ([str(fl.size)] if fl.type in ('Fixed', 'Variable') else [])
                text = words[0]
                for w in words[1:]:
                    text += sp() + w
                how = draw(st.sampled_from('iiiitsc'))
                if how == 'i':
                    line(2, '{ ' + text + ' }')
                elif how == 't':
                    line(2, '{' + text + '}')
                elif how == 's':
                    line(2, '{')
                    line(3, text)
                    line(2, '}')
                else:
                    line(2, '{ ' + text)
                    line(2, '}')
            line(1, '}')
        line(0, '}')
    text = eol.join(out)
    if draw(st.booleans()):
        text += eol
    return text, float(version)


FN = ['ID', 'U32', 'Low', 'Single', 'Data', 'x', 'a_b', 'F1', '_f', 'X2', 'Variable', 'Name9', 'Trusted', 'version']


@st.composite
def structure(draw):
    """Messages with a wider choice of names than the wire checks use."""
    msgs = draw(gen.templates(max_msgs=5, max_blocks=4, max_fields=6, empty_blocks=True))
    words = st.one_of(st.sampled_from(FN), st.from_regex(r'\A[A-Za-z_][A-Za-z0-9_]{0,12}\Z'),
                      st.sampled_from(['Long' * 10, 'N' * 64, 'a' * 65, 'Name_' * 30, 'Z' * 300]))
    if draw(st.booleans()):
        seen = set()
        for m in msgs:
            nm = draw(words)
            if nm not in seen and nm not in [x.name for x in msgs]:
                m.name = nm
            seen.add(m.name)
            for b in m.blocks:
                nm = draw(words)
                if nm not in [x.name for x in m.blocks]:
                    b.name = nm
                fs = []
                for fl in b.fields:
                    nm = draw(words)
                    if nm in [x[0] for x in fs] or nm in [x.name for x in b.fields]:
                        nm = fl.name
                    fs.append((nm, fl.type, fl.size))
                b.fields = [template.Field(x) for x in fs]
    for m in msgs:
        for b in m.blocks:
            if b.kind == 'Multiple' and draw(st.booleans()):
                b.number = draw(st.sampled_from([9, 10, 11, 40, 99, 100, 123, 255, 1000]))
            b.fields = [template.Field((f.name, f.type, draw(st.sampled_from([9, 10, 16, 99, 100, 1024, 65536]))))
                        if f.type == 'Fixed' and draw(st.booleans()) else f for f in b.fields]
    return msgs


@st.composite
def many(draw):
    """Hundreds of messages, or of blocks, or of fields."""
    msgs = draw(structure())
    n = draw(st.sampled_from([129, 257, 480, 530, 700, 1100]))
    what = draw(st.sampled_from(['msgs', 'msgs', 'blocks', 'fields']))
    if what == 'msgs':
        used = {(m.freq, m.num) for m in msgs}
        for i in range(n):
            if ('Low', 1000 + i) not in used:
                m = draw(st.sampled_from(msgs[:3])) if i % 50 == 0 else m
                msgs.append(template.Msg('More%d' % i, 'Low', 1000 + i, m.trust, m.enc, m.dep, m.blocks))
    else:
        m = draw(st.sampled_from(msgs))
        m.blocks.append(template.Blk('Wide', 'Single', 0, [template.Field(('ID', 'U32', 4))]))
        if what == 'blocks':
            m.blocks += [template.Blk('More%d' % i, 'Variable', 0, m.blocks[-1].fields) for i in range(n)]
        else:
            m.blocks[-1].fields += [template.Field(('More%d' % i, 'U8', 1)) for i in range(n)]
    text = 'version 2.0\n' + ''.join(plain(m) for m in msgs)
    return {'msgs': as_data(msgs), 'text': text, 'version': 2.0, 'times': 1, 'seek': None, 'names': ['More', 'More%d' % n], 'pairs': []}


def plain(m):
    num = '0x%08X' % m.num if m.freq == 'Fixed' else m.num
    out = '{\n\t%s %s %s %s %s%s\n' % (m.name, m.freq, num, m.trust, m.enc, ' ' + m.dep if m.dep else '')
    for b in m.blocks:
        out += '\t{\n\t\t%s %s%s\n' % (b.name, b.kind, ' %d' % b.number if b.kind == 'Multiple' else '')
        for f in b.fields:
            out += '\t\t{\t%s\t%s%s\t}\n' % (f.name, f.type, ' %d' % f.size if f.type in ('Fixed', 'Variable') else '')
        out += '\t}\n'
    return out + '}\n'


def as_data(msgs):
    return [[m.name, m.freq, m.num, m.trust, m.enc, m.dep,
             [[b.name, b.kind, b.number, [list(f) for f in b.fields]] for b in m.blocks]] for m in msgs]


def from_data(d):
    return [template.Msg(n, fr, num, tr, en, dep,
                         [template.Blk(bn, k, nu, [template.Field(f) for f in fs]) for bn, k, nu, fs in bl])
            for n, fr, num, tr, en, dep, bl in d]


@st.composite
def cases(draw):
    msgs = draw(structure())
    text, version = draw(layout(msgs))
    return {'msgs': as_data(msgs), 'text': text, 'version': version, 'times': draw(st.integers(1, 3)),
            'seek': draw(st.sampled_from([None, None, 0, 1, len(text) // 2, len(text)])),
            'names': draw(st.lists(st.one_of(st.sampled_from(['Nope', 'alpha', 'ALPHA', '', 'Alph', 'Alpha ']),
                                             st.sampled_from(gen.NAMES)), max_size=4)),
            'pairs': draw(st.lists(st.tuples(st.sampled_from(list(template.FREQS)),
                                             st.integers(0, 300)).map(list), max_size=4))}


FREQNUM = {'High': 1, 'Medium': 2, 'Low': 4, 'Fixed': -1}
MVT = dict((t, 'MVT_' + t) for t in template.SIZES)
MVT.update(IPADDR='MVT_IP_ADDR', IPPORT='MVT_IP_PORT', Fixed='MVT_FIXED', Variable='MVT_VARIABLE')
DEPS = ['Deprecated', 'UDPDeprecated', 'UDPBlackListed', 'NotDeprecated']


def compare(msgs, run, names, pairs, version):
    got = run['templates']
    require([g['name'] for g in got] == [m.name for m in msgs], 'messages %s instead of %s',
            [g['name'] for g in got], [m.name for m in msgs])
    require(run['count'] == len(msgs), 'count %s instead of %d', run['count'], len(msgs))
    require(version is None or vals.num(run['version']) == version, 'version %s instead of %s', run['version'], version)
    for m, g in zip(msgs, got):
        want = {'freq': FREQNUM[m.freq], 'num': m.wire_num(), 'hexnum': m.num_bytes().hex(),
                'hexstr': m.num_bytes().hex().upper(),
                'trust': ['Trusted', 'NotTrusted'].index(m.trust),
                'encoding': ['Unencoded', 'Zerocoded'].index(m.enc),
                'deprecation': DEPS.index(m.dep or 'NotDeprecated'),
                'strs': [m.freq.lower(), m.trust, m.enc, m.dep or 'NotDeprecated'], 'named': True,
                'blocks': [[b.name, b.kind, b.number, [[f.name, MVT[f.type], f.size] for f in b.fields]]
                           for b in m.blocks]}
        for k in want:
            have = vals.num(g[k]) if k == 'num' else g[k]
            require(have == want[k], '%s: %s is %r instead of %r', m.name, k, have, want[k])
    known = {m.name: m for m in msgs}
    for n, found, found2 in zip(names, run['look'], run['look2']):
        want = n if n in known else None
        require(found == [want, want] and found2 == want, 'looking up %r finds %s', n, found + [found2])
    num = {(m.freq, m.wire_num()): m.name for m in msgs}
    for (fr, n), found in zip(pairs, run['pairs']):
        require(found == num.get((fr, n)), 'looking up (%s, %d) finds %s instead of %s', fr, n, found, num.get((fr, n)))
    require(run['list'] == [m.name for m in msgs], 'template list %s', run['list'])


def check(case, ctx):
    msgs = from_data(case['msgs']) if case['msgs'] is not None else template.embedded()
    names = case['names'] + [m.name for m in msgs]
    names += [x for m in msgs[:6] + msgs[-6:] for x in (m.name.lower(), m.name.upper(), m.name[:-1], m.name + '2', ' ' + m.name)]
    pairs = [tuple(p) for p in case['pairs']] + [(m.freq, m.wire_num()) for m in msgs] + \
        [(f, m.wire_num()) for m in msgs[:5] for f in template.FREQS]
    r = ctx.call('parse_template', tmpl=case['text'], times=case['times'], seek=case.get('seek'), names=names,
                 pairs=pairs)
    require('runs' in r, 'parsing failed: %s', r)
    for i, run in enumerate(r['runs']):
        try:
            compare(msgs, run, names, pairs, case['version'])
        except Exception as e:
            e.args = ('parse %d: %s' % (i + 1, e),)
            raise
    ls = {'%d parse(s)' % case['times']}
    for m in msgs[:20]:
        ls.add(m.freq)
        for b in m.blocks:
            ls.add(b.kind + ' block')
    if case['text'] and '//' in case['text']:
        ls.add('comments')
    return any(b.fields for m in msgs for b in m.blocks), ls


@st.composite
def zero_cases(draw):
    """A template with one fixed or variable field of size zero."""
    msgs = draw(structure())
    spots = [(i, j, k) for i, m in enumerate(msgs) for j, b in enumerate(m.blocks) for k in range(len(b.fields))]
    if not spots:
        msgs[0].blocks.append(template.Blk('Zed', 'Single', 0, [template.Field(('ID', 'U32', 4))]))
        spots = [(0, len(msgs[0].blocks) - 1, 0)]
    i, j, k = draw(st.sampled_from(spots))
    f = msgs[i].blocks[j].fields[k]
    msgs[i].blocks[j].fields[k] = template.Field((f.name, draw(st.sampled_from(['Fixed', 'Variable'])), 0))
    text, _ = draw(layout(msgs))
    return {'text': text}


def check_zero(case, ctx):
    r = ctx.call('parse_template', tmpl=case['text'])
    require(r.get('exc') == 'MessageTemplateParsingError' and r['mse'], 'a field of size zero gave %s',
            r if 'exc' in r else 'a template')
    return True, ('zero size',)


def embedded_cases(tier):
    text = template.embedded_text()
    out = [{'msgs': None, 'text': None, 'version': 2.0, 'times': 2, 'names': ['NoSuchMessage', 'packetack'],
            'pairs': [(f, n) for f in template.FREQS for n in list(range(0, 32)) + [254, 255, 256, 430, 65535]]}]
    out.append(dict(out[0], text=text, seek=5000))
    out.append(dict(out[0], text='\n'.join(x.split('//')[0].strip() for x in text.splitlines()), times=1))
    return out


PARTS = [Part('embedded template', check, cases=embedded_cases),
         Part('generated templates', check, strategy=cases, quick=1300, thorough=20000),
         Part('large templates', check, strategy=many, quick=16, thorough=400),
         Part('size zero', check_zero, strategy=zero_cases, quick=200, thorough=2000)]
