"""C24: the views of message objects."""
import json

from hypothesis import strategies as st

from .. import dgrams, gen, hist, llsdv, vals, wire
from ..common import require, tmsgs
from ..core import Part
from ..llsdv import ktext

RULE = ('A case is a message built from blocks with arbitrary values (singly, in lists, added later) or decoded from a '
        'datagram. Non-trivial: it has at least one field; distinct by content.')
ASSUMPTIONS = ['a block does not have two variables of one name', 'locally built blocks are not shared between messages']

ODD = [None, {'b': ''}, {'b': 'text'}, {'b': '\0\1\2\xff'}, {'b': 'abc'}, {'b': 'ab'}, {'b': '%s %d %'}, {'u': ''}, {'u': '\u00e9\u20ac'}, {'u': 'plain'}, {'b': '\xc3\xa9'},
       {'b': '\xe9'}, {'U': '00112233445566778899aabbccddeeff'}, {'V3': ['3ff0000000000000', '0000000000000000', 'bff8000000000000']},
       {'Q': ['0000000000000000'] * 3 + ['3ff0000000000000']}, {'t': []}, {'t': [1, 2, 3]}, {'t': [{'u': '\u00e9'}]}, [], [1, {'u': '\u00e9'}], {'d': [[{'u': '\u00e9'}, {'b': '\xff'}]]},
       {'obj': 1}, {'L': '18446744073709551615'}, {'i': '-1'}, {'f': '7ff0000000000000'}, {'f': '7ff8000000000000'}, True, False,
       {'pu': '00112233445566778899aabbccddeeff'}, {'bin': 'ff00'}, {'date': [2010, 1, 2, 3, 4, 5, 0]}, {'b': 'x' * 301}, {'x': '00' * 300}, {'t': [{'f': '3ff8000000000000'}] * 4}]
NAMES = ['AgentData', 'Data', 'Info', 'A', 'name', 'blocks', 'self', 'NeighborBlock']
VALUE = st.one_of(st.sampled_from(ODD), st.sampled_from(ODD), st.binary(max_size=40).map(vals.b), llsdv.leaf(), llsdv.value(4))


@st.composite
def built(draw, values=VALUE):
    uni = draw(st.integers(0, 4)) == 0
    typed = draw(st.booleans())

    def name(pool):
        n = draw(st.sampled_from(pool + (['\u00e9t\u00e9'] if uni else [])))
        return {'u': n} if ord(n[0]) > 127 or (uni and draw(st.booleans())) else {'b': n}
    few = draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=3))
    vpool = ['ID', 'Data', 'Test1', 'X', 'name_', 'Blocks'] + [c for c in 'abcdefgh']
    blocks = []
    for _ in range(draw(st.integers(0, 6))):
        fields, seen = [], set()
        for _ in range(draw(st.integers(0, 5))):
            n = name(vpool)
            if not typed and 'u' in n and ord(n['u'][0]) > 127:
                n = {'b': 'ascii'}
            if ktext(n) in seen:
                continue
            seen.add(ktext(n))
            v = draw(values)
            fields.append([n, v, draw(st.sampled_from([None, None] + list(range(0, 20))))] if typed else [n, v])
        bn = name(few)
        blocks.append([bn, fields])
    share = len(blocks) > 0 and draw(st.integers(0, 7)) == 0
    if share:
        # the same block object given again
        blocks.insert(draw(st.integers(0, len(blocks))), draw(st.sampled_from(blocks)))
    groups, left = [], len(blocks)
    while left > 0 and draw(st.integers(0, 4)):
        if draw(st.booleans()):
            g = draw(st.integers(1, left))
            groups.append(-g)
            left -= g
        else:
            groups.append(1)
            left -= 1
    if draw(st.integers(0, 9)) == 0:
        groups.append(0)
    return dict({'name': name(['TestMessage', 'Msg', 'x']), 'blocks': blocks, 'groups': groups}, **({'share': True} if share else {}))


def want_built(case):
    """{block: [[name, value]...]...} in order"""
    out = {}
    for bn, fields in case['blocks']:
        out.setdefault(ktext(bn), []).append([[ktext(f[0]), text(f[1])] for f in fields])
    return out


def text(v):
    """Comparable form of a value exactly as given."""
    def fix(x):
        if isinstance(x, list):
            return [fix(y) for y in x]
        if isinstance(x, dict):
            if 'obj' in x:
                return {'o': 'object'}
            if 'f' in x and vals.fval(x['f']) != vals.fval(x['f']):
                return {'f': 'nan'}
            return {k: fix(y) for k, y in x.items()}
        return x
    return json.dumps(fix(vals.canon(v)) if not (isinstance(v, dict) and 'obj' in v) else fix(v), sort_keys=True)


def pairs(v):
    return [[ktext(n), text(x)] for n, x in v]


def check_view(e, want, name, ordered, what):
    require(ktext(e['name']) == name, '%s: the name is %s', what, e['name'])
    got = {ktext(n): insts for n, insts in e['blocks']}
    require(len(got) == len(e['blocks']) and set(got) == set(want), '%s: the blocks are %s, not %s', what, sorted(got), sorted(want))
    d = {k['b'] if 'b' in k else k['u']: v for k, v in e['dict']['d']}
    require(set(d) == {'message', 'body'} and ktext(d['message']) == name, '%s: dictionary view %s', what, d)
    body = {ktext(n): insts for n, insts in d['body']['d']}
    require(set(body) == {n for n in want if want[n]}, '%s: the dictionary view has blocks %s, not %s', what, sorted(body), sorted(want))
    for bn, insts in want.items():
        require(len(got[bn]) == len(insts), '%s: %d instances of %s, not %d', what, len(got[bn]), bn, len(insts))
        if insts:
            require(len(body[bn]) == len(insts), '%s: %d instances of %s in the dictionary view, not %d', what, len(body[bn]), bn, len(insts))
        for i, fields in enumerate(insts):
            v = got[bn][i]
            for k in ('item', 'getitem', 'attr', 'call'):
                g = pairs(v[k])
                if not ordered:
                    g = sorted(g)
                require(g == (fields if ordered else sorted(fields)), '%s: %s[%d] by %s is %s, not %s', what, bn, i, k, g, fields)
            require(v['named'], '%s: %s[%d] misnames something', what, bn, i)
            require(sorted(ktext(n) for n in v['all']) == sorted(n for n, _ in fields), '%s: %s[%d] lists the variables %s', what, bn, i, v['all'])
            g = sorted(pairs(body[bn][i]['d']))
            require(g == sorted(fields), '%s: %s[%d] in the dictionary view is %s, not %s', what, bn, i, g, fields)


def check_rest(r, want, name, ordered):
    """Rendering, and independence from reading, rendering and other messages."""
    for k, t in r['shown'].items():
        if k == 'bad':
            require(not t, 'variables cannot be rendered: %s', t)
            continue
        require('hex' in t, '%s failed with %s', k, t)
        data = bytes.fromhex(t['hex'])
        for n in [name] + list(want) + [f[0] for insts in want.values() for i in insts for f in i]:
            require(n.encode() in data, '%s does not mention %r: %r', k, n, data[:500])
    for k in ('after', 'scribbled', 'shared', 'fresh', 'same'):
        if k in r and r[k] != r['before']:
            # NaN bits aside
            check_view(r[k], want, name, ordered, {'after': 'after rendering', 'scribbled': 'after changing what was read',
                                                   'shared': 'after changing another message', 'fresh': 'a third message',
                                                   'same': 'after adding to another message of the same blocks'}[k])
            for f in ('acks', 'num', 'head'):
                require(r[k][f] == r['before'][f], '%s: %s became %s', k, r['before'][f], r[k][f])
    want = {n: insts + [[['LaterVar', text({'b': 'later value'})], ['LaterStill', text({'i': '5'})]]] for n, insts in want.items()}
    check_view(r['later'], want, name, ordered, 'after adding to it')
    for k, t in r['latershown'].items():
        if want and 'hex' in (t or {}):
            require(b'LaterVar' in bytes.fromhex(t['hex']) and b'LaterStill' in bytes.fromhex(t['hex']), '%s does not mention what was added', k)
    require(r['bare']['blocks'] == [] and r['bare']['acks'] == [] and r['bare']['num'] == 0, 'a new message starts as %s', r['bare'])


def check_built(case, ctx):
    r = ctx.call('message_views', **case)
    want = want_built(case)
    name = ktext(case['name'])
    typed = any(len(f) == 3 for _, fs in case['blocks'] for f in fs)
    check_view(r['before'], want, name, typed, 'built')
    check_rest(r, want, name, typed)
    ls = {'typed variables' if typed else 'keywords'}
    if any(len(v) > 1 for v in want.values()):
        ls.add('repeated block')
    if any(g < 0 for g in case['groups']):
        ls.add('in lists')
    for _, fs in case['blocks']:
        for f in fs:
            v = f[1]
            ls.add('value ' + (list(v)[0] if isinstance(v, dict) else type(v).__name__))
    return any(fs for _, fs in case['blocks']), ls


@st.composite
def decodes(draw):
    text_, pool, msgs = draw(hist.templ())
    m = draw(st.sampled_from(pool))
    return {'tmpl': text_, 'dgram': draw(dgrams.datagram(m))}


def check_decoded(case, ctx):
    _, index = tmsgs(case['tmpl'])
    data = dgrams.build(case['dgram'])
    verdict, t, blocks, pid, acks = dgrams.reading(data, index)
    if verdict != 'ok':
        return False, {verdict}
    r = ctx.call('message_views', tmpl=case['tmpl'], buf=data.hex())
    require(r is not None, 'a valid datagram gave nothing')
    # what the message holds is C03's business; here its views agree and mention everything
    want = {}
    for n, insts in r['before']['blocks']:
        want[ktext(n)] = [pairs(i['getitem']) for i in insts]
    for n, insts in blocks.items():
        if insts:
            require(n in want and len(want[n]) == len(insts), 'decoded %s instances of %s', len(want.get(n, [])), n)
            for i in want[n]:
                names = [f[0] for f in i]
                require(names == [f.name for b in t.blocks if b.name == n for f in b.fields], 'the fields of %s are %s', n, names)
    check_view(r['before'], want, t.name, True, 'decoded')
    check_rest(r, want, t.name, True)
    return True, {'type ' + f.type for b in t.blocks for f in b.fields}


def check_llsd(case, ctx):
    r = ctx.call('message_llsd', **case)
    require('ok' in r, 'the LLSD form failed with %s', r)
    body = {}
    for bn, fields in case['blocks']:
        body.setdefault(ktext(bn), []).append({'d': [[f[0], f[1]] for f in fields]})
    want = {'d': [[{'b': 'message'}, case['name']], [{'b': 'body'}, {'d': [[{'u': n}, v] for n, v in body.items()]}]]}
    require(llsdv.norm(r['ok']) == llsdv.norm(want), 'the LLSD form holds %s instead of %s', r['ok'], want)
    require(llsdv.norm(r['dict']) == llsdv.norm(want), 'afterwards the dictionary view is %s', r['dict'])
    return any(fs for _, fs in case['blocks']), {'LLSD form'}


PARTS = [Part('llsd', check_llsd, lambda: built(llsdv.value(4)), quick=500, thorough=15000),
         Part('built', check_built, built, quick=1200, thorough=60000),
         Part('decoded', check_decoded, decodes, quick=700, thorough=25000)]
