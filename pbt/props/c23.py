"""C23: the LLSD message builder against a dictionary model."""
from hypothesis import strategies as st

from .. import llsdv
from ..common import require
from ..core import Part
from ..llsdv import ktext

RULE = ('A case is a sequence of new message, next block, add data and build calls. Non-trivial: a build returned at least '
        'one block with a value; distinct by content.')
ASSUMPTIONS = ['names equal as byte and unicode string are the same name',
               'data is added to, and messages built from, a started message; data added before the first block of a message '
               'belongs to nothing']

BLOCKS = ['TestBlock1', 'AgentData', 'NeighborBlock', '', 'x y', '\u00e9']
VARS = ['Test1', 'ID', 'Data', 'a', '', '\u00e9']
VALUE = st.one_of(llsdv.leaf(), llsdv.value(3), st.sampled_from([{'V3': ['3ff0000000000000'] * 3}, {'U': '00' * 16}, {'b': '\0\xff'}, {'i': '4294967295'}, {'t': [1, 2]}]))
TYPE = st.one_of(st.none(), st.integers(0, 20))


def text(draw, names):
    n = draw(st.sampled_from(names))
    return {'u': n} if any(ord(c) > 127 for c in n) or draw(st.integers(0, 4)) == 0 else {'b': n}


@st.composite
def cases(draw):
    ops = [{'do': 'new', 'name': text(draw, BLOCKS)}]
    few = draw(st.lists(st.sampled_from(BLOCKS), min_size=1, max_size=3))
    fewv = draw(st.lists(st.sampled_from(VARS), min_size=1, max_size=4))
    started = False
    for _ in range(draw(st.integers(1, 25))):
        k = draw(st.sampled_from(['block', 'block', 'add', 'add', 'add', 'add', 'build', 'build', 'new']))
        if k == 'new':
            if draw(st.booleans()):
                k = 'build'
            else:
                ops.append({'do': 'new', 'name': text(draw, BLOCKS)})
                started = False
                continue
        if k == 'add' and not started and draw(st.integers(0, 5)):
            k = 'block'
        if k == 'block':
            ops.append({'do': 'block', 'name': text(draw, few)})
            started = True
        elif k == 'add':
            ops.append({'do': 'add', 'name': text(draw, fewv), 'value': draw(VALUE), 'type': draw(TYPE)})
        else:
            ops.append({'do': 'build'})
    ops.append({'do': 'build'})
    return {'ops': ops}


def check(case, ctx):
    r = ctx.call('builder', ops=case['ops'])
    blocks, cur, built, results, ls, full = [], None, False, [], set(), False
    for i, (o, x) in enumerate(zip(case['ops'], r['steps'])):
        k = o['do']
        if k == 'add' and cur is None:
            # belongs to nothing; it may be refused
            require(x['built'] is False or ('exc' in x and x['built'] == built), 'step %d: built after a change', i)
            built = x['built']
            continue
        require('exc' not in x, 'step %d: %s raised %s', i, k, x)
        if k == 'new':
            blocks, cur = [], None
        elif k == 'block':
            cur = {}
            blocks.append((ktext(o['name']), cur))
        elif k == 'add':
            n = ktext(o['name'])
            if n in cur:
                ls.add('replaced')
            cur[n] = norm2(o['value'])
        else:
            want = {}
            for n, c in blocks:
                want.setdefault(n, []).append(dict(c))
            require(x['shape'], 'step %d: built %s', i, x['msg'])
            got = read(x['msg'])
            require(got == want, 'step %d: built %s, not %s', i, got, want)
            require(x['n'] == {'i': str(len(want))}, 'step %d: %s blocks were reported of %d', i, x['n'], len(want))
            results.append(want)
            ls.add('%s blocks' % min(len(want), 3))
            if any(len(v) > 1 for v in want.values()):
                ls.add('repeated block')
            full |= any(c for v in want.values() for c in v)
        if k == 'build' and built:
            ls.add('built again')
        built = k == 'build'
        require(x['built'] is built, 'step %d: after %s it is_built is %s', i, k, x['built'])
    require([read(m) for m in r['results']] == results, 'earlier results changed to %s from %s', r['results'], results)
    return full, ls


def norm2(v):
    """Comparable form of a value exactly as it was given."""
    return canon_text(v)


def canon_text(v):
    import json
    from ..vals import canon
    return json.dumps(canon(v), sort_keys=True)


def read(m):
    """{block: [{name: value}]} from the reported map."""
    out = {}
    for n, insts in m['d']:
        out[ktext(n)] = [{ktext(k): canon_text(v) for k, v in i['d']} for i in insts]
    require(len(out) == len(m['d']), 'a block twice: %s', m)
    return out


@st.composite
def many(draw):
    """Hundreds of blocks, or of values in a block, the same or different ones."""
    n = draw(st.sampled_from([60, 130, 257, 300, 520]))
    how = draw(st.sampled_from(['blocks', 'blocks', 'named blocks', 'values', 'replaced', 'builds']))
    ops = [{'do': 'new', 'name': {'b': 'Big'}}]
    if how in ('values', 'replaced'):
        ops.append({'do': 'block', 'name': {'b': 'Block'}})
    for i in range(n):
        if how == 'builds' and i:
            ops.append({'do': 'build'} if i % 3 == 0 else {'do': 'new', 'name': {'b': 'Big%d' % (i % 2)}} if i % 7 == 1 else {'do': 'block', 'name': {'b': 'Block'}})
        elif how in ('values', 'replaced'):
            ops.append({'do': 'add', 'name': {'b': 'V%d' % (i if how == 'values' else i % 2)}, 'value': {'i': str(i)}, 'type': None})
        else:
            ops.append({'do': 'block', 'name': {'b': 'Block' if how == 'blocks' else 'Block%d' % i}})
            if i % 3:
                ops.append({'do': 'add', 'name': {'b': 'V'}, 'value': {'i': str(i)}, 'type': None})
    at = draw(st.integers(1, len(ops)))
    return {'ops': ops[:at] + ([{'do': 'build'}] if draw(st.booleans()) else []) + ops[at:] + [{'do': 'build'}]}


PARTS = [Part('calls', check, cases, quick=2500, thorough=100000),
         Part('many', check, many, quick=40, thorough=800)]
