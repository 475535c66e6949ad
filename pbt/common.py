"""Small helpers shared by the properties."""
from . import template, wire
from .core import Violation

_parsed = {}


def tmsgs(text):
    """{name: Msg} for a template text (None: the embedded one)."""
    if text not in _parsed:
        if len(_parsed) > 300:
            _parsed.clear()
        msgs = template.embedded() if text is None else template.parse(text)[1]
        _parsed[text] = ({m.name: m for m in msgs}, {(m.freq, m.wire_num()): m for m in msgs})
    return _parsed[text]


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def bmap(bl):
    out = {}
    for n, fields in bl:
        out.setdefault(n, []).append(dict((a, b) for a, b in fields))
    return out


def expected_blocks(tmpl, bm):
    """Expected decoded blocks for supplied block values."""
    out = {}
    for blk in tmpl.blocks:
        insts = bm.get(blk.name, [])
        if insts:
            out[blk.name] = [{fl.name: wire.expected_value(fl, i[fl.name]) for fl in blk.fields} for i in insts]
    return out


def labels_for(tmpl, bm):
    ls = set()
    ls.add(tmpl.freq)
    for blk in tmpl.blocks:
        n = len(bm.get(blk.name, []))
        if blk.kind == 'Variable':
            ls.add('variable block x%s' % (n if n < 2 else '2+' if n < 100 else '100+'))
        elif blk.kind == 'Multiple':
            ls.add('multiple block')
        for fl in blk.fields:
            ls.add('type ' + fl.type + (str(fl.size) if fl.type == 'Variable' else ''))
    return ls
