"""Message templates: an independent (tokenising) reader of the template language, and a writer."""
import os
import re

SIZES = {'U8': 1, 'U16': 2, 'U32': 4, 'U64': 8, 'S8': 1, 'S16': 2, 'S32': 4, 'S64': 8, 'F32': 4, 'F64': 8,
         'LLVector3': 12, 'LLVector3d': 24, 'LLVector4': 16, 'LLQuaternion': 12, 'LLUUID': 16, 'BOOL': 1,
         'IPADDR': 4, 'IPPORT': 2}
FREQS = ('High', 'Medium', 'Low', 'Fixed')


class Field(tuple):
    """(name, type, size)"""
    __slots__ = ()
    name = property(lambda s: s[0])
    type = property(lambda s: s[1])
    size = property(lambda s: s[2])


class Blk:
    def __init__(self, name, kind, number, fields):
        self.name, self.kind, self.number, self.fields = name, kind, number, fields


class Msg:
    def __init__(self, name, freq, num, trust, enc, dep, blocks):
        self.name, self.freq, self.num, self.trust, self.enc, self.dep, self.blocks = \
            name, freq, num, trust, enc, dep, blocks

    def wire_num(self):
        """The message number without its frequency prefix."""
        return self.num & 0xFF if self.freq == 'Fixed' else self.num

    def num_bytes(self):
        n = self.wire_num()
        if self.freq == 'High':
            return bytes([n])
        if self.freq == 'Medium':
            return bytes([0xFF, n])
        if self.freq == 'Low':
            return b'\xff\xff' + n.to_bytes(2, 'big')
        return b'\xff\xff\xff' + bytes([n])


def parse(text):
    """Reads the template language by tokens: name, words, braces; // comments; `version X` first."""
    toks = []
    for line in text.splitlines():
        line = line.split('//')[0]
        toks += re.findall(r'[{}]|[^\s{}]+', line)
    i = 0
    version = None
    if toks[:1] == ['version']:
        version, i = float(toks[1]), 2
    msgs = []

    def words(i):
        ws = []
        while toks[i] not in '{}':
            ws.append(toks[i])
            i += 1
        return ws, i
    while i < len(toks):
        assert toks[i] == '{', toks[i:i + 5]
        ws, i = words(i + 1)
        m = Msg(ws[0], ws[1], int(ws[2], 0), ws[3], ws[4], ws[5] if len(ws) > 5 else 'NotDeprecated', [])
        while toks[i] == '{':
            ws, i = words(i + 1)
            blk = Blk(ws[0], ws[1], int(ws[2]) if ws[1] == 'Multiple' else 0, [])
            while toks[i] == '{':
                ws, i = words(i + 1)
                assert toks[i] == '}'
                i += 1
                t = ws[1]
                blk.fields.append(Field((ws[0], t, int(ws[2]) if t in ('Fixed', 'Variable') else SIZES[t])))
            assert toks[i] == '}'
            i += 1
            m.blocks.append(blk)
        assert toks[i] == '}'
        i += 1
        msgs.append(m)
    return version, msgs


def write(msgs, version='2.0', style=None):
    """A plain rendering of messages as template text. `style(kind)` may return extra filler lines."""
    out = ['version %s' % version, '']
    for m in msgs:
        out.append('{')
        num = '0x%08X' % m.num if m.freq == 'Fixed' else str(m.num)
        head = '\t%s %s %s %s %s' % (m.name, m.freq, num, m.trust, m.enc)
        out.append(head + (' ' + m.dep if m.dep else ''))
        for bl in m.blocks:
            out.append('\t{')
            out.append('\t\t%s\t%s' % (bl.name, bl.kind) + ('\t%d' % bl.number if bl.kind == 'Multiple' else ''))
            for fl in bl.fields:
                out.append('\t\t{ %s %s%s }' % (fl.name, fl.type,
                                                ' %d' % fl.size if fl.type in ('Fixed', 'Variable') else ''))
            out.append('\t}')
        out.append('}')
    return '\n'.join(out) + '\n'


_embedded = None


def repo():
    return os.environ.get('PYOGP_REPO', '/repo')


def embedded_text():
    path = os.path.join(repo(), 'pyogp/lib/base/message/data/message_template.msg')
    with open(path, encoding='latin-1', newline='') as fh:
        return fh.read()


def embedded():
    global _embedded
    if _embedded is None:
        _embedded = parse(embedded_text())[1]
    return _embedded
