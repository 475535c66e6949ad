"""Tagged JSON <-> Python 2 values (the same table as /verif/pbt/vals.py)."""
import struct, uuid, datetime
from llbase import llsd
from pyogp.lib.base.datatypes import UUID, Vector3, Quaternion


def b2s(s):
    """A JSON (unicode) string of code points < 256 to a byte string."""
    return s.encode('latin-1')


def s2b(s):
    return s.decode('latin-1')


def fdec(h):
    return struct.unpack('>d', b2s(h).decode('hex'))[0]


def fenc(x):
    return struct.pack('>d', x).encode('hex')


def dec(j):
    if isinstance(j, list):
        return [dec(x) for x in j]
    if not isinstance(j, dict):
        return j
    (k, v), = j.items()
    if k == 'b':
        return b2s(v)
    if k == 'x':
        return b2s(v).decode('hex')
    if k == 'u':
        return v
    if k == 'f':
        return fdec(v)
    if k == 'i':
        return int(v)
    if k == 'L':
        return long(v)
    if k == 'U':
        return UUID(bytes=b2s(v).decode('hex'))
    if k == 'pu':
        return uuid.UUID(hex=b2s(v))
    if k == 'V3':
        return Vector3(X=fdec(v[0]), Y=fdec(v[1]), Z=fdec(v[2]))
    if k == 'Q':
        return Quaternion(X=fdec(v[0]), Y=fdec(v[1]), Z=fdec(v[2]), W=fdec(v[3]))
    if k == 't':
        return tuple([dec(x) for x in v])
    if k == 'd':
        return dict([(dec(a), dec(b)) for a, b in v])
    if k == 'date':
        return datetime.datetime(*v)
    if k == 'bin':
        return llsd.binary(b2s(v).decode('hex'))
    if k == 'obj':
        return object()
    if k == 'uri':
        return llsd.uri(v)
    raise ValueError('bad tag %r' % (k,))


def enc(o):
    if o is None or isinstance(o, bool):
        return o
    if isinstance(o, (int, long)):
        return {'i': str(o)}
    if isinstance(o, float):
        return {'f': fenc(o)}
    if isinstance(o, llsd.binary):
        return {'bin': str(o).encode('hex')}
    if isinstance(o, llsd.uri):
        return {'uri': unicode(o)}
    if isinstance(o, str):
        return {'b': s2b(o)}
    if isinstance(o, unicode):
        return {'u': o}
    if isinstance(o, UUID):
        return {'U': o.get_bytes().encode('hex')}
    if isinstance(o, uuid.UUID):
        return {'pu': o.hex}
    if isinstance(o, Vector3):
        return {'V3': [fenc(o.X), fenc(o.Y), fenc(o.Z)]}
    if isinstance(o, Quaternion):
        return {'Q': [fenc(o.X), fenc(o.Y), fenc(o.Z), fenc(o.W)]}
    if isinstance(o, tuple):
        return {'t': [enc(x) for x in o]}
    if isinstance(o, list):
        return [enc(x) for x in o]
    if isinstance(o, dict):
        items = [[enc(a), enc(b)] for a, b in o.items()]
        items.sort(key=lambda kv: repr(kv[0]))
        return {'d': items}
    if isinstance(o, datetime.datetime):
        return {'date': [o.year, o.month, o.day, o.hour, o.minute, o.second, o.microsecond]}
    if isinstance(o, datetime.date):
        return {'date': [o.year, o.month, o.day, 0, 0, 0, 0]}
    if isinstance(o, array_types):
        return {'b': s2b(o.tostring())}
    return {'o': '%s' % type(o).__name__}

import array
array_types = (array.array,)
