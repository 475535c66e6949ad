"""Tagged JSON values shared with /verif/jy/conv.py, and comparisons over them."""
import math
import struct


def f(x):
    return {'f': struct.pack('>d', x).hex()}


def fval(h):
    return struct.unpack('>d', bytes.fromhex(h))[0]


def b(bs):
    return {'b': bs.decode('latin-1')}


def num(j):
    """The number in a tagged value, or None."""
    if isinstance(j, bool):
        return int(j)
    if isinstance(j, (int, float)):
        return j
    if isinstance(j, dict):
        if 'i' in j or 'L' in j:
            return int(j.get('i', j.get('L')))
        if 'f' in j:
            return fval(j['f'])
    return None


def raw(j):
    """The bytes in a tagged value, or None."""
    if isinstance(j, dict):
        if 'b' in j:
            return j['b'].encode('latin-1')
        if 'x' in j:
            return bytes.fromhex(j['x'])
    return None


def comps(j):
    """Components of a vector, rotation or tuple of numbers."""
    if isinstance(j, dict):
        if 'V3' in j:
            return [fval(x) for x in j['V3']]
        if 'Q' in j:
            return [fval(x) for x in j['Q']]
        if 't' in j:
            return [num(x) for x in j['t']]
    if isinstance(j, list):
        return [num(x) for x in j]
    return None


def f32(x):
    try:
        return struct.unpack('<f', struct.pack('<f', x))[0]
    except OverflowError:
        return math.copysign(math.inf, x)


def same(x, y):
    """Numeric equality with NaN equal to NaN."""
    if x is None or y is None:
        return x is y
    return x == y or (x != x and y != y)


def no_nan(x):
    if isinstance(x, list):
        return [no_nan(y) for y in x]
    if isinstance(x, dict):
        if 'f' in x:
            return f(0.5) if fval(x['f']) != fval(x['f']) else x
        if 'V3' in x or 'Q' in x:
            (k, v), = x.items()
            return {k: [f(0.5)['f'] if fval(h) != fval(h) else h for h in v]}
        return {k: no_nan(v) for k, v in x.items()}
    return x


def canon(j):
    """A tagged value as the worker reports it back."""
    if isinstance(j, bool) or j is None:
        return j
    if isinstance(j, int):
        return {'i': str(j)}
    if isinstance(j, float):
        return f(j)
    if isinstance(j, list):
        return [canon(x) for x in j]
    (k, v), = j.items()
    if k == 'L':
        return {'i': str(int(v))}
    if k == 'x':
        return b(bytes.fromhex(v))
    if k == 't':
        return {'t': [canon(x) for x in v]}
    if k == 'd':
        return {'d': sorted(([canon(a), canon(c)] for a, c in v), key=lambda kv: repr(kv[0]))}
    return j
