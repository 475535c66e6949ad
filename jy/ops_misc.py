"""Vectors, rotations, IDs; helpers; timed waits."""
from common import *
import sys
import time
from pyogp.lib.base.datatypes import Vector3, Quaternion, UUID
from pyogp.lib.base.helpers import Helpers, Wait
from pyogp.lib.base import helpers as _helpers
from eventlet.api import sched


def forms(v):
    return {'data': enc(v.data()), 'call': enc(v()), 'repr': repr(v), 'str': str(v), 'bytes': v.get_bytes().encode('hex'),
            'btype': type(v.get_bytes()) is str}


def make(a):
    """An object as the case asks for it."""
    cls = {'V': Vector3, 'Q': Quaternion}[a['type']]
    names = 'XYZ' if a['type'] == 'V' else 'XYZW'
    if 'bytes' in a:
        buf = b2s(a['bytes']).decode('hex')
        kw = {}
        if a.get('length') and a['type'] == 'Q':
            kw['length'] = a['length']
        if a.get('offset') == 'default':
            return cls(buf, **kw)
        if a.get('kw'):
            return cls(bytes=buf, offset=a['offset'], **kw)
        return cls(buf, a['offset'], **kw)
    return cls(**dict(zip(names, [dec(x) for x in a['comps']])))


def numeric(a):
    v = make(a)
    out = {'forms': forms(v), 'attrs': [enc(getattr(v, n)) for n in ('XYZ' if a['type'] == 'V' else 'XYZW')]}
    c = v.copy()
    out['copy'] = forms(c)
    out['same'] = c is v
    out['cls'] = c.__class__ is v.__class__
    c.X = c.X + 1.0
    c.Y = -5.0
    out['after'] = forms(v)
    v2 = make(a)
    v2.Z = 77.0
    out['independent'] = forms(v)
    back = v.__class__(v.get_bytes())
    out['back'] = forms(back)
    if a['type'] == 'V':
        out['parsed'] = forms(Vector3.parse(repr(v)))
        out['unbracketed'] = forms(Vector3.parse(repr(v)[1:-1]))
    return out


def dist(a):
    p, q = [Vector3(**dict(zip('XYZ', [dec(x) for x in c]))) for c in (a['p'], a['q'])]
    return {'pq': enc(Vector3.dist_squared(p, q)), 'qp': enc(Vector3.dist_squared(q, p)), 'pp': enc(Vector3.dist_squared(p, p.copy())),
            'p': enc(p.data()), 'q': enc(q.data())}


def parse(a):
    try:
        v = Vector3.parse(dec(a['text']))
    except Exception, e:
        r = exc_info(e)
        r['value'] = isinstance(e, ValueError)
        return r
    return {'ok': enc(v.data()), 'cls': v.__class__.__name__}


def mkid(j):
    if 'str' in j:
        return UUID(b2s(j['str'])) if not j.get('kw') else UUID(string=b2s(j['str']))
    if 'null' in j:
        return UUID()
    buf = b2s(j['bytes']).decode('hex')
    return UUID(bytes=buf, offset=j['offset']) if j.get('offset') else UUID(bytes=buf)


def idforms(u):
    return {'str': str(u), 'repr': repr(u), 'bytes': u.get_bytes().encode('hex'), 'btype': type(u.get_bytes()) is str,
            'data': str(u.data()), 'call': str(u())}


def ids(a):
    us = [mkid(j) for j in a['ids']]
    n = len(us)
    out = {'forms': [idforms(u) for u in us]}
    out['eq'] = [[us[i] == us[j] for j in range(n)] for i in range(n)]
    out['ne'] = [[us[i] != us[j] for j in range(n)] for i in range(n)]
    hs = [hash(u) for u in us]
    out['hash'] = [[hs[i] == hs[j] for j in range(n)] for i in range(n)]
    d = {}
    for u in us:
        d[u] = 1
    out['distinct'] = len(d)
    out['others'] = [[us[0] == o, us[0] != o] for o in (None, 5, str(us[0]), us[0].get_bytes(), object(), [])]
    out['xor'] = [[idforms(us[i] ^ us[j]) for j in range(n)] for i in range(n)]
    out['xorcls'] = (us[0] ^ us[-1]).__class__.__name__
    null = UUID()
    out['xornull'] = [idforms(u ^ null) for u in us]
    cs = [u.copy() for u in us]
    out['copies'] = [idforms(c) for c in cs]
    out['copyeq'] = [cs[i] == us[i] and not cs[i] != us[i] and hash(cs[i]) == hash(us[i]) and cs[i] is not us[i] for i in range(n)]
    for c in cs:
        c.uuid = uuidmod.UUID(int=12345)
    out['after'] = [idforms(u) for u in us]
    rnd = []
    for u in us:
        r = u.random()
        r2 = u.random()
        rnd.append([idforms(u), r is not None and str(r), r2 is None])
    out['random'] = rnd
    out['null'] = idforms(null)
    out['fresh'] = idforms(UUID())
    return out

import uuid as uuidmod


def datatypes(a):
    return {'numeric': numeric, 'dist': dist, 'parse': parse, 'ids': ids}[a['what']](a)


# ---- helpers -----------------------------------------------------------------------------------------------------

def helpers(a):
    w = a['what']
    if w == 'hex':
        data = b2s(a['data']).decode('hex')
        h = Helpers.bytes_to_hex(data)
        return {'hex': h, 'uu': Helpers.bytes_to_ascii(data).encode('hex') if len(data) <= 45 else None, 'plain': Helpers.hex_to_ascii(h.replace(' ', '')).encode('hex'), 'b64': Helpers.bytes_to_base64(data),
                'back': Helpers.hex_to_ascii(data.encode('hex')).encode('hex'),
                'upper': Helpers.hex_to_ascii(data.encode('hex').upper()).encode('hex')}
    if w == 'unhex':
        try:
            return {'ok': Helpers.hex_to_ascii(b2s(a['text'])).encode('hex')}
        except Exception, e:
            r = exc_info(e)
            r['right'] = isinstance(e, pexc.DataParsingError)
            return r
    if w == 'int':
        r = Helpers.int_to_bytes(dec(a['n']))
        return {'bytes': r.encode('hex'), 'str': type(r) is str}
    if w == 'unpack':
        fn = Helpers.packed_u16_to_float if a['bits'] == 16 else Helpers.packed_u8_to_float
        size = a['bits'] / 8
        lo, hi = dec(a['lo']), dec(a['hi'])
        out = []
        for c in a['codes']:
            buf = struct.pack('<H' if size == 2 else '<B', c)
            v = fn('\xaa' * a['pre'] + buf + '\x55' * a['post'], a['pre'], lo, hi)
            out.append(enc(v))
        return out
    if w == 'quat':
        q = [dec(x) for x in a['q']]
        return enc(Helpers.pack_quaternion_to_vector3(q if a.get('list') else tuple(q)))

import struct


class Clock(object):
    """Stands in for the time module of the helpers: virtual seconds that pass while the code sleeps."""
    def __init__(self, a):
        self.t = dec(a['t0'])
        self.steps = [dec(x) for x in a['steps']]
        self.i = 0
        self.sleeps = 0
        self.wait = None
        self.stop_after = a.get('stop')
        self.asserts = a.get('asserts', [])
        self.log = []

    def time(self):
        self.log.append(self.t)
        return self.t

    def sleep(self, *args):
        self.sleeps += 1
        if self.sleeps > 3000:
            raise Forever()
        if self.sleeps == self.stop_after:
            self.stopped_at = self.t
            self.waiter.stop()
        self.t += self.steps[self.i % len(self.steps)]
        self.i += 1
        if self.sleeps in self.asserts:
            raise AssertionError('another thread')

    def __getattr__(self, n):
        return getattr(time, n)


class Forever(Exception):
    pass


def wait(a):
    c = Clock(a)
    import eventlet
    import eventlet.api as eapi
    W = _helpers.Wait

    class Probe(W):
        def run(self):
            c.waiter = self
            c.ret = 'raised'
            c.ret = W.run(self)
            return c.ret

    class FakeApi(object):
        sleep = staticmethod(lambda *x: c.sleep(*x))
        def __getattr__(self, n):
            return getattr(eapi, n)

    class FakeEventlet(object):
        api = FakeApi()
        def __getattr__(self, n):
            return getattr(eventlet, n)
    # the clock is replaced wherever the code may look for it, by whatever name
    real_sleep = eapi.sleep
    stand = [(time, c), (eapi, FakeEventlet.api), (eventlet, FakeEventlet())]
    kept = dict(_helpers.__dict__)
    for n, v in kept.items():
        for real, fake in stand:
            if v is real:
                setattr(_helpers, n, fake)
        if v is real_sleep or n == 'sleep':
            setattr(_helpers, n, c.sleep)
        elif callable(v) and v == time.time:
            setattr(_helpers, n, c.time)
    eapi.sleep = c.sleep
    sys.modules['time'] = c
    t0 = c.t
    try:
        try:
            w = Probe(dec(a['duration']))
        except Forever:
            return {'forever': True}
        except Exception, e:
            return exc_info(e)
        return {'ret': enc(c.ret), 'elapsed': enc(float(c.t - t0)), 'sleeps': c.sleeps, 'duration': enc(w.duration)}
    finally:
        sys.modules['time'] = time
        eapi.sleep = real_sleep
        for n, v in kept.items():
            setattr(_helpers, n, v)
