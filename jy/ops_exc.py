"""The library's errors."""
from common import *
import pickle


class Funny(object):
    """A value as text only in its own way."""
    def __repr__(self):
        return 'Funny()'


def value(j):
    if isinstance(j, dict) and 'funny' in j:
        return Funny()
    if isinstance(j, dict) and 'host' in j:
        from pyogp.lib.base.message.circuit import Host
        return Host((str(j['host'][0]), j['host'][1]))
    if isinstance(j, dict) and 'exc' in j:
        return ValueError(dec(j['exc']))
    return dec(j)


def text_of(fn):
    try:
        t = fn()
    except Exception, e:
        return {'exc': e.__class__.__name__}
    if isinstance(t, unicode):
        return {'u': t}
    return {'b': s2b(t)} if isinstance(t, str) else {'other': repr(type(t))}


def error(a):
    cls = getattr(pexc, a['cls'])
    args = [value(v) for v in a['args']]
    kw = dict([(str(k), value(v)) for k, v in a['kw']])
    e = cls(*args, **kw)
    given = dict(zip(a['names'], args))
    given.update(kw)
    try:
        raise e
    except Exception, c:
        raised = c is e
    same, got = {}, {}
    for n in a['names']:
        v = getattr(e, n)
        same[n] = n in given and v is given[n]
        got[n] = enc(v) if n not in given else None
    return {'bases': [c.__name__ for c in cls.__mro__], 'raised': raised, 'same': same, 'default': got,
            'str': text_of(lambda: str(e)), 'format': text_of(lambda: '%s' % e),
            'repr': text_of(lambda: repr(e)),
            'again': text_of(lambda: str(e)), 'kept': dict([(n, getattr(e, n) is v) for n, v in given.items()])}
