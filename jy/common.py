"""Shared pieces of the worker: template files, messages from and to JSON, exception reports."""
import os, tempfile, sys, hashlib
from conv import dec, enc, b2s, s2b
from pyogp.lib.base import exc as pexc
from pyogp.lib.base.settings import Settings
from pyogp.lib.base.message.message import Message, Block, Variable
from pyogp.lib.base.message.circuit import Host

_scratch = None
_open_templates = {}


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='verif-jy-')
        import atexit, shutil
        atexit.register(shutil.rmtree, _scratch, True)
    return _scratch


def template_file(text):
    """A fresh open file object with this template text (text is a unicode JSON string, ASCII)."""
    if text is None:
        return None
    path = os.path.join(scratch(), hashlib.md5(text.encode('utf-8')).hexdigest() + '.msg')
    if not os.path.exists(path):
        f = open(path, 'wb')
        f.write(text.encode('utf-8'))
        f.close()
    return open(path)


def template_of(a):
    """The template a dispatcher or manager is given: a file, nothing, or something that is not a file."""
    if a.get('tmpl') is None and 'notfile' in a:
        return dec(a['notfile'])
    return template_file(a.get('tmpl'))


def text_file(text, name):
    path = os.path.join(scratch(), name + hashlib.md5(text.encode('utf-8')).hexdigest())
    f = open(path, 'wb')
    f.write(text.encode('utf-8'))
    f.close()
    return open(path)


def exc_info(e):
    try:
        text = str(e)
    except Exception:
        text = None
    return {'exc': e.__class__.__name__,
            'mse': isinstance(e, pexc.MessageSystemError),
            'perr': isinstance(e, pexc.Error),
            'text': text and s2b(text)[:200] if isinstance(text, str) else repr(text)}


def apply_settings(s, d):
    for k, v in (d or {}).items():
        if not k.startswith('_'):
            setattr(s, str(k), v)


def settings_from(d):
    """A settings object; None if those the library makes itself are to be used (and changed afterwards)."""
    if (d or {}).get('_defaults'):
        return None
    s = Settings(**dict([(str(k), v) for k, v in (d or {}).get('_init', {}).items()]))
    apply_settings(s, d)
    return s


def build_message(m):
    """m: {'name', 'blocks': [[block, [[var, value]...]]...], 'flags', 'pid', 'acks'}"""
    blocks = []
    same = {}
    for bname, fields in m['blocks']:
        if m.get('share'):
            # equal instances are one block object, added more than once
            key = repr((bname, fields))
            if key in same:
                blocks.append(same[key])
                continue
        if m.get('ordered'):
            b = Block(str(bname))
            for v, val in fields:
                b.add_variable(Variable(str(v), dec(val)))
        else:
            kw = {}
            for v, val in fields:
                kw[str(v)] = dec(val)
            b = Block(str(bname), **kw)
        if m.get('nums'):
            # as left over from where the blocks were decoded; the order is that of the list
            b.block_number = m['nums'][len(blocks) % len(m['nums'])]
        if m.get('share'):
            same[key] = b
        blocks.append(b)
    if m.get('listed'):
        # the same instances, passed as lists (consecutive ones of one name together)
        groups = []
        for b in blocks:
            if groups and groups[-1][0].name == b.name:
                groups[-1].append(b)
            else:
                groups.append([b])
        blocks = groups
    msg = Message(str(m['name']), *blocks)
    if m.get('empty'):
        for b in m['empty']:
            msg.blocks.setdefault(str(b), [])
    msg.send_flags = m.get('flags', 0)
    if 'pid' in m:
        msg.packet_id = m['pid']
    for a in m.get('acks', []):
        msg.add_ack(a)
    # what it may carry from where it was received
    if m.get('host'):
        msg.host = Host((str(m['host'][0]), m['host'][1]))
    for k in ('reliable', 'resent', 'trusted', 'retries', 'event_queue_id'):
        if k in m:
            setattr(msg, k, m[k])
    return msg


def view_message(p, order=True):
    """A message as data: every block instance and field."""
    if p is None:
        return None
    blocks = {}
    for bname in p.blocks:
        insts = []
        for b in p.blocks[bname]:
            insts.append([[v, enc(b.get_variable(v).data)] for v in b.var_list])
        blocks[bname] = insts
    return {'name': p.name, 'flags': enc(p.send_flags), 'pid': enc(p.packet_id),
            'acks': [enc(a) for a in p.acks], 'reliable': bool(p.reliable), 'blocks': blocks}
