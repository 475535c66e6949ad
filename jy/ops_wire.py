"""Encoding, decoding, template parsing."""
from common import *
from pyogp.lib.base.message.udpserializer import UDPMessageSerializer
from pyogp.lib.base.message.udpdeserializer import UDPMessageDeserializer
from pyogp.lib.base.message.template_parser import MessageTemplateParser
from pyogp.lib.base.message.template_dict import TemplateDictionary
from pyogp.lib.base.message.message_dot_xml import MessageDotXML
from pyogp.lib.base.message.msgtypes import MsgType, sizeof

_xml = {}


def xml_for(text):
    if text not in _xml:
        if len(_xml) > 200:
            _xml.clear()
        _xml[text] = MessageDotXML() if text is None else MessageDotXML(message_xml=text.encode('utf-8'))
    return _xml[text]

OPEN_XML = ('<?xml version="1.0" ?><llsd><map><key>serverDefaults</key><map/><key>messages</key><map/>'
            '<key>capBans</key><map/><key>maxQueuedEvents</key><integer>1</integer>'
            '<key>messageBans</key><map/></map></llsd>')

_ser, _des = {}, {}


def _cache(d, k, make):
    if k not in d:
        for old in list(d):
            if old not in ('open', None) and len(d) > 40:
                del d[old]
        d[k] = make()
    return d[k]


def _dotxml(xml):
    """xml: 'open' or the text of a message.xml; None leaves the choice to the library."""
    return None if xml is None else xml_for(OPEN_XML if xml == 'open' else xml)


def serializer(text, fresh=False, xml='open'):
    make = lambda: UDPMessageSerializer(message_template=template_file(text), message_xml=_dotxml(xml))
    return make() if fresh else _cache(_ser, text and (text, xml) or xml, make)


def deserializer(text, fresh=False, xml='open'):
    def make():
        s = Settings()
        s.ENABLE_DEFERRED_PACKET_PARSING = False
        return UDPMessageDeserializer(settings=s, message_template=template_file(text), message_xml=_dotxml(xml))
    return make() if fresh else _cache(_des, text and (text, xml) or xml, make)


def _encode(text, m, fresh=False, xml='open'):
    msg = build_message(m)
    if m.get('extra'):
        msg.add_block(Block('Unheard', Of=1))
    before = m.get('watch') and view_message(msg)
    try:
        buf = serializer(text, fresh, xml).serialize(msg)
    except Exception, e:
        r = exc_info(e)
    else:
        r = {'none': True} if buf is None else {'hex': buf.encode('hex')}
    if m.get('watch') and view_message(msg) != before:
        r['changed'] = view_message(msg)
    return r


def _decode(text, hexbuf, fresh=False, xml='open'):
    try:
        p = deserializer(text, fresh, xml).deserialize(b2s(hexbuf).decode('hex'))
    except Exception, e:
        return exc_info(e)
    if p is None:
        return {'none': True}
    return {'msg': view_message(p)}


def decoded(text, hexbuf):
    return deserializer(text).deserialize(b2s(hexbuf).decode('hex'))


def encode(a):
    return [_encode(a.get('tmpl'), m, a.get('fresh'), a.get('xml', 'open')) for m in a['msgs']]


def decode(a):
    return _decode(a.get('tmpl'), a['buf'], a.get('fresh'))


def decode_many(a):
    return [_decode(a.get('tmpl'), b, a.get('fresh'), a.get('xml', 'open')) for b in a['bufs']]


def roundtrip(a):
    res = []
    for m in a['msgs']:
        r = _encode(a.get('tmpl'), m)
        if 'hex' in r:
            r['back'] = _decode(a.get('tmpl'), r['hex'])
        res.append(r)
    return res


def _templ(t):
    named = all([t.get_block(b.name) is b and b.get_name() == b.name and b.get_block_number() == b.number
                 and b.get_block_type() == b.block_type
                 and all([b.get_variable(v.name) is v and v.get_name() == v.name and v.get_type() == v.type
                          and sizeof(v.type) in (-1, v.size) for v in b.get_variables()])
                 for b in t.get_blocks()])
    named = named and [t.get_name(), t.get_frequency(), t.get_message_number(), t.get_message_trust(),
                       t.get_message_encoding(), t.get_deprecation()] == \
        [t.name, t.frequency, t.msg_num, t.msg_trust, t.msg_encoding, t.msg_deprecation]
    return {'named': named, 'hexstr': t.get_message_hex_num(), 'name': t.name, 'freq': t.frequency, 'num': enc(t.msg_num), 'hexnum': t.msg_num_hex.encode('hex'),
            'trust': t.msg_trust, 'encoding': t.msg_encoding, 'deprecation': t.msg_deprecation,
            'strs': [t.get_frequency_as_string(), t.get_message_trust_as_string(),
                     t.get_message_encoding_as_string(), t.get_deprecation_as_string()],
            'blocks': [[b.name, b.get_block_type_as_string(), b.number,
                        [[v.name, v.get_type_as_string(), v.size] for v in b.get_variables()]]
                       for b in t.get_blocks()]}


def parse_template(a):
    """Parse `times` times over one handle; report the parsed templates and what the dictionary finds."""
    try:
        f = template_file(a['tmpl'])
        if f is None:
            from pyogp.lib.base.message.data import msg_tmpl as f
        out = []
        for i in range(a.get('times', 1)):
            if a.get('seek') is not None:
                f.seek(a['seek'])
            p = MessageTemplateParser(f)
            d = TemplateDictionary(p.message_templates)
            out.append({'templates': [_templ(t) for t in p.message_templates],
                        'version': enc(p.version), 'count': p.count})
            look = []
            for n in a.get('names', []):
                t = d.get_template(str(n))
                t2 = d[str(n)]
                look.append([t and t.name, t2 and t2.name])
            pairs = []
            for fr, num in a.get('pairs', []):
                t = d.get_template_by_pair(str(fr), num)
                pairs.append(t and t.name)
            d2 = TemplateDictionary(message_template=f)
            out[-1].update({'look': look, 'pairs': pairs, 'list': d2.get_template_list(),
                            'look2': [(lambda t: t and t.name)(d2.get_template(str(n))) for n in a.get('names', [])]})
        return {'runs': out}
    except Exception, e:
        return exc_info(e)


def lookups(a):
    return parse_template(a)
