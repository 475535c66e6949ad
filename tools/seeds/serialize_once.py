PROPERTY = 'C16'
NEEDS = 'a payload changed between two serialisations by the same serializer'
BREAKS = 'the map serializer keeps its first text'
EDITS = [('helpers.py', 'class DictLLSDSerializer(object):\n    """adapter for serializing a dictionary to LLSD', 'class DictLLSDSerializer(object):\n    text = None\n\n    """adapter for serializing a dictionary to LLSD'), ('helpers.py', '        return llsd.format_xml(self.context)\n\n    @property\n    def content_type(self):\n        """return the content type of this serializer"""\n        return "application/llsd+xml"\n\nclass LLSDDeserializer', '        if self.text is None:\n            self.text = llsd.format_xml(self.context)\n        return self.text\n\n    @property\n    def content_type(self):\n        """return the content type of this serializer"""\n        return "application/llsd+xml"\n\nclass LLSDDeserializer')]
DEMO = '''
from demolib import *
from pyogp.lib.base.helpers import DictLLSDSerializer, LLSDDeserializer

def run():
    ask = {'ack': 1, 'done': False}
    s = DictLLSDSerializer(ask)
    for n in (1, 2, 3):
        ask['ack'] = n
        got = LLSDDeserializer().deserialize(s.serialize())
        check(got == {'ack': n, 'done': False}, 'with ack %d it reads %s' % (n, got))

main(run)
'''
