PROPERTY = 'C05'
NEEDS = 'a template file with a line of more than 100 characters that are no comment'
BREAKS = 'what stands beyond the hundredth column of a template file is not read'
EDITS = [('message/template_parser.py', "            start = re.match(start_re, line)\n",
          "            line = line[:100]\n            start = re.match(start_re, line)\n")]
DEMO = '''
from demolib import *
from pyogp.lib.base.message.template_dict import TemplateDictionary

def run():
    for n in (1, 20, 90, 150, 400):
        name = 'N' * n
        T = 'version 2.0\\n{\\n%s Low 7 NotTrusted Unencoded\\n{\\nStuff Multiple%s12\\n{ Tail U32 }\\n}\\n}\\n' % (name, ' ' * n)
        t = TemplateDictionary(message_template=template(T)).get_template(name)
        check(t is not None and t.get_block('Stuff').number == 12, 'with %d characters more it was read wrongly' % n)

main(run)
'''
