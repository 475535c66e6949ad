PROPERTY = 'C05'
NEEDS = 'a template file with a Multiple block that repeats ten times or more'
BREAKS = 'only the first digit of the repeat number of a block is read'
EDITS = [('message/template_parser.py', """        block_header_re = '.*?(\\w+)\\s+(\\w+)(\\s+(\\d+))?.*'
""", """        block_header_re = '.*?(\\w+)\\s+(\\w+)(\\s+(\\d))?.*'
""")]
DEMO = """
from demolib import *
from pyogp.lib.base.message.template_dict import TemplateDictionary

def run():
    for n in (1, 4, 9, 10, 12, 100):
        T = '''version 2.0
{
    Thing Low 7 NotTrusted Unencoded
    {
        Stuff Multiple %d
        { Tail U32 }
    }
}
''' % n
        t = TemplateDictionary(message_template=template(T)).get_template('Thing')
        check(t.get_block('Stuff').number == n, 'Multiple %d was read as %s' % (n, t.get_block('Stuff').number))

main(run)
"""
