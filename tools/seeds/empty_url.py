PROPERTY = 'C17'
NEEDS = 'a seed capability that grants a name with an empty URL'
BREAKS = 'a capability that was granted is missing when its URL is empty'
EDITS = [('caps.py', "            caps[name]=Capability(name, parsed_result[name], self.restclient)\n",
          "            if parsed_result[name]:\n                caps[name]=Capability(name, parsed_result[name], self.restclient)\n")]
DEMO = '''
from demolib import *
from pyogp.lib.base.caps import SeedCapability
from pyogp.lib.base.helpers import DictLLSDSerializer

class Rest(object):
    def __init__(self, urls):
        self.urls = urls
    def POST(self, url, data, headers={}):
        class R(object):
            pass
        r = R()
        r.headers = {'Content-Type': 'application/llsd+xml'}
        r.body = DictLLSDSerializer({'capabilities': self.urls}).serialize()
        return r

def run():
    for urls in ({'a': 'http://x/a'}, {'a': 'http://x/a', 'b': 'http://x/b'}, {'a': '', 'b': 'http://x/b'}):
        caps = SeedCapability('seed', 'http://x/', Rest(urls), Settings(quiet_logging=True)).get(sorted(urls))
        check(dict([(k, c.public_url) for k, c in caps.items()]) == urls, '%s granted became %s' % (urls, caps))

main(run)
'''
