PROPERTY = 'C22'
NEEDS = 'one settings object whose list of spammers is changed in place, and another one'
BREAKS = 'all settings objects share one list of spammers'
EDITS = [('settings.py', """        self.UDP_SPAMMERS = ['PacketAck', 'AgentUpdate']
""", """        self.UDP_SPAMMERS = Settings.spammers
"""), ('settings.py', """    def __init__(self, quiet_logging""", """    spammers = ['PacketAck', 'AgentUpdate']

    def __init__(self, quiet_logging""")]
DEMO = """
from demolib import *

def run():
    a, b = Settings(), Settings()
    a.UDP_SPAMMERS.append('StartPingCheck')
    for s in (b, Settings(), Settings(quiet_logging=True)):
        check(s.UDP_SPAMMERS == ['PacketAck', 'AgentUpdate'], 'other settings now have %s' % s.UDP_SPAMMERS)

main(run)
"""
