#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: one check per property whose module exists."""
import json
import os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    'C01': 'Hypothesis: generated messages and templates, encode/decode round trip against a normal form',
    'C02': 'Hypothesis: differential against an independent reference encoder',
    'C03': 'Hypothesis: datagrams from a reference encoder, decoder compared with a reference reading',
    'C04': 'fuzzing (random, mutated and structured datagrams) against a reference reading',
    'C05': 'Hypothesis: generated template texts, differential against their abstract content',
    'C06': 'Hypothesis: single-fault injection into valid messages, metamorphic comparison with a fault-free history',
    'C07': 'stateful model-based testing of dispatcher histories',
    'C08': 'stateful model-based testing of dispatcher histories',
    'C09': 'stateful model-based testing of dispatcher histories',
    'C10': 'stateful model-based testing of dispatcher histories',
    'C11': 'Hypothesis: generated policies and histories against a reference reading of the policy',
    'C12': 'stateful model-based testing of subscription and receive histories',
    'C13': 'stateful model-based testing against a list model',
    'C14': 'model-based testing of event-queue scripts under a deterministic scheduler with fault injection',
    'C15': 'Hypothesis: generated event payloads, differential against a reference reading',
    'C16': 'Hypothesis round trips and structured fuzzing against independent LLSD writers',
    'C17': 'Hypothesis: generated requests and responses over a recording client, differential',
    'C18': 'Hypothesis: generated exchanges with a scripted loopback server',
    'C19': 'Hypothesis: round trips and algebraic laws',
    'C20': 'Hypothesis and exhaustive sweeps against exact arithmetic; virtual-clock schedules',
    'C21': 'model-based testing of manager histories under a deterministic scheduler with fault injection',
    'C22': 'Hypothesis: metamorphic comparison of one history under two settings',
    'C23': 'stateful model-based testing against a dictionary model',
    'C24': 'Hypothesis: generated messages, all views compared with the input',
    'C25': 'stateful model-based testing over loopback sockets',
    'C26': 'Hypothesis: generated errors against the documented classes',
    'C27': 'stateful: interleaved histories compared with the same histories alone (metamorphic)',
}
NOTE = ('Held on every generated case; sampled, not exhaustive. Trusted: the reference model in pbt/, Jython 2.7 as the '
        'interpreter, and the eventlet stand-in in shim/ where coroutines are involved.')
checks = [{'property': p, 'quick_cmd': 'python3-vt check.py %s' % p, 'thorough_cmd': 'python3-vt check.py %s --tier thorough' % p,
           'technique': t, 'level': 'exploration', 'level_note': NOTE}
          for p, t in sorted(TECH.items()) if os.path.exists(os.path.join(here, 'pbt', 'props', p.lower() + '.py'))]
missing = [{'property': p, 'reason': 'the check is not built yet'} for p in sorted(TECH) if p not in [c['property'] for c in checks]]
m = {'version': 1, 'setup_cmd': 'bash tools/setup.sh', 'checks': checks, 'not_applicable': missing}
with open(os.path.join(here, 'MANIFEST.json'), 'w') as fh:
    json.dump(m, fh, indent=1)
    fh.write('\n')
