"""Runs one property: generates cases with Hypothesis, checks them, shrinks and saves a failure, writes evidence."""
import hashlib
import importlib
import json
import multiprocessing
import os
import sys
import time
import traceback
from collections import Counter

import hypothesis
from hypothesis import HealthCheck, Phase, given, settings, strategies as st  # noqa: F401

from .jyworker import HarnessError, LibraryError, Nonterminating, Worker

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.environ.get('PBT_OUT') or os.path.join(HERE, 'evidence')      # elsewhere only in tools/mutate.py

PHASES = (Phase.generate,) if os.environ.get('PBT_NOSHRINK') else (Phase.generate, Phase.shrink)


class Violation(Exception):
    pass


class Skip(Exception):
    """The case lies outside the property's domain (counted, not checked)."""


class StopNow(BaseException):
    pass


class Part:
    """One generator with its oracle. strategy: Hypothesis strategy of JSON cases (built lazily), or `cases`: a
    function giving a fixed list of cases (an enumeration); check(case, ctx) raises Violation and returns
    (nontrivial, labels)."""
    def __init__(self, name, check, strategy=None, cases=None, quick=200, thorough=4000, maxshards=8):
        self.name, self.check, self.strategy, self.cases = name, check, strategy, cases
        self.quick, self.thorough, self.maxshards = quick, thorough, maxshards


class Ctx:
    def __init__(self):
        self.worker = Worker()

    def call(self, op, **arg):
        return self.worker.call(op, **arg)


def canon(case):
    return json.dumps(case, sort_keys=True)


def known_findings():
    """{property: [(key, text)]} from the committed file."""
    out = {}
    path = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('finding: property='):
                rest = line[len('finding: property='):]
                pid, key, text = rest.split(' ', 2)
                assert key.startswith('key=')
                out.setdefault(pid, []).append((key[4:], text))
    return out


class KnownFinding(Exception):
    """Raised by an oracle for a failure it can identify by key; a violation unless the key is listed."""
    def __init__(self, key, msg):
        Exception.__init__(self, msg)
        self.key = key


class Shard:
    def __init__(self, prop, listed):
        self.prop = prop
        self.listed = listed
        self.ctx = Ctx()
        self.evals = 0
        self.seen = set()
        self.labels = Counter()
        self.samples = []
        self.log = []            # cases since the worker started, for failures that need a history
        self.found = None        # (size, part, case, message)
        self.known = {}
        self.skips = 0
        self.deadline = None

    def run_case(self, part, case):
        """Check one case; returns the violation message or None."""
        try:
            r = part.check(case, self.ctx)
        except Skip:
            self.skips += 1
            return None
        except KnownFinding as e:
            if e.key in self.listed:
                self.known[e.key] = str(e)
                self.labels['known finding ' + e.key] += 1
                return None
            return str(e)
        except Violation as e:
            return str(e)
        except Nonterminating as e:
            return 'does not terminate: %s' % e
        except LibraryError as e:
            return 'unexpected exception from the library, or from using its results: %s' % e
        except (KeyError, IndexError, TypeError, ValueError, AttributeError):
            # what the library did is nothing the oracle can even read (it reads all it does on a sound tree)
            return 'what was observed cannot be judged: %s' % traceback.format_exc()
        nontrivial, labels = r if isinstance(r, tuple) else (bool(r), ())
        for lb in labels:
            self.labels[lb] += 1
        if nontrivial:
            h = hashlib.blake2b((part.name + canon(case)).encode(), digest_size=8).digest()
            if h not in self.seen:
                self.seen.add(h)
                if len(self.samples) < 40:
                    self.samples.append((part.name, case))
        return None

    def one(self, part, case):
        self.evals += 1
        self.log.append((part.name, case))
        msg = self.run_case(part, case)
        if msg is not None:
            size = len(canon(case))
            if self.found is None or size < self.found[0]:
                self.found = (size, part.name, case, msg, list(self.log) if self.found is None else self.found[4])
            if self.deadline is None:
                self.deadline = time.monotonic() + 60
            elif time.monotonic() > self.deadline:
                raise StopNow()
            raise Violation(msg)

    def run_part(self, part, n, seed):
        if part.cases is not None:
            for case in n:
                try:
                    self.one(part, case)
                except Violation:
                    return
            return

        @settings(max_examples=n, database=None, deadline=None, derandomize=False,
                  suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
                  phases=PHASES, print_blob=False)
        @hypothesis.seed(seed)
        @given(part.strategy())
        def test(case):
            # what is checked is the JSON form, as a replay file will hold it
            self.one(part, json.loads(json.dumps(case)))
        try:
            test()
        except StopNow:
            pass
        except HarnessError:
            raise
        except BaseException:
            if self.found is None:
                raise


def fix_generation():
    """What is generated is to depend on the seed alone: Hypothesis also draws constants it
    finds in the source of loaded modules, through a cache on disk that the shards share, so
    that a first run and a second one can differ. That pool is left empty."""
    try:
        from hypothesis.internal.conjecture import providers
        from hypothesis.internal.constants_ast import Constants
        none = Constants()
        providers._get_local_constants = lambda: none
    except Exception:
        pass


def _shard_main(args):
    prop_id, jobs, listed = args
    fix_generation()
    mod = importlib.import_module('pbt.props.' + prop_id.lower())
    parts = {p.name: p for p in mod.PARTS}
    s = Shard(prop_id, listed)
    try:
        for name, n, seed in jobs:
            s.run_part(parts[name], n, seed)
            if s.found:
                break
        res = {'evals': s.evals, 'seen': s.seen, 'labels': s.labels, 'samples': s.samples, 'found': s.found,
               'known': s.known, 'skips': s.skips}
        if s.found:
            size, pname, case, msg, log = s.found
            # does the case fail by itself on a fresh worker?
            s.ctx.worker.stop()
            alone = s.run_case(parts[pname], case)
            if alone is not None:
                res['replay'] = {'cases': [[pname, case]], 'message': alone}
            else:
                s.ctx.worker.stop()
                cases = [list(c) for c in log]
                msg2 = replay_cases(s, parts, cases)
                if msg2 is None:
                    res['flaky'] = 'not reproducible: %s in %s' % (msg, canon(case)[:2000])
                else:
                    cases, msg2 = shorten(s, parts, cases, msg2)
                    res['replay'] = {'cases': cases, 'message': msg2, 'history': True}
        return res
    except HarnessError as e:
        return {'error': str(e)}
    except BaseException:
        return {'error': traceback.format_exc()}
    finally:
        s.ctx.worker.stop()


def replay_cases(s, parts, cases):
    for pname, case in cases:
        msg = s.run_case(parts[pname], case)
        if msg is not None:
            return msg
    return None


def shorten(s, parts, cases, msg):
    """Drop chunks of a failing history while it still fails, within a bounded number of fresh workers."""
    tries = 0
    chunk = len(cases) // 2
    while chunk >= 1 and tries < 12:
        i = 0
        while i < len(cases) - 1 and tries < 12:
            cand = cases[:i] + cases[i + chunk:]
            if not cand:
                break
            tries += 1
            s.ctx.worker.stop()
            m = replay_cases(s, parts, cand)
            if m is not None:
                cases, msg = cand, m
            else:
                i += chunk
        chunk //= 2
    return cases, msg


def write_json(path, obj):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + '.tmp%d' % os.getpid()
    with open(tmp, 'w') as fh:
        json.dump(obj, fh, indent=1, sort_keys=True)
        fh.write('\n')
    os.replace(tmp, path)


def trim(x, n=1500):
    s = canon(x)
    return x if len(s) <= n else s[:n] + '...(%d characters)' % len(s)


def run(prop_id, tier, seed, shards=None, scale=1.0):
    t0 = time.monotonic()
    if tier != 'quick':
        os.environ.setdefault('JY_TIER', '4')      # worth compiling harder for a long run
    mod = importlib.import_module('pbt.props.' + prop_id.lower())
    listed = dict(known_findings().get(prop_id, []))
    if shards is None:
        shards = int(os.environ.get('VERIF_SHARDS', '6' if tier == 'quick' else '8'))
    jobs = [[] for _ in range(shards)]
    for pi, part in enumerate(mod.PARTS):
        if part.cases is not None:
            cs = part.cases(tier)
            k = min(shards, max(1, len(cs) // 4))
            for i in range(k):
                jobs[(i + pi) % shards].append((part.name, cs[i::k], 0))
            continue
        n = max(1, int((part.quick if tier == 'quick' else part.thorough) * scale))
        k = max(1, min(shards, part.maxshards, n // 5))
        for i in range(k):
            jobs[(i + pi) % shards].append((part.name, (n + k - 1) // k, (seed * 1000003 + pi * 1009 + i)))
    jobs = [j for j in jobs if j]
    with multiprocessing.get_context('fork').Pool(len(jobs)) as pool:
        results = []
        it = pool.imap_unordered(_shard_main, [(prop_id, j, set(listed)) for j in jobs])
        for r in it:
            results.append(r)
            if r.get('replay'):
                break        # one reproducible failure is enough
        pool.terminate()
    errors = [r['error'] for r in results if 'error' in r]
    good = [r for r in results if 'error' not in r]
    seen = set().union(*[r['seen'] for r in good]) if good else set()
    labels = Counter()
    known = {}
    for r in good:
        labels.update(r['labels'])
        known.update(r['known'])
    fails = sorted([r['replay'] for r in good if r.get('replay')], key=lambda x: len(canon(x['cases'])))
    flaky = [r['flaky'] for r in good if r.get('flaky')]
    samples, per = [], Counter()
    for r in good:
        for pname, case in r['samples']:
            if per[pname] < 2:
                per[pname] += 1
                samples.append({'part': pname, 'case': trim(case)})
    ev = {'property': prop_id, 'tier': tier, 'seed': seed, 'level': 'exploration',
          'coverage': {'evaluations': sum(r['evals'] for r in good), 'distinct_nontrivial': len(seen),
                       'rule': mod.RULE, 'samples': samples or [{'part': None, 'case': None}],
                       'classes': dict(sorted(labels.items())),
                       'outside_domain': sum(r['skips'] for r in good)},
          'assumptions': getattr(mod, 'ASSUMPTIONS', []),
          'wall_s': round(time.monotonic() - t0, 2), 'violations': len(fails)}
    write_json(os.path.join(OUT, prop_id + '.json'), ev)
    if fails:
        fail = dict(fails[0], property=prop_id, seed=seed)
        h = hashlib.blake2b(canon(fail['cases']).encode(), digest_size=6).hexdigest()
        path = os.path.join(OUT, 'replay', '%s-%s.json' % (prop_id, h))
        write_json(path, fail)
        print('%s: %s' % (prop_id, fail['message'][:1500]))
        print('case: %s' % canon(fail['cases'])[:3000])
        print('VIOLATION property=%s replay=%s' % (prop_id, path))
        return 1
    if errors or flaky:
        for e in errors + flaky:
            print('HARNESS-ERROR %s: %s' % (prop_id, e[-4000:]))
        return 2
    for key, text in sorted(listed.items()):
        if key in known:
            print('KNOWN-FINDING: property=%s %s' % (prop_id, text))
        else:
            print('note: the listed finding %s of %s did not occur in this run' % (key, prop_id))
    print('%s %s: held on %d cases (%d distinct non-trivial) in %.1f s' % (
        prop_id, tier, ev['coverage']['evaluations'], len(seen), ev['wall_s']))
    return 0


def replay(prop_id, path):
    mod = importlib.import_module('pbt.props.' + prop_id.lower())
    parts = {p.name: p for p in mod.PARTS}
    with open(path) as fh:
        data = json.load(fh)
    s = Shard(prop_id, set(dict(known_findings().get(prop_id, []))))
    try:
        msg = replay_cases(s, parts, data['cases'])
    finally:
        s.ctx.worker.stop()
    if msg is None:
        print('%s: replay %s holds' % (prop_id, path))
        return 0
    print('%s: %s' % (prop_id, msg))
    print('VIOLATION property=%s replay=%s' % (prop_id, path))
    return 1


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or '1'))
    ap.add_argument('--replay')
    ap.add_argument('--shards', type=int)
    ap.add_argument('--scale', type=float, default=1.0)
    a = ap.parse_args(argv)
    if a.replay:
        return replay(a.property, a.replay)
    return run(a.property, a.tier, a.seed, a.shards, a.scale)
