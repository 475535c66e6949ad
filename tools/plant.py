#!/usr/bin/env python3
"""plant.py: writes /verif/seeded/<id>/ for each planted bug in seeds/*.py.

A spec file holds ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new), ...] and DEMO (the text of demo.py).
"""
import glob, json, os, runpy, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
B = 'pyogp/lib/base/'


def plant(path):
    s = runpy.run_path(path)
    sid = os.path.basename(path)[:-3]
    out = os.path.join(VERIF, 'seeded', sid)
    work = tempfile.mkdtemp(prefix='plant')
    try:
        repo = os.path.join(work, 'r')
        subprocess.run(['git', 'clone', '-q', '/repo', repo], check=True)
        for f, old, new in s['EDITS']:
            p = os.path.join(repo, B + f)
            t = open(p, 'rb').read()
            crlf = b'\r\n' in t
            o, n = old.encode(), new.encode()
            if crlf:
                o, n = o.replace(b'\n', b'\r\n'), n.replace(b'\n', b'\r\n')
                if t.count(o) == 0:
                    o, n = old.encode(), new.encode()
            if t.count(o) != 1:
                sys.exit('%s: %d places for %r in %s' % (sid, t.count(o), old, f))
            open(p, 'wb').write(t.replace(o, n))
        diff = subprocess.run(['git', '-C', repo, 'diff', '--no-color'], check=True, capture_output=True).stdout
    finally:
        shutil.rmtree(work)
    shutil.rmtree(out, ignore_errors=True)
    shutil.copytree(os.path.join(HERE, 'seedlib'), out)
    open(os.path.join(out, 'patch.diff'), 'wb').write(diff)
    open(os.path.join(out, 'demo.py'), 'w').write(s['DEMO'].lstrip('\n'))
    json.dump({'property': s['PROPERTY'], 'needs': s['NEEDS'], 'what_it_breaks': s['BREAKS']},
              open(os.path.join(out, 'meta.json'), 'w'), indent=1)
    print('planted', sid)


for p in sorted(glob.glob(os.path.join(HERE, 'seeds', '*.py'))):
    if len(sys.argv) < 2 or os.path.basename(p)[:-3] in sys.argv[1:]:
        plant(p)
