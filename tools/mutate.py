#!/usr/bin/env python3
"""mutate.py STREAM NSTREAMS [file-substring]: mutation self-test of the checks.

Makes small syntactic changes to a copy of /repo below /tmp/mut, runs the checks named in MAP (scaled down, without
shrinking) until one reports a violation, and appends one line per mutant to /tmp/mut/results.STREAM.jsonl.
What survives is judged by hand: equivalent, outside every property, or a gap to close.
"""
import hashlib, io, json, os, random, re, shutil, subprocess, sys, time, tokenize
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = 'pyogp/lib/base/'
WIRE = ['C02', 'C03', 'C01', 'C04']
MAP = {
    'message/udpserializer.py': ['C02', 'C06', 'C01', 'C05', 'C11'],
    'message/udpdeserializer.py': ['C03', 'C04', 'C01', 'C05', 'C12', 'C10', 'C11', 'C08', 'C22'],
    'message/data_packer.py': ['C02', 'C06', 'C01'],
    'message/data_unpacker.py': ['C03', 'C04', 'C01'],
    'message/msgtypes.py': ['C02', 'C03', 'C05', 'C24', 'C06'],
    'message/template.py': ['C05', 'C02', 'C24', 'C03', 'C06', 'C23'],
    'message/template_dict.py': ['C05', 'C03', 'C02', 'C06'],
    'message/template_parser.py': ['C05', 'C02'],
    'message/message.py': ['C24', 'C02', 'C06', 'C08', 'C01', 'C10', 'C23'],
    'message/message_handler.py': ['C13', 'C12', 'C22', 'C21'],
    'message/circuit.py': ['C07', 'C08', 'C09', 'C10', 'C06', 'C25'],
    'message/udpdispatcher.py': ['C07', 'C08', 'C09', 'C10', 'C12', 'C06', 'C11', 'C22', 'C21', 'C25'],
    'message/message_dot_xml.py': ['C11'],
    'message/llsd_builder.py': ['C23'],
    'network/net.py': ['C25', 'C07'],
    'network/stdlib_client.py': ['C18'],
    'events.py': ['C13', 'C12', 'C21', 'C14'],
    'settings.py': ['C22', 'C12', 'C21', 'C14', 'C10'],
    'caps.py': ['C17', 'C14', 'C22'],
    'message_manager.py': ['C21', 'C22', 'C11'],
    'datatypes.py': ['C19', 'C01', 'C24'],
    'helpers.py': ['C20', 'C16', 'C17', 'C19', 'C01'],
    'event_queue.py': ['C14', 'C15', 'C22', 'C21'],
    'exc.py': ['C17', 'C04', 'C06', 'C05', 'C16', 'C18', 'C26'],
}
SWAP = {'<': ['<=', '>='], '<=': ['<'], '>': ['>=', '<'], '>=': ['>'], '==': ['!='], '!=': ['=='], '+': ['-'],
        '-': ['+'], '*': ['+'], '/': ['*'], '&': ['|'], '|': ['&'], '+=': ['-=', '='], '-=': ['+='],
        'and': ['or'], 'or': ['and'], 'True': ['False'], 'False': ['True'], 'is': ['is not'], 'in': ['not in'],
        'not': [''], 'break': ['pass'], 'continue': ['break'], '>>': ['<<'], '<<': ['>>']}


def mutants(path):
    src = open(path, 'rb').read().decode('latin-1')
    lines = src.split('\n')
    try:
        toks = list(tokenize.generate_tokens(io.StringIO(src).readline))
    except Exception as e:
        print('tokenize', path, e)
        return
    stmt = []
    depth_def = 0
    for i, t in enumerate(toks):
        if t.type in (tokenize.NEWLINE,):
            yield from statement(stmt, lines)
            stmt = []
            continue
        if t.type in (tokenize.NL, tokenize.COMMENT, tokenize.INDENT, tokenize.DEDENT, tokenize.ENCODING):
            continue
        stmt.append(t)


def text_between(lines, a, b):
    (r1, c1), (r2, c2) = a, b
    if r1 == r2:
        return lines[r1 - 1][c1:c2]
    return '\n'.join([lines[r1 - 1][c1:]] + lines[r1:r2 - 1] + [lines[r2 - 1][:c2]])


def statement(stmt, lines):
    if not stmt:
        return
    first = stmt[0]
    whole = text_between(lines, first.start, stmt[-1].end)
    if first.type == tokenize.STRING and len(stmt) == 1:
        return
    if re.match(r'(logger|print|import|from|global|class)\b', whole) or '__repr__' in whole:
        return
    if first.string == 'def':
        for i, t in enumerate(stmt):
            if i and stmt[i - 1].string == '=' and t.string in ('True', 'False', 'None'):
                yield (t.start, t.end, {'True': 'False', 'False': 'True', 'None': '1'}[t.string])
        return
    if first.string in ('return',):
        if len(stmt) > 1:
            yield (first.start, stmt[-1].end, 'return None')
    elif first.string in ('if', 'elif', 'while'):
        cut = len(stmt) - 1
        cond = text_between(lines, stmt[1].start, stmt[cut].start)
        if stmt[cut].string == ':':
            yield (stmt[1].start, stmt[cut].start, 'not (%s)' % cond)
            if first.string != 'while':
                yield (stmt[1].start, stmt[cut].start, 'True')
                yield (stmt[1].start, stmt[cut].start, 'False')
    elif first.string in ('for', 'try', 'else', 'except', 'finally', 'def', '@', 'with', 'pass'):
        pass
    else:
        yield (first.start, stmt[-1].end, 'pass')
    for t in stmt:
        if t.string in SWAP and t.type in (tokenize.OP, tokenize.NAME) and not (t.string in ('in',) and first.string == 'for'):
            for new in SWAP[t.string]:
                yield (t.start, t.end, new)
        elif t.type == tokenize.NUMBER:
            for new in ({'0': ['1'], '1': ['0', '2']}).get(t.string, ['(%s+1)' % t.string, '(%s-1)' % t.string]):
                yield (t.start, t.end, new)
        elif t.type == tokenize.STRING and len(t.string) < 12:
            if '<' in t.string or '>' in t.string:
                yield (t.start, t.end, t.string.replace('<', '\0').replace('>', '<').replace('\0', '>'))
            elif len(t.string) > 2:
                yield (t.start, t.end, t.string[0] + 'X' + t.string[1:])


def apply(src, m):
    lines = src.split('\n')
    (r1, c1), (r2, c2), new = m
    head = lines[:r1 - 1] + [lines[r1 - 1][:c1] + new + lines[r2 - 1][c2:]] + lines[r2:]
    return '\n'.join(head)


def main():
    stream, n = int(sys.argv[1]), int(sys.argv[2])
    only = sys.argv[3] if len(sys.argv) > 3 else ''
    base = '/tmp/mut/s%d' % stream
    shutil.rmtree(base, True)
    os.makedirs(base)
    repo = base + '/repo'
    subprocess.run(['git', 'clone', '-q', '/repo', repo], check=True)
    todo = []
    for f in MAP:
        if only in f:
            p = os.path.join(repo, B + f)
            t = open(p, 'rb').read()
            open(p, 'wb').write(t.expandtabs(8))
            for m in mutants(p):
                todo.append((f, m))
    random.Random(5).shuffle(todo)
    seen = set()
    rp = '/tmp/mut/results.%d.jsonl' % stream
    for p in [q for q in os.listdir('/tmp/mut') if q.startswith('results')]:
        for line in open('/tmp/mut/' + p):
            seen.add(json.loads(line)['key'])
    env = dict(os.environ, PYOGP_REPO=repo, PBT_NOSHRINK='1', PBT_OUT=base + '/out', VERIF_SHARDS='3', VERIF_TIER='quick')
    for k, (f, m) in enumerate(todo):
        if k % n != stream:
            continue
        key = hashlib.md5(repr((f, m)).encode()).hexdigest()[:10]
        if key in seen:
            continue
        path = os.path.join(repo, B + f)
        src = open(path, 'rb').read().decode('latin-1')
        new = apply(src, m)
        if new == src:
            continue
        open(path, 'wb').write(new.encode('latin-1'))
        t0 = time.time()
        killed, errs = None, []
        for c in MAP[f]:
            if not os.path.exists(HERE + '/pbt/props/%s.py' % c.lower()):
                continue
            try:
                r = subprocess.run(['python3-vt', '%s/check.py' % HERE + '', c, '--scale', '0.4'], env=env, capture_output=True, timeout=400)
                rc = r.returncode
            except subprocess.TimeoutExpired:
                rc = 'timeout'
            if rc == 1:
                killed = c
                break
            if rc != 0:
                errs.append([c, rc])
        open(path, 'wb').write(src.encode('latin-1'))
        old = text_between(src.split('\n'), m[0], m[1])
        rec = {'key': key, 'file': f, 'line': m[0][0], 'old': old, 'new': m[2], 'text': src.split('\n')[m[0][0] - 1].strip(), 'killed': killed, 'errs': errs, 't': round(time.time() - t0, 1)}
        with open(rp, 'a') as fh:
            fh.write(json.dumps(rec) + '\n')


if __name__ == '__main__':
    if sys.argv[1] == 'count':
        for f in MAP:
            print(f, len(list(mutants('/repo/' + B + f))))
    else:
        main()
