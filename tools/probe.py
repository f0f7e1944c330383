#!/usr/bin/env python3
"""probe2.py FILE BIN LIMIT [names...]: dumps every named edit set of FILE (release and debug), then analyses all side by side with BIN."""
import sys, os, subprocess, json, hashlib
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, '/verif/checks')
import engine
ns = {}
exec(open(sys.argv[1]).read(), ns)
BIN, LIM = sys.argv[2], int(sys.argv[3])
names = sys.argv[4:] or list(ns['E'])
D = '/tmp/probes'
os.makedirs(D, exist_ok=True)
extra = os.environ.get('FLAGS', '').split()
jobs = []
for n in names:
    x = ns['E'][n]
    edits, entries = x[0], x[1]
    full = len(x) > 2 and x[2]
    h = hashlib.md5(repr(x).encode()).hexdigest()[:8]
    try:
        for rel in (False, True):
            dst = '%s/%s-%s-%s.json' % (D, n, h, 'rel' if rel else 'dbg')
            if not os.path.exists(dst):
                subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
                for f, a, b in edits:
                    t = open('/repo/' + f).read()
                    assert t.count(a) == 1, (n, f, a, t.count(a))
                    open('/repo/' + f, 'w').write(t.replace(a, b))
                path, err = engine.dump_ir('p', engine.FULL if full else '', rel)
                if path is None:
                    print(n, 'DOES NOT BUILD', err[-800:])
                    break
                os.rename(path, dst)
            jobs += [(n, rel, dst, e) for e in entries]
    finally:
        subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
def go(j):
    n, rel, dst, e = j
    try:
        r = subprocess.run(['bash', '-c', 'ulimit -v 16000000; exec "$@"', 'x', 'timeout', str(LIM), BIN, dst, 'entry_' + e, '--json', *extra], text=True, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        r = json.loads(r.stdout.strip().splitlines()[-1])
    except (ValueError, IndexError):
        print(n, 'rel' if rel else 'dbg', e, 'NO ANSWER', flush=True)
        return
    evs = {}
    for v in r['events']:
        if rel and v['prop'] == 'C04' or not rel and v['prop'] not in ('C04', '??') or 'assert_failed' in v['func']:
            continue
        evs.setdefault((v['prop'], v['func'].rsplit('::', 1)[-1][-40:], v['line'], v['msg'][:60], v['firm']), 0)
    print(n, 'rel' if rel else 'dbg', e, '' if r['complete'] else 'INCOMPLETE', '%.0fs' % r['wall_s'], 'QUIET' if not evs else '', flush=True)
    for k in list(evs)[:6]:
        print('     ', *k, flush=True)
with ThreadPoolExecutor(max_workers=7) as ex:
    list(ex.map(go, jobs))
