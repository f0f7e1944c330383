#!/usr/bin/env python3
"""refs.py FILE CMD [names...]: applies each edit set of FILE to /repo, runs CMD with {} = property, undoes it."""
import sys, subprocess
ns = {}
exec(open(sys.argv[1]).read(), ns)
for n in sys.argv[3:] or ns['E']:
    edits, props = ns['E'][n][:2]
    try:
        for f, a, b in edits:
            t = open('/repo/' + f).read()
            assert t.count(a) == 1, (n, f, a, t.count(a))
            open('/repo/' + f, 'w').write(t.replace(a, b))
        for p in props:
            r = subprocess.run(sys.argv[2].replace('{}', p), shell=True, text=True, capture_output=True)
            out = r.stdout.strip().splitlines()
            und = r.stdout.split('undecided operations": ')[-1].split(']')[0][:200] if out and out[-1].startswith('OK') else ''
            print(n, p, r.returncode, und, [l.strip()[:150] for l in out[:-1]][:3], r.stderr[-300:] if r.returncode not in (0, 1) else '', flush=True)
    finally:
        subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
