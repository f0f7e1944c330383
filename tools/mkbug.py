"""mkbug.py ID PROPERTY FILE : reads edits from stdin as a Python expression [(file, old, new), ...] and writes seeded/ID/patch.diff"""
import subprocess, sys, os, json, shutil
id, = sys.argv[1:2]
ns = {}
exec(sys.stdin.read(), ns)
W = '/tmp/wt'
os.makedirs(W, exist_ok=True)
subprocess.run(['rsync', '-a', '--delete', '--exclude', 'target', '/repo/', W + '/'], check=True)
for f, a, b in ns['edits']:
    t = open(f'{W}/{f}').read()
    assert t.count(a) == ns.get('count', 1), (f, a, t.count(a))
    open(f'{W}/{f}', 'w').write(t.replace(a, b))
d = f'/verif/seeded/{id}'
os.makedirs(d, exist_ok=True)
open(d + '/patch.diff', 'w').write(subprocess.run(['git', '-C', W, 'diff'], capture_output=True, text=True).stdout)
json.dump({'property': ns['prop'], 'needs': ns['needs'], 'what_it_breaks': ns['breaks']}, open(d + '/meta.json', 'w'), indent=1)
if 'main' in ns:
    open(d + '/main.rs', 'w').write(ns['main'])
    shutil.copy('/verif/tools/demo.lock', d + '/Cargo.lock')
    t = open('/verif/tools/demo_run.sh').read()
    for k in ('FEATURES', 'LIMIT', 'CARGO_ARGS', 'PROFILE'):
        if k in ns:
            t = t.replace('\n# run', f'\n{k}="{ns[k]}"\n# run', 1)
    open(d + '/demo.sh', 'w').write(t)
if 'demo' in ns:
    open(d + '/demo.sh', 'w').write(ns['demo'])
