"""Compile-fail witnesses: small functions that must, or must not, type-check against the current crate."""
import re
from common import *


def rustc_check(name, src, features, deps=''):
    """cargo check of one source file against /repo; list of (line, code, message) errors, or None when cargo itself failed."""
    d = os.path.join(WORK, 'witness', name)
    os.makedirs(os.path.join(d, 'src'), exist_ok=True)
    open(os.path.join(d, 'Cargo.toml'), 'w').write(
        '[package]\nname="w"\nversion="0.1.0"\nedition="2024"\n[workspace]\n[lib]\npath="src/lib.rs"\n[dependencies]\n'
        'ndarray-slice={path="%s",default-features=false,features=[%s]}\n%s' % (REPO, ','.join('"%s"' % f for f in features), deps))
    open(os.path.join(d, 'src', 'lib.rs'), 'w').write(src)
    subprocess.run(['cp', os.path.join(V, 'harness', 'Cargo.lock'), os.path.join(d, 'Cargo.lock')])
    lock = open(os.path.join(d, 'Cargo.lock')).read().replace('name = "harness"', 'name = "w"')
    open(os.path.join(d, 'Cargo.lock'), 'w').write(lock)
    r = run(['cargo', 'check', '--offline', '-q', '--message-format=json', '--manifest-path', os.path.join(d, 'Cargo.toml')],
            env=dict(ENV, CARGO_TARGET_DIR=os.path.join(WORK, 'wtarget')))
    errs, dep_errs = [], []
    for l in r.stdout.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get('reason') != 'compiler-message' or m['message']['level'] != 'error':
            continue
        msg = m['message']
        line = [s['line_start'] for s in msg['spans'] if s['is_primary'] and s['file_name'] == 'src/lib.rs']
        code = (msg['code'] or {}).get('code', '')
        if m['target']['name'] == 'w':
            errs.append((line[0] if line else 0, code, msg['message']))
        else:
            dep_errs.append(msg['rendered'])
    if r.returncode != 0 and not errs:
        return None, (''.join(dep_errs) or r.stderr)
    return errs, ''


def witnesses(c, name, prelude, fns, features, codes, what):
    """fns: [(id, source of one line)]: every one must fail with one of the codes."""
    src = prelude
    lines = {}
    for i, s in fns:
        assert '\n' not in s
        lines[src.count('\n') + 1] = i
        src += s + '\n'
    errs, why = rustc_check(name, src, features)
    if errs is None:
        c.violate('build %s' % name, 'the crate does not build', why[-3000:])
        return 0
    failed = {}
    for line, code, msg in errs:
        if line in lines and code in codes:
            failed.setdefault(lines[line], (code, msg))
        elif line not in lines:
            c.violate('witness %s' % name, 'the witness prelude does not type-check', '%s %s line %d' % (code, msg, line))
    for i, s in fns:
        if i not in failed:
            c.violate(i, what, s)
    return len(failed)


def twins(c, name, prelude, fns, features, what):
    """every function must type-check."""
    src = prelude
    lines = {}
    for i, s in fns:
        lines[src.count('\n') + 1] = i
        src += s + '\n'
    errs, why = rustc_check(name, src, features)
    if errs is None:
        c.violate('build %s' % name, 'the crate does not build', why[-3000:])
        return 0
    bad = set()
    for line, code, msg in errs:
        i = lines.get(line, 'prelude')
        bad.add(i)
        c.violate(i, what, '%s %s' % (code, msg))
    return len(fns) - len(bad)
