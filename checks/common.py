"""Shared machinery of the checks: dumping the current source, reporting, evidence."""
import json, os, subprocess, sys, time, hashlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
WORK = os.environ.get('VERIF_WORK', os.path.join(V, 'work'))
T0 = time.time()
ENV = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', VERIF_WORK=WORK)
for k in ('RUSTFLAGS', 'RUSTUP_TOOLCHAIN', 'CARGO_TARGET_DIR', 'RUSTC_WRAPPER', 'RUSTC_WORKSPACE_WRAPPER'):
    ENV.pop(k, None)


def run(cmd, **kw):
    return subprocess.run(cmd, env=kw.pop('env', ENV), text=True, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)


FULL = 'rayon,stacker,std,alloc'


def dump(name, features):
    """MIR of the harness with the current /repo; None with the compiler's messages when it does not build."""
    out = os.path.join(WORK, name + '.json')
    r = run(['bash', os.path.join(V, 'dump.sh'), name] + ([features] if features else []))
    if r.returncode != 0 or not os.path.exists(out):
        return None, r.stderr
    return json.load(open(out)), ''


class Check:
    """One run of the check of one property."""

    def __init__(self, pid, technique_rule):
        self.pid = pid
        self.rule = technique_rule
        self.violations = []
        self.coverage = {}
        self.assumptions = []

    def violate(self, where, what, detail=None):
        self.violations.append({'where': where, 'what': what, 'detail': detail})

    def floor(self, name, count, least):
        """Fail closed when the analysis saw less than it must."""
        self.coverage[name] = count
        if count < least:
            self.violate('coverage', '%s: %d analysed, at least %d expected' % (name, count, least))

    def finish(self):
        known = load_known(self.pid)
        fresh, listed = [], []
        seen = set()
        for v in self.violations:
            key = '%s | %s' % (v['where'], v['what'])
            if key in seen:
                continue
            seen.add(key)
            (listed if key in known else fresh).append((key, v))
        for key, v in listed:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, key))
        ev = {'property': self.pid, 'tier': os.environ.get('VERIF_TIER', 'quick'), 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
              'level': 'other', 'explanation': self.rule, 'coverage': self.coverage, 'assumptions': self.assumptions,
              'violations': len(fresh), 'wall_s': round(time.time() - T0, 2)}
        os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(V, 'evidence', self.pid + '.json'), 'w'), indent=1)
        if fresh:
            rp = os.path.join(WORK, 'replay')
            os.makedirs(rp, exist_ok=True)
            path = os.path.join(rp, self.pid + '.txt')
            with open(path, 'w') as f:
                for key, v in fresh:
                    f.write('%s\n%s\n\n' % (key, v['detail'] or ''))
            for key, _ in fresh[:20]:
                print('  ' + key)
            print('VIOLATION property=%s replay=%s' % (self.pid, path))
            sys.exit(1)
        print('OK property=%s %s' % (self.pid, json.dumps({k: v if not isinstance(v, list) or len(v) < 4 else len(v) for k, v in self.coverage.items()})))
        sys.exit(0)


def load_known(pid):
    known = set()
    p = os.path.join(V, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known: property=%s ' % pid):
                known.add(l.split(' ', 2)[2])
    return known


class Graph:
    """Call graph of a dump: resolved calls, drop glue, and every function value mentioned in a body."""

    def __init__(self, prog):
        self.F, self.T = prog['funcs'], prog['types']
        self.entries = prog['entries']
        self.out = [self._callees(f) for f in self.F]

    def _callees(self, f):
        b = f['body']
        res = {}
        for c in f['callbacks']:
            res.setdefault(c[1], 0)
        if not b:
            return res

        def consts(o, line):
            if isinstance(o, dict):
                if isinstance(o.get('Fn'), int):
                    res.setdefault(o['Fn'], line)
                for v in o.values():
                    consts(v, line)
            elif isinstance(o, list):
                for v in o:
                    consts(v, line)
        for k in b['blocks']:
            for s, line in k['stmts']:
                consts(s, line)
            t = k['term']
            if isinstance(t, dict):
                if 'Call' in t and 'Direct' in t['Call']['callee']:
                    res.setdefault(t['Call']['callee']['Direct'], k['line'])
                if 'Drop' in t and t['Drop']['glue'] is not None:
                    res.setdefault(t['Drop']['glue'], k['line'])
                consts(t, k['line'])
        return res

    def reach(self, start, cut=lambda f: False):
        par = {start: None}
        st = [start]
        while st:
            x = st.pop()
            if cut(self.F[x]):
                continue
            for y in self.out[x]:
                if y not in par:
                    par[y] = x
                    st.append(y)
        return par

    def chain(self, par, x):
        c = []
        while x is not None:
            f = self.F[x]
            c.append(f['path'])
            x = par[x]
        return ' <- '.join(c)

    def entry_name(self, e):
        return self.F[e]['path'].split('::')[-1].replace('entry_', '')
