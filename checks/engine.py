"""Abstract interpretation of the operations: runs /verif/analyzer over the dumped MIR, entry by entry."""
import hashlib, json, os, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import *

BIN = os.path.join(V, 'analyzer', 'target', 'release', 'analyzer')
LIMIT = int(os.environ.get('VERIF_ENTRY_S', '300'))
LIMIT2 = 150


def build():
    r = run(['cargo', 'build', '--offline', '--release', '-q'], cwd=os.path.join(V, 'analyzer'))
    if r.returncode:
        sys.stderr.write(r.stderr[-3000:])
        sys.exit(2)


def dump_ir(name, features, release):
    """Path of the dump of the current source, or None when it does not build."""
    out = os.path.join(WORK, name + '.json')
    env = dict(ENV)
    env.pop('DUMP_RELEASE', None)
    if release:
        env['DUMP_RELEASE'] = '1'
    r = run(['bash', os.path.join(V, 'dump.sh'), name] + ([features] if features else []), env=env)
    if r.returncode or not os.path.exists(out):
        return None, r.stderr[-3000:]
    return out, ''


def key_of(path, entry, flags):
    h = hashlib.sha256()
    h.update(open(path, 'rb').read())
    h.update(open(BIN, 'rb').read())
    h.update(('%s %s' % (entry, flags)).encode())
    return h.hexdigest()[:32]


NONE = {'complete': False, 'events': [], 'obligations': {}, 'own': [], 'exits': 0, 'returns': 0, 'blocks': 0, 'joins': 0, 'loops': 0, 'functions': 0, 'callback_panics': 0}
STOP = threading.Event()
PROCS = set()


def attempt(path, entry, flags, secs):
    cache = os.path.join(WORK, 'cache')
    os.makedirs(cache, exist_ok=True)
    c = os.path.join(cache, key_of(path, entry, flags))
    if os.path.exists(c):
        return json.load(open(c))
    if STOP.is_set() or secs < 5:
        return dict(NONE, entry=entry)
    p = subprocess.Popen(['bash', '-c', 'ulimit -v 16000000; exec "$@"', 'x', BIN, path, entry, '--json', '--secs', str(int(secs)), *flags],
                         text=True, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    PROCS.add(p)
    try:
        out, _ = p.communicate(timeout=secs + 25)
        res = json.loads(out.strip().splitlines()[-1])
    except (subprocess.TimeoutExpired, ValueError, IndexError):
        p.kill()
        return dict(NONE, entry=entry)
    finally:
        PROCS.discard(p)
    if not res['complete']:
        return res
    tmp = c + '.%d' % os.getpid()
    json.dump(res, open(tmp, 'w'))
    os.replace(tmp, c)
    return res


def one(path, entry, flags=(), end=None):
    """First the precise analysis; when that runs out of time, the one that ends paths at reports."""
    left = lambda: (end or T0 + 840) - 25 - time.time()
    r = attempt(path, entry, tuple(flags), min(LIMIT, left()))
    if r['complete'] or '--prop' not in flags:
        return r
    q = attempt(path, entry, tuple(flags) + ('--strict',), min(LIMIT2, left()))
    q = dict(q, events=q['events'] + r['events'], second=True)
    return q


def entries_of(path):
    p = json.load(open(path))
    return [p['funcs'][e]['path'].rsplit('::', 1)[-1].replace('entry_', '', 1) for e in p['entries']]


# the longest first
ORDER = ['par_', 'sort_unstable', 'select', 'sort']


def many(jobs, hit=None):
    """jobs: (path, entry, flags). Results in the same order. Stops early once `hit` finds a violation in a result."""
    def rank(j):
        e = j[1]
        return next((i for i, o in enumerate(ORDER) if e.startswith(o)), 9)
    order = sorted(range(len(jobs)), key=lambda i: rank(jobs[i]))
    res = [None] * len(jobs)
    end = T0 + 840
    def go(i):
        res[i] = one(*jobs[i], end=end)
        if hit and not STOP.is_set() and hit(res[i]):
            STOP.set()
            for p in list(PROCS):
                p.kill()
    with ThreadPoolExecutor(max_workers=7) as ex:
        list(ex.map(go, order))
    return res


def events(results, prop):
    """Reports of one property, without those of functions the analysis lost its way in."""
    out = []
    for r in results:
        lost = {e['func'] for e in r['events'] if e['prop'] == '??' and 'out of time' not in e['msg']}
        for e in r['events']:
            if e['prop'] != prop or e['func'] in lost and not e['firm']:
                continue
            out.append((r['entry'], e))
    return out


def cover(check, results, kind):
    c = check.coverage
    c['operations'] = c.get('operations', 0) + len([r for r in results if r['complete']])
    c['undecided operations'] = sorted(set(c.get('undecided operations', [])) | {r['entry'] for r in results if not r['complete'] or any(e['prop'] == '??' for e in r['events'])})
    own = set(c.get('functions of the crate', []))
    for r in results:
        own |= set(r['own'])
    c['functions of the crate'] = sorted(own)
    for k, f in (('basic blocks interpreted', 'blocks'), ('state joins', 'joins'), ('loops stabilised', 'loops'), ('exit states', 'exits'), ('exit states of a callback panic', 'callback_panics')):
        c[k] = c.get(k, 0) + sum(r[f] for r in results)
    if kind:
        c['places with an obligation (summed over operations)'] = c.get('places with an obligation (summed over operations)', 0) + sum(r['obligations'].get(kind, 0) for r in results)


def lose(check, err):
    """The source does not build: nothing to say about it."""
    sys.stderr.write(err)
    sys.exit(2)
