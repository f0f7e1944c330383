"""C20: what each operation makes of the callback: every comparison closure handed to an algorithm is evaluated for the three orders of two elements."""
from engine import *

SORTS = ('sort', 'select', 'par_sort', 'par_select')


def elem_ref(T, t):
    k = T[t]['kind']
    if not (isinstance(k, dict) and 'Ptr' in k and k['Ptr']['is_ref']):
        return False
    return T[k['Ptr']['pointee']]['name'] in ('E', 'harness::E', 'ES', 'harness::ES')


def candidates(G, e):
    """Comparison closures of the interface file and comparison functions passed as values."""
    F, T = G.F, G.T
    par = G.reach(e)
    shims = {}
    for f in par:
        if F[f]['kind'] == 'shim':
            for c in G.out[f]:
                shims.setdefault(c, f)
    out = []
    for f in sorted(par):
        b = F[f]['body']
        if not b or F[f]['ret'] is None or T[F[f]['ret']]['kind'] != 'Bool' or F[f]['kind'] == 'shim':
            continue
        sig = F[f]['sig']
        if len(sig) < 2 or not all(elem_ref(T, t) for t in sig[-2:]):
            continue
        if F[f]['krate'] == 'ndarray_slice' and F[f]['is_closure'] and len(sig) == 3 and b['file'].endswith('/lib.rs'):
            out.append((f, par))
        elif F[f]['krate'] not in ('ndarray_slice', 'harness') and len(sig) == 2 and f in shims:
            out.append((f, par))
    return out


def main():
    ck = Check('C20', 'Every comparison closure that a sorting or selecting operation hands to its algorithm, and every comparison function it passes as a value, is evaluated over its MIR with callbacks that answer by a fixed order of the two elements: it must say "smaller" exactly when the first element is smaller.')
    build()
    judged, blind, ops = 0, [], 0
    for name, feats in (('rmin', ''), ('rfull', FULL)):
        path, err = dump_ir(name, feats, True)
        if path is None:
            lose(ck, err)
        G = Graph(json.load(open(path)))
        work = {}
        for e in G.entries:
            n = G.entry_name(e)
            if not n.startswith(SORTS) or 'zst' in n or 'cached' in n:
                continue
            cs = candidates(G, e)
            ops += 1
            if not cs:
                blind.append(name + ':' + n)
            for f, _ in cs:
                work.setdefault(f, []).append(n)
        r = run([BIN, path, '--judge'] + [str(f) for f in work])
        for l in r.stdout.splitlines():
            a = json.loads(l)
            f, got = G.F[a['fn']], [[x for x in v if x != 'panic'] for v in a['answers']]
            if any('?' in v or not v for v in got):
                blind += ['%s:%s' % (name, n) for n in work[a['fn']]]
                continue
            judged += 1
            for o, v, want in zip(('smaller than', 'equal to', 'greater than'), got, ('true', 'false', 'false')):
                if v != [want]:
                    b = f['body']
                    ck.violate(f['path'], 'answers %s for a first element %s the second' % ('/'.join(v), o),
                               'in operations %s, %s' % (', '.join(work[a['fn']]), b['file']))
    ck.floor('comparisons judged', judged, 1)
    ck.coverage.update({'operations': ops, 'undecided operations': sorted(set(blind))})
    ck.assumptions = ['The algorithms themselves treat their comparison argument alike for all variants, as they are the same functions.']
    ck.finish()


main()
