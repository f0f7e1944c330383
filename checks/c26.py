"""C26: every recursion halves a view (abstract interpretation), and passes the stack-growth guard (call graph)."""
from engine import *

# operations whose recursions the guard is for
DEEP = ('sort_unstable', 'select', 'par_sort_unstable', 'par_select')


def cycles(G, e):
    """Functions of the crate on a cycle that does not pass the guard."""
    F = G.F
    nodes = set(G.reach(e))
    guard = {f for f in nodes if F[f]['path'].endswith('stacker::maybe_grow')}
    # a recursion on samples, a fixed fraction of the view each time
    free = {f for f in nodes if F[f]['krate'] == 'ndarray_slice' and '::median_of_' in F[f]['path']}
    own = {f for f in nodes if F[f]['krate'] == 'ndarray_slice'}
    out = []
    for f in sorted(own - free):
        par = {f: None}
        st = [f]
        while st:
            x = st.pop()
            for y in G.out[x]:
                if y in guard or y in free:
                    continue
                if y == f:
                    out.append((f, G.chain(par, x)))
                    st = []
                    break
                if y not in par:
                    par[y] = x
                    st.append(y)
    return bool(guard), out


def main():
    ck = Check('C26', 'Abstract interpretation of sequential sorting and selecting: every call of a function from within itself must be proved to get at most half of one of the views its caller was given. In the call graph of the full build, every cycle through the crate must pass stacker::maybe_grow.')
    build()
    path, err = dump_ir('rfull', FULL, True)
    if path is None:
        lose(ck, err)
    G = Graph(json.load(open(path)))
    ops = guarded = 0
    for e in G.entries:
        n = G.entry_name(e)
        if not n.startswith(DEEP):
            continue
        ops += 1
        g, bad = cycles(G, e)
        guarded += g
        for f, chain in bad:
            ck.violate(G.F[f]['path'], 'calls itself without passing the stack-growth guard', 'in operation %s: %s' % (n, chain))
    path, err = dump_ir('rmin', '', True)
    if path is None:
        lose(ck, err)
    jobs = [(path, e, ('--prop', 'C26')) for e in entries_of(path) if e.startswith(DEEP) and 'zst' not in e]
    res = many(jobs, lambda r: events([r], 'C26'))
    for entry, e in events(res, 'C26'):
        ck.violate(e['func'], e['msg'], 'in operation %s at %s:%d' % (entry, e['file'], e['line']))
    ck.coverage.update({'operations with guarded cycles': guarded, 'operations whose cycles were searched': ops})
    cover(ck, res, 'C26')
    ck.assumptions = ['The recursion of median_of_medians and median_of_ninthers needs no guard: it gets a fixed fraction of the view each time.']
    ck.finish()


main()
