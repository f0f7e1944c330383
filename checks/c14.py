"""C14: effect analysis. No call path from an in-place operation reaches the allocator."""
import re
from common import *
c = Check('C14', 'Effect analysis over the resolved monomorphic call graph (calls, drop glue and every function value that a body mentions): '
          'no path from an operation documented as in-place reaches the global allocator or a body-less function of an allocating crate; '
          'in the build without alloc no operation does. Followed into closures given to stacker and rayon; panicking machinery, '
          'stack growth, rayon task submission and the user callbacks end a path.')
INPLACE = re.compile(r'^(par_)?(sort_unstable|select_nth|select_many_nth|partition_|is_sorted|contains|binary_search|reverse)')
# the collection given to these grows: that allocation belongs to the caller's Vec
PAR_COLLECT = re.compile(r'^par_select_many')
CUT = re.compile(r'^(core::panicking|std::rt::begin_panic|std::rt::panic|core::panic|std::panicking|alloc::fmt::format|core::fmt|harness::user_)')
ALLOC = re.compile(r'(__rust_(no_)?alloc|__rust_dealloc|__rust_realloc|exchange_malloc|box_new)')
BODYLESS_OK = re.compile(r'^(std::intrinsics|core::|harness::user_|stacker::maybe_grow|rayon_core::join|std::option::unwrap_failed|std::result::unwrap_failed|std::rt::|std::panicking|std::num|std::slice|std::panic)')


def scan(prog, name, select, collects):
    g = Graph(prog)
    n = funcs = calls = 0
    for e in g.entries:
        op = g.entry_name(e)
        if not select(op):
            continue
        n += 1
        par = g.reach(e, lambda f: CUT.match(f['path']))
        funcs += len(par)
        for x in par:
            f = g.F[x]
            calls += len(g.out[x])
            bad = None
            if ALLOC.search(f['path']):
                bad = 'reaches the allocator'
            elif f['body'] is None and f['kind'] not in ('intrinsic', 'shim') and not CUT.match(f['path']) and not BODYLESS_OK.match(f['path']):
                bad = 'reaches a function of unknown effect'
            if bad:
                if collects(op) and 'raw_vec' in f['path'] and via_vec_growth(g, par, x):
                    continue
                c.violate('%s %s' % (name, op), '%s: %s' % (bad, f['path']), g.chain(par, x))
    return n, funcs, calls


def via_vec_growth(g, par, x):
    """The growth of the caller's own collection: reached from the public operation directly through Vec's methods."""
    while x is not None:
        f = g.F[x]
        if f['krate'] == 'ndarray_slice':
            return 'par_select_many' in f['path']
        x = par[x]
    return False


full, err = dump('full', FULL)
if full is None:
    c.violate('build', 'the harness does not build against the current source', err[-4000:])
    c.finish()
n, f, k = scan(full, 'full', lambda o: bool(INPLACE.match(o)), lambda o: bool(PAR_COLLECT.match(o)))
c.floor('in_place_operations', n, 30)
c.floor("functions_reached", f, 1000)
c.coverage['call_edges'] = k
mini, err = dump('min', '')
if mini is None:
    c.violate('build', 'the harness does not build without features', err[-4000:])
    c.finish()
n, f, k = scan(mini, 'no-features', lambda o: True, lambda o: False)
c.floor('operations_without_alloc', n, 20)
c.floor("functions_reached_without_alloc", f, 600)
c.finish()
