"""C17: keys are computed once and positions fit the type that remembers them."""
from engine import *

RULE = ('Abstract interpretation of the cached-key operations for a symbolic length and keys of one, two, four and eight bytes: every conversion of a number '
        'to a narrower type in the crate must be proved lossless; the sequential operation must ask for the key of every element once, in order, '
        'and of none in views shorter than two (counters only the analyser keeps, harness/src/ghost.rs).')
SIZES = ['', '1', '2', '4']


def main():
    ck = Check('C17', RULE)
    build()
    jobs = []
    for name, feats, rel, names in (('rfull', FULL, True, ['%ssort_by_cached_key%s' % (p, k) for p in ('', 'par_') for k in SIZES]),
                                    ('rghostfull', FULL + ',ghost', True, ['ghost_sort_by_cached_key' + k for k in SIZES])):
        path, err = dump_ir(name, feats, rel)
        if path is None:
            lose(ck, err)
        have = set(entries_of(path))
        jobs += [(path, e, ()) for e in names if e in have]
    res = many(jobs)
    decided = [r for r in res if r['complete'] and not any(e['prop'] == '??' for e in r['events'])]
    for entry, e in events(decided, 'C17'):
        at = e['func'] if not e['func'].startswith('harness') else 'ndarray_slice::Slice1Ext::%s' % entry.replace('ghost_', '')
        ck.violate(at, e['msg'], 'in operation %s at %s:%d' % (entry.replace('ghost_', ''), e['file'], e['line']))
    cover(ck, res, 'C17')
    ck.floor('operations analysed', len(jobs), 12)
    ck.assumptions = ['rayon maps every item of a bridged iterator exactly once; sorting of the key vector by std or rayon only permutes it.',
                      'The models of ndarray views and of the few standard library intrinsics are right (listed in DESIGN.md).']
    ck.finish()


main()
