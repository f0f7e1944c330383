"""C10, C11, C12, C13, C22: contracts over ghost counters (harness/src/ghost.rs), decided by abstract interpretation: ghost.py C10"""
from engine import *

HOW = ' Abstract interpretation of the MIR for a symbolic length, stride and comparator; the contract is a set of assertions over counters only the analyser keeps, which the callbacks and the exchange of two elements update.'
RULES = {
    'C10': 'Deduplication must compare each element, in order, with the last kept one, keep it exactly when they differ, move it there by one exchange, and return the two parts split at the number kept.',
    'C11': 'A search must end between the last element found smaller and the first found greater, or on the one found equal, and never ask about an element outside the view.',
    'C12': 'The test must ask about every pair (i, i + 1) once, in order, until one fails, and answer accordingly.',
    'C13': 'The test must ask about every element once, in order, until one is equal, and answer accordingly.',
    'C22': 'Reversal must exchange positions i and n - 1 - i once for each i below n / 2 and nothing else.',
}
ENTRIES = {
    'C10': ['partition_dedup', 'partition_dedup_by', 'partition_dedup_by_key'],
    'C11': ['binary_search', 'binary_search_by', 'binary_search_by_key', 'partition_point'],
    'C12': ['is_sorted', 'is_sorted_by', 'is_sorted_by_key'],
    'C13': ['contains'],
    'C22': ['reverse'],
}


def main(pid):
    ck = Check(pid, RULES[pid] + HOW)
    build()
    jobs = []
    for name, feats, rel in (('ghost', 'ghost', False), ('rghostfull', FULL + ',ghost', True)):
        path, err = dump_ir(name, feats, rel)
        if path is None:
            lose(ck, err)
        have = set(entries_of(path))
        jobs += [(path, 'ghost_' + e, ()) for e in ENTRIES[pid] if 'ghost_' + e in have]
    res = many(jobs)
    decided = [r for r in res if r['complete'] and not any(e['prop'] == '??' for e in r['events'])]
    for entry, e in events(decided, pid):
        at = e['func'] if not e['func'].startswith('harness') else 'ndarray_slice::Slice1Ext::%s, on return' % entry[6:]
        ck.violate(at, e['msg'], 'in operation %s at %s:%d' % (entry[6:], e['file'], e['line']))
    cover(ck, res, pid)
    ck.floor('operations analysed', len(jobs), 2 * len(ENTRIES[pid]))
    ck.assumptions = ['The models of ndarray views and of the few standard library intrinsics are right (listed in DESIGN.md).',
                      'Undecided operations are reported in the coverage and raise no alarm.']
    ck.finish()


if __name__ == '__main__':
    main(sys.argv[1])
