C['C14'] = ('python3 checks/c14.py', 'effect analysis over the resolved monomorphic call graph (MIR)', 'other',
            'Complete over the instantiated operations; panicking machinery, stacker and rayon internals end a path.')
C['C15'] = ('python3 checks/c15.py', 'effect analysis and interprocedural address-taint analysis on MIR', 'other',
            'Complete over the instantiated sequential operations; the standard library is trusted not to leak addresses.')
C['C16'] = ('python3 checks/c16.py', 'compile-fail Send/Sync witnesses with compiling twins', 'other',
            'The type half; rayon is trusted to run closures only within its scope.')
C['C23'] = ('python3 checks/c23.py', 'compile-fail witnesses of the feature surface with compiling twins', 'other',
            'Seven feature sets; no_std by the duplicate-lang-item witness.')
AI = 'abstract interpretation of MIR (relational numeric domain, segmented memory with ownership and a symbolic stride)'
SEQ = 'Every operation of the build without features, and the allocating stable sorts, for all lengths, strides and comparators; unproved places alarm, undecided operations are listed in the evidence. ndarray and rayon internals are models.'
for _p in ('C01', 'C02', 'C03', 'C04', 'C06', 'C19', 'C25'):
    C[_p] = ('python3 checks/memory.py ' + _p, AI, 'other', SEQ)
C['C05'] = ('python3 checks/c05.py', AI, 'other', 'Single-index selection, debug and release builds, all element types including zero-sized ones.')
GH = 'abstract interpretation of MIR with ghost counters and contract assertions'
for _p in ('C10', 'C11', 'C12', 'C13', 'C22'):
    C[_p] = ('python3 checks/ghost.py ' + _p, GH, 'other', 'For all lengths, strides, contents and callbacks, in the smallest and the full build; ndarray internals are models, exchanges are observed at ptr::swap.')
C['C20'] = ('python3 checks/c20.py', 'abstract interpretation of every comparison adaptor for a fixed order of its arguments (MIR, call graph)', 'other',
            'All adaptors of the sorting and selecting operations, sequential and parallel; cached-key operations and the uses inside the algorithms are left out.')
C['C17'] = ('python3 checks/c17.py', GH, 'other', 'All lengths and four key sizes; narrowing conversions in the sequential and the parallel operation, the number of key computations in the sequential one.')
C['C26'] = ('python3 checks/c26.py', 'abstract interpretation of MIR for the halving, call-graph cycle analysis for the guard', 'other',
            'Halving: sequential operations, all lengths and comparators; guard: all unstable and selecting operations of the full build.')
NA['C07'] = 'That the output is sorted relates the contents of arbitrarily many slots to a total order through partitioning, heaps and merges: quantified invariants over element values that no static argument in reach infers. The parts in reach are claimed as C03 (permutation) and C20 (comparison adaptors).'
NA['C08'] = 'Stability needs the original positions of equal elements carried through insertion, run detection and merging: quantified invariants over element values, out of reach for the abstractions here. C20 decides that no adaptor treats equal elements as less.'
NA['C09'] = 'The rank of the selected element depends on quantified order facts about both sides of every partition, out of reach for the abstractions here. C03, C05 and C20 cover permutation, rejection and comparison sense.'
NA['C24'] = 'A bound on the number of comparisons for adversarial inputs needs amortised arguments over runtime data (balance of pivots, lengths of runs), which no sound static argument in reach gives.'
NA['C18'] = 'Termination needs a ranking argument per loop that holds whatever the comparator answers. For several loops (the cyclic-permutation walk of the cached-key sorts, run merging, pattern breaking) it rests on the contents of index or run arrays, which the abstractions here do not relate; a check that covered only the counted loops would not decide the property.'
NA['C21'] = 'The slot-by-slot correspondence between the contents of the caller\'s index array and of the collection passes through a recursion that splits both, with an offset that depends on earlier answers; carrying such element facts through a recursion summary is out of reach of the analyser here. C01, C02, C05 and C15 cover the memory side of the same code.'
