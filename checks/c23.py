"""C23: the feature surface, by compile-fail witnesses with compiling twins."""
from common import *
from witness import *
c = Check('C23', 'Type-level witnesses: with each feature set every documented operation type-checks on a generic 1-D array (twin) and every '
          'operation outside it is rejected as unknown (E0599, witness); a no_std crate with its own panic handler type-checks against '
          'the build without std, which it cannot when any crate in the graph links std (E0152).')
P = '#![cfg_attr(not(any()), no_std)]\n#![allow(unused_must_use,dead_code,unused_imports,unused_mut)]\nextern crate alloc;\nuse ndarray_slice::{Slice1Ext, ndarray::{self, ArrayBase, Data, DataMut, Ix1, ArrayView1}};\nuse core::cmp::Ordering;\npub struct Sink; impl<T> Extend<T> for Sink { fn extend<I: IntoIterator<Item = T>>(&mut self, _: I) {} }\n'
G = 'S: DataMut<Elem = u32>'
ops = {
    'core': {
        'sort_unstable': 'v.sort_unstable()', 'sort_unstable_by': 'v.sort_unstable_by(|a, b| a.cmp(b))', 'sort_unstable_by_key': 'v.sort_unstable_by_key(|a| *a)',
        'is_sorted': 'let _: bool = v.is_sorted()', 'is_sorted_by': 'let _: bool = v.is_sorted_by(|a, b| a <= b)', 'is_sorted_by_key': 'let _: bool = v.is_sorted_by_key(|a| *a)',
        'select_many_nth_unstable': 'v.select_many_nth_unstable(i, &mut Sink)', 'select_many_nth_unstable_by': 'v.select_many_nth_unstable_by(i, &mut Sink, |a, b| a.cmp(b))',
        'select_many_nth_unstable_by_key': 'v.select_many_nth_unstable_by_key(i, &mut Sink, |a| *a)',
        'select_nth_unstable': 'let (_, _, _) = v.select_nth_unstable(0)', 'select_nth_unstable_by': 'let (_, _, _) = v.select_nth_unstable_by(0, |a, b| a.cmp(b))',
        'select_nth_unstable_by_key': 'let (_, _, _) = v.select_nth_unstable_by_key(0, |a| *a)',
        'partition_point': 'let _: usize = v.partition_point(|a| *a < 1)', 'contains': 'let _: bool = v.contains(&1)',
        'binary_search': 'let _: Result<usize, usize> = v.binary_search(&1)', 'binary_search_by': 'let _: Result<usize, usize> = v.binary_search_by(|a| a.cmp(&1))',
        'binary_search_by_key': 'let _: Result<usize, usize> = v.binary_search_by_key(&1, |a| *a)',
        'partition_dedup': 'let (_, _) = v.partition_dedup()', 'partition_dedup_by': 'let (_, _) = v.partition_dedup_by(|a, b| a == b)',
        'partition_dedup_by_key': 'let (_, _) = v.partition_dedup_by_key(|a| *a)', 'reverse': 'v.reverse()'},
    'alloc': {'sort': 'v.sort()', 'sort_by': 'v.sort_by(|a, b| a.cmp(b))', 'sort_by_key': 'v.sort_by_key(|a| *a)'},
    'std': {'sort_by_cached_key': 'v.sort_by_cached_key(|a| *a)'},
    'rayon': {'par_sort': 'v.par_sort()', 'par_sort_by': 'v.par_sort_by(|a, b| a.cmp(b))', 'par_sort_by_key': 'v.par_sort_by_key(|a| *a)',
              'par_sort_by_cached_key': 'v.par_sort_by_cached_key(|a| *a)', 'par_sort_unstable': 'v.par_sort_unstable()',
              'par_sort_unstable_by': 'v.par_sort_unstable_by(|a, b| a.cmp(b))', 'par_sort_unstable_by_key': 'v.par_sort_unstable_by_key(|a| *a)',
              'par_select_many_nth_unstable': 'let mut c = alloc::vec::Vec::new(); v.par_select_many_nth_unstable(i, &mut c)',
              'par_select_many_nth_unstable_by': 'let mut c = alloc::vec::Vec::new(); v.par_select_many_nth_unstable_by(i, &mut c, |a, b| a.cmp(b))',
              'par_select_many_nth_unstable_by_key': 'let mut c = alloc::vec::Vec::new(); v.par_select_many_nth_unstable_by_key(i, &mut c, |a| *a)'},
}
sets = {'': ['core'], 'stacker': ['core'], 'alloc': ['core', 'alloc'], 'std': ['core', 'alloc', 'std'], 'std+stacker': ['core', 'alloc', 'std'],
        'rayon': ['core', 'alloc', 'std', 'rayon'], 'rayon+std+stacker+alloc': ['core', 'alloc', 'std', 'rayon']}


def fn(i, body):
    return 'pub fn f_%s<S: DataMut<Elem = u32>>(v: &mut ArrayBase<S, Ix1>, i: &ArrayView1<usize>) { %s; }' % (i, body)


present = absent = 0
for s, groups in sets.items():
    feats = [f for f in s.split('+') if f]
    tag = s or 'no-features'
    ok = [(tag + ' ' + k, fn(k, b)) for g in groups for k, b in ops[g].items()]
    no = [(tag + ' ' + k, fn(k, b)) for g in ops if g not in groups for k, b in ops[g].items()]
    present += twins(c, 'surface', P, ok, feats, 'documented operation is missing from this feature set')
    if no:
        absent += witnesses(c, 'surface', P, no, feats, {'E0599'}, 'operation is offered although this feature set does not include it')
c.floor('operations_present', present, 21 * 7 + 3 * 5 + 4 + 10 * 2)
c.floor('operations_absent', absent, 40)
NOSTD = '#![no_std]\nuse ndarray_slice::Slice1Ext;\nextern crate alloc;\n#[panic_handler] fn p(_: &core::panic::PanicInfo) -> ! { loop {} }\n'
n = 0
for s in ['', 'alloc']:
    n += twins(c, 'nostd', NOSTD, [('no_std %s' % (s or 'no-features'), 'pub fn f(v: &mut ndarray_slice::ndarray::ArrayViewMut1<u32>) { v.reverse() }')],
               [s] if s else [], 'the build without std does not work without the standard library')
c.floor('no_std_builds', n, 2)
# the witness itself must be able to fail: with std in the graph the panic handler is a duplicate
errs, why = rustc_check('nostd', NOSTD, ['std'])
if not (errs and any(code == 'E0152' for _, code, _ in errs)):
    c.violate('no_std witness', 'does not notice std in the crate graph', str(errs) + why[-500:])
c.finish()
