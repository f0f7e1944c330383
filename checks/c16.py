"""C16 (type half): Send/Sync obligations of the parallel operations, by compile-fail witnesses with compiling twins."""
from common import *
from witness import *
c = Check('C16', 'Type-level witnesses: every parallel operation rejects (E0277) elements that may not move between threads, callbacks '
          'that may not be shared, and, for cached keys, elements that may not be shared and keys that may not be sent; '
          'the same calls with the weakest admissible types type-check (twins).')
P = '''#![allow(unused_must_use,dead_code,unused_imports,unused_mut,unused_variables)]
use ndarray_slice::{Slice1Ext, ndarray::{self, ArrayBase, Array1, Data, DataMut, Ix1, ArrayView1, ArrayViewMut1}};
use core::{cmp::Ordering, cell::Cell, marker::PhantomData};
macro_rules! ord { ($t:ident) => { impl PartialEq for $t { fn eq(&self, _: &Self) -> bool { true } } impl Eq for $t {} impl PartialOrd for $t { fn partial_cmp(&self, _: &Self) -> Option<Ordering> { None } } impl Ord for $t { fn cmp(&self, _: &Self) -> Ordering { Ordering::Equal } } } }
/// neither Send nor Sync
pub struct N(*mut u8); ord!(N);
/// Send, not Sync
pub struct S(Cell<u8>); ord!(S);
/// Sync, not Send
pub struct Y(PhantomData<std::sync::MutexGuard<'static, u8>>); ord!(Y);
/// Send and Sync
pub struct B(u8); ord!(B);
'''
SEL = 'i: &ArrayView1<usize>'
ops = {  # name: (call with comparator/key callback capturing `w`, callback kind)
    'par_sort': 'v.par_sort()', 'par_sort_unstable': 'v.par_sort_unstable()',
    'par_sort_by': 'v.par_sort_by(|a, b| { let _ = &w; Ordering::Less })', 'par_sort_unstable_by': 'v.par_sort_unstable_by(|a, b| { let _ = &w; Ordering::Less })',
    'par_sort_by_key': 'v.par_sort_by_key(|a| { let _ = &w; 0u8 })', 'par_sort_unstable_by_key': 'v.par_sort_unstable_by_key(|a| { let _ = &w; 0u8 })',
    'par_select_many_nth_unstable': 'let mut c = Vec::new(); v.par_select_many_nth_unstable(i, &mut c)',
    'par_select_many_nth_unstable_by': 'let mut c = Vec::new(); v.par_select_many_nth_unstable_by(i, &mut c, |a, b| { let _ = &w; Ordering::Less })',
    'par_select_many_nth_unstable_by_key': 'let mut c = Vec::new(); v.par_select_many_nth_unstable_by_key(i, &mut c, |a| { let _ = &w; 0u8 })',
    'par_sort_by_cached_key': 'v.par_sort_by_cached_key(|a| { let _ = &w; 0u8 })',
}


def fn(name, call, elem, cap):
    return "pub fn f_%s<'a>(v: &'a mut ArrayViewMut1<'_, %s>, i: &ArrayView1<usize>, w: %s) { %s; }" % (name, elem, cap, call)


ok, no = [], []
k = 0
for o, call in ops.items():
    cached = 'cached' in o
    ok.append((o + ' weakest element', fn('%s_a' % o, call, 'B' if cached else 'S', '&u8')))
    no.append((o + ' element not Send', fn('%s_b' % o, call, 'N', '&u8')))
    no.append((o + ' element Sync but not Send', fn('%s_c' % o, call, 'Y', '&u8')))
    if cached:
        no.append((o + ' element not Sync', fn('%s_d' % o, call, 'S', '&u8')))
        for t, lab in (('N', 'key not Send'), ('Y', 'key Sync but not Send')):
            no.append((o + ' ' + lab, fn('%s_e%s' % (o, t), 'v.par_sort_by_cached_key(|a| -> %s { todo!() })' % t, 'B', '&u8')))
        ok.append((o + ' key Send, not Sync', fn('%s_f' % o, 'v.par_sort_by_cached_key(|a| -> S { todo!() })', 'B', '&u8')))
    if '|a' in call:
        no.append((o + ' callback not Sync', fn('%s_g' % o, call, 'B', '&Cell<u8>')))
        no.append((o + ' callback Send but not Sync', fn('%s_i' % o, call.replace('|a', 'move |a').replace('let _ = &w;', 'w.set(1);'), 'B', 'Cell<u8>')))
        # a callback that is Sync but not Send may be shared by reference
        no.append((o + ' callback mutates its captures', fn('%s_h' % o, 'let mut n = 0u8; ' + call.replace('let _ = &w;', 'n += 1;'), 'B', '&u8')))
n = twins(c, 'sendsync', P, ok, ['rayon', 'stacker'], 'an admissible call is rejected')
c.floor('admissible_calls_accepted', n, 11)
n = witnesses(c, 'sendsync', P, no, ['rayon', 'stacker'], {'E0277', 'E0594', 'E0596', 'E0525'}, 'a call that shares what may not be shared type-checks')
c.floor('inadmissible_calls_rejected', n, 44)
c.finish()
