//! Instantiates every public operation once with element and key types that can do nothing but
//! be moved, and with callbacks the analyser knows nothing about. Nothing here is ever run.
#![cfg_attr(not(feature = "std"), no_std)]
#![allow(dead_code, unused_must_use, improper_ctypes)]
#[cfg(feature = "ghost")]
pub mod ghost;
use core::cell::Cell;
use core::cmp::Ordering;
use ndarray_slice::Slice1Ext;
use ndarray_slice::ndarray::{ArrayView1, ArrayViewMut1};

/// An element: droppable, not `Copy`, interior-mutable, `Send` but not `Sync`.
pub struct E {
    a: u64,
    b: Cell<u64>,
    c: u64,
}
/// An element that is also `Sync`.
pub struct ES {
    a: u64,
    b: u64,
    c: u64,
}
/// A zero-sized element with drop glue.
pub struct Z;
/// A key.
pub struct K {
    a: u64,
}
/// Keys of one, two and four bytes.
pub struct K1(u8);
pub struct K2(u16);
pub struct K4(u32);

unsafe extern "Rust" {
    fn user_drop(e: *mut u8);
    fn user_cmp(a: &E, b: &E) -> Ordering;
    fn user_partial_cmp(a: &E, b: &E) -> Option<Ordering>;
    fn user_eq(a: &E, b: &E) -> bool;
    fn user_cmp_es(a: &ES, b: &ES) -> Ordering;
    fn user_cmp_z(a: &Z, b: &Z) -> Ordering;
    fn user_bool_z(a: &mut Z, b: &mut Z) -> bool;
    fn user_sorted(a: &E, b: &E) -> bool;
    fn user_key(a: &E) -> K;
    fn user_key_mut(a: &mut E) -> K;
    fn user_key_es(a: &ES) -> K;
    fn user_key1(a: &E) -> K1;
    fn user_key2(a: &E) -> K2;
    fn user_key4(a: &E) -> K4;
    fn user_key1_es(a: &ES) -> K1;
    fn user_key2_es(a: &ES) -> K2;
    fn user_key4_es(a: &ES) -> K4;
    fn user_key_cmp(a: *const u8, b: *const u8) -> Ordering;
    fn user_key_partial_cmp(a: *const u8, b: *const u8) -> Option<Ordering>;
    fn user_key_eq(a: *const u8, b: *const u8) -> bool;
    fn user_same(a: &mut E, b: &mut E) -> bool;
    fn user_pred(a: &E) -> bool;
    fn user_probe(a: &E) -> Ordering;
    fn user_extend(i: usize, e: *mut E);
    fn user_extend_z(i: usize, e: *mut Z);
}
macro_rules! ord {
    ($t:ty) => {
        impl PartialEq for $t {
            fn eq(&self, o: &Self) -> bool {
                unsafe { user_key_eq(self as *const _ as *const u8, o as *const _ as *const u8) }
            }
        }
        impl Eq for $t {}
        impl PartialOrd for $t {
            fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
                unsafe { user_key_partial_cmp(self as *const _ as *const u8, o as *const _ as *const u8) }
            }
        }
        impl Ord for $t {
            fn cmp(&self, o: &Self) -> Ordering {
                unsafe { user_key_cmp(self as *const _ as *const u8, o as *const _ as *const u8) }
            }
        }
    };
}
ord!(K);
ord!(K1);
ord!(K2);
ord!(K4);
impl PartialEq for E {
    fn eq(&self, o: &Self) -> bool {
        #[cfg(feature = "ghost")]
        return ghost::elem_eq(self, o);
        #[cfg(not(feature = "ghost"))]
        unsafe { user_eq(self, o) }
    }
}
impl Eq for E {}
impl PartialOrd for E {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        #[cfg(feature = "ghost")]
        return ghost::elem_partial_cmp(self, o);
        #[cfg(not(feature = "ghost"))]
        unsafe { user_partial_cmp(self, o) }
    }
}
impl Ord for E {
    fn cmp(&self, o: &Self) -> Ordering {
        #[cfg(feature = "ghost")]
        return ghost::elem_cmp(self, o);
        #[cfg(not(feature = "ghost"))]
        unsafe { user_cmp(self, o) }
    }
}
macro_rules! droppable {
    ($t:ty) => {
        impl Drop for $t {
            fn drop(&mut self) {
                unsafe { user_drop(self as *mut _ as *mut u8) }
            }
        }
    };
}
droppable!(E);
droppable!(ES);
droppable!(Z);
droppable!(K);

/// A collection the analyser knows nothing about.
pub struct Sink;
impl<'a> Extend<(usize, &'a mut E)> for Sink {
    fn extend<I: IntoIterator<Item = (usize, &'a mut E)>>(&mut self, it: I) {
        for (i, e) in it {
            unsafe { user_extend(i, e) }
        }
    }
}
impl<'a> Extend<(usize, &'a mut Z)> for Sink {
    fn extend<I: IntoIterator<Item = (usize, &'a mut Z)>>(&mut self, it: I) {
        for (i, e) in it {
            unsafe { user_extend_z(i, e) }
        }
    }
}
type V<'a> = ArrayViewMut1<'a, E>;
type VS<'a> = ArrayViewMut1<'a, ES>;
type VZ<'a> = ArrayViewMut1<'a, Z>;
type R<'a> = ArrayView1<'a, E>;
type Ix<'a> = ArrayView1<'a, usize>;
type Sel<'a> = (ArrayViewMut1<'a, E>, &'a mut E, ArrayViewMut1<'a, E>);

// In-place operations, every feature set.
pub fn entry_sort_unstable(v: &mut V<'_>) {
    v.sort_unstable()
}
pub fn entry_sort_unstable_by(v: &mut V<'_>) {
    v.sort_unstable_by(|a, b| unsafe { user_cmp(a, b) })
}
pub fn entry_sort_unstable_by_key(v: &mut V<'_>) {
    v.sort_unstable_by_key(|a| unsafe { user_key(a) })
}
pub fn entry_sort_unstable_by_zst(v: &mut VZ<'_>) {
    v.sort_unstable_by(|a, b| unsafe { user_cmp_z(a, b) })
}
pub fn entry_is_sorted(v: &R<'_>) -> bool {
    v.is_sorted()
}
pub fn entry_is_sorted_by(v: &R<'_>) -> bool {
    v.is_sorted_by(|a, b| unsafe { user_sorted(a, b) })
}
pub fn entry_is_sorted_by_key(v: &R<'_>) -> bool {
    v.is_sorted_by_key(|a| unsafe { user_key(a) })
}
pub fn entry_select_many_nth_unstable<'a>(v: &'a mut V<'_>, i: &Ix<'_>, c: &mut Sink) {
    v.select_many_nth_unstable(i, c)
}
pub fn entry_select_many_nth_unstable_by<'a>(v: &'a mut V<'_>, i: &Ix<'_>, c: &mut Sink) {
    v.select_many_nth_unstable_by(i, c, |a, b| unsafe { user_cmp(a, b) })
}
pub fn entry_select_many_nth_unstable_by_key<'a>(v: &'a mut V<'_>, i: &Ix<'_>, c: &mut Sink) {
    v.select_many_nth_unstable_by_key(i, c, |a| unsafe { user_key(a) })
}
pub fn entry_select_many_nth_unstable_by_zst<'a>(v: &'a mut VZ<'_>, i: &Ix<'_>, c: &mut Sink) {
    v.select_many_nth_unstable_by(i, c, |a, b| unsafe { user_cmp_z(a, b) })
}
pub fn entry_select_nth_unstable<'a>(v: &'a mut V<'_>, i: usize) -> Sel<'a> {
    v.select_nth_unstable(i)
}
pub fn entry_select_nth_unstable_by<'a>(v: &'a mut V<'_>, i: usize) -> Sel<'a> {
    v.select_nth_unstable_by(i, |a, b| unsafe { user_cmp(a, b) })
}
pub fn entry_select_nth_unstable_by_key<'a>(v: &'a mut V<'_>, i: usize) -> Sel<'a> {
    v.select_nth_unstable_by_key(i, |a| unsafe { user_key(a) })
}
pub fn entry_select_nth_unstable_by_zst<'a>(v: &'a mut VZ<'_>, i: usize) -> (ArrayViewMut1<'a, Z>, &'a mut Z, ArrayViewMut1<'a, Z>) {
    v.select_nth_unstable_by(i, |a, b| unsafe { user_cmp_z(a, b) })
}
pub fn entry_partition_point(v: &R<'_>) -> usize {
    v.partition_point(|a| unsafe { user_pred(a) })
}
pub fn entry_contains(v: &R<'_>, x: &E) -> bool {
    v.contains(x)
}
pub fn entry_binary_search(v: &R<'_>, x: &E) -> Result<usize, usize> {
    v.binary_search(x)
}
pub fn entry_binary_search_by(v: &R<'_>) -> Result<usize, usize> {
    v.binary_search_by(|a| unsafe { user_probe(a) })
}
pub fn entry_binary_search_by_key(v: &R<'_>, k: &K) -> Result<usize, usize> {
    v.binary_search_by_key(k, |a| unsafe { user_key(a) })
}
pub fn entry_partition_dedup<'a>(v: &'a mut V<'_>) -> (ArrayViewMut1<'a, E>, ArrayViewMut1<'a, E>) {
    v.partition_dedup()
}
pub fn entry_partition_dedup_by<'a>(v: &'a mut V<'_>) -> (ArrayViewMut1<'a, E>, ArrayViewMut1<'a, E>) {
    v.partition_dedup_by(|a, b| unsafe { user_same(a, b) })
}
pub fn entry_partition_dedup_by_key<'a>(v: &'a mut V<'_>) -> (ArrayViewMut1<'a, E>, ArrayViewMut1<'a, E>) {
    v.partition_dedup_by_key(|a| unsafe { user_key_mut(a) })
}
pub fn entry_partition_dedup_by_zst<'a>(v: &'a mut VZ<'_>) -> (ArrayViewMut1<'a, Z>, ArrayViewMut1<'a, Z>) {
    v.partition_dedup_by(|a, b| unsafe { user_bool_z(a, b) })
}
pub fn entry_reverse(v: &mut V<'_>) {
    v.reverse()
}
pub fn entry_reverse_zst(v: &mut VZ<'_>) {
    v.reverse()
}

#[cfg(feature = "alloc")]
pub mod alloc_ops {
    use super::*;
    pub fn entry_sort(v: &mut V<'_>) {
        v.sort()
    }
    pub fn entry_sort_by(v: &mut V<'_>) {
        v.sort_by(|a, b| unsafe { user_cmp(a, b) })
    }
    pub fn entry_sort_by_key(v: &mut V<'_>) {
        v.sort_by_key(|a| unsafe { user_key(a) })
    }
    pub fn entry_sort_by_zst(v: &mut VZ<'_>) {
        v.sort_by(|a, b| unsafe { user_cmp_z(a, b) })
    }
}
#[cfg(feature = "std")]
pub mod std_ops {
    use super::*;
    pub fn entry_sort_by_cached_key(v: &mut V<'_>) {
        v.sort_by_cached_key(|a| unsafe { user_key(a) })
    }
    pub fn entry_sort_by_cached_key1(v: &mut V<'_>) {
        v.sort_by_cached_key(|a| unsafe { user_key1(a) })
    }
    pub fn entry_sort_by_cached_key2(v: &mut V<'_>) {
        v.sort_by_cached_key(|a| unsafe { user_key2(a) })
    }
    pub fn entry_sort_by_cached_key4(v: &mut V<'_>) {
        v.sort_by_cached_key(|a| unsafe { user_key4(a) })
    }
}
#[cfg(feature = "rayon")]
pub mod par_ops {
    use super::*;
    pub fn entry_par_sort(v: &mut V<'_>) {
        v.par_sort()
    }
    pub fn entry_par_sort_by(v: &mut V<'_>) {
        v.par_sort_by(|a, b| unsafe { user_cmp(a, b) })
    }
    pub fn entry_par_sort_by_key(v: &mut V<'_>) {
        v.par_sort_by_key(|a| unsafe { user_key(a) })
    }
    pub fn entry_par_sort_by_zst(v: &mut VZ<'_>) {
        v.par_sort_by(|a, b| unsafe { user_cmp_z(a, b) })
    }
    pub fn entry_par_sort_by_cached_key(v: &mut VS<'_>) {
        v.par_sort_by_cached_key(|a| unsafe { user_key_es(a) })
    }
    pub fn entry_par_sort_by_cached_key1(v: &mut VS<'_>) {
        v.par_sort_by_cached_key(|a| unsafe { user_key1_es(a) })
    }
    pub fn entry_par_sort_by_cached_key2(v: &mut VS<'_>) {
        v.par_sort_by_cached_key(|a| unsafe { user_key2_es(a) })
    }
    pub fn entry_par_sort_by_cached_key4(v: &mut VS<'_>) {
        v.par_sort_by_cached_key(|a| unsafe { user_key4_es(a) })
    }
    pub fn entry_par_sort_unstable(v: &mut V<'_>) {
        v.par_sort_unstable()
    }
    pub fn entry_par_sort_unstable_by(v: &mut V<'_>) {
        v.par_sort_unstable_by(|a, b| unsafe { user_cmp(a, b) })
    }
    pub fn entry_par_sort_unstable_by_key(v: &mut V<'_>) {
        v.par_sort_unstable_by_key(|a| unsafe { user_key(a) })
    }
    pub fn entry_par_sort_unstable_by_zst(v: &mut VZ<'_>) {
        v.par_sort_unstable_by(|a, b| unsafe { user_cmp_z(a, b) })
    }
    pub fn entry_par_select_many_nth_unstable<'a>(v: &'a mut V<'_>, i: &Ix<'_>, c: &mut Vec<&'a mut E>) {
        v.par_select_many_nth_unstable(i, c)
    }
    pub fn entry_par_select_many_nth_unstable_by<'a>(v: &'a mut V<'_>, i: &Ix<'_>, c: &mut Vec<&'a mut E>) {
        v.par_select_many_nth_unstable_by(i, c, |a, b| unsafe { user_cmp(a, b) })
    }
    pub fn entry_par_select_many_nth_unstable_by_key<'a>(v: &'a mut V<'_>, i: &Ix<'_>, c: &mut Vec<&'a mut E>) {
        v.par_select_many_nth_unstable_by_key(i, c, |a| unsafe { user_key(a) })
    }
}
