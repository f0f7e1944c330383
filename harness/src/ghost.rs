//! Contracts of the searching, testing, deduplicating and reversing operations, written as assertions over
//! counters that only the analyser keeps. Nothing here is ever run.
use super::*;

unsafe extern "Rust" {
    /// The analyser's own numbers.
    fn ghost_set(k: usize, x: usize);
    fn ghost_get(k: usize) -> usize;
    /// The position of an element in the view, or `usize::MAX`.
    fn ghost_index(e: *const E) -> usize;
    /// Must hold for property `p`.
    fn ghost_check(p: usize, c: bool);
    fn user_answer() -> bool;
    fn user_order() -> Ordering;
    fn user_partial_order() -> Option<Ordering>;
}
fn set(k: usize, x: usize) {
    unsafe { ghost_set(k, x) }
}
fn get(k: usize) -> usize {
    unsafe { ghost_get(k) }
}
fn index(e: &E) -> usize {
    unsafe { ghost_index(e) }
}
fn check(p: usize, c: bool) {
    unsafe { ghost_check(p, c) }
}
fn answer() -> bool {
    unsafe { user_answer() }
}
const SORTED: usize = 12;
const CONTAINS: usize = 13;
const SEARCH: usize = 11;
const DEDUP: usize = 10;
const REVERSE: usize = 22;
/// Numbers from here on are never blurred.
const FLAG: usize = 8;
const OUTSIDE: usize = usize::MAX;

/// 0: what is under way; 1..5: see there. Short views are kept apart.
fn begin(mode: usize, n: usize) {
    if n == 0 {
        set(FLAG + 1, 0);
    } else if n == 1 {
        set(FLAG + 1, 1);
    } else {
        set(FLAG + 1, 2);
    }
    set(0, mode);
    set(1, 0);
    set(2, 0);
    set(3, 0);
    set(4, 0);
    set(FLAG, 0);
}

/// A key that remembers where its element is.
pub struct KG(usize);
impl PartialEq for KG {
    fn eq(&self, o: &Self) -> bool {
        same(self.0, o.0)
    }
}
impl Eq for KG {}
impl PartialOrd for KG {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        partial_order(self.0, o.0)
    }
}
impl Ord for KG {
    fn cmp(&self, o: &Self) -> Ordering {
        order(self.0, o.0)
    }
}
/// What the element type's own comparisons do.
pub fn elem_eq(a: &E, b: &E) -> bool {
    same(index(a), index(b))
}
pub fn elem_partial_cmp(a: &E, b: &E) -> Option<Ordering> {
    partial_order(index(a), index(b))
}
pub fn elem_cmp(a: &E, b: &E) -> Ordering {
    order(index(a), index(b))
}
fn same(i: usize, j: usize) -> bool {
    let r = answer();
    if get(0) == CONTAINS {
        contained(if i == OUTSIDE { j } else { i }, r);
    } else if i > j {
        dedup(i, j, r);
    } else {
        dedup(j, i, r);
    }
    r
}
fn partial_order(i: usize, j: usize) -> Option<Ordering> {
    let r = unsafe { user_partial_order() };
    sorted(i, j, matches!(r, Some(Ordering::Less | Ordering::Equal)));
    r
}
fn order(i: usize, j: usize) -> Ordering {
    if i == OUTSIDE {
        let r = position(j);
        probed(j, r);
        r.reverse()
    } else {
        check(SEARCH, j == OUTSIDE);
        let r = position(i);
        probed(i, r);
        r
    }
}
/// Where an element of the view belongs, which must not contradict what has been said before.
fn position(i: usize) -> Ordering {
    if i < get(1) {
        Ordering::Less
    } else if i >= get(2) {
        Ordering::Greater
    } else if i + 1 == get(3) {
        Ordering::Equal
    } else {
        unsafe { user_order() }
    }
}

// 1: the next pair, FLAG: a pair has failed
fn sorted(i: usize, j: usize, ok: bool) {
    let k = get(1);
    check(SORTED, get(FLAG) == 0);
    check(SORTED, i == k && j == k + 1);
    set(1, k + 1);
    if !ok {
        set(FLAG, 1);
    }
}
fn sorted_end(n: usize, r: bool) {
    if r {
        check(SORTED, get(FLAG) == 0);
        if n < 2 {
            check(SORTED, get(1) == 0);
        } else {
            check(SORTED, get(1) == n - 1);
        }
    } else {
        check(SORTED, get(FLAG) == 1);
    }
}
pub fn entry_ghost_is_sorted(v: &R<'_>) {
    let n = v.len();
    begin(SORTED, n);
    sorted_end(n, v.is_sorted());
}
pub fn entry_ghost_is_sorted_by(v: &R<'_>) {
    let n = v.len();
    begin(SORTED, n);
    let r = v.is_sorted_by(|a, b| {
        let r = answer();
        sorted(index(a), index(b), r);
        r
    });
    sorted_end(n, r);
}
pub fn entry_ghost_is_sorted_by_key(v: &R<'_>) {
    let n = v.len();
    begin(SORTED, n);
    sorted_end(n, v.is_sorted_by_key(|a| KG(index(a))));
}

// 1: the next element, FLAG: one is equal
fn contained(i: usize, r: bool) {
    check(CONTAINS, get(FLAG) == 0);
    check(CONTAINS, i == get(1));
    set(1, i + 1);
    if r {
        set(FLAG, 1);
    }
}
pub fn entry_ghost_contains(v: &R<'_>, x: &E) {
    let n = v.len();
    begin(CONTAINS, n);
    if v.contains(x) {
        check(CONTAINS, get(FLAG) == 1);
    } else {
        check(CONTAINS, get(FLAG) == 0 && get(1) == n);
    }
}

// 1: behind the last smaller element, 2: the first greater element, 3: behind the equal element
fn probed(i: usize, r: Ordering) {
    check(SEARCH, i < get(4));
    match r {
        Ordering::Less => {
            if i + 1 > get(1) {
                set(1, i + 1);
            }
        }
        Ordering::Greater => {
            if i < get(2) {
                set(2, i);
            }
        }
        Ordering::Equal => set(3, i + 1),
    }
}
fn search_begin(n: usize) {
    begin(SEARCH, n);
    set(2, n);
    set(4, n);
}
fn search_end(n: usize, r: Result<usize, usize>) {
    match r {
        Ok(i) => check(SEARCH, i < n && get(3) == i + 1),
        Err(i) => check(SEARCH, i <= n && get(1) == i && get(2) == i),
    }
}
pub fn entry_ghost_binary_search(v: &R<'_>, x: &E) {
    search_begin(v.len());
    search_end(v.len(), v.binary_search(x));
}
pub fn entry_ghost_binary_search_by(v: &R<'_>) {
    search_begin(v.len());
    let r = v.binary_search_by(|a| {
        let r = position(index(a));
        probed(index(a), r);
        r
    });
    search_end(v.len(), r);
}
pub fn entry_ghost_binary_search_by_key(v: &R<'_>) {
    search_begin(v.len());
    search_end(v.len(), v.binary_search_by_key(&KG(OUTSIDE), |a| KG(index(a))));
}
pub fn entry_ghost_partition_point(v: &R<'_>) {
    search_begin(v.len());
    let i = v.partition_point(|a| {
        let i = index(a);
        let r = if i < get(1) { true } else if i >= get(2) { false } else { answer() };
        probed(i, if r { Ordering::Less } else { Ordering::Greater });
        r
    });
    check(SEARCH, i <= v.len() && get(1) == i && get(2) == i);
}

// 1: the next element to read, 2: the end of those kept, FLAG: one is to be moved there
fn dedup(i: usize, j: usize, r: bool) {
    let (read, write) = (get(1), get(2));
    check(DEDUP, get(FLAG) == 0);
    check(DEDUP, i == read && j + 1 == write);
    if !r {
        if read != write {
            set(FLAG, 1);
        }
        set(2, write + 1);
    }
    set(1, read + 1);
}
fn dedup_begin(n: usize) {
    begin(DEDUP, n);
    set(1, 1);
    set(2, 1);
}
fn dedup_end(n: usize, r: (ArrayViewMut1<'_, E>, ArrayViewMut1<'_, E>)) {
    let (x, y) = r;
    check(DEDUP, get(FLAG) == 0);
    check(DEDUP, x.len() + y.len() == n);
    if n == 0 {
        return;
    }
    check(DEDUP, get(1) == n);
    check(DEDUP, x.len() == get(2));
    check(DEDUP, unsafe { ghost_index(x.as_ptr()) } == 0);
    if y.len() > 0 {
        check(DEDUP, unsafe { ghost_index(y.as_ptr()) } == get(2));
    }
}
pub fn entry_ghost_partition_dedup(v: &mut V<'_>) {
    let n = v.len();
    dedup_begin(n);
    dedup_end(n, v.partition_dedup());
}
pub fn entry_ghost_partition_dedup_by(v: &mut V<'_>) {
    let n = v.len();
    dedup_begin(n);
    dedup_end(
        n,
        v.partition_dedup_by(|a, b| {
            let r = answer();
            dedup(index(a), index(b), r);
            r
        }),
    );
}
pub fn entry_ghost_partition_dedup_by_key(v: &mut V<'_>) {
    let n = v.len();
    dedup_begin(n);
    dedup_end(n, v.partition_dedup_by_key(|a| KG(index(a))));
}

// 1: pairs exchanged
pub fn entry_ghost_reverse(v: &mut V<'_>) {
    let n = v.len();
    begin(REVERSE, n);
    set(4, n);
    v.reverse();
    check(REVERSE, get(1) == n / 2);
}

/// Called whenever two elements of the view change places.
pub fn ghost_on_swap(i: usize, j: usize) {
    let mode = get(0);
    if i == j {
        return;
    }
    if mode == DEDUP {
        let (read, write) = (get(1), get(2));
        check(DEDUP, get(FLAG) == 1);
        check(DEDUP, i + 1 == read && j + 1 == write || j + 1 == read && i + 1 == write);
        set(FLAG, 0);
    }
    if mode == REVERSE {
        let (n, k) = (get(4), get(1));
        check(REVERSE, i + j == n - 1);
        let m = if i < j { i } else { j };
        check(REVERSE, m == k || m == n / 2 - 1 - k);
        set(1, k + 1);
    }
}
pub fn entry_ghost_hook(i: usize, j: usize) {
    ghost_on_swap(i, j)
}

const CACHED: usize = 17;
/// 1: keys computed.
#[cfg(feature = "std")]
macro_rules! cached {
    ($name:ident, $k:ident, $key:ident) => {
        pub fn $name(mut v: V<'_>) {
            let n = v.len();
            begin(CACHED, n);
            v.sort_by_cached_key(|e| {
                let i = index(e);
                check(CACHED, i == get(1) && i < n && n > 1);
                set(1, get(1) + 1);
                unsafe { $key(e) }
            });
            check(CACHED, get(1) == if n < 2 { 0 } else { n });
        }
    };
}
#[cfg(feature = "std")]
cached!(entry_ghost_sort_by_cached_key, K, user_key);
#[cfg(feature = "std")]
cached!(entry_ghost_sort_by_cached_key1, K1, user_key1);
#[cfg(feature = "std")]
cached!(entry_ghost_sort_by_cached_key2, K2, user_key2);
#[cfg(feature = "std")]
cached!(entry_ghost_sort_by_cached_key4, K4, user_key4);
