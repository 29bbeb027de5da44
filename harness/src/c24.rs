//! C24: Debug output.
use std::fmt::Debug;
use ordinal_map::map::total::*;
use ordinal_map::map::*;
use ordinal_map::set::*;
use ordinal_map::{AtomicOrdinal, Ordinal, OrdinalValues};
use crate::rt::*;
use crate::{assume, check};

/// What is shown, of a container or iterator that holds the keys from `lo` up
/// to `hi`: an entry for key number j exactly when it is there, with its value.
fn shows<T: Debug, V>(t: &T, lo: usize, hi: usize, j: usize, want: Option<&V>) {
    let present = want.is_some() && lo <= j && j < hi;
    let mut r = Rec { next: lo, first: 0, count: 0, j, present, want: if present { want } else { None }, done: false };
    let ok = t.fmt(recording(&mut r)).is_ok();
    check!(ok);
    check!(r.done);
    check!(r.next <= hi);
    check!(!present || r.next > j);
}

/// any number of steps from both ends, and what they leave
macro_rules! stepped {
    ($it:expr, $size:expr, $lo:ident, $hi:ident, |$x:ident| $key:expr) => {
        let mut $lo = 0usize;
        let mut $hi: usize = $size;
        while any() {
            if any() {
                match $it.next() { Some($x) => { $lo = $key + 1; discard($x); } None => $lo = $hi }
            } else {
                match $it.next_back() { Some($x) => { $hi = $key; discard($x); } None => $hi = $lo }
            }
        }
    };
}

macro_rules! sparse {
    ($p:ident, $ty:ty, [$($g:tt)*]) => {
        pub mod $p {
            use super::*;
            pub fn omv_map<$($g)*>(m: $ty, j: K) {
                shows(&m, 0, K::ORDINAL_SIZE, j.ordinal(), m.get(&j));
                discard((m, j));
            }
            pub fn omv_iter<$($g)*>(m: $ty, j: K) {
                let mut it = m.iter();
                stepped!(it, K::ORDINAL_SIZE, lo, hi, |x| x.0.ordinal());
                shows(&it, lo, hi, j.ordinal(), m.get(&j));
                discard((m, j));
            }
            pub fn omv_iter_mut<$($g)*>(mut m: $ty, j: K) {
                let before = ghost(&m);
                let mut it = m.iter_mut();
                stepped!(it, K::ORDINAL_SIZE, lo, hi, |x| x.0.ordinal());
                shows(&it, lo, hi, j.ordinal(), before.get(&j));
                discard((m, before, j));
            }
            pub fn omv_into_iter<$($g)*>(m: $ty, j: K) {
                let before = ghost(&m);
                let mut it = m.into_iter();
                stepped!(it, K::ORDINAL_SIZE, lo, hi, |x| x.0.ordinal());
                shows(&it, lo, hi, j.ordinal(), before.get(&j));
                discard((it, before, j));
            }
            pub fn omv_values<$($g)*>(m: $ty, j: K) {
                shows(&m.values(), 0, K::ORDINAL_SIZE, j.ordinal(), m.get(&j));
                discard((m, j));
            }
            pub fn omv_values_mut<$($g)*>(mut m: $ty, j: K) {
                let before = ghost(&m);
                shows(&m.values_mut(), 0, K::ORDINAL_SIZE, j.ordinal(), before.get(&j));
                discard((m, before, j));
            }
        }
    };
}
sparse!(sparse_boxed, OrdinalMap<K, V>, [K: Ordinal + Debug, V: Debug]);
sparse!(sparse_array, OrdinalArrayMap<K, V, S>, [K: Ordinal + Debug, V: Debug, const S: usize]);

pub mod sparse_keys {
    use super::*;
    pub fn omv_boxed<K: Ordinal + Debug>(j: K) {
        let m = crate::gen_maps::omv_inv_map::<K, ()>();
        let mut it = m.keys();
        stepped!(it, K::ORDINAL_SIZE, lo, hi, |x| x.ordinal());
        shows(&it, lo, hi, j.ordinal(), m.get(&j));
        discard((m, j));
    }
    pub fn omv_array<K: Ordinal + Debug, const S: usize>(j: K) {
        let m = crate::gen_maps::omv_inv_amap::<K, (), S>();
        let mut it = m.keys();
        stepped!(it, K::ORDINAL_SIZE, lo, hi, |x| x.ordinal());
        shows(&it, lo, hi, j.ordinal(), m.get(&j));
        discard((m, j));
    }
}

macro_rules! total {
    ($p:ident, $ty:ty, [$($g:tt)*]) => {
        pub mod $p {
            use super::*;
            pub fn omv_map<$($g)*>(m: $ty, j: K) {
                shows(&m, 0, K::ORDINAL_SIZE, j.ordinal(), Some(m.get(&j)));
                discard((m, j));
            }
            pub fn omv_iter<$($g)*>(m: $ty, j: K) {
                let mut it = m.iter();
                stepped!(it, K::ORDINAL_SIZE, lo, hi, |x| x.0.ordinal());
                shows(&it, lo, hi, j.ordinal(), Some(m.get(&j)));
                discard((m, j));
            }
            pub fn omv_iter_mut<$($g)*>(mut m: $ty, j: K) {
                let before = ghost(&m);
                let mut it = m.iter_mut();
                stepped!(it, K::ORDINAL_SIZE, lo, hi, |x| x.0.ordinal());
                shows(&it, lo, hi, j.ordinal(), Some(before.get(&j)));
                discard((m, before, j));
            }
            pub fn omv_into_iter<$($g)*>(m: $ty, j: K) {
                let before = ghost(&m);
                let mut it = m.into_iter();
                stepped!(it, K::ORDINAL_SIZE, lo, hi, |x| x.0.ordinal());
                shows(&it, lo, hi, j.ordinal(), Some(before.get(&j)));
                discard((it, before, j));
            }
        }
    };
}
total!(total_boxed, OrdinalTotalMap<K, V>, [K: Ordinal + Debug, V: Debug]);
total!(total_array, OrdinalTotalArrayMap<K, V, S>, [K: Ordinal + Debug, V: Debug, const S: usize]);

fn there(b: bool) -> Option<&'static ()> {
    if b { Some(&()) } else { None }
}

macro_rules! sets {
    ($p:ident, $ty:ty, [$($g:tt)*]) => {
        pub mod $p {
            use super::*;
            pub fn omv_set<$($g)*>(s: $ty, j: T) {
                shows(&s, 0, T::ORDINAL_SIZE, j.ordinal(), there(s.contains(&j)));
                discard((s, j));
            }
        }
    };
}
sets!(growable, OrdinalSet<T>, [T: Ordinal + Debug]);
sets!(word, OrdinalSet64<T>, [T: Ordinal + Debug]);
sets!(array, OrdinalArraySet<T, S>, [T: Ordinal + Debug, const S: usize]);

pub mod set_iters {
    use super::*;
    pub fn omv_growable<T: Ordinal + Debug>(s: OrdinalSet<T>, j: T) {
        let mut it = s.iter();
        stepped!(it, T::ORDINAL_SIZE, lo, hi, |x| x.ordinal());
        shows(&it, lo, hi, j.ordinal(), there(s.contains(&j)));
        discard((s, j));
    }
    pub fn omv_word<T: Ordinal + Debug>(s: OrdinalSet64<T>, j: T) {
        let mut it = s.iter();
        let mut lo = 0usize;
        let mut hi = T::ORDINAL_SIZE;
        if any() { match it.next() { Some(x) => { lo = x.ordinal() + 1; discard(x); } None => lo = hi } }
        if any() { match it.next_back() { Some(x) => { hi = x.ordinal(); discard(x); } None => hi = lo } }
        shows(&it, lo, hi, j.ordinal(), there(s.contains(&j)));
        discard((s, j));
    }
    /// a run is shown by its first value, and its last unless nothing was taken from the back
    pub fn omv_values<T: Ordinal + Debug>() {
        let mut it = T::all_values();
        let mut f = 0usize;
        let mut b = T::ORDINAL_SIZE;
        while any() {
            if any() { if let Some(k) = it.next() { f += 1; discard(k); } } else { if let Some(k) = it.next_back() { b -= 1; discard(k); } }
        }
        let mut r = Rec::<()> { next: 0, first: 0, count: 0, j: 0, present: false, want: None, done: false };
        // the recorder is told that key 0 is absent unless it is still to come
        if f == 0 && f < b { r.present = true; }
        check!(it.fmt(recording(&mut r)).is_ok());
        check!(r.done);
        check!((r.count == 0) == (f == b));
        if r.count > 0 {
            check!(r.count <= 2);
            check!(r.first == f);
            if r.count == 2 { check!(r.next == b); } else { check!(b == T::ORDINAL_SIZE || b == f + 1); }
        }
        check!(it.len() == b - f);
    }
    pub fn omv_atomic<T: Ordinal + Debug>(v: T) {
        let n = v.ordinal();
        let a = AtomicOrdinal::new(v);
        shows(&a, 0, T::ORDINAL_SIZE, n, there(true));
        check!(a.load(std::sync::atomic::Ordering::SeqCst).ordinal() == n);
    }
}
