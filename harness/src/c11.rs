//! C11: lengths, size hints, counting and last-element methods.
use ordinal_map::map::total::*;
use ordinal_map::map::*;
use ordinal_map::set::*;
use ordinal_map::{Ordinal, OrdinalValues};
use crate::rt::*;
use crate::{assume, check};

/// the hints of an iterator in any state against what stepping gives
fn hints<I: DoubleEndedIterator>(mut it: I) {
    while any() { discard(if any() { it.next() } else { it.next_back() }); }
    let (lo, hi) = it.size_hint();
    let mut c = 0usize;
    if any() {
        while let Some(x) = it.next() { c += 1; discard(x); }
    } else {
        while let Some(x) = it.next_back() { c += 1; discard(x); }
    }
    check!(lo <= c);
    if let Some(hi) = hi { check!(c <= hi); }
    discard(it);
}

/// one step: what is promised before and after it agrees
fn hint_step<I: DoubleEndedIterator>(mut it: I) {
    while any() { discard(if any() { it.next() } else { it.next_back() }); }
    let (lo, hi) = it.size_hint();
    let x = if any() { it.next() } else { it.next_back() };
    if x.is_none() { check!(lo == 0); }
    if x.is_some() { if let Some(hi) = hi { check!(hi >= 1); } }
    discard((x, it));
}

/// exact lengths: one less per element, zero at the end
fn exact<I: DoubleEndedIterator + ExactSizeIterator>(mut it: I) {
    while any() { discard(if any() { it.next() } else { it.next_back() }); }
    let n = it.len();
    let (lo, hi) = it.size_hint();
    check!(lo == n);
    check!(hi == Some(n));
    let x = if any() { it.next() } else { it.next_back() };
    if x.is_some() {
        check!(n >= 1);
        check!(it.len() == n - 1);
    } else {
        check!(n == 0);
        check!(it.len() == 0);
    }
    discard((x, it));
}

/// count() is the number of steps
fn counts<I: DoubleEndedIterator>(mut it: I) {
    while any() { discard(if any() { it.next() } else { it.next_back() }); }
    counts_from(it);
}

fn counts_from<I: Iterator>(it: I) {
    let mut s = ghost(&it);
    let n = it.count();
    let mut c = 0usize;
    while let Some(x) = s.next() { c += 1; discard(x); }
    check!(n == c);
    discard(s);
}

/// last() is the element the last step gives
fn lasts<K: Ordinal, T, I: DoubleEndedIterator<Item = T>>(mut it: I, key: impl Fn(&T) -> usize) {
    while any() { discard(if any() { it.next() } else { it.next_back() }); }
    lasts_from::<K, T, I>(it, key);
}

fn lasts_from<K: Ordinal, T, I: Iterator<Item = T>>(it: I, key: impl Fn(&T) -> usize) {
    let mut s = ghost(&it);
    let x = it.last();
    let mut y: Option<usize> = None;
    while let Some(e) = s.next() { y = Some(key(&e)); discard(e); }
    check!(x.is_some() == y.is_some());
    if let (Some(x), Some(y)) = (&x, y) { check!(key(x) == y); }
    discard((x, s));
}

/// nth(i) is the element after i steps, and leaves the iterator behind it
fn nths<T, I: DoubleEndedIterator<Item = T>>(mut it: I, key: impl Fn(&T) -> usize) {
    while any() { discard(if any() { it.next() } else { it.next_back() }); }
    let mut s = ghost(&it);
    let i: usize = any();
    let front: bool = any();
    let x = if front { it.nth(i) } else { it.nth_back(i) };
    let mut k = 0usize;
    let y = loop {
        let e = if front { s.next() } else { s.next_back() };
        if e.is_none() || k == i { break e; }
        discard(e);
        k += 1;
    };
    check!(x.is_some() == y.is_some());
    if let (Some(x), Some(y)) = (&x, &y) { check!(key(x) == key(y)); }
    discard((x, y));
    let x = if front { it.next() } else { it.next_back() };
    let y = if front { s.next() } else { s.next_back() };
    check!(x.is_some() == y.is_some());
    if let (Some(x), Some(y)) = (&x, &y) { check!(key(x) == key(y)); }
    discard((x, y, s, it));
}

/// an exact length where the position is known
macro_rules! exact_at {
    ($it:expr, $n:expr) => {{
        let mut it = $it;
        let mut f = 0usize;
        let mut b: usize = $n;
        check!(it.len() == b);
        while any() {
            if any() {
                match it.next() {
                    Some(x) => { check!(f < b); f += 1; discard(x); }
                    None => check!(f == b),
                }
            } else {
                match it.next_back() {
                    Some(x) => { check!(f < b); b -= 1; discard(x); }
                    None => check!(f == b),
                }
            }
            check!(it.len() == b - f);
            check!(it.size_hint() == (b - f, Some(b - f)));
        }
        discard(it);
    }};
}

macro_rules! sparse_specs {
    ($p:ident, $ty:ty, [$($g:tt)*]) => {
        pub mod $p {
            use super::*;
            pub fn omv_hints_iter<$($g)*>(m: $ty) { hints(m.iter()); discard(m); }
            pub fn omv_hints_iter_mut<$($g)*>(mut m: $ty) { hints(m.iter_mut()); discard(m); }
            pub fn omv_hints_keys<$($g)*>(m: $ty) { hints(m.keys()); discard(m); }
            pub fn omv_hints_values<$($g)*>(m: $ty) { hints(m.values()); discard(m); }
            pub fn omv_hints_values_mut<$($g)*>(mut m: $ty) { hints(m.values_mut()); discard(m); }
            pub fn omv_hints_into_iter<$($g)*>(m: $ty) { hints(m.into_iter()); }
            pub fn omv_hints_drain<$($g)*>(mut m: $ty) { hints(m.drain()); discard(m); }
            pub fn omv_step_iter<$($g)*>(m: $ty) { hint_step(m.iter()); discard(m); }
            pub fn omv_step_iter_mut<$($g)*>(mut m: $ty) { hint_step(m.iter_mut()); discard(m); }
            pub fn omv_step_keys<$($g)*>(m: $ty) { hint_step(m.keys()); discard(m); }
            pub fn omv_step_values<$($g)*>(m: $ty) { hint_step(m.values()); discard(m); }
            pub fn omv_step_values_mut<$($g)*>(mut m: $ty) { hint_step(m.values_mut()); discard(m); }
            pub fn omv_step_into_iter<$($g)*>(m: $ty) { hint_step(m.into_iter()); }
            pub fn omv_step_drain<$($g)*>(mut m: $ty) { hint_step(m.drain()); discard(m); }
            pub fn omv_count_iter<$($g)*>(m: $ty) { counts(m.iter()); discard(m); }
            pub fn omv_count_iter_mut<$($g)*>(mut m: $ty) { counts(m.iter_mut()); discard(m); }
            pub fn omv_count_keys<$($g)*>(m: $ty) { counts(m.keys()); discard(m); }
            pub fn omv_count_values<$($g)*>(m: $ty) { counts(m.values()); discard(m); }
            pub fn omv_count_values_mut<$($g)*>(mut m: $ty) { counts(m.values_mut()); discard(m); }
            pub fn omv_count_into_iter<$($g)*>(m: $ty) { counts(m.into_iter()); }
            pub fn omv_last_iter<$($g)*>(m: $ty) { lasts::<K, _, _>(m.iter(), |x| x.0.ordinal()); discard(m); }
            pub fn omv_last_iter_mut<$($g)*>(mut m: $ty) { lasts::<K, _, _>(m.iter_mut(), |x| x.0.ordinal()); discard(m); }
            pub fn omv_last_keys<$($g)*>(m: $ty) { lasts::<K, _, _>(m.keys(), |x| x.ordinal()); discard(m); }
            pub fn omv_last_into_iter<$($g)*>(m: $ty) { lasts::<K, _, _>(m.into_iter(), |x| x.0.ordinal()); }
        }
    };
}
sparse_specs!(sparse_boxed, OrdinalMap<K, V>, [K: Ordinal, V]);
sparse_specs!(sparse_array, OrdinalArrayMap<K, V, S>, [K: Ordinal, V, const S: usize]);

macro_rules! total_specs {
    ($p:ident, $ty:ty, [$($g:tt)*]) => {
        pub mod $p {
            use super::*;
            pub fn omv_exact_iter<$($g)*>(m: $ty) { exact(m.iter()); discard(m); }
            pub fn omv_exact_iter_mut<$($g)*>(mut m: $ty) { exact(m.iter_mut()); discard(m); }
            pub fn omv_exact_into_iter<$($g)*>(m: $ty) { exact(m.into_iter()); }
            pub fn omv_at_iter<$($g)*>(m: $ty) { exact_at!(m.iter(), K::ORDINAL_SIZE); discard(m); }
            pub fn omv_at_iter_mut<$($g)*>(mut m: $ty) { exact_at!(m.iter_mut(), K::ORDINAL_SIZE); discard(m); }
            pub fn omv_at_into_iter<$($g)*>(m: $ty) { exact_at!(m.into_iter(), K::ORDINAL_SIZE); }
            pub fn omv_at_values<$($g)*>(m: $ty) { exact_at!(m.values(), K::ORDINAL_SIZE); discard(m); }
            pub fn omv_at_values_mut<$($g)*>(mut m: $ty) { exact_at!(m.values_mut(), K::ORDINAL_SIZE); discard(m); }
            pub fn omv_at_keys<$($g)*>(m: $ty) { exact_at!(m.keys(), K::ORDINAL_SIZE); discard(m); }
            pub fn omv_count_iter<$($g)*>(m: $ty) { counts(m.iter()); discard(m); }
            pub fn omv_count_iter_mut<$($g)*>(mut m: $ty) { counts(m.iter_mut()); discard(m); }
            pub fn omv_count_into_iter<$($g)*>(m: $ty) { counts(m.into_iter()); }
            pub fn omv_last_iter<$($g)*>(m: $ty) { lasts::<K, _, _>(m.iter(), |x| x.0.ordinal()); discard(m); }
            pub fn omv_last_iter_mut<$($g)*>(mut m: $ty) { lasts::<K, _, _>(m.iter_mut(), |x| x.0.ordinal()); discard(m); }
            pub fn omv_last_into_iter<$($g)*>(m: $ty) { lasts::<K, _, _>(m.into_iter(), |x| x.0.ordinal()); }
            pub fn omv_nth_iter<$($g)*>(m: $ty) { nths(m.iter(), |x| x.0.ordinal()); discard(m); }
            pub fn omv_nth_iter_mut<$($g)*>(mut m: $ty) { nths(m.iter_mut(), |x| x.0.ordinal()); discard(m); }
            pub fn omv_nth_into_iter<$($g)*>(m: $ty) { nths(m.into_iter(), |x| x.0.ordinal()); }
        }
    };
}
total_specs!(total_boxed, OrdinalTotalMap<K, V>, [K: Ordinal, V]);
total_specs!(total_array, OrdinalTotalArrayMap<K, V, S>, [K: Ordinal, V, const S: usize]);

pub mod values {
    use super::*;
    pub fn omv_exact<T: Ordinal>() { exact(T::all_values()); }
    pub fn omv_at<T: Ordinal>() { exact_at!(T::all_values(), T::ORDINAL_SIZE); }
    pub fn omv_count<T: Ordinal>() { counts(T::all_values()); }
    pub fn omv_last<T: Ordinal>() { lasts::<T, _, _>(T::all_values(), |x| x.ordinal()); }
    pub fn omv_nth<T: Ordinal>() { nths(T::all_values(), |x| x.ordinal()); }
    /// where the position is known
    pub fn omv_known<T: Ordinal>() {
        let mut it = T::all_values();
        let mut f = 0usize;
        let mut b = T::ORDINAL_SIZE;
        while any() {
            if any() { if let Some(k) = it.next() { f += 1; discard(k); } } else { if let Some(k) = it.next_back() { b -= 1; discard(k); } }
        }
        let mut c = it.clone();
        let i: usize = any();
        match c.nth(i) {
            Some(k) => check!(i < b - f && k.ordinal() == f + i),
            None => check!(i >= b - f),
        }
        discard(c);
        let mut c = it.clone();
        match c.nth_back(i) {
            Some(k) => check!(i < b - f && k.ordinal() == b - 1 - i),
            None => check!(i >= b - f),
        }
        discard(c);
        let c = it.clone();
        check!(c.count() == b - f);
        let c = it.clone();
        match c.last() {
            Some(k) => check!(f < b && k.ordinal() == b - 1),
            None => check!(f == b),
        }
        discard(it);
    }
}

macro_rules! set_specs {
    ($p:ident, $ty:ty, [$($g:tt)*]) => {
        pub mod $p {
            use super::*;
            pub fn omv_step<$($g)*>(s: $ty) { hint_step(s.iter()); discard(s); }
            pub fn omv_count<$($g)*>(s: $ty) { counts_from(s.iter()); discard(s); }
            pub fn omv_last<$($g)*>(s: $ty) { lasts_from::<T, _, _>(s.iter(), |x| x.ordinal()); discard(s); }
        }
    };
}
set_specs!(growable, OrdinalSet<T>, [T: Ordinal]);
set_specs!(word, OrdinalSet64<T>, [T: Ordinal]);

pub mod word_exact {
    use super::*;
    pub fn omv_exact<T: Ordinal>(s: OrdinalSet64<T>) { exact(s.iter()); discard(s); }
    pub fn omv_hints<T: Ordinal>(s: OrdinalSet64<T>) { hints(s.iter()); discard(s); }
}
