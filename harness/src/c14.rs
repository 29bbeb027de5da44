use ordinal_map::map::total::*;
use ordinal_map::{Ordinal, OrdinalValues};
use crate::rt::*;
use crate::{assume, check};

/// Any interleaving of front and back steps yields the keys from both ends.
pub fn omv_values<K: Ordinal>() {
    let mut it = K::all_values();
    let mut f = 0usize;
    let mut b = K::ORDINAL_SIZE;
    while any() {
        if any() {
            match it.next() {
                Some(k) => {
                    check!(f < b);
                    check!(k.ordinal() == f);
                    f += 1;
                    discard(k);
                }
                None => check!(f == b),
            }
        } else {
            match it.next_back() {
                Some(k) => {
                    check!(f < b);
                    b -= 1;
                    check!(k.ordinal() == b);
                    discard(k);
                }
                None => check!(f == b),
            }
        }
    }
}

/// A clone continues from the same position, independently.
pub fn omv_values_clone<K: Ordinal>() {
    let mut a = K::all_values();
    while any() {
        if any() { discard(a.next()); } else { discard(a.next_back()); }
    }
    let snapshot = ghost(&a);
    let mut c = a.clone();
    while any() {
        if any() { discard(a.next()); } else { discard(a.next_back()); }
    }
    let mut s = snapshot;
    while any() {
        let (x, y) = if any() { (s.next(), c.next()) } else { (s.next_back(), c.next_back()) };
        check!(x.is_some() == y.is_some());
        if let (Some(x), Some(y)) = (&x, &y) {
            check!(x.ordinal() == y.ordinal());
        }
        discard((x, y));
    }
}

/// The keys of a total map are the same enumeration.
pub fn omv_keys_boxed<K: Ordinal, V>(m: OrdinalTotalMap<K, V>) {
    let it = m.keys();
    enumeration(it);
    let it = m.into_keys();
    enumeration(it);
}

pub fn omv_keys_array<K: Ordinal, V, const S: usize>(m: OrdinalTotalArrayMap<K, V, S>) {
    let it = m.keys();
    enumeration(it);
    let it = m.into_keys();
    enumeration(it);
}

fn enumeration<K: Ordinal>(mut it: OrdinalValues<K>) {
    let mut f = 0usize;
    let mut b = K::ORDINAL_SIZE;
    while any() {
        if any() {
            match it.next() {
                Some(k) => {
                    check!(f < b && k.ordinal() == f);
                    f += 1;
                    discard(k);
                }
                None => check!(f == b),
            }
        } else {
            match it.next_back() {
                Some(k) => {
                    b -= 1;
                    check!(f <= b && k.ordinal() == b);
                    discard(k);
                }
                None => check!(f == b),
            }
        }
    }
}

/// Skipping is stepping.
pub fn omv_values_nth<T: Ordinal>() {
    let mut it = T::all_values();
    let mut f = 0usize;
    let mut b = T::ORDINAL_SIZE;
    while any() {
        if any() { if let Some(k) = it.next() { f += 1; discard(k); } } else { if let Some(k) = it.next_back() { b -= 1; discard(k); } }
    }
    let mut c = it.clone();
    let i: usize = any();
    match c.nth(i) {
        Some(k) => {
            check!(i < b - f && k.ordinal() == f + i);
            check!(c.len() == b - f - i - 1);
        }
        None => {
            check!(i >= b - f);
            check!(c.len() == 0);
        }
    }
    discard(c);
    let mut c = it.clone();
    match c.nth_back(i) {
        Some(k) => {
            check!(i < b - f && k.ordinal() == b - 1 - i);
            check!(c.len() == b - f - i - 1);
        }
        None => {
            check!(i >= b - f);
            check!(c.len() == 0);
        }
    }
    discard((it, c));
}
