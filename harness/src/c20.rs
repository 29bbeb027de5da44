//! C20: clones and defaults.
use ordinal_map::map::total::*;
use ordinal_map::map::*;
use ordinal_map::set::*;
use ordinal_map::{Ordinal, OrdinalValues};
use crate::rt::*;
use crate::{assume, check};

macro_rules! sparse {
    ($p:ident, $ty:ty, [$($g:tt)*]) => {
        pub mod $p {
            use super::*;

            pub fn omv_clone<$($g)*>(m: $ty, j: K) {
                let before = ghost(&m);
                let c = m.clone();
                check!(c.contains_key(&j) == m.contains_key(&j));
                check!(m.contains_key(&j) == before.contains_key(&j));
                match (m.get(&j), c.get(&j)) {
                    (Some(x), Some(y)) => {
                        check!(is_clone_of(y, x));
                        check!(same(x, before.get(&j).unwrap()));
                    }
                    (x, y) => check!(x.is_none() && y.is_none()),
                }
                discard((m, c, before, j));
            }

            pub fn omv_clone_from<$($g)*>(m: $ty, mut c: $ty, j: K) {
                let before = ghost(&m);
                c.clone_from(&m);
                match (m.get(&j), c.get(&j)) {
                    (Some(x), Some(y)) => {
                        check!(is_clone_of(y, x));
                        check!(same(x, before.get(&j).unwrap()));
                    }
                    (x, y) => check!(x.is_none() && y.is_none()),
                }
                discard((m, c, before, j));
            }

            /// what happens to one copy does not show in the other
            pub fn omv_apart<$($g)*>(m: $ty, j: K, k: K, v: V) {
                let mut m = m;
                let mut c = m.clone();
                if any() {
                    let before = ghost(&c);
                    match any::<u8>() {
                        0 => discard(m.insert(k, v)),
                        1 => { discard(m.remove(&k)); discard((k, v)); }
                        2 => { if let Some(x) = m.get_mut(&k) { discard(std::mem::replace(x, v)); } discard(k); }
                        _ => { m.clear(); discard((k, v)); }
                    }
                    check!(c.contains_key(&j) == before.contains_key(&j));
                    if let Some(x) = c.get(&j) { check!(same(x, before.get(&j).unwrap())); }
                    discard(before);
                } else {
                    let before = ghost(&m);
                    match any::<u8>() {
                        0 => discard(c.insert(k, v)),
                        1 => { discard(c.remove(&k)); discard((k, v)); }
                        2 => { if let Some(x) = c.get_mut(&k) { discard(std::mem::replace(x, v)); } discard(k); }
                        _ => { c.clear(); discard((k, v)); }
                    }
                    check!(m.contains_key(&j) == before.contains_key(&j));
                    if let Some(x) = m.get(&j) { check!(same(x, before.get(&j).unwrap())); }
                    discard(before);
                }
                discard((m, c, j));
            }

            pub fn omv_default<$($g)*>(j: K) {
                let m = <$ty>::default();
                check!(m.get(&j).is_none());
                check!(!m.contains_key(&j));
                check!(m.len() == 0);
                check!(m.is_empty());
                discard((m, j));
            }

            pub fn omv_iter<$($g)*>(m: $ty) {
                lockstep(m.iter(), |x, y| x.0.ordinal() == y.0.ordinal() && same(x.1, y.1));
                discard(m);
            }
            pub fn omv_keys<$($g)*>(m: $ty) {
                lockstep(m.keys(), |x, y| x.ordinal() == y.ordinal());
                discard(m);
            }
            pub fn omv_values<$($g)*>(m: $ty) {
                lockstep(m.values(), |x, y| same::<V>(x, y));
                discard(m);
            }
            pub fn omv_into_iter<$($g)*>(m: $ty) {
                lockstep(m.into_iter(), |x, y| x.0.ordinal() == y.0.ordinal() && is_clone_of(&y.1, &x.1));
            }
        }
    };
}

/// A clone gives what the original would have given, and leaves it alone.
fn lockstep<I: DoubleEndedIterator + Clone>(mut it: I, eq: impl Fn(&I::Item, &I::Item) -> bool) {
    while any() { discard(if any() { it.next() } else { it.next_back() }); }
    let mut s = ghost(&it);
    let mut c = it.clone();
    if any() {
        // the original first
        while any() { discard(if any() { it.next() } else { it.next_back() }); }
        discard(it);
    } else {
        // the clone first: the original stays where it was
        let mut d = ghost(&c);
        while any() { discard(if any() { d.next() } else { d.next_back() }); }
        discard((d, it));
    }
    while any() {
        let (x, y) = if any() { (s.next(), c.next()) } else { (s.next_back(), c.next_back()) };
        check!(x.is_some() == y.is_some());
        if let (Some(x), Some(y)) = (&x, &y) { check!(eq(x, y)); }
        discard((x, y));
    }
    discard((s, c));
}

sparse!(sparse_boxed, OrdinalMap<K, V>, [K: Ordinal, V: Clone]);
sparse!(sparse_array, OrdinalArrayMap<K, V, S>, [K: Ordinal, V: Clone, const S: usize]);

macro_rules! total {
    ($p:ident, $ty:ty, [$($g:tt)*]) => {
        pub mod $p {
            use super::*;

            pub fn omv_clone<$($g)*>(m: $ty, j: K) {
                let before = ghost(&m);
                let c = m.clone();
                check!(is_clone_of(c.get(&j), m.get(&j)));
                check!(same(m.get(&j), before.get(&j)));
                discard((m, c, before, j));
            }

            pub fn omv_clone_from<$($g)*>(m: $ty, mut c: $ty, j: K) {
                let before = ghost(&m);
                c.clone_from(&m);
                check!(is_clone_of(c.get(&j), m.get(&j)));
                check!(same(m.get(&j), before.get(&j)));
                discard((m, c, before, j));
            }

            pub fn omv_apart<$($g)*>(m: $ty, j: K, k: K, v: V) {
                let mut m = m;
                let mut c = m.clone();
                if any() {
                    let before = ghost(&c);
                    if any() { discard(m.insert(k, v)); } else { discard(std::mem::replace(m.get_mut(&k), v)); discard(k); }
                    check!(same(c.get(&j), before.get(&j)));
                    discard(before);
                } else {
                    let before = ghost(&m);
                    if any() { discard(c.insert(k, v)); } else { discard(std::mem::replace(c.get_mut(&k), v)); discard(k); }
                    check!(same(m.get(&j), before.get(&j)));
                    discard(before);
                }
                discard((m, c, j));
            }

            pub fn omv_iter<$($g)*>(m: $ty) {
                lockstep(m.iter(), |x, y| x.0.ordinal() == y.0.ordinal() && same(x.1, y.1));
                discard(m);
            }
            pub fn omv_keys<$($g)*>(m: $ty) {
                lockstep(m.keys(), |x, y| x.ordinal() == y.ordinal());
                discard(m);
            }
            pub fn omv_values<$($g)*>(m: $ty) {
                lockstep(m.values(), |x, y| same::<V>(x, y));
                discard(m);
            }
            pub fn omv_into_iter<$($g)*>(m: $ty) {
                lockstep(m.into_iter(), |x, y| x.0.ordinal() == y.0.ordinal() && is_clone_of(&y.1, &x.1));
            }
        }
    };
}
total!(total_boxed, OrdinalTotalMap<K, V>, [K: Ordinal, V: Clone]);
total!(total_array, OrdinalTotalArrayMap<K, V, S>, [K: Ordinal, V: Clone, const S: usize]);

pub mod total_default {
    use super::*;
    pub fn omv_boxed<K: Ordinal, V: Default>(j: K) {
        let m = OrdinalTotalMap::<K, V>::default();
        check!(is_default(m.get(&j)));
        check!(m.len() == K::ORDINAL_SIZE);
        discard((m, j));
    }
    pub fn omv_array<K: Ordinal, V: Default, const S: usize>(j: K) {
        let m = OrdinalTotalArrayMap::<K, V, S>::default();
        check!(is_default(m.get(&j)));
        check!(m.len() == K::ORDINAL_SIZE);
        discard((m, j));
    }
}

macro_rules! sets {
    ($p:ident, $ty:ty, [$($g:tt)*]) => {
        pub mod $p {
            use super::*;
            pub fn omv_clone<$($g)*>(s: $ty, j: T) {
                let before = ghost(&s);
                let c = s.clone();
                check!(c.contains(&j) == before.contains(&j));
                check!(s.contains(&j) == before.contains(&j));
                discard((s, c, before, j));
            }
            pub fn omv_clone_from<$($g)*>(s: $ty, mut c: $ty, j: T) {
                let before = ghost(&s);
                c.clone_from(&s);
                check!(c.contains(&j) == before.contains(&j));
                check!(s.contains(&j) == before.contains(&j));
                discard((s, c, before, j));
            }
            pub fn omv_apart<$($g)*>(mut s: $ty, j: T, k: T) {
                let before = ghost(&s);
                let mut c = s.clone();
                if any() {
                    discard(c.insert(k));
                    check!(s.contains(&j) == before.contains(&j));
                } else {
                    discard(s.insert(k));
                    check!(c.contains(&j) == before.contains(&j));
                }
                discard((s, c, before, j));
            }
            pub fn omv_default<$($g)*>(j: T) {
                let s = <$ty>::default();
                check!(!s.contains(&j));
                discard((s, j));
            }
        }
    };
}
sets!(growable, OrdinalSet<T>, [T: Ordinal]);
sets!(word, OrdinalSet64<T>, [T: Ordinal]);
sets!(array, OrdinalArraySet<T, S>, [T: Ordinal, const S: usize]);

pub mod set_iters {
    use super::*;
    pub fn omv_word<T: Ordinal>(s: OrdinalSet64<T>) {
        lockstep(s.iter(), |x, y| x.ordinal() == y.ordinal());
        discard(s);
    }
    pub fn omv_growable<T: Ordinal>(s: OrdinalSet<T>) {
        let mut it = s.iter();
        if any() { discard(if any() { it.next() } else { it.next_back() }); }
        let mut c = it.clone();
        if any() { discard(it.next()); discard(c.next()); }
        let (x, y) = if any() { (it.next(), c.next()) } else { (it.next_back(), c.next_back()) };
        check!(x.is_some() == y.is_some());
        if let (Some(x), Some(y)) = (&x, &y) { check!(x.ordinal() == y.ordinal()); }
        discard((x, y, it, c));
        discard(s);
    }
    pub fn omv_values<T: Ordinal>() {
        lockstep(T::all_values(), |x, y| x.ordinal() == y.ordinal());
    }
}
