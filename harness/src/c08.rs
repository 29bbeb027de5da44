//! C08: sparse maps behave as a finite partial function.
use ordinal_map::map::*;
use ordinal_map::Ordinal;
use crate::rt::*;
use crate::{assume, check};

/// Pairs to collect: arbitrary, remembering what was last paired with the
/// key number `t`.
pub struct Pairs<K, V> {
    t: usize,
    last: Option<V>,
    k: std::marker::PhantomData<K>,
}

impl<K: Ordinal, V> Iterator for Pairs<K, V> {
    type Item = (K, V);
    fn next(&mut self) -> Option<(K, V)> {
        if any() {
            return None;
        }
        let k: K = any();
        let v: V = any();
        if k.ordinal() == self.t {
            discard(std::mem::replace(&mut self.last, Some(ghost(&v))));
        }
        Some((k, v))
    }
}

macro_rules! sparse_specs {
    ($p:ident, $ty:ty, [$($g:tt)*]) => {
        pub mod $p {
            use super::*;

            pub fn omv_new<$($g)*>(j: K) {
                let m = <$ty>::new();
                check!(m.get(&j).is_none());
                check!(!m.contains_key(&j));
                check!(m.is_empty());
                check!(m.len() == 0);
                discard((m, j));
            }

            pub fn omv_insert<$($g)*>(mut m: $ty, k: K, v: V, j: K) {
                let before = ghost(&m);
                let v2 = ghost(&v);
                let k2 = ghost(&k);
                let old = m.insert(k, v);
                check!(old.is_some() == before.contains_key(&k2));
                if let Some(o) = &old { check!(same(o, before.get(&k2).unwrap())); }
                if j.ordinal() == k2.ordinal() {
                    check!(m.contains_key(&j));
                    check!(same(m.get(&j).unwrap(), &v2));
                } else {
                    check!(m.contains_key(&j) == before.contains_key(&j));
                    if let Some(x) = m.get(&j) { check!(same(x, before.get(&j).unwrap())); }
                }
                discard((m, before, old, v2, k2, j));
            }

            pub fn omv_remove<$($g)*>(mut m: $ty, k: K, j: K) {
                let before = ghost(&m);
                let old = m.remove(&k);
                check!(old.is_some() == before.contains_key(&k));
                if let Some(o) = &old { check!(same(o, before.get(&k).unwrap())); }
                if j.ordinal() == k.ordinal() {
                    check!(!m.contains_key(&j));
                    check!(m.get(&j).is_none());
                } else {
                    check!(m.contains_key(&j) == before.contains_key(&j));
                    if let Some(x) = m.get(&j) { check!(same(x, before.get(&j).unwrap())); }
                }
                discard((m, before, old, k, j));
            }

            pub fn omv_lookup<$($g)*>(mut m: $ty, k: K, j: K) {
                let before = ghost(&m);
                let c = m.contains_key(&k);
                check!(m.get(&k).is_some() == c);
                let p = m.get(&k).map(|x| x as *const V);
                match m.get_mut(&k) {
                    Some(x) => check!(p == Some(x as *mut V as *const V)),
                    None => check!(p.is_none()),
                }
                if let Some(x) = m.get(&j) {
                    check!((Some(x as *const V) == p) == (j.ordinal() == k.ordinal()));
                }
                check!(m.contains_key(&j) == before.contains_key(&j));
                check!(m.get(&j).is_some() == before.get(&j).is_some());
                if let Some(x) = m.get(&j) { check!(same(x, before.get(&j).unwrap())); }
                discard((m, before, k, j));
            }

            pub fn omv_get_mut<$($g)*>(mut m: $ty, k: K, v: V, j: K) {
                let before = ghost(&m);
                let v2 = ghost(&v);
                let had = match m.get_mut(&k) {
                    Some(x) => { discard(std::mem::replace(x, v)); true }
                    None => { discard(v); false }
                };
                check!(had == before.contains_key(&k));
                check!(m.contains_key(&j) == before.contains_key(&j));
                if let Some(x) = m.get(&j) {
                    if j.ordinal() == k.ordinal() {
                        check!(same(x, &v2));
                    } else {
                        check!(same(x, before.get(&j).unwrap()));
                    }
                }
                discard((m, before, v2, k, j));
            }

            pub fn omv_entry<$($g)*>(mut m: $ty, k: K, v: V, j: K) {
                let before = ghost(&m);
                let v2 = ghost(&v);
                let k2 = ghost(&k);
                match m.entry(k) {
                    Entry::Occupied(mut e) => {
                        check!(before.contains_key(&k2));
                        check!(e.key().ordinal() == k2.ordinal());
                        check!(same(e.get(), before.get(&k2).unwrap()));
                        check!(same(e.get_mut(), before.get(&k2).unwrap()));
                        discard(std::mem::replace(e.get_mut(), v));
                        check!(same(e.get(), &v2));
                        discard(e);
                    }
                    Entry::Vacant(e) => {
                        check!(!before.contains_key(&k2));
                        check!(e.key().ordinal() == k2.ordinal());
                        e.insert(v);
                    }
                }
                if j.ordinal() == k2.ordinal() {
                    check!(m.contains_key(&j));
                    check!(same(m.get(&j).unwrap(), &v2));
                } else {
                    check!(m.contains_key(&j) == before.contains_key(&j));
                    if let Some(x) = m.get(&j) { check!(same(x, before.get(&j).unwrap())); }
                }
                discard((m, before, v2, k2, j));
            }

            pub fn omv_entry_only<$($g)*>(mut m: $ty, k: K, j: K) {
                let before = ghost(&m);
                let k2 = ghost(&k);
                let e = m.entry(k);
                check!(e.key().ordinal() == k2.ordinal());
                discard(e);
                check!(m.contains_key(&j) == before.contains_key(&j));
                if let Some(x) = m.get(&j) { check!(same(x, before.get(&j).unwrap())); }
                discard((m, before, k2, j));
            }

            pub fn omv_or_insert<$($g)*>(mut m: $ty, k: K, v: V, w: V, j: K) {
                let before = ghost(&m);
                let v2 = ghost(&v);
                let w2 = ghost(&w);
                let k2 = ghost(&k);
                {
                    let r = m.entry(k).or_insert(v);
                    match before.get(&k2) {
                        Some(x) => check!(same(r, x)),
                        None => check!(same(r, &v2)),
                    }
                    discard(std::mem::replace(r, w));
                }
                if j.ordinal() == k2.ordinal() {
                    check!(m.contains_key(&j));
                    check!(same(m.get(&j).unwrap(), &w2));
                } else {
                    check!(m.contains_key(&j) == before.contains_key(&j));
                    if let Some(x) = m.get(&j) { check!(same(x, before.get(&j).unwrap())); }
                }
                discard((m, before, v2, w2, k2, j));
            }

            pub fn omv_collect<$($g)*>(j: K) {
                let mut src = Pairs { t: j.ordinal(), last: None, k: std::marker::PhantomData };
                let m: $ty = (&mut src).collect();
                check!(m.contains_key(&j) == src.last.is_some());
                match m.get(&j) {
                    Some(x) => check!(same(x, src.last.as_ref().unwrap())),
                    None => check!(src.last.is_none()),
                }
                discard((m, src, j));
            }

            pub fn omv_is_empty<$($g)*>(m: $ty, j: K) {
                let mut any_key = false;
                for k in K::all_values() {
                    if m.contains_key(&k) { any_key = true; }
                    discard(k);
                }
                check!(m.is_empty() == !any_key);
                discard((m, j));
            }

            pub fn omv_is_empty_key<$($g)*>(m: $ty, j: K) {
                if m.is_empty() {
                    check!(!m.contains_key(&j));
                }
                discard((m, j));
            }

            pub fn omv_len<$($g)*>(m: $ty) {
                let mut n = 0usize;
                for k in K::all_values() {
                    if m.contains_key(&k) { n += 1; }
                    discard(k);
                }
                check!(m.len() == n);
                discard(m);
            }
        }
    };
}

sparse_specs!(boxed, OrdinalMap<K, V>, [K: Ordinal, V]);
sparse_specs!(array, OrdinalArrayMap<K, V, S>, [K: Ordinal, V, const S: usize]);
