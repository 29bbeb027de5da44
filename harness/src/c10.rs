//! C10: map iteration.  `f` and `b` are the numbers between which keys have not
//! been passed over yet; `j` is any key.
use ordinal_map::map::total::*;
use ordinal_map::map::*;
use ordinal_map::Ordinal;
use crate::rt::*;
use crate::{assume, check, sparse_walk, total_walk, value_walk};

macro_rules! sparse_specs {
    ($p:ident, $ty:ty, [$($g:tt)*]) => {
        pub mod $p {
            use super::*;

            pub fn omv_iter<$($g)*>(m: $ty, j: K) {
                let mut it = m.iter();
                sparse_walk!(it, m, j, K, |k, v| check!(same(v, m.get(&k).unwrap())));
                discard((it, j));
                discard(m);
            }

            pub fn omv_ref_into_iter<$($g)*>(m: $ty, j: K) {
                let mut it = (&m).into_iter();
                sparse_walk!(it, m, j, K, |k, v| check!(same(v, m.get(&k).unwrap())));
                discard((it, j));
                discard(m);
            }

            pub fn omv_into_iter<$($g)*>(m: $ty, j: K) {
                let before = ghost(&m);
                let mut it = m.into_iter();
                sparse_walk!(it, before, j, K, |k, v| check!(same(&v, before.get(&k).unwrap())));
                discard((it, before, j));
            }

            pub fn omv_iter_mut<$($g)*>(mut m: $ty, j: K) {
                let before = ghost(&m);
                {
                    let mut it = m.iter_mut();
                    sparse_walk!(it, before, j, K, |k, v| check!(same(&*v, before.get(&k).unwrap())));
                    discard(it);
                }
                check!(m.contains_key(&j) == before.contains_key(&j));
                if let Some(x) = m.get(&j) { check!(same(x, before.get(&j).unwrap())); }
                discard((m, before, j));
            }

            /// a yielded reference is the very cell lookup reaches
            pub fn omv_iter_mut_cells<$($g)*>(mut m: $ty, j: K) {
                let p = m.get(&j).map(|x| x as *const V);
                let mut it = m.iter_mut();
                while any() {
                    if let Some((k, v)) = if any() { it.next() } else { it.next_back() } {
                        if k.ordinal() == j.ordinal() { check!(p == Some(v as *const V)); }
                        discard(k);
                    }
                }
                discard(it);
                discard((m, j));
            }

            /// writing through one of them changes that entry and no other
            pub fn omv_iter_mut_write<$($g)*>(mut m: $ty, j: K, w: V) {
                let before = ghost(&m);
                let w2 = ghost(&w);
                let mut at: Option<usize> = None;
                {
                    let mut it = m.iter_mut();
                    if let Some((k, v)) = if any() { it.next() } else { it.next_back() } {
                        at = Some(k.ordinal());
                        discard(std::mem::replace(v, w));
                        discard(k);
                    } else { discard(w); }
                    discard(it);
                }
                check!(m.contains_key(&j) == before.contains_key(&j));
                if let Some(x) = m.get(&j) {
                    if at == Some(j.ordinal()) { check!(same(x, &w2)); } else { check!(same(x, before.get(&j).unwrap())); }
                }
                discard((m, before, w2, j));
            }

            pub fn omv_keys<$($g)*>(m: $ty, j: K) {
                let mut it = m.keys().map(|k| (k, ()));
                sparse_walk!(it, m, j, K, |k, v| ());
                discard((it, j));
                discard(m);
            }

            /// values() goes in step with iter()
            pub fn omv_values<$($g)*>(m: $ty) {
                let mut r = m.iter();
                let mut it = m.values();
                while any() {
                    let (x, y) = if any() { (r.next(), it.next()) } else { (r.next_back(), it.next_back()) };
                    check!(x.is_some() == y.is_some());
                    if let (Some((k, v)), Some(w)) = (&x, &y) { check!(same(*v, *w)); }
                    discard((x, y));
                }
                discard((r, it));
                discard(m);
            }

            /// values_mut() yields the cells in the order of iter()
            pub fn omv_values_mut<$($g)*>(mut m: $ty) {
                let before = ghost(&m);
                let mut r = before.iter();
                let mut it = m.values_mut();
                while any() {
                    let (x, y) = if any() { (r.next(), it.next()) } else { (r.next_back(), it.next_back()) };
                    check!(x.is_some() == y.is_some());
                    if let (Some((k, v)), Some(w)) = (&x, &y) { check!(same(*v, &**w)); }
                    discard((x, y));
                }
                discard((r, it));
                discard((m, before));
            }

            /// one step of values_mut() reaches the very cell
            pub fn omv_values_mut_write<$($g)*>(mut m: $ty, j: K, w: V) {
                let before = ghost(&m);
                let w2 = ghost(&w);
                let first = before.iter().next();
                {
                    let mut it = m.values_mut();
                    if let Some(v) = it.next() { discard(std::mem::replace(v, w)); } else { discard(w); }
                    discard(it);
                }
                check!(m.contains_key(&j) == before.contains_key(&j));
                if let Some(x) = m.get(&j) {
                    let (k, _) = first.unwrap();
                    if k.ordinal() == j.ordinal() { check!(same(x, &w2)); } else { check!(same(x, before.get(&j).unwrap())); }
                    discard(k);
                }
                discard((m, before, w2, j));
            }
        }
    };
}

sparse_specs!(sparse_boxed, OrdinalMap<K, V>, [K: Ordinal, V]);
sparse_specs!(sparse_array, OrdinalArrayMap<K, V, S>, [K: Ordinal, V, const S: usize]);

macro_rules! total_specs {
    ($p:ident, $ty:ty, [$($g:tt)*]) => {
        pub mod $p {
            use super::*;

            pub fn omv_iter<$($g)*>(m: $ty) {
                let mut it = m.iter();
                total_walk!(it, K, |k, v| check!(same(v, m.get(&k))));
                discard(it);
                discard(m);
            }

            pub fn omv_ref_into_iter<$($g)*>(m: $ty) {
                let mut it = (&m).into_iter();
                total_walk!(it, K, |k, v| check!(same(v, m.get(&k))));
                discard(it);
                discard(m);
            }

            pub fn omv_into_iter<$($g)*>(m: $ty) {
                let before = ghost(&m);
                let mut it = m.into_iter();
                total_walk!(it, K, |k, v| check!(same(&v, before.get(&k))));
                discard((it, before));
            }

            pub fn omv_iter_mut<$($g)*>(mut m: $ty, j: K) {
                let before = ghost(&m);
                {
                    let mut it = m.iter_mut();
                    total_walk!(it, K, |k, v| check!(same(&*v, before.get(&k))));
                    discard(it);
                }
                check!(same(m.get(&j), before.get(&j)));
                discard((m, before, j));
            }

            pub fn omv_iter_mut_cells<$($g)*>(mut m: $ty, j: K) {
                let p = m.get(&j) as *const V;
                let mut it = m.iter_mut();
                while any() {
                    if let Some((k, v)) = if any() { it.next() } else { it.next_back() } {
                        if k.ordinal() == j.ordinal() { check!(p == v as *const V); }
                        discard(k);
                    }
                }
                discard(it);
                discard((m, j));
            }

            pub fn omv_values_mut_cells<$($g)*>(mut m: $ty, j: K) {
                let p = m.get(&j) as *const V;
                let mut it = m.values_mut();
                value_walk!(it, K, |k, v| if k.ordinal() == j.ordinal() { check!(p == v as *const V) });
                discard(it);
                discard((m, j));
            }

            pub fn omv_values<$($g)*>(m: $ty) {
                let mut it = m.values();
                value_walk!(it, K, |k, v| check!(same(v, m.get(&k))));
                discard(it);
                discard(m);
            }

            pub fn omv_values_mut<$($g)*>(mut m: $ty) {
                let before = ghost(&m);
                {
                    let mut it = m.values_mut();
                    value_walk!(it, K, |k, v| check!(same(&*v, before.get(&k))));
                    discard(it);
                }
                discard((m, before));
            }

            pub fn omv_keys<$($g)*>(m: $ty) {
                let mut it = m.keys().map(|k| (k, ()));
                total_walk!(it, K, |k, v| ());
                discard(it);
                discard(m);
            }
        }
    };
}

total_specs!(total_boxed, OrdinalTotalMap<K, V>, [K: Ordinal, V]);
total_specs!(total_array, OrdinalTotalArrayMap<K, V, S>, [K: Ordinal, V, const S: usize]);
