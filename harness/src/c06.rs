//! C06: total maps give every key its own value cell.
use ordinal_map::map::total::*;
use ordinal_map::Ordinal;
use crate::rt::*;
use crate::{assume, check};

macro_rules! total_specs {
    ($p:ident, $ty:ty, [$($g:tt)*]) => {
        pub mod $p {
            use super::*;

            pub fn omv_insert<$($g)*>(mut m: $ty, k: K, v: V, j: K) {
                let before = ghost(&m);
                let v2 = ghost(&v);
                let k2 = ghost(&k);
                let old = m.insert(k, v);
                check!(same(&old, before.get(&k2)));
                if j.ordinal() == k2.ordinal() {
                    check!(same(m.get(&j), &v2));
                } else {
                    check!(same(m.get(&j), before.get(&j)));
                }
                check!(same(&m[&j], m.get(&j)));
                check!(m.len() == K::ORDINAL_SIZE);
                discard((m, before, old, v2, j, k2));
            }

            pub fn omv_cells<$($g)*>(mut m: $ty, k: K, j: K) {
                let before = ghost(&m);
                let a = m.get(&k) as *const V;
                check!(&m[&k] as *const V == a);
                check!(&mut m[&k] as *mut V as *const V == a);
                check!(m.get_mut(&k) as *mut V as *const V == a);
                check!(same(m.get(&k), before.get(&k)));
                check!((m.get(&j) as *const V == a) == (j.ordinal() == k.ordinal()));
                discard((m, before, k, j));
            }

            pub fn omv_get_mut<$($g)*>(mut m: $ty, k: K, v: V, j: K) {
                let before = ghost(&m);
                let v2 = ghost(&v);
                discard(std::mem::replace(m.get_mut(&k), v));
                check!(same(m.get(&k), &v2));
                if j.ordinal() != k.ordinal() {
                    check!(same(m.get(&j), before.get(&j)));
                }
                discard((m, before, v2, k, j));
            }

            pub fn omv_index_mut<$($g)*>(mut m: $ty, k: K, v: V, j: K) {
                let before = ghost(&m);
                let v2 = ghost(&v);
                discard(std::mem::replace(&mut m[&k], v));
                check!(same(m.get(&k), &v2));
                if j.ordinal() != k.ordinal() {
                    check!(same(m.get(&j), before.get(&j)));
                }
                discard((m, before, v2, k, j));
            }

            pub fn omv_len<$($g)*>(m: $ty) {
                check!(m.len() == K::ORDINAL_SIZE);
                check!(m.is_empty() == (K::ORDINAL_SIZE == 0));
                discard(m);
            }

            pub fn omv_reads_keep<$($g)*>(m: $ty, k: K, j: K) {
                let before = ghost(&m);
                discard((m.get(&k), &m[&k], m.len(), m.is_empty()));
                check!(same(m.get(&j), before.get(&j)));
                discard((m, before, k, j));
            }
        }
    };
}

total_specs!(boxed, OrdinalTotalMap<K, V>, [K: Ordinal, V]);
total_specs!(array, OrdinalTotalArrayMap<K, V, S>, [K: Ordinal, V, const S: usize]);
