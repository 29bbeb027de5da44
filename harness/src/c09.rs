//! C09: drain, clear, retain.
use ordinal_map::map::*;
use ordinal_map::Ordinal;
use crate::rt::*;
use crate::{assume, check, sparse_walk};

macro_rules! specs {
    ($p:ident, $ty:ty, [$($g:tt)*]) => {
        pub mod $p {
            use super::*;

            /// what a drain yields, whatever the order of steps
            pub fn omv_drain_yields<$($g)*>(mut m: $ty, j: K) {
                let before = ghost(&m);
                let mut it = m.drain();
                sparse_walk!(it, before, j, K, |k, v| check!(same(&v, before.get(&k).unwrap())));
                discard((it, j));
                discard((m, before));
            }

            /// dropped after any number of steps from either end, it leaves nothing
            pub fn omv_drain_leaves_nothing<$($g)*>(mut m: $ty, j: K) {
                {
                    let mut it = m.drain();
                    while any() {
                        if any() { discard(it.next()); } else { discard(it.next_back()); }
                    }
                }
                check!(m.get(&j).is_none());
                check!(!m.contains_key(&j));
                check!(m.is_empty());
                discard((m, j));
            }

            pub fn omv_drain_unused<$($g)*>(mut m: $ty, j: K) {
                drop(m.drain());
                check!(m.get(&j).is_none());
                check!(m.is_empty());
                check!(m.len() == 0);
                check!(m.iter().next().is_none());
                discard((m, j));
            }

            /// the drained map is an ordinary map
            pub fn omv_drain_then_insert<$($g)*>(mut m: $ty, j: K, k: K, v: V) {
                let w = ghost(&v);
                {
                    let mut it = m.drain();
                    if any() { discard(it.next()); }
                }
                let n = k.ordinal();
                check!(m.insert(k, v).is_none());
                match m.get(&j) {
                    Some(x) => { check!(j.ordinal() == n); check!(same(x, &w)); }
                    None => check!(j.ordinal() != n),
                }
                discard((m, w, j));
            }

            pub fn omv_clear<$($g)*>(mut m: $ty, j: K) {
                m.clear();
                check!(m.get(&j).is_none());
                check!(!m.contains_key(&j));
                check!(m.is_empty());
                check!(m.len() == 0);
                check!(m.iter().next().is_none());
                discard((m, j));
            }

            pub fn omv_clear_then_insert<$($g)*>(mut m: $ty, j: K, k: K, v: V) {
                let w = ghost(&v);
                m.clear();
                let n = k.ordinal();
                check!(m.insert(k, v).is_none());
                match m.get(&j) {
                    Some(x) => { check!(j.ordinal() == n); check!(same(x, &w)); }
                    None => check!(j.ordinal() != n),
                }
                discard((m, w, j));
            }
        }
    };
}

specs!(sparse_boxed, OrdinalMap<K, V>, [K: Ordinal, V]);
specs!(sparse_array, OrdinalArrayMap<K, V, S>, [K: Ordinal, V, const S: usize]);

pub mod retain {
    use super::*;

    /// once per present entry, with its key and its value
    pub fn omv_calls<K: Ordinal, V, const S: usize>(mut m: OrdinalArrayMap<K, V, S>, j: K) {
        let before = ghost(&m);
        let n = j.ordinal();
        let mut calls = 0usize;
        m.retain(|k: K, v: &mut V| {
            check!(same(&*v, before.get(&k).unwrap()));
            if k.ordinal() == n { calls += 1; }
            any()
        });
        check!(calls == before.contains_key(&j) as usize);
        discard((m, before, j));
    }

    /// keeps exactly what the predicate accepts, with its value
    pub fn omv_keeps<K: Ordinal, V, const S: usize>(mut m: OrdinalArrayMap<K, V, S>, j: K) {
        let before = ghost(&m);
        let n = j.ordinal();
        let mut kept = true;
        m.retain(|k, v| {
            let r: bool = any();
            if k.ordinal() == n { kept = r; }
            r
        });
        match before.get(&j) {
            None => check!(m.get(&j).is_none()),
            Some(x) => {
                check!(m.get(&j).is_some() == kept);
                if let Some(y) = m.get(&j) { check!(same(y, x)); }
            }
        }
        discard((m, before, j));
    }

    /// keeps what the predicate wrote to a kept value
    pub fn omv_keeps_changes<K: Ordinal, V, const S: usize>(mut m: OrdinalArrayMap<K, V, S>, j: K, w: V) {
        let w2 = ghost(&w);
        let before = ghost(&m);
        let n = j.ordinal();
        let mut w = Some(w);
        m.retain(|k, v| {
            if k.ordinal() == n {
                if let Some(w) = w.take() { discard(std::mem::replace(v, w)); }
            }
            true
        });
        check!(m.contains_key(&j) == before.contains_key(&j));
        if let Some(y) = m.get(&j) { check!(same(y, &w2)); }
        discard((m, before, w, w2, j));
    }

    /// a predicate of key and value alone
    pub fn omv_pure<K: Ordinal, V, const S: usize>(mut m: OrdinalArrayMap<K, V, S>, j: K) {
        let before = ghost(&m);
        m.retain(|k, v| fun::<1, usize, bool>(&k.ordinal()));
        let keep = fun::<1, usize, bool>(&j.ordinal());
        check!(m.contains_key(&j) == (before.contains_key(&j) && keep));
        if let Some(y) = m.get(&j) { check!(same(y, before.get(&j).unwrap())); }
        discard((m, before, j));
    }
}
