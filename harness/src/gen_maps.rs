//! Arbitrary reachable containers: every container is what some sequence of
//! public operations makes of a new one.  The analyser infers the invariants
//! of these loops and uses them as the meaning of "any container" elsewhere.
use ordinal_map::map::total::*;
use ordinal_map::map::*;
use ordinal_map::Ordinal;
use crate::rt::*;

pub fn omv_inv_map<K: Ordinal, V>() -> OrdinalMap<K, V> {
    let mut m = OrdinalMap::new();
    while any() {
        match any::<u8>() {
            0 => discard(m.insert(any(), any())),
            1 => discard(m.entry(any())),
            2 => discard(m.remove(&any())),
            _ => m.clear(),
        }
    }
    m
}

pub fn omv_inv_amap<K: Ordinal, V, const S: usize>() -> OrdinalArrayMap<K, V, S> {
    let mut m = OrdinalArrayMap::new();
    while any() {
        match any::<u8>() {
            0 => discard(m.insert(any(), any())),
            1 => discard(m.entry(any())),
            2 => discard(m.remove(&any())),
            _ => m.clear(),
        }
    }
    m
}

pub fn omv_inv_tmap<K: Ordinal, V>() -> OrdinalTotalMap<K, V> {
    let mut m = OrdinalTotalMap::new(|_| any());
    while any() {
        discard(m.insert(any(), any()));
    }
    m
}

pub fn omv_inv_tamap<K: Ordinal, V, const S: usize>() -> OrdinalTotalArrayMap<K, V, S> {
    let mut m = OrdinalTotalArrayMap::new(|_| any());
    while any() {
        discard(m.insert(any(), any()));
    }
    m
}
