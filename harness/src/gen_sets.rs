//! Arbitrary reachable sets.
use ordinal_map::set::*;
use ordinal_map::Ordinal;
use crate::rt::*;

pub fn omv_inv_set<T: Ordinal>() -> OrdinalSet<T> {
    // a set over more values does not fit in memory
    crate::assume!(T::ORDINAL_SIZE <= isize::MAX as usize);
    let mut s = OrdinalSet::new();
    while any() {
        discard(s.insert(any()));
    }
    s
}

pub fn omv_inv_set64<T: Ordinal>() -> OrdinalSet64<T> {
    let mut s = if any() { OrdinalSet64::new() } else { OrdinalSet64::all() };
    while any() {
        discard(s.insert(any()));
    }
    s
}

pub fn omv_inv_aset<T: Ordinal, const S: usize>() -> OrdinalArraySet<T, S> {
    let mut s = OrdinalArraySet::new();
    while any() {
        discard(s.insert(any()));
    }
    s
}
