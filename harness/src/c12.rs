//! C12: sets behave as mathematical sets.
use ordinal_map::set::*;
use ordinal_map::Ordinal;
use crate::rt::*;
use crate::{assume, check};

/// Elements to collect: arbitrary, remembering whether the one numbered `t` was among them.
pub struct Elems<T> {
    t: usize,
    seen: bool,
    k: std::marker::PhantomData<T>,
}

impl<T: Ordinal> Iterator for Elems<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        if any() {
            return None;
        }
        let k: T = any();
        if k.ordinal() == self.t {
            self.seen = true;
        }
        Some(k)
    }
}

macro_rules! set_specs {
    ($p:ident, $ty:ty, [$($g:tt)*]) => {
        pub mod $p {
            use super::*;

            pub fn omv_new<$($g)*>(j: T) {
                let s = <$ty>::new();
                check!(!s.contains(&j));
                let s = <$ty>::default();
                check!(!s.contains(&j));
                discard(j);
            }

            pub fn omv_insert<$($g)*>(mut s: $ty, k: T, j: T) {
                assume!(T::ORDINAL_SIZE <= isize::MAX as usize);
                let before = ghost(&s);
                let n = k.ordinal();
                let k2 = ghost(&k);
                let fresh = s.insert(k);
                check!(fresh != before.contains(&k2));
                if j.ordinal() == n {
                    check!(s.contains(&j));
                } else {
                    check!(s.contains(&j) == before.contains(&j));
                }
                discard((s, before, k2, j));
            }

            pub fn omv_insert_twice<$($g)*>(mut s: $ty, k: T) {
                assume!(T::ORDINAL_SIZE <= isize::MAX as usize);
                let k2 = ghost(&k);
                discard(s.insert(k));
                check!(s.contains(&k2));
                check!(!s.insert(k2));
                discard(s);
            }

            pub fn omv_contains_pure<$($g)*>(s: $ty, k: T, j: T) {
                let a = s.contains(&j);
                discard(s.contains(&k));
                check!(s.contains(&j) == a);
                discard((s, k, j));
            }

            pub fn omv_collect<$($g)*>(j: T) {
                assume!(T::ORDINAL_SIZE <= isize::MAX as usize);
                let mut src = Elems { t: j.ordinal(), seen: false, k: std::marker::PhantomData };
                let s: $ty = (&mut src).collect();
                check!(s.contains(&j) == src.seen);
                discard((s, src, j));
            }
        }
    };
}

set_specs!(growable, OrdinalSet<T>, [T: Ordinal]);
set_specs!(word, OrdinalSet64<T>, [T: Ordinal]);
set_specs!(array, OrdinalArraySet<T, S>, [T: Ordinal, const S: usize]);

pub fn omv_all<T: Ordinal>(j: T) {
    let s = OrdinalSet64::<T>::all();
    check!(s.contains(&j));
    discard((s, j));
}

pub fn omv_eq_members<T: Ordinal + Eq>(a: OrdinalSet64<T>, b: OrdinalSet64<T>, j: T) {
    if a == b {
        check!(a.contains(&j) == b.contains(&j));
        check!(!(a != b));
    } else {
        check!(a != b);
    }
    check!(a == a);
    discard((a, b, j));
}

/// Different sets differ in a member.
pub fn omv_eq_differ<T: Ordinal + Eq>(a: OrdinalSet64<T>, b: OrdinalSet64<T>) {
    if a != b {
        let i = differing_bit(&a, &b);
        check!(i < T::ORDINAL_SIZE);
        let k = T::from_ordinal(i).unwrap();
        check!(a.contains(&k) != b.contains(&k));
        discard(k);
    }
    discard((a, b));
}

/// The full set is the set of all values.
pub fn omv_eq_all<T: Ordinal + Eq>(a: OrdinalSet64<T>) {
    let b = OrdinalSet64::<T>::all();
    if a != b {
        let i = differing_bit(&a, &b);
        check!(i < T::ORDINAL_SIZE);
        let k = T::from_ordinal(i).unwrap();
        check!(!a.contains(&k));
        discard(k);
    }
    discard((a, b));
}

pub fn omv_eq_same_inserts<T: Ordinal + Eq>(mut a: OrdinalSet64<T>, k: T) {
    let mut b = ghost(&a);
    check!(a == b);
    if a.contains(&k) {
        discard(b.insert(k));
        check!(a == b);
    } else {
        discard(b.insert(k));
        check!(a != b);
    }
    discard((a, b));
}
