//! C13: set iteration, any interleaving of front and back steps.
use ordinal_map::set::*;
use ordinal_map::Ordinal;
use crate::rt::*;
use crate::{assume, check};

/// Takes one step from either end and checks it; [`f`, `b`) is what is still to come.
macro_rules! step {
    ($it:ident, $s:ident, $j:ident, $f:ident, $b:ident) => {
        if any() {
            match $it.next() {
                Some(k) => {
                    check!($f <= k.ordinal());
                    check!(k.ordinal() < $b);
                    check!($s.contains(&k));
                    if $f <= $j.ordinal() && $j.ordinal() < k.ordinal() { check!(!$s.contains(&$j)); }
                    $f = k.ordinal() + 1;
                    discard(k);
                }
                None => {
                    if $f <= $j.ordinal() && $j.ordinal() < $b { check!(!$s.contains(&$j)); }
                    $f = $b;
                }
            }
        } else {
            match $it.next_back() {
                Some(k) => {
                    check!($f <= k.ordinal());
                    check!(k.ordinal() < $b);
                    check!($s.contains(&k));
                    if k.ordinal() < $j.ordinal() && $j.ordinal() < $b { check!(!$s.contains(&$j)); }
                    $b = k.ordinal();
                    discard(k);
                }
                None => {
                    if $f <= $j.ordinal() && $j.ordinal() < $b { check!(!$s.contains(&$j)); }
                    $b = $f;
                }
            }
        }
    };
}

macro_rules! set_specs {
    ($p:ident, $ty:ty, [$($g:tt)*]) => {
        pub mod $p {
            use super::*;

            pub fn omv_iter<$($g)*>(s: $ty, j: T) {
                let mut it = s.iter();
                let mut f = 0usize;
                let mut b = T::ORDINAL_SIZE;
                while any() {
                    step!(it, s, j, f, b);
                }
                discard(it);
                discard((s, j));
            }

            /// The first two steps, from either end.
            pub fn omv_two_steps<$($g)*>(s: $ty, j: T) {
                let mut it = s.iter();
                let mut f = 0usize;
                let mut b = T::ORDINAL_SIZE;
                step!(it, s, j, f, b);
                step!(it, s, j, f, b);
                discard(it);
                discard((s, j));
            }

            /// One step from one end; the other end gives the rest of a one-element set.
            pub fn omv_one_step<$($g)*>(s: $ty, j: T) {
                let mut it = s.iter();
                let mut f = 0usize;
                let mut b = T::ORDINAL_SIZE;
                step!(it, s, j, f, b);
                discard(it);
                discard((s, j));
            }

            pub fn omv_unchanged<$($g)*>(s: $ty, j: T) {
                let a = s.contains(&j);
                let mut it = s.iter();
                while any() {
                    discard(if any() { it.next() } else { it.next_back() });
                }
                discard(it);
                check!(s.contains(&j) == a);
                discard((s, j));
            }
        }
    };
}

set_specs!(growable, OrdinalSet<T>, [T: Ordinal]);
set_specs!(word, OrdinalSet64<T>, [T: Ordinal]);
