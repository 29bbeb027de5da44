//! The numbering laws, for C01 to C04.
use ordinal_map::Ordinal;
use crate::rt::*;
use crate::{assume, check};

/// Every number converts to the value that has it, or is too large.
pub fn from_number<T: Ordinal>() {
    let n: usize = any();
    match T::from_ordinal(n) {
        Some(x) => {
            check!(n < T::ORDINAL_SIZE);
            check!(x.ordinal() == n);
            discard(x);
        }
        None => check!(n >= T::ORDINAL_SIZE),
    }
}

/// Every value converts to a number of its own.
pub fn from_value<T: Ordinal>() {
    let x: T = any();
    let n = x.ordinal();
    check!(n < T::ORDINAL_SIZE);
    match T::from_ordinal(n) {
        Some(y) => {
            check!(same(&x, &y));
            discard(y);
        }
        None => check!(false),
    }
    discard(x);
}

