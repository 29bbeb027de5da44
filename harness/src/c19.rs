//! C19: the atomic cell.  Every operation makes exactly one atomic access, so
//! that what other threads do amounts to an arbitrary value before it.
use std::sync::atomic::Ordering;
use ordinal_map::{AtomicOrdinal, Ordinal};
use crate::rt::*;
use crate::{assume, check};

pub fn omv_new<T: Ordinal>(v: T) {
    let n = v.ordinal();
    let a = AtomicOrdinal::new(v);
    check!(accesses() == 0);
    check!(a.load(Ordering::SeqCst).ordinal() == n);
}

pub fn omv_load<T: Ordinal>(v: T, o: Ordering) {
    let n = v.ordinal();
    let a = AtomicOrdinal::new(v);
    let x = a.load(o);
    check!(accesses() == 1);
    check!(ordering_is(0, &o));
    check!(x.ordinal() == n);
    check!(a.load(o).ordinal() == n);
    discard(x);
}

pub fn omv_store<T: Ordinal>(v: T, w: T, o: Ordering) {
    let n = w.ordinal();
    let a = AtomicOrdinal::new(v);
    a.store(w, o);
    check!(accesses() == 1);
    check!(ordering_is(0, &o));
    check!(a.load(Ordering::SeqCst).ordinal() == n);
}

pub fn omv_compare_exchange<T: Ordinal>(v: T, old: T, new: T, s: Ordering, f: Ordering) {
    let (nv, no, nn) = (v.ordinal(), old.ordinal(), new.ordinal());
    let a = AtomicOrdinal::new(v);
    let r = a.compare_exchange(old, new, s, f);
    check!(accesses() == 1);
    check!(ordering_is(0, &s));
    check!(ordering_is(1, &f));
    let after = a.load(Ordering::SeqCst).ordinal();
    match &r {
        Ok(x) => {
            check!(nv == no);
            check!(x.ordinal() == nv);
            check!(after == nn);
        }
        Err(x) => {
            check!(nv != no);
            check!(x.ordinal() == nv);
            check!(after == nv);
        }
    }
    discard(r);
}

/// after any operations, the cell holds what the last of them put there
pub fn omv_history<T: Ordinal>(v: T) {
    let mut cur = v.ordinal();
    let a = AtomicOrdinal::new(v);
    while any() {
        match any::<u8>() {
            0 => {
                let w: T = any();
                let n = w.ordinal();
                a.store(w, Ordering::SeqCst);
                cur = n;
            }
            1 => {
                let (o, w): (T, T) = (any(), any());
                let (no, nw) = (o.ordinal(), w.ordinal());
                let r = a.compare_exchange(o, w, Ordering::SeqCst, Ordering::SeqCst);
                check!(r.is_ok() == (cur == no));
                match &r {
                    Ok(x) | Err(x) => check!(x.ordinal() == cur),
                }
                if r.is_ok() { cur = nw; }
                discard(r);
            }
            _ => {
                let x = a.load(Ordering::SeqCst);
                check!(x.ordinal() == cur);
                discard(x);
            }
        }
    }
    check!(a.load(Ordering::SeqCst).ordinal() == cur);
}

/// formatting looks at the value once
pub fn omv_debug<T: Ordinal + std::fmt::Debug>(v: T) {
    let n = v.ordinal();
    let a = AtomicOrdinal::new(v);
    let mut r = Rec::<()> { next: 0, first: 0, count: 0, j: n, present: true, want: None, done: false };
    check!(std::fmt::Debug::fmt(&a, recording(&mut r)).is_ok());
    check!(accesses() == 1);
    check!(r.count == 1 && r.first == n);
    check!(a.load(Ordering::SeqCst).ordinal() == n);
}
