//! Vocabulary of the specifications.  None of this is ever executed: the
//! analyser interprets these calls by name.
#![allow(unused_variables)]

#[inline(never)]
pub fn omvi_check(b: bool) { loop {} }
#[inline(never)]
pub fn omvi_assume(b: bool) { loop {} }
/// An arbitrary value.
#[inline(never)]
pub fn any<T>() -> T { loop {} }
/// The two values are the same value.
#[inline(never)]
pub fn same<T: ?Sized>(a: &T, b: &T) -> bool { loop {} }
/// `b` is the result of cloning `a`.
#[inline(never)]
pub fn is_clone_of<T>(b: &T, a: &T) -> bool { loop {} }
/// An arbitrary but fixed function of its argument.
#[inline(never)]
pub fn fun<const TAG: u32, A, R>(a: &A) -> R { loop {} }
/// Where two different single-word values differ.
#[inline(never)]
pub fn differing_bit<T>(a: &T, b: &T) -> usize { loop {} }
/// A bitwise copy, for comparing before and after.
#[inline(never)]
pub fn ghost<T>(a: &T) -> T { loop {} }
/// Forget a value without running its destructor.
#[inline(never)]
pub fn discard<T>(a: T) { loop {} }
/// The value `V::default()`.
#[inline(never)]
pub fn is_default<T>(a: &T) -> bool { loop {} }

/// How many atomic accesses were made so far.
#[inline(never)]
pub fn accesses() -> usize { loop {} }
/// The i-th memory ordering of the last atomic access is `o`.
#[inline(never)]
pub fn ordering_is(i: usize, o: &std::sync::atomic::Ordering) -> bool { loop {} }

/// Receives Debug output: what was written so far.
pub struct Rec<'a, V> {
    /// least key number that may come next
    pub next: usize,
    /// key number of the first value written
    pub first: usize,
    pub count: usize,
    /// an arbitrary key number, whether it has an entry, and its value
    pub j: usize,
    pub present: bool,
    pub want: Option<&'a V>,
    pub done: bool,
}

/// A formatter that writes into a recorder.
#[inline(never)]
pub fn recording<'a, 'r, V>(r: &'a mut Rec<'r, V>) -> &'a mut std::fmt::Formatter<'a> { loop {} }

#[macro_export]
macro_rules! check {
    ($e:expr) => { $crate::rt::omvi_check($e) };
}
#[macro_export]
macro_rules! assume {
    ($e:expr) => { $crate::rt::omvi_assume($e) };
}

/// How many heap allocations were made so far.
#[inline(never)]
pub fn allocations() -> usize { loop {} }
/// From here on,
#[inline(never)]
pub fn mark() { loop {} }
/// how much was done, in repetitions.
#[inline(never)]
pub fn work() -> usize { loop {} }

/// A value has come into being: its number.
#[inline(never)]
pub fn fresh() -> usize { loop {} }
/// The value with this number is gone.
#[inline(never)]
pub fn dropped(id: usize) { loop {} }
/// The value with this number is looked at.
#[inline(never)]
pub fn used(id: usize) { loop {} }
