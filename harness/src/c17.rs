//! Ownership: every value made is dropped exactly once, on every path out of
//! the specification, panics of caller-supplied functions included.  The
//! analyser numbers the values made and keeps the ledger; a specification only
//! has to go through the motions.
use std::convert::Infallible;
use std::cmp::Ordering;
use std::mem;
use ordinal_map::map::total::*;
use ordinal_map::map::*;
use ordinal_map::set::*;
use ordinal_map::{AtomicOrdinal, Ordinal, OrdinalValues};
use crate::rt::*;

/// a value of which there is one
pub struct Tok(usize);
impl Tok {
    pub fn make() -> Tok { Tok(fresh()) }
    pub fn touch(&self) { used(self.0) }
}
impl Drop for Tok { fn drop(&mut self) { dropped(self.0) } }
impl Clone for Tok { fn clone(&self) -> Tok { self.touch(); trip(); Tok::make() } }
impl Default for Tok { fn default() -> Tok { trip(); Tok::make() } }

fn coin() -> bool { any::<bool>() }
/// caller-supplied code that may panic
fn trip() { if coin() { panic!() } }

/// a key that owns something
pub struct Key(bool, Tok);
impl Ordinal for Key {
    const ORDINAL_SIZE: usize = 2;
    fn ordinal(&self) -> usize { self.1.touch(); if self.0 { 1 } else { 0 } }
    fn from_ordinal(i: usize) -> Option<Key> {
        match i { 0 => Some(Key(false, Tok::make())), 1 => Some(Key(true, Tok::make())), _ => None }
    }
}

/// an arbitrary key, all cases apart
fn key<K: Ordinal>() -> K {
    let mut i = 0;
    while i + 1 < K::ORDINAL_SIZE && coin() { i += 1; }
    K::from_ordinal(i).unwrap()
}
/// what a function of the caller's does with a value
fn chew(v: Tok) -> Tok {
    v.touch();
    trip();
    if coin() { v } else { drop(v); Tok::make() }
}
fn eat(v: Tok) { v.touch(); trip(); drop(v) }
fn look(v: &Tok) { v.touch(); trip() }
fn change(v: &mut Tok) { v.touch(); trip(); if coin() { *v = Tok::make() } }

/// goes some way from both ends and drops the rest
fn nibble<T>(mut it: impl DoubleEndedIterator<Item = T>, f: impl Fn(T)) {
    if coin() { if let Some(x) = it.next() { f(x) } }
    if coin() { if let Some(x) = it.next_back() { f(x) } }
    if coin() { if let Some(x) = it.next() { f(x) } }
}
fn whole<T>(it: impl Iterator<Item = T>, f: impl Fn(T)) {
    for x in it { f(x) }
}
fn skip<T>(mut it: impl DoubleEndedIterator<Item = T>, f: impl Fn(T)) {
    if coin() { if let Some(x) = it.nth(1) { f(x) } }
    if coin() { if let Some(x) = it.nth_back(1) { f(x) } }
    if coin() { if let Some(x) = it.last() { f(x) } }
}

macro_rules! with_values {
    ($m:ident, $K:ty, $S:literal) => {
        pub mod $m {
            use super::*;
            type K = $K;
            type T = OrdinalTotalArrayMap<K, Tok, $S>;
            type B = OrdinalTotalMap<K, Tok>;
            type A = OrdinalArrayMap<K, Tok, $S>;
            type M = OrdinalMap<K, Tok>;
            fn t() -> T { T::new(|_| Tok::make()) }
            fn b() -> B { B::new(|_| Tok::make()) }

            // ---- total array map
            pub fn omv_t_new() { let _m = T::new(|_| { trip(); Tok::make() }); }
            pub fn omv_t_try_new() {
                let _r = T::try_new(|_| { trip(); if coin() { Err(Tok::make()) } else { Ok(Tok::make()) } });
            }
            pub fn omv_t_default() { let _m = T::default(); }
            pub fn omv_t_clone() { let m = t(); let c = m.clone(); drop(m); c.iter().for_each(|(_, v)| v.touch()); }
            pub fn omv_t_from_array() { let a: [Tok; $S] = t().into_values(); let m = T::from_array(a); trip(); whole(m.values(), look); }
            pub fn omv_t_map() { let m = t().map(|_, v| chew(v)); whole(m.values(), |v| v.touch()); }
            pub fn omv_t_map_values() { let m = t().map_values(chew); whole(m.values(), |v| v.touch()); }
            pub fn omv_t_map_away() { let _m = t().map_values(eat); }
            pub fn omv_t_zip() { let m = t().zip(t()); whole(m.values(), |v| { v.0.touch(); look(&v.1) }); }
            pub fn omv_t_views() {
                let mut m = t();
                whole(m.as_ref().values(), |v| v.touch());
                let mut held = Tok::make();
                for (_, v) in m.as_mut() { trip(); mem::swap(&mut held, v); }
            }
            pub fn omv_t_into_values() { whole(t().into_values().into_iter(), eat); }
            pub fn omv_t_into_keys() { let _k = t().into_keys(); trip(); }
            pub fn omv_t_into_iter() { nibble(t().into_iter(), |(_, v)| eat(v)); }
            pub fn omv_t_into_iter_whole() { whole(t().into_iter(), |(_, v)| eat(v)); }
            pub fn omv_t_into_iter_back() { whole(t().into_iter().rev(), |(_, v)| eat(v)); }
            pub fn omv_t_into_iter_skip() { skip(t().into_iter(), |(_, v)| eat(v)); }
            pub fn omv_t_into_iter_clone() { let mut i = t().into_iter(); if coin() { i.next(); } if coin() { i.next_back(); } let j = i.clone(); drop(i); whole(j, |(_, v)| v.touch()); }
            pub fn omv_t_iter_mut() { let mut m = t(); whole(m.iter_mut(), |(_, v)| change(v)); whole(m.values_mut(), change); }
            pub fn omv_t_cells() {
                if $S == 0 { return }
                let mut m = t();
                change(m.get_mut(&key()));
                change(&mut m[&key()]);
                let old = m.insert(key(), Tok::make());
                old.touch();
                trip();
                m[&key()].touch();
            }

            // ---- total map
            pub fn omv_b_new() { let _m = B::new(|_| { trip(); Tok::make() }); }
            pub fn omv_b_try_new() {
                let _r = B::try_new(|_| { trip(); if coin() { Err(Tok::make()) } else { Ok(Tok::make()) } });
            }
            pub fn omv_b_default() { let _m = B::default(); }
            pub fn omv_b_clone() { let m = b(); let c = m.clone(); drop(m); c.iter().for_each(|(_, v)| v.touch()); }
            pub fn omv_b_into_values() { let v = b().into_values(); trip(); drop(v); }
            pub fn omv_b_into_keys() { let _k = b().into_keys(); trip(); }
            pub fn omv_b_into_iter() { nibble(b().into_iter(), |(_, v)| eat(v)); }
            pub fn omv_b_into_iter_whole() { whole(b().into_iter(), |(_, v)| eat(v)); }
            pub fn omv_b_into_iter_back() { whole(b().into_iter().rev(), |(_, v)| eat(v)); }
            pub fn omv_b_into_iter_skip() { skip(b().into_iter(), |(_, v)| eat(v)); }
            pub fn omv_b_into_iter_clone() { let mut i = b().into_iter(); if coin() { i.next(); } if coin() { i.next_back(); } let j = i.clone(); drop(i); whole(j, |(_, v)| v.touch()); }
            pub fn omv_b_iter_mut() { let mut m = b(); whole(m.iter_mut(), |(_, v)| change(v)); whole(m.values_mut(), change); }
            pub fn omv_b_cells() {
                if $S == 0 { return }
                let mut m = b();
                change(m.get_mut(&key()));
                change(&mut m[&key()]);
                let old = m.insert(key(), Tok::make());
                old.touch();
                trip();
                m[&key()].touch();
            }

            // ---- sparse maps
            sparse!(a, A, {
                let mut m = A::new();
                for k in K::all_values() { if coin() { m.insert(k, Tok::make()); } }
                m
            }, $S);
            sparse!(m, M, {
                let mut m = M::new();
                for k in K::all_values() { if coin() { m.insert(k, Tok::make()); } }
                m
            }, $S);
            pub fn omv_a_retain() {
                let mut m = a::full();
                m.retain(|_, v| { change(v); coin() });
                trip();
                whole(m.values(), |v| v.touch());
            }
        }
    };
}

macro_rules! sparse {
    ($a:ident, $A:ty, $mk:expr, $S:literal) => {
        pub mod $a {
            use super::*;
            pub fn full() -> $A { $mk }
            pub fn omv_drop() { let _m = full(); trip(); }
            pub fn omv_clone() { let m = full(); let c = m.clone(); drop(m); whole(c.values(), |v| v.touch()); }
            pub fn omv_insert() {
                if $S == 0 { return }
                let mut m = full();
                if let Some(old) = m.insert(key(), Tok::make()) { eat(old) }
                if let Some(old) = m.remove(&key()) { eat(old) }
                if let Some(v) = m.get_mut(&key()) { change(v) }
                if let Some(v) = m.get(&key()) { look(v) }
            }
            pub fn omv_entry() {
                if $S == 0 { return }
                let mut m = full();
                match m.entry(key()) {
                    Entry::Occupied(mut e) => { look(e.get()); change(e.get_mut()) }
                    Entry::Vacant(e) => { if coin() { trip(); e.insert(Tok::make()) } }
                }
                whole(m.values(), |v| v.touch());
            }
            pub fn omv_or_insert() {
                if $S == 0 { return }
                let mut m = full();
                change(m.entry(key()).or_insert(Tok::make()));
                whole(m.values(), |v| v.touch());
            }
            pub fn omv_drain() { let mut m = full(); nibble(m.drain(), |(_, v)| eat(v)); assert_none(m.iter().next().is_none()); }
            pub fn omv_drain_whole() { let mut m = full(); whole(m.drain(), |(_, v)| eat(v)); }
            pub fn omv_drain_back() { let mut m = full(); whole(m.drain().rev(), |(_, v)| eat(v)); }
            pub fn omv_drain_skip() { let mut m = full(); skip(m.drain(), |(_, v)| eat(v)); }
            pub fn omv_drain_forgotten() {
                let mut m = full();
                let mut d = m.drain();
                if coin() { if let Some((_, v)) = d.next() { eat(v) } }
                mem::forget(d);
                whole(m.values(), look);
            }
            pub fn omv_clear() { let mut m = full(); m.clear(); trip(); }
            pub fn omv_into_iter() { nibble(full().into_iter(), |(_, v)| eat(v)); }
            pub fn omv_into_iter_whole() { whole(full().into_iter(), |(_, v)| eat(v)); }
            pub fn omv_into_iter_back() { whole(full().into_iter().rev(), |(_, v)| eat(v)); }
            pub fn omv_into_iter_skip() { skip(full().into_iter(), |(_, v)| eat(v)); }
            pub fn omv_into_iter_clone() { let mut i = full().into_iter(); if coin() { i.next(); } if coin() { i.next_back(); } let j = i.clone(); drop(i); whole(j, |(_, v)| v.touch()); }
            pub fn omv_iter_mut() { let mut m = full(); whole(m.iter_mut(), |(_, v)| change(v)); whole(m.values_mut(), change); }
            pub fn omv_from_iter() {
                if $S == 0 { return }
                let mut n = 0;
                let m: $A = std::iter::from_fn(|| { trip(); n += 1; if n < 3 && coin() { Some((key(), Tok::make())) } else { None } }).collect();
                whole(m.values(), |v| v.touch());
            }
        }
    };
}
fn assert_none(_: bool) {}

with_values!(k0, Infallible, 0);
with_values!(k1, (), 1);
with_values!(k2, bool, 2);
with_values!(k3, Ordering, 3);
with_values!(owned, Key, 2);

// ---- keys that own something
pub mod keys {
    use super::*;
    fn far() -> usize {
        let mut i = 0;
        while i < 9 && coin() { i += 1; }
        i
    }
    pub fn omv_array() { let a = <[Key; 3]>::from_ordinal(far()); if let Some(a) = &a { a.ordinal(); } trip(); }
    pub fn omv_array_0() { let _a = <[Key; 0]>::from_ordinal(far()); trip(); }
    pub fn omv_tuple() { let a = <(Key, bool, Key)>::from_ordinal(far()); if let Some(a) = &a { a.ordinal(); } trip(); }
    pub fn omv_option() { let a = <Option<Option<Key>>>::from_ordinal(far()); if let Some(a) = &a { a.ordinal(); } trip(); }
    pub fn omv_result() { let a = <Result<Key, (Key, Key)>>::from_ordinal(far()); if let Some(a) = &a { a.ordinal(); } trip(); }
    pub fn omv_either() { let a = <either::Either<Key, (Key, Key)>>::from_ordinal(far()); if let Some(a) = &a { a.ordinal(); } trip(); }
    pub fn omv_boxed() { let a = <Box<Key>>::from_ordinal(far()); if let Some(a) = &a { a.ordinal(); } trip(); }
    #[derive(Ordinal)]
    struct Record { a: Key, b: bool, c: Key }
    #[derive(Ordinal)]
    enum Choice { None, One(Key), Two { a: Key, b: Key } }
    pub fn omv_record() { let a = Record::from_ordinal(far()); if let Some(a) = &a { a.ordinal(); } trip(); }
    pub fn omv_choice() { let a = Choice::from_ordinal(far()); if let Some(a) = &a { a.ordinal(); } trip(); }

    pub fn omv_all_values() { nibble(Key::all_values(), |k| { trip(); drop(k) }); }
    pub fn omv_all_values_skip() { skip(Key::all_values(), |k| { trip(); drop(k) }); }
    pub fn omv_atomic() {
        let a = AtomicOrdinal::new(key::<Key>());
        trip();
        drop(a.load(std::sync::atomic::Ordering::SeqCst));
        a.store(key(), std::sync::atomic::Ordering::SeqCst);
        let _r = a.compare_exchange(key(), key(), std::sync::atomic::Ordering::SeqCst, std::sync::atomic::Ordering::SeqCst);
        trip();
    }

    macro_rules! set {
        ($m:ident, $S:ty) => {
            pub mod $m {
                use super::*;
                pub fn omv_ops() {
                    let mut s = <$S>::new();
                    s.insert(key());
                    trip();
                    s.insert(key());
                    let k = key();
                    s.contains(&k);
                    trip();
                }
                pub fn omv_collect() {
                    let mut n = 0;
                    let s: $S = std::iter::from_fn(|| { trip(); n += 1; if n < 3 && coin() { Some(key()) } else { None } }).collect();
                }
            }
        };
    }
    set!(set64, OrdinalSet64<Key>);
    set!(array_set, OrdinalArraySet<Key, 1>);
    set!(set, OrdinalSet<Key>);
    pub fn omv_set64_iter() { let mut s = OrdinalSet64::<Key>::all(); nibble(s.iter(), |k| { trip(); drop(k) }); }
    pub fn omv_set_iter() { let mut s = OrdinalSet::<Key>::new(); s.insert(key()); nibble(s.iter(), |k| { trip(); drop(k) }); }
}
