//! Every public operation, called in every reachable state: what must hold of
//! all of them alike (C16 allocation, C18 panics, C22 cost).
use std::convert::Infallible;
use std::fmt::Debug;
use std::sync::atomic::Ordering;
use ordinal_map::map::total::*;
use ordinal_map::map::*;
use ordinal_map::set::*;
use ordinal_map::{AtomicOrdinal, Ordinal, OrdinalValues};
use crate::rt::*;
use crate::{assume, check};

#[cfg(feature = "c16")]
pub fn quiet_since(a: usize) { check!(allocations() == a) }
#[cfg(feature = "c22")]
pub fn quick_since(a: usize) { check!(work() <= 64 || allocations() != a) }

/// a point operation: constant time, no allocation
macro_rules! op {
    ($e:expr) => {{
        #[cfg(any(feature = "c16", feature = "c22"))]
        let a = allocations();
        #[cfg(feature = "c22")]
        mark();
        let r = $e;
        #[cfg(feature = "c22")]
        quick_since(a);
        #[cfg(feature = "c16")]
        quiet_since(a);
        r
    }};
}
/// may take time, but no memory
macro_rules! walk {
    ($e:expr) => {{
        #[cfg(feature = "c16")]
        let a = allocations();
        let r = $e;
        #[cfg(feature = "c16")]
        quiet_since(a);
        r
    }};
}
/// may allocate, and then take time
macro_rules! grow {
    ($e:expr) => {{
        #[cfg(feature = "c22")]
        let a = { mark(); allocations() };
        let r = $e;
        #[cfg(feature = "c22")]
        quick_since(a);
        r
    }};
}
/// may do both
macro_rules! heavy {
    ($e:expr) => {{
        $e
    }};
}

#[cfg(not(feature = "c22"))]
fn shown<T: Debug>(t: &T) {
    let mut r: Rec<()> = Rec { next: 0, first: 0, count: 0, j: usize::MAX, present: false, want: None, done: false };
    discard(t.fmt(recording(&mut r)));
}

/// an iterator in any state
#[cfg(not(feature = "c22"))]
macro_rules! stepped {
    ($it:expr) => {
        while any() { discard(if any() { walk!($it.next()) } else { walk!($it.next_back()) }); }
    };
}

#[cfg(not(feature = "c22"))]
macro_rules! iterators {
    ($($name:ident [$($g:tt)*] ($($arg:tt)*) $make:expr;)*) => {
        $(pub mod $name {
            use super::*;
            pub fn omv_steps<$($g)*>($($arg)*) { let mut it = $make; stepped!(it); walk!(drop(it)); }
            pub fn omv_hint<$($g)*>($($arg)*) { let mut it = $make; stepped!(it); discard(walk!(it.size_hint())); discard(it); }
            pub fn omv_count<$($g)*>($($arg)*) { let mut it = $make; stepped!(it); discard(walk!(it.count())); }
            pub fn omv_last<$($g)*>($($arg)*) { let mut it = $make; stepped!(it); discard(walk!(it.last())); }
            pub fn omv_nth<$($g)*>($($arg)*) { let mut it = $make; stepped!(it); discard(walk!(it.nth(any()))); discard(it); }
            pub fn omv_nth_back<$($g)*>($($arg)*) { let mut it = $make; stepped!(it); discard(walk!(it.nth_back(any()))); discard(it); }
            pub fn omv_fold<$($g)*>($($arg)*) { let mut it = $make; stepped!(it); walk!(it.for_each(|x| discard(x))); }
            pub fn omv_rev<$($g)*>($($arg)*) { let mut it = $make; stepped!(it); walk!(it.rev().for_each(|x| discard(x))); }
        })*
    };
}
#[cfg(not(feature = "c22"))]
iterators! {
    it_map_iter [K: Ordinal, V] (m: OrdinalMap<K, V>) m.iter();
    it_map_iter_mut [K: Ordinal, V] (mut m: OrdinalMap<K, V>) m.iter_mut();
    it_map_into_iter [K: Ordinal, V] (m: OrdinalMap<K, V>) m.into_iter();
    it_map_keys [K: Ordinal, V] (m: OrdinalMap<K, V>) m.keys();
    it_map_values [K: Ordinal, V] (m: OrdinalMap<K, V>) m.values();
    it_map_values_mut [K: Ordinal, V] (mut m: OrdinalMap<K, V>) m.values_mut();
    it_map_drain [K: Ordinal, V] (mut m: OrdinalMap<K, V>) m.drain();
    it_amap_iter [K: Ordinal, V, const S: usize] (m: OrdinalArrayMap<K, V, S>) m.iter();
    it_amap_iter_mut [K: Ordinal, V, const S: usize] (mut m: OrdinalArrayMap<K, V, S>) m.iter_mut();
    it_amap_into_iter [K: Ordinal, V, const S: usize] (m: OrdinalArrayMap<K, V, S>) m.into_iter();
    it_amap_keys [K: Ordinal, V, const S: usize] (m: OrdinalArrayMap<K, V, S>) m.keys();
    it_amap_values [K: Ordinal, V, const S: usize] (m: OrdinalArrayMap<K, V, S>) m.values();
    it_amap_values_mut [K: Ordinal, V, const S: usize] (mut m: OrdinalArrayMap<K, V, S>) m.values_mut();
    it_amap_drain [K: Ordinal, V, const S: usize] (mut m: OrdinalArrayMap<K, V, S>) m.drain();
    it_tamap_iter [K: Ordinal, V, const S: usize] (m: OrdinalTotalArrayMap<K, V, S>) m.iter();
    it_tamap_iter_mut [K: Ordinal, V, const S: usize] (mut m: OrdinalTotalArrayMap<K, V, S>) m.iter_mut();
    it_tamap_into_iter [K: Ordinal, V, const S: usize] (m: OrdinalTotalArrayMap<K, V, S>) m.into_iter();
    it_tamap_keys [K: Ordinal, V, const S: usize] (m: OrdinalTotalArrayMap<K, V, S>) m.keys();
    it_set64 [T: Ordinal] (s: OrdinalSet64<T>) s.iter();
    it_set [T: Ordinal] (s: OrdinalSet<T>) s.iter();
    it_all_values [T: Ordinal] () T::all_values();
}
#[cfg(feature = "c18")]
iterators! {
    it_tmap_iter [K: Ordinal, V] (m: OrdinalTotalMap<K, V>) m.iter();
    it_tmap_iter_mut [K: Ordinal, V] (mut m: OrdinalTotalMap<K, V>) m.iter_mut();
    it_tmap_into_iter [K: Ordinal, V] (m: OrdinalTotalMap<K, V>) m.into_iter();
    it_tmap_keys [K: Ordinal, V] (m: OrdinalTotalMap<K, V>) m.keys();
}

macro_rules! sparse {
    ($p:ident, $ty:ty, [$($g:tt)*], $grow:ident) => {
        pub mod $p {
            use super::*;
            pub fn omv_new<$($g)*>() { let m = walk!(<$ty>::new()); discard(m); let m = walk!(<$ty>::default()); discard(m); }
            pub fn omv_get<$($g)*>(m: $ty, k: K) { discard(op!(m.get(&k))); discard((m, k)); }
            pub fn omv_get_mut<$($g)*>(mut m: $ty, k: K) { discard(op!(m.get_mut(&k))); discard((m, k)); }
            pub fn omv_contains<$($g)*>(m: $ty, k: K) { discard(op!(m.contains_key(&k))); discard((m, k)); }
            pub fn omv_insert<$($g)*>(mut m: $ty, k: K, v: V) { discard($grow!(m.insert(k, v))); discard(m); }
            pub fn omv_insert_again<$($g)*>(mut m: $ty, k: K, v: V, k2: K, v2: V) {
                discard(m.insert(k, v));
                if any() { discard(m.remove(&k2)); }
                if any() { m.clear(); }
                discard(op!(m.insert(k2, v2)));
                discard(m);
            }
            pub fn omv_entry_again<$($g)*>(mut m: $ty, k: K, v: V, k2: K) {
                if any() { discard(m.insert(k, v)); } else { discard((m.entry(k), v)); }
                discard(op!(m.entry(k2)));
                discard(m);
            }
            pub fn omv_remove<$($g)*>(mut m: $ty, k: K) { discard(op!(m.remove(&k))); discard((m, k)); }
            pub fn omv_entry<$($g)*>(mut m: $ty, k: K, v: V) {
                match $grow!(m.entry(k)) {
                    Entry::Occupied(mut e) => {
                        discard(op!(e.key()));
                        discard(op!(e.get()));
                        discard(op!(e.get_mut()));
                        discard((e, v));
                    }
                    Entry::Vacant(e) => {
                        discard(op!(e.key()));
                        op!(e.insert(v));
                    }
                }
                discard(m);
            }
            pub fn omv_or_insert<$($g)*>(mut m: $ty, k: K, v: V) {
                let e = $grow!(m.entry(k));
                discard(op!(e.key()));
                discard(op!(e.or_insert(v)));
                discard(m);
            }
            #[cfg(not(feature = "c22"))]
            pub fn omv_len<$($g)*>(m: $ty) { discard(walk!(m.len())); discard(walk!(m.is_empty())); discard(m); }
            #[cfg(not(feature = "c22"))]
            pub fn omv_clear<$($g)*>(mut m: $ty) { walk!(m.clear()); discard(m); }
            #[cfg(feature = "c18")]
            pub fn omv_build<$($g)*>(a: (K, V), b: (K, V), c: (K, V)) {
                let m: $ty = heavy!([a, b, c].into_iter().collect());
                discard(m);
            }
            #[cfg(feature = "c18")]
            pub fn omv_drop<$($g)*>(m: $ty) { drop(m); }
        }
    };
}
sparse!(sparse_boxed, OrdinalMap<K, V>, [K: Ordinal, V], grow);
sparse!(sparse_array, OrdinalArrayMap<K, V, S>, [K: Ordinal, V, const S: usize], op);

#[cfg(not(feature = "c22"))]
pub mod retained {
    use super::*;
    pub fn omv_retain<K: Ordinal, V, const S: usize, F: FnMut(K, &mut V) -> bool>(mut m: OrdinalArrayMap<K, V, S>, f: F) {
        walk!(m.retain(f));
        discard(m);
    }
}

#[cfg(feature = "c18")]
macro_rules! copied {
    ($($p:ident $ty:ty, [$($g:tt)*];)*) => {
        $(pub mod $p {
            use super::*;
            pub fn omv_clone<$($g)*>(m: $ty) { discard(m.clone()); discard(m); }
            pub fn omv_clone_from<$($g)*>(m: $ty, mut n: $ty) { n.clone_from(&m); discard((m, n)); }
        })*
    };
}
#[cfg(feature = "c18")]
copied! {
    cp_map OrdinalMap<K, V>, [K: Ordinal, V: Clone];
    cp_amap OrdinalArrayMap<K, V, S>, [K: Ordinal, V: Clone, const S: usize];
    cp_tmap OrdinalTotalMap<K, V>, [K: Ordinal, V: Clone];
    cp_tamap OrdinalTotalArrayMap<K, V, S>, [K: Ordinal, V: Clone, const S: usize];
    cp_set OrdinalSet<T>, [T: Ordinal];
    cp_set64 OrdinalSet64<T>, [T: Ordinal];
    cp_aset OrdinalArraySet<T, S>, [T: Ordinal, const S: usize];
}

/// array-backed containers and iterators are copied in place
#[cfg(feature = "c16")]
pub mod copies {
    use super::*;
    pub fn omv_amap<K: Ordinal, V: Clone, const S: usize>(m: OrdinalArrayMap<K, V, S>) { discard(walk!(m.clone())); discard(m); }
    pub fn omv_tamap<K: Ordinal, V: Clone, const S: usize>(m: OrdinalTotalArrayMap<K, V, S>) { discard(walk!(m.clone())); discard(m); }
    pub fn omv_set64<T: Ordinal>(m: OrdinalSet64<T>) { discard(walk!(m.clone())); discard(m); }
    pub fn omv_aset<T: Ordinal, const S: usize>(m: OrdinalArraySet<T, S>) { discard(walk!(m.clone())); discard(m); }
    pub fn omv_amap_iter<K: Ordinal, V, const S: usize>(m: OrdinalArrayMap<K, V, S>) { let it = m.iter(); discard(walk!(it.clone())); discard(it); discard(m); }
    pub fn omv_amap_into<K: Ordinal, V: Clone, const S: usize>(m: OrdinalArrayMap<K, V, S>) { let mut it = m.into_iter(); stepped!(it); discard(walk!(it.clone())); discard(it); }
    pub fn omv_tamap_into<K: Ordinal, V: Clone, const S: usize>(m: OrdinalTotalArrayMap<K, V, S>) { let mut it = m.into_iter(); stepped!(it); discard(walk!(it.clone())); discard(it); }
    pub fn omv_collect<K: Ordinal, V, const S: usize>(a: (K, V), b: (K, V)) {
        let m: OrdinalArrayMap<K, V, S> = walk!([a, b].into_iter().collect());
        discard(m);
    }
    pub fn omv_collect_aset<T: Ordinal, const S: usize>(a: T, b: T) {
        let m: OrdinalArraySet<T, S> = walk!([a, b].into_iter().collect());
        discard(m);
    }
    pub fn omv_collect_set64<T: Ordinal>(a: T, b: T) {
        let m: OrdinalSet64<T> = walk!([a, b].into_iter().collect());
        discard(m);
    }
    /// growable sets over at most 64 values
    pub fn omv_small_collect<T: Ordinal>(a: T, b: T) {
        assume!(T::ORDINAL_SIZE <= 64);
        let m: OrdinalSet<T> = walk!([a, b].into_iter().collect());
        discard(m);
    }
    pub fn omv_small_insert<T: Ordinal>(mut s: OrdinalSet<T>, a: T) {
        assume!(T::ORDINAL_SIZE <= 64);
        discard(walk!(s.insert(a)));
        discard(s);
    }
    pub fn omv_small_clone<T: Ordinal>(s: OrdinalSet<T>) {
        assume!(T::ORDINAL_SIZE <= 64);
        discard(walk!(s.clone()));
        discard(s);
    }
    pub fn omv_total_map<K: Ordinal, V, W, const S: usize, F: FnMut(K, V) -> W>(m: OrdinalTotalArrayMap<K, V, S>, f: F) { discard(walk!(m.map(f))); }
    pub fn omv_total_map_values<K: Ordinal, V, W, const S: usize, F: FnMut(V) -> W>(m: OrdinalTotalArrayMap<K, V, S>, f: F) { discard(walk!(m.map_values(f))); }
    pub fn omv_total_zip<K: Ordinal, V, W, const S: usize>(m: OrdinalTotalArrayMap<K, V, S>, n: OrdinalTotalArrayMap<K, W, S>) { discard(walk!(m.zip(n))); }
    pub fn omv_total_as_ref<K: Ordinal, V, const S: usize>(m: OrdinalTotalArrayMap<K, V, S>) { discard(walk!(m.as_ref())); discard(m); }
    pub fn omv_total_as_mut<K: Ordinal, V, const S: usize>(mut m: OrdinalTotalArrayMap<K, V, S>) { discard(walk!(m.as_mut())); discard(m); }
    pub fn omv_total_new<K: Ordinal, V, const S: usize, F: FnMut(K) -> V>(f: F) { discard(walk!(OrdinalTotalArrayMap::<K, V, S>::new(f))); }
    pub fn omv_total_try_new<K: Ordinal, V, E, const S: usize, F: FnMut(K) -> Result<V, E>>(f: F) { discard(walk!(OrdinalTotalArrayMap::<K, V, S>::try_new(f))); }
    pub fn omv_total_default<K: Ordinal, V: Default, const S: usize>() { discard(walk!(OrdinalTotalArrayMap::<K, V, S>::default())); }
    pub fn omv_total_from_array<K: Ordinal, V, const S: usize>(a: [V; S]) { discard(walk!(OrdinalTotalArrayMap::<K, V, S>::from_array(a))); }
    pub fn omv_total_into_values<K: Ordinal, V, const S: usize>(m: OrdinalTotalArrayMap<K, V, S>) { discard(walk!(m.into_values())); }
}

macro_rules! total {
    ($p:ident, $ty:ty, [$($g:tt)*]) => {
        pub mod $p {
            use super::*;
            pub fn omv_get<$($g)*>(m: $ty, k: K) { discard(op!(m.get(&k))); discard(op!(&m[&k])); discard((m, k)); }
            pub fn omv_get_mut<$($g)*>(mut m: $ty, k: K) { discard(op!(m.get_mut(&k))); discard((m, k)); }
            pub fn omv_index_mut<$($g)*>(mut m: $ty, k: K) { discard(op!(&mut m[&k])); discard((m, k)); }
            pub fn omv_insert<$($g)*>(mut m: $ty, k: K, v: V) { discard(op!(m.insert(k, v))); discard(m); }
            pub fn omv_len<$($g)*>(m: $ty) { discard(op!(m.len())); discard(op!(m.is_empty())); discard(op!(m.values())); discard(op!(m.keys())); discard(m); }
            #[cfg(feature = "c18")]
            pub fn omv_values_mut<$($g)*>(mut m: $ty) { discard(m.values_mut()); discard(m); }
            #[cfg(feature = "c18")]
            pub fn omv_into_keys<$($g)*>(m: $ty) { discard(m.into_keys()); }
            #[cfg(feature = "c18")]
            pub fn omv_into_values<$($g)*>(m: $ty) { discard(m.into_values()); }
            #[cfg(feature = "c18")]
            pub fn omv_into_iter<$($g)*>(m: $ty) { discard((&m).into_iter()); drop(m); }
        }
    };
}
#[cfg(not(feature = "c16"))]
total!(total_boxed, OrdinalTotalMap<K, V>, [K: Ordinal, V]);
total!(total_array, OrdinalTotalArrayMap<K, V, S>, [K: Ordinal, V, const S: usize]);

#[cfg(feature = "c18")]
pub mod total_build {
    use super::*;
    pub fn omv_boxed_new<K: Ordinal, V, F: FnMut(K) -> V>(f: F) { discard(OrdinalTotalMap::<K, V>::new(f)); }
    pub fn omv_boxed_try_new<K: Ordinal, V, E, F: FnMut(K) -> Result<V, E>>(f: F) { discard(OrdinalTotalMap::<K, V>::try_new(f)); }
    pub fn omv_boxed_default<K: Ordinal, V: Default>() { discard(OrdinalTotalMap::<K, V>::default()); }
    pub fn omv_new<K: Ordinal, V, const S: usize, F: FnMut(K) -> V>(f: F) { discard(OrdinalTotalArrayMap::<K, V, S>::new(f)); }
    pub fn omv_try_new<K: Ordinal, V, E, const S: usize, F: FnMut(K) -> Result<V, E>>(f: F) { discard(OrdinalTotalArrayMap::<K, V, S>::try_new(f)); }
    pub fn omv_default<K: Ordinal, V: Default, const S: usize>() { discard(OrdinalTotalArrayMap::<K, V, S>::default()); }
    pub fn omv_from_array<K: Ordinal, V, const S: usize>(a: [V; S]) { discard(OrdinalTotalArrayMap::<K, V, S>::from_array(a)); }
    pub fn omv_map<K: Ordinal, V, W, const S: usize, F: FnMut(K, V) -> W>(m: OrdinalTotalArrayMap<K, V, S>, f: F) { discard(m.map(f)); }
    pub fn omv_map_values<K: Ordinal, V, W, const S: usize, F: FnMut(V) -> W>(m: OrdinalTotalArrayMap<K, V, S>, f: F) { discard(m.map_values(f)); }
    pub fn omv_zip<K: Ordinal, V, W, const S: usize>(m: OrdinalTotalArrayMap<K, V, S>, n: OrdinalTotalArrayMap<K, W, S>) { discard(m.zip(n)); }
    pub fn omv_as_ref<K: Ordinal, V, const S: usize>(m: OrdinalTotalArrayMap<K, V, S>) { discard(m.as_ref()); discard(m); }
    pub fn omv_as_mut<K: Ordinal, V, const S: usize>(mut m: OrdinalTotalArrayMap<K, V, S>) { discard(m.as_mut()); discard(m); }
}

macro_rules! sets {
    ($p:ident, $ty:ty, [$($g:tt)*], $grow:ident, $lim:expr) => {
        pub mod $p {
            use super::*;
            pub fn omv_new<$($g)*>() { discard($grow!(<$ty>::new())); discard($grow!(<$ty>::default())); }
            pub fn omv_contains<$($g)*>(s: $ty, k: T) { discard(op!(s.contains(&k))); discard((s, k)); }
            pub fn omv_insert<$($g)*>(mut s: $ty, k: T) { discard($grow!(s.insert(k))); discard(s); }
            pub fn omv_insert_again<$($g)*>(mut s: $ty, k: T, k2: T) { discard(s.insert(k)); discard(op!(s.insert(k2))); discard(s); }
            #[cfg(feature = "c18")]
            pub fn omv_collect<$($g)*>(a: T, b: T) {
                assume!($lim);
                let s: $ty = [a, b].into_iter().collect();
                discard(s);
            }
        }
    };
}
sets!(set_growable, OrdinalSet<T>, [T: Ordinal], grow, T::ORDINAL_SIZE <= isize::MAX as usize);
sets!(set_word, OrdinalSet64<T>, [T: Ordinal], op, true);
sets!(set_array, OrdinalArraySet<T, S>, [T: Ordinal, const S: usize], op, true);

pub mod set_more {
    use super::*;
    pub fn omv_all<T: Ordinal>() { discard(op!(OrdinalSet64::<T>::all())); }
    pub fn omv_iter<T: Ordinal>(s: OrdinalSet<T>) { discard(op!(s.iter())); discard(s); }
    pub fn omv_new_growable<T: Ordinal>() { discard(op!(OrdinalSet::<T>::new())); }
    #[cfg(feature = "c18")]
    pub fn omv_array_size<T: Ordinal>() { discard(ordinal_array_set_s::<T>()); }
}

#[cfg(not(feature = "c16"))]
pub mod atomic {
    use super::*;
    /// any cell: what some thread last stored is a value
    pub fn omv_new<T: Ordinal>(v: T) { let a = op!(AtomicOrdinal::new(v)); discard(a); }
    pub fn omv_load<T: Ordinal>(a: T) { let a = AtomicOrdinal::new(a); load(a) }
    fn load<T: Ordinal>(a: AtomicOrdinal<T>) { discard(op!(a.load(Ordering::SeqCst))); discard(a); }
    pub fn omv_store<T: Ordinal>(a: T, v: T) { let a = AtomicOrdinal::new(a);  op!(a.store(v, Ordering::SeqCst)); discard(a); }
    pub fn omv_compare_exchange<T: Ordinal>(a: T, v: T, w: T) {
        let a = AtomicOrdinal::new(a);
        discard(op!(a.compare_exchange(v, w, Ordering::SeqCst, Ordering::SeqCst)));
        discard(a);
    }
}

/// what can be asked of the key type itself, and of an empty one
#[cfg(feature = "c18")]
pub mod nothing {
    use super::*;
    pub fn omv_set64() {
        let s = OrdinalSet64::<Infallible>::new();
        discard(s.iter().next());
        discard(s.iter().next_back());
        discard(s.iter().len());
        discard(OrdinalSet64::<Infallible>::all());
        discard(s);
    }
    pub fn omv_set() {
        let s = OrdinalSet::<Infallible>::new();
        discard(s.iter().next());
        discard(s.iter().next_back());
        discard(s.iter().size_hint());
        discard(s);
    }
    pub fn omv_array_set() {
        let s = OrdinalArraySet::<Infallible, 0>::new();
        discard(s.clone());
        discard(s);
    }
    pub fn omv_map() {
        let mut m = OrdinalMap::<Infallible, u8>::new();
        discard(m.len());
        discard(m.iter().next());
        discard(m.drain().next());
        m.clear();
        discard(m.into_iter().next());
    }
    pub fn omv_array_map() {
        let mut m = OrdinalArrayMap::<Infallible, u8, 0>::new();
        discard(m.len());
        discard(m.iter().next());
        discard(m.drain().next());
        m.clear();
        discard(m.into_iter().next());
    }
    pub fn omv_total() {
        let m = OrdinalTotalMap::<Infallible, u8>::new(|_| 0);
        discard(m.iter().next());
        discard(m.is_empty());
        discard(m.into_iter().next());
    }
    pub fn omv_total_array() {
        let m = OrdinalTotalArrayMap::<Infallible, u8, 0>::new(|_| 0);
        discard(m.iter().next());
        discard(m.is_empty());
        discard(m.into_iter().next());
    }
    pub fn omv_values() {
        discard(Infallible::all_values().next());
        discard(Infallible::all_values().last());
    }
}

#[cfg(feature = "c18")]
pub mod debug {
    use super::*;
    pub fn omv_map<K: Ordinal + Debug, V: Debug>(m: OrdinalMap<K, V>) { shown(&m); discard(m); }
    pub fn omv_amap<K: Ordinal + Debug, V: Debug, const S: usize>(m: OrdinalArrayMap<K, V, S>) { shown(&m); discard(m); }
    pub fn omv_tmap<K: Ordinal + Debug, V: Debug>(m: OrdinalTotalMap<K, V>) { shown(&m); discard(m); }
    pub fn omv_tamap<K: Ordinal + Debug, V: Debug, const S: usize>(m: OrdinalTotalArrayMap<K, V, S>) { shown(&m); discard(m); }
    pub fn omv_set<T: Ordinal + Debug>(m: OrdinalSet<T>) { shown(&m); discard(m); }
    pub fn omv_set64<T: Ordinal + Debug>(m: OrdinalSet64<T>) { shown(&m); discard(m); }
    pub fn omv_aset<T: Ordinal + Debug, const S: usize>(m: OrdinalArraySet<T, S>) { shown(&m); discard(m); }
    pub fn omv_values<T: Ordinal + Debug>() { shown(&T::all_values()); }
    pub fn omv_atomic<T: Ordinal + Debug>(m: T) { let m = AtomicOrdinal::new(m); shown(&m); discard(m); }
    pub fn omv_map_iter<K: Ordinal + Debug, V: Debug>(m: OrdinalMap<K, V>) { let mut it = m.iter(); stepped!(it); shown(&it); discard(m); }
    pub fn omv_map_into<K: Ordinal + Debug, V: Debug>(m: OrdinalMap<K, V>) { let mut it = m.into_iter(); stepped!(it); shown(&it); discard(it); }
    pub fn omv_amap_into<K: Ordinal + Debug, V: Debug, const S: usize>(m: OrdinalArrayMap<K, V, S>) { let mut it = m.into_iter(); stepped!(it); shown(&it); discard(it); }
    pub fn omv_map_iter_mut<K: Ordinal + Debug, V: Debug>(mut m: OrdinalMap<K, V>) { let mut it = m.iter_mut(); stepped!(it); shown(&it); discard(m); }
    pub fn omv_tmap_iter<K: Ordinal + Debug, V: Debug>(m: OrdinalTotalMap<K, V>) { let mut it = m.iter(); stepped!(it); shown(&it); discard(m); }
    pub fn omv_tmap_iter_mut<K: Ordinal + Debug, V: Debug>(mut m: OrdinalTotalMap<K, V>) { let mut it = m.iter_mut(); stepped!(it); shown(&it); discard(m); }
    pub fn omv_tamap_into<K: Ordinal + Debug, V: Debug, const S: usize>(m: OrdinalTotalArrayMap<K, V, S>) { let mut it = m.into_iter(); stepped!(it); shown(&it); discard(it); }
    pub fn omv_tmap_into<K: Ordinal + Debug, V: Debug>(m: OrdinalTotalMap<K, V>) { let mut it = m.into_iter(); stepped!(it); shown(&it); discard(it); }
    pub fn omv_set64_iter<T: Ordinal + Debug>(s: OrdinalSet64<T>) { let mut it = s.iter(); stepped!(it); shown(&it); discard(s); }
    pub fn omv_set_iter<T: Ordinal + Debug>(s: OrdinalSet<T>) { let mut it = s.iter(); stepped!(it); shown(&it); discard(s); }
}
