NZ = 'ordinal-map/src/ordinal/impls/non_zero.rs'
ARR = 'ordinal-map/src/ordinal/impls/array.rs'
STD = 'ordinal-map/src/ordinal/impls/std.rs'
DER = 'ordinal-map-derive/src/ordinal.rs'
ITER = 'ordinal-map/src/map/iter.rs'
MAP = 'ordinal-map/src/map/map.rs'
AM = 'ordinal-map/src/map/array_map.rs'
ENUM = 'ordinal-map/src/map/enumerate.rs'
ENTRY = 'ordinal-map/src/map/entry.rs'
TIT = 'ordinal-map/src/map/total/iter.rs'
TAM = 'ordinal-map/src/map/total/array_map.rs'
AS = 'ordinal-map/src/set/array.rs'
AT = 'ordinal-map/src/atomic.rs'
AB = 'ordinal-map/src/array_builder.rs'
REFUSED = '''if cargo build -q --offline 2>"$T/err"; then
    echo "the program builds"
    exit 1
fi
grep -q "%s" "$T/err"'''
SEEDS = [
 dict(id='c01-nonzero-i32-far-ordinals', prop='C01', needs='an ordinal of 2^32 or more, far beyond the last one',
      breaks='NonZeroI32::from_ordinal cuts the ordinal down to 32 bits, so some ordinals outside the range are accepted',
      edits=[(NZ, "Some(rem) => NonZeroI32::new(i32::try_from(rem + 1).ok()?),", "Some(rem) => NonZeroI32::new(i32::try_from((rem as u32).wrapping_add(1)).ok()?),")],
      demo='''use ordinal_map::Ordinal;
use std::num::NonZeroI32;
fn main() {
    assert_eq!(NonZeroI32::from_ordinal(NonZeroI32::ORDINAL_SIZE), None);
    assert_eq!(NonZeroI32::from_ordinal((1 << 33) + (1 << 31)), None);
}
'''),
 dict(id='c02-array-reverse-ends-only', prop='C02', needs='arrays of four or more components that are not a palindrome in the middle',
      breaks='[T; N]::from_ordinal puts only the first and the last component in their places',
      edits=[(ARR, "            array.reverse();\n", "            if let [first, .., last] = &mut array[..] {\n                ::std::mem::swap(first, last);\n            }\n")],
      demo='''use ordinal_map::Ordinal;
fn main() {
    let a = [false, true, false, false];
    assert_eq!(<[bool; 4]>::from_ordinal(a.ordinal()), Some(a));
}
'''),
 dict(id='c02-option-of-empty', prop='C02', needs='Option of a key type without values, and an ordinal beyond the only one',
      breaks='Option<A>::from_ordinal answers None for every ordinal when A has no values',
      edits=[(STD, "        if ordinal == 0 {\n            Some(None)", "        if ordinal == 0 || A::ORDINAL_SIZE == 0 {\n            Some(None)")],
      demo='''use ordinal_map::Ordinal;
use std::convert::Infallible;
fn main() {
    assert_eq!(<Option<Infallible>>::from_ordinal(0), Some(None));
    assert_eq!(<Option<Infallible>>::from_ordinal(1), None);
}
'''),
 dict(id='c03-weight-of-fourth-field', prop='C03', needs='a derived type with five or more fields',
      breaks='the weight of a field counts at most the three fields after it',
      edits=[(DER, "SizeExpr::product(rem_tys.iter().copied().map(|e| SizeExpr::ordinal_size(e)));", "SizeExpr::product(rem_tys.iter().copied().take(3).map(|e| SizeExpr::ordinal_size(e)));")],
      demo='''use ordinal_map::Ordinal;
#[derive(Ordinal, PartialEq, Debug)]
struct S { a: bool, b: bool, c: bool, d: bool, e: bool }
fn main() {
    for i in 0..S::ORDINAL_SIZE {
        assert_eq!(S::from_ordinal(i).unwrap().ordinal(), i);
    }
}
'''),
 dict(id='c03-product-of-sums', prop='C03', needs='an enum of which two or more variants have several fields and stand before the last variant',
      breaks='a sum of products flattens the products before the sum is complete: only the sizes of the first three variants before a variant are counted',
      edits=[(DER, "            .take(i)\n", "            .take(i)\n            .take(if i < self.e.variants.len() { 4 } else { i })\n")],
      demo='''use ordinal_map::Ordinal;
#[derive(Ordinal, PartialEq, Debug)]
enum E { A, B(bool, bool), C, D(bool), F, G { x: bool } }
fn main() {
    for i in 0..E::ORDINAL_SIZE {
        assert_eq!(E::from_ordinal(i).unwrap().ordinal(), i);
    }
}
'''),
 dict(id='c04-nonzero-isize-negatives-backwards', prop='C04', needs='two negative values',
      breaks='the negative values of NonZeroIsize are numbered from -1 downwards: still one-to-one, but not in order',
      edits=[(NZ, "            self.get().abs_diff(isize::MIN)\n", "            self.get().unsigned_abs() - 1\n"),
             (NZ, "None => NonZeroIsize::new(isize::MIN.checked_add_unsigned(ordinal).unwrap()),", "None => NonZeroIsize::new((-1isize).checked_sub_unsigned(ordinal).unwrap()),")],
      demo='''use ordinal_map::Ordinal;
use std::num::NonZeroIsize;
fn main() {
    let a = NonZeroIsize::new(-5).unwrap();
    let b = NonZeroIsize::new(-4).unwrap();
    assert!(a.ordinal() < b.ordinal());
}
'''),
 dict(id='c04-either-right-first', prop='C04', needs='Result values of both kinds, with payload types of which the first has at least three values',
      breaks='Result numbers Err values before the Ok values when there are more Ok values than Err values',
      edits=[(STD, "            Ok(a) => a.ordinal(),\n            Err(b) => A::ORDINAL_SIZE + b.ordinal(),", "            Ok(a) if A::ORDINAL_SIZE > 16 * B::ORDINAL_SIZE => B::ORDINAL_SIZE + a.ordinal(),\n            Err(b) if A::ORDINAL_SIZE > 16 * B::ORDINAL_SIZE => b.ordinal(),\n            Ok(a) => a.ordinal(),\n            Err(b) => A::ORDINAL_SIZE + b.ordinal(),"),
             (STD, "        if ordinal < A::ORDINAL_SIZE {\n", "        if A::ORDINAL_SIZE > 16 * B::ORDINAL_SIZE {\n            return if ordinal < B::ORDINAL_SIZE {\n                B::from_ordinal(ordinal).map(Err)\n            } else {\n                A::from_ordinal(ordinal - B::ORDINAL_SIZE).map(Ok)\n            };\n        }\n        if ordinal < A::ORDINAL_SIZE {\n")],
      demo='''use ordinal_map::Ordinal;
fn main() {
    let a: Result<u8, bool> = Ok(3);
    let b: Result<u8, bool> = Err(false);
    assert!(a < b);
    assert!(a.ordinal() < b.ordinal());
    assert_eq!(<Result<u8, bool>>::from_ordinal(a.ordinal()), Some(a));
}
'''),
 dict(id='c05-result-size-wraps', prop='C05', needs='a Result of two huge key types',
      breaks='the number of values of Result<A, B> wraps around instead of failing to build',
      edits=[(STD, "const ORDINAL_SIZE: usize = A::ORDINAL_SIZE + B::ORDINAL_SIZE;", "const ORDINAL_SIZE: usize = A::ORDINAL_SIZE.wrapping_add(B::ORDINAL_SIZE);")],
      run=REFUSED % 'E0080',
      demo='''use ordinal_map::Ordinal;
use std::num::NonZeroUsize;
fn main() {
    println!("{}", <Result<NonZeroUsize, bool>>::ORDINAL_SIZE);
}
'''),
 dict(id='c05-array-size-wraps', prop='C05', needs='an array key type with more than usize::MAX values',
      breaks='the number of values of [T; N] wraps around instead of failing to build',
      edits=[(ARR, "s = s.checked_mul(T::ORDINAL_SIZE).unwrap();", "s = s.wrapping_mul(T::ORDINAL_SIZE);")],
      run=REFUSED % 'E0080',
      demo='''use ordinal_map::Ordinal;
fn main() {
    println!("{}", <[u8; 9]>::ORDINAL_SIZE);
}
'''),
 dict(id='c11-enumerate-len-forgets-back', prop='C11', needs='a traversal stepped from the back, then asked for its length',
      breaks='the length of a traversal is computed from the steps made at the front only',
      edits=[(ENUM, "    fn len(&self) -> usize {\n        self.iter.len()\n", "    fn len(&self) -> usize {\n        if self.next == 0 {\n            self.iter.len()\n        } else {\n            K::ORDINAL_SIZE - self.next\n        }\n")],
      demo='''use ordinal_map::map::total::OrdinalTotalMap;
fn main() {
    let m: OrdinalTotalMap<u8, u8> = OrdinalTotalMap::new(|k| k);
    let mut it = m.iter();
    it.next();
    it.next_back();
    assert_eq!(it.len(), 254);
}
'''),
 dict(id='c11-drain-hint-too-small', prop='C11', needs='a drain of a map asked for its size hint before its last step',
      breaks='the upper bound of the size hint of a drain is one too small when more than one cell is left',
      edits=[(ITER, "impl<'a, K: Ordinal, V> Iterator for Drain<'a, K, V> {\n    type Item = (K, V);\n\n    fn next(&mut self) -> Option<Self::Item> {\n        loop {\n            let (k, v) = self.iter.next()?;\n            if let Some(v) = mem::take(v) {\n                return Some((k, v));\n            }\n        }\n    }\n\n    fn size_hint(&self) -> (usize, Option<usize>) {\n        (0, Some(self.iter.len()))\n", "impl<'a, K: Ordinal, V> Iterator for Drain<'a, K, V> {\n    type Item = (K, V);\n\n    fn next(&mut self) -> Option<Self::Item> {\n        loop {\n            let (k, v) = self.iter.next()?;\n            if let Some(v) = mem::take(v) {\n                return Some((k, v));\n            }\n        }\n    }\n\n    fn size_hint(&self) -> (usize, Option<usize>) {\n        let cells = self.iter.len();\n        (0, Some(cells - cells / K::ORDINAL_SIZE.max(2)))\n")],
      demo='''use ordinal_map::map::OrdinalMap;
fn main() {
    let mut m: OrdinalMap<bool, u8> = OrdinalMap::new();
    m.insert(false, 1);
    m.insert(true, 1);
    let d = m.drain();
    let hint = d.size_hint().1.unwrap();
    assert!(d.count() <= hint);
}
'''),
 dict(id='c15-array-set-larger', prop='C15', needs='an array set with more words than its key type needs',
      breaks='array sets with a size parameter that is too large can be used',
      edits=[(AS, "const ASSERT: () = assert!(S == ordinal_array_set_s::<T>());", "const ASSERT: () = assert!(S >= ordinal_array_set_s::<T>());")],
      run=REFUSED % 'E0080',
      demo='''use ordinal_map::set::OrdinalArraySet;
fn main() {
    let mut s: OrdinalArraySet<u8, 5> = OrdinalArraySet::new();
    s.insert(1);
}
'''),
 dict(id='c15-total-try-new-unchecked', prop='C15', needs='a fallible constructor with a wrong size parameter',
      breaks='OrdinalTotalArrayMap::try_new does not check the size parameter at build time',
      edits=[(TAM, "    pub fn try_new<E>(mut init: impl FnMut(K) -> Result<V, E>) -> Result<Self, E> {\n        const { Self::ASSERT };\n", "    pub fn try_new<E>(mut init: impl FnMut(K) -> Result<V, E>) -> Result<Self, E> {\n")],
      run=REFUSED % 'E0080',
      demo='''use ordinal_map::map::total::OrdinalTotalArrayMap;
fn main() {
    let r = OrdinalTotalArrayMap::<bool, u8, 3>::try_new(|_| Err::<u8, ()>(()));
    assert!(r.is_err());
}
'''),
 dict(id='c16-remove-allocates', prop='C16', needs='a removal from a map into which nothing has been inserted',
      breaks='OrdinalMap::remove allocates the table',
      edits=[(MAP, "        self.map.get_mut(key.ordinal())?.take()\n", "        self.init_full_map();\n        self.map[key.ordinal()].take()\n")],
      demo='''use ordinal_map::map::OrdinalMap;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering};
struct A;
static N: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { N.fetch_add(1, Ordering::SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
fn main() {
    let n = N.load(Ordering::SeqCst);
    let mut m: OrdinalMap<u8, u8> = OrdinalMap::new();
    m.remove(&3);
    assert_eq!(N.load(Ordering::SeqCst), n);
}
'''),
 dict(id='c16-zip-through-vec', prop='C16', needs='two array-backed total maps zipped',
      breaks='OrdinalTotalArrayMap::zip collects the pairs on the heap first',
      edits=[(TAM, "map: array_from_iter(self.map.into_iter().zip(other.map)),", "map: array_from_iter(self.map.into_iter().zip(other.map).collect::<Vec<_>>()),")],
      demo='''use ordinal_map::map::total::OrdinalTotalArrayMap;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering};
struct A;
static N: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { N.fetch_add(1, Ordering::SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
fn main() {
    let a: OrdinalTotalArrayMap<bool, u8, 2> = OrdinalTotalArrayMap::new(|_| 1);
    let b: OrdinalTotalArrayMap<bool, u8, 2> = OrdinalTotalArrayMap::new(|_| 1);
    let n = N.load(Ordering::SeqCst);
    let c = a.zip(b);
    assert_eq!(N.load(Ordering::SeqCst), n);
    assert_eq!(c[&true], (1, 1));
}
'''),
 dict(id='c17-builder-drops-from-second', prop='C17', needs='construction that fails or panics after the first value',
      breaks='a half-filled array builder does not drop its first value',
      edits=[(AB, "        for i in 0..self.filled {\n", "        for i in 1..self.filled {\n")],
      demo='''use ordinal_map::map::total::OrdinalTotalArrayMap;
use std::rc::Rc;
fn main() {
    let r = Rc::new(());
    let mut n = 0;
    let m = OrdinalTotalArrayMap::<bool, Rc<()>, 2>::try_new(|_| { n += 1; if n == 2 { Err(()) } else { Ok(r.clone()) } });
    assert!(m.is_err());
    assert_eq!(Rc::strong_count(&r), 1);
}
'''),
 dict(id='c17-push-counts-first', prop='C17', needs='a caller-supplied function that panics between two values',
      breaks='OrdinalTotalArrayMap::map takes the values out of the array by a raw read, so they are dropped twice when the function panics',
      edits=[(TAM, "    pub fn map<W>(self, mut f: impl FnMut(K, V) -> W) -> OrdinalTotalArrayMap<K, W, S> {\n        OrdinalTotalArrayMap {\n            map: array_from_iter(self.into_iter().map(|(k, v)| f(k, v))),\n            _phantom: PhantomData,\n        }\n", "    pub fn map<W>(self, mut f: impl FnMut(K, V) -> W) -> OrdinalTotalArrayMap<K, W, S> {\n        let map = array_from_iter(\n            self.iter()\n                .map(|(k, v)| f(k, unsafe { std::ptr::read(v) })),\n        );\n        mem::forget(self);\n        OrdinalTotalArrayMap {\n            map,\n            _phantom: PhantomData,\n        }\n")],
      demo='''use ordinal_map::map::total::OrdinalTotalArrayMap;
use std::cell::Cell;
use std::panic::{catch_unwind, AssertUnwindSafe};
struct D<'a>(&'a Cell<u32>);
impl Drop for D<'_> { fn drop(&mut self) { self.0.set(self.0.get() + 1); } }
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let c = Cell::new(0);
    let m = OrdinalTotalArrayMap::<bool, D, 2>::new(|_| D(&c));
    let r = catch_unwind(AssertUnwindSafe(|| m.map(|_, _v| -> u8 { panic!() })));
    assert!(r.is_err());
    assert_eq!(c.get(), 2);
}
'''),
 dict(id='c17-finish-drops-tail', prop='C17', needs='a drain that is dropped without being exhausted, of a map that holds values',
      breaks='a dropped drain forgets the values that are left instead of dropping them',
      edits=[(ITER, "        for _ in self {}\n", "        for (_, v) in self {\n            mem::forget(v);\n        }\n")],
      demo='''use ordinal_map::map::OrdinalMap;
use std::rc::Rc;
fn main() {
    let r = Rc::new(());
    let mut m: OrdinalMap<bool, Rc<()>> = OrdinalMap::new();
    m.insert(true, r.clone());
    m.clear();
    assert_eq!(Rc::strong_count(&r), 1);
}
'''),
 dict(id='c18-remove-on-fresh-map', prop='C18', needs='a removal from a map into which nothing has been inserted',
      breaks='OrdinalMap::remove panics on a map without a table',
      edits=[(MAP, "        self.map.get_mut(key.ordinal())?.take()\n", "        self.map[key.ordinal()].take()\n")],
      demo='''use ordinal_map::map::OrdinalMap;
fn main() {
    let mut m: OrdinalMap<u8, u8> = OrdinalMap::new();
    assert_eq!(m.remove(&3), None);
}
'''),
 dict(id='c18-back-after-exhaustion', prop='C18', needs='a step from the back of a traversal that is already exhausted',
      breaks='OrdinalEnumerate::next_back computes the key first, and asks for a key that does not exist on an exhausted traversal',
      edits=[(ENUM, "        let v = self.iter.next_back()?;\n        let k = K::from_ordinal(self.next + self.iter.len()).unwrap();\n", "        let last = (self.next + self.iter.len()).saturating_sub(1);\n        let k = K::from_ordinal(last).unwrap();\n        let v = self.iter.next_back()?;\n")],
      demo='''use ordinal_map::map::OrdinalMap;
use std::convert::Infallible;
fn main() {
    let m: OrdinalMap<Infallible, u8> = OrdinalMap::new();
    assert!(m.iter().next_back().is_none());
}
'''),
 dict(id='c19-exchange-weak', prop='C19', needs='a platform on which the weak exchange fails spuriously',
      breaks='compare_exchange may fail although the expected value is stored',
      edits=[(AT, "            .compare_exchange(old_ord, new_ord, success, failure);\n", "            .compare_exchange_weak(old_ord, new_ord, success, failure);\n")],
      run='RUSTFLAGS=-Ccodegen-units=1 cargo rustc --release -q --offline -- --emit=llvm-ir\nIR=$(ls "$T"/target/release/deps/demo-*.ll)\ngrep -q "cmpxchg ptr" $IR\n! grep -q "cmpxchg weak" $IR',
      demo='''use ordinal_map::AtomicOrdinal;
use std::sync::atomic::Ordering;
fn main() {
    let a = AtomicOrdinal::new(true);
    std::hint::black_box(&a);
    println!("{:?}", a.compare_exchange(true, false, Ordering::SeqCst, Ordering::SeqCst));
}
'''),
 dict(id='c19-store-skips-equal', prop='C19', needs='another thread that stores between the load and the store',
      breaks='store does nothing when the cell seems to hold the value already: two steps, the first of them relaxed',
      edits=[(AT, "        self.atomic.store(value.ordinal(), ordering);\n", "        let ordinal = value.ordinal();\n        if self.atomic.load(Ordering::Relaxed) != ordinal {\n            self.atomic.store(ordinal, ordering);\n        }\n")],
      demo='''use ordinal_map::AtomicOrdinal;
use std::panic::catch_unwind;
use std::sync::atomic::Ordering;
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    // a store with a load ordering is refused, whatever the cell holds
    let a = AtomicOrdinal::new(true);
    assert!(catch_unwind(|| a.store(true, Ordering::Acquire)).is_err());
}
'''),
 dict(id='c20-enumerate-clone-restarts', prop='C20', needs='a clone of a traversal that has been stepped',
      breaks='the clone of a stepped traversal starts its keys again',
      edits=[(ENUM, "            next: self.next,\n            iter: self.iter.clone(),", "            next: 0,\n            iter: self.iter.clone(),")],
      demo='''use ordinal_map::map::total::OrdinalTotalMap;
fn main() {
    let m: OrdinalTotalMap<u8, u8> = OrdinalTotalMap::new(|k| k);
    let mut it = m.iter();
    it.next();
    assert_eq!(it.clone().next(), Some((1, &1)));
}
'''),
 dict(id='c20-array-set-clone-odd-word', prop='C20', needs='a set with an odd number of words and a member in the last one',
      breaks='the clone of an array set is copied two words at a time and lacks an odd last word',
      edits=[(AS, "        OrdinalArraySet {\n            words: self.words,\n            _phantom: PhantomData,\n        }\n    }\n}\n\nimpl<T: Ordinal + Debug", "        let mut words = [0; S];\n        for (to, from) in words.chunks_exact_mut(2).zip(self.words.chunks_exact(2)) {\n            to.copy_from_slice(from);\n        }\n        OrdinalArraySet {\n            words,\n            _phantom: PhantomData,\n        }\n    }\n}\n\nimpl<T: Ordinal + Debug")],
      demo='''use ordinal_map::set::OrdinalArraySet;
fn main() {
    let mut s: OrdinalArraySet<bool, 1> = OrdinalArraySet::new();
    s.insert(true);
    assert!(s.clone().contains(&true));
}
'''),
 dict(id='c21-where-clause-lost', prop='C21', needs='a type with a where-clause',
      breaks='the generated impl repeats the bounds of the parameters but not the where-clause',
      edits=[(DER, "    let (impl_generics, ty_generics, where_clause) = input.generics.split_for_impl();\n", "    let (impl_generics, ty_generics, where_clause) = input.generics.split_for_impl();\n    let where_clause = where_clause.filter(|_| input.generics.params.len() > 1);\n")],
      run='cargo build -q --offline',
      demo='''use ordinal_map::Ordinal;
#[derive(Ordinal)]
struct S<T>(T) where T: Ordinal;
fn main() {
    println!("{}", S(true).ordinal());
}
'''),
 dict(id='c22-insert-scans', prop='C22', needs='a key type with many values',
      breaks='every insertion looks through the whole table for an occupied cell',
      edits=[(MAP, "        if self.map.is_empty() {\n", "        if self.map.iter().all(|v| v.is_none()) {\n")],
      demo='''use ordinal_map::map::OrdinalMap;
use std::time::Instant;
fn main() {
    let mut m: OrdinalMap<(u16, u8), u8> = OrdinalMap::new();
    m.insert((u16::MAX, 255), 1);
    let t = Instant::now();
    for i in 0..2000 {
        m.insert((u16::MAX, 255), i as u8);
        assert!(t.elapsed().as_secs() < 20);
    }
}
'''),
 dict(id='c22-get-walks', prop='C22', needs='a key type with many values',
      breaks='looking a key up in the sparse map walks over the entries before it',
      edits=[(MAP, "        self.map.get(key.ordinal())?.as_ref()\n", "        let ordinal = key.ordinal();\n        let mut cells = self.map.iter().enumerate();\n        let (_, cell) = cells.find(|(i, _)| *i == ordinal)?;\n        cell.as_ref()\n")],
      demo='''use ordinal_map::map::OrdinalMap;
use std::time::Instant;
fn main() {
    let mut m: OrdinalMap<(u16, u8), u8> = OrdinalMap::new();
    m.insert((u16::MAX, 255), 1);
    let t = Instant::now();
    for _ in 0..2000 {
        m.get(&(u16::MAX, 255));
        assert!(t.elapsed().as_secs() < 20);
    }
}
'''),
 dict(id='c23-occupied-get-outlives', prop='C23', needs='a program that keeps the reference while it changes the entry',
      breaks='OccupiedEntry::get hands out a reference that is not tied to the borrow of the entry',
      edits=[(ENTRY, "    pub fn get(&self) -> &V {\n        self.entry.as_ref().unwrap()\n", "    pub fn get(&self) -> &'a V {\n        let entry: *const Option<V> = &*self.entry;\n        unsafe { (*entry).as_ref().unwrap() }\n")],
      run=REFUSED % 'E0502',
      demo='''use ordinal_map::map::{Entry, OrdinalMap};
fn main() {
    let mut m: OrdinalMap<bool, String> = OrdinalMap::new();
    m.insert(true, "a".to_owned());
    if let Entry::Occupied(mut e) = m.entry(true) {
        let r = e.get();
        e.get_mut().push('b');
        println!("{}", r);
    }
}
'''),
 dict(id='c23-atomic-not-shared', prop='C23', needs='an atomic cell shared between threads',
      breaks='the atomic cell cannot be shared between threads any more',
      edits=[(AT, "    _marker: PhantomData<T>,\n}\n", "    _marker: PhantomData<(T, *const T)>,\n}\n")],
      run='cargo build -q --offline',
      demo='''use ordinal_map::AtomicOrdinal;
use std::sync::atomic::Ordering;
static A: std::sync::OnceLock<AtomicOrdinal<bool>> = std::sync::OnceLock::new();
fn main() {
    A.get_or_init(|| AtomicOrdinal::new(true)).load(Ordering::SeqCst);
}
'''),
 dict(id='c24-iter-mut-debug-keys', prop='C24', needs='Debug output of an exclusive traversal that has been stepped',
      breaks='Debug of a stepped IterMut shows the remaining values with the keys from the first one on',
      edits=[(TIT, "    pub(crate) fn new(iter: slice::IterMut<'a, V>) -> Self {\n        IterMut {\n            iter: OrdinalEnumerate::new(iter, 0),\n        }\n    }\n\n    pub(crate) fn iter(&self) -> Iter<'_, K, V> {\n        Iter::new(self.iter.iter.as_slice().iter(), self.iter.next)\n", "    pub(crate) fn new(iter: slice::IterMut<'a, V>) -> Self {\n        IterMut {\n            iter: OrdinalEnumerate::new(iter, 0),\n        }\n    }\n\n    pub(crate) fn iter(&self) -> Iter<'_, K, V> {\n        Iter::new(self.iter.iter.as_slice().iter(), 0)\n")],
      demo='''use ordinal_map::map::total::OrdinalTotalMap;
fn main() {
    let mut m: OrdinalTotalMap<bool, u8> = OrdinalTotalMap::new(|k| k as u8);
    let mut it = m.iter_mut();
    it.next();
    assert_eq!(format!("{:?}", it), "[(true, 1)]");
}
'''),
]
