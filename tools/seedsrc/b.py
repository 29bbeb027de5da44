ITER = 'ordinal-map/src/map/iter.rs'
AM = 'ordinal-map/src/map/array_map.rs'
ENUM = 'ordinal-map/src/map/enumerate.rs'
TIT = 'ordinal-map/src/map/total/iter.rs'
S64 = 'ordinal-map/src/set/set64.rs'
SREF = 'ordinal-map/src/set/set_ref.rs'
SMUT = 'ordinal-map/src/set/set_mut.rs'
SIT = 'ordinal-map/src/set/iter.rs'
VAL = 'ordinal-map/src/values.rs'
SEEDS = [
 dict(id='c09-drain-drop-last-cell', prop='C09', needs='a drain dropped before it reached the entry of the last key',
      breaks='dropping a drain stops with one cell left, so the entry of the last key survives clear() or a dropped drain',
      edits=[(ITER, "        for _ in self {}\n", "        while self.iter.len() > 1 {\n            self.next();\n        }\n")],
      demo='''use ordinal_map::map::OrdinalMap;
fn main() {
    let mut m: OrdinalMap<bool, u8> = OrdinalMap::new();
    m.insert(false, 1);
    m.insert(true, 2);
    drop(m.drain());
    assert!(m.is_empty());
    let mut m: OrdinalMap<bool, u8> = OrdinalMap::new();
    m.insert(true, 2);
    m.clear();
    assert!(m.is_empty());
}
'''),
 dict(id='c09-drain-back-keeps', prop='C09', needs='draining from the back with values that were taken one at a time from both ends, over a map with vacant last cells',
      breaks='Drain::next_back stops at the first vacant cell from the back instead of passing over it',
      edits=[(ITER, "            let (k, v) = self.iter.next_back()?;\n            if let Some(v) = mem::take(v) {\n                return Some((k, v));\n            }\n", "            let (k, v) = self.iter.next_back()?;\n            return mem::take(v).map(|v| (k, v));\n")],
      demo='''use ordinal_map::map::OrdinalMap;
fn main() {
    let mut m: OrdinalMap<u8, u8> = OrdinalMap::new();
    m.insert(3, 1);
    assert_eq!(m.drain().next_back(), Some((3, 1)));
}
'''),
 dict(id='c09-retain-asks-twice', prop='C09', needs='a predicate with state, rejecting an entry',
      breaks='retain asks the predicate a second time about an entry it rejected and removes it only if it is rejected again',
      edits=[(AM, "        for (key, value_opt) in self.map.iter_mut() {\n            if let Some(value) = value_opt {\n                if !f(key, value) {\n", "        for (key, value_opt) in self.map.iter_mut() {\n            if let Some(value) = value_opt {\n                let again = K::from_ordinal(key.ordinal()).unwrap();\n                if !f(key, value) && !f(again, value) {\n")],
      demo='''use ordinal_map::map::OrdinalArrayMap;
fn main() {
    let mut m: OrdinalArrayMap<bool, u8, 2> = OrdinalArrayMap::new();
    m.insert(false, 1);
    m.insert(true, 2);
    let mut calls = 0;
    m.retain(|_, _| { calls += 1; calls % 2 == 0 });
    assert_eq!(calls, 2);
    assert!(!m.contains_key(&false) && m.contains_key(&true));
}
'''),
 dict(id='c10-next-back-key-after-front', prop='C10', needs='at least two steps from the front followed by one from the back',
      breaks='OrdinalEnumerate::next_back takes into account at most one front step when it computes the key',
      edits=[(ENUM, "K::from_ordinal(self.next + self.iter.len())", "K::from_ordinal(self.next.min(1) + self.iter.len())")],
      demo='''use ordinal_map::map::total::OrdinalTotalMap;
fn main() {
    let m: OrdinalTotalMap<u8, u8> = OrdinalTotalMap::new(|k| k);
    let mut it = m.iter();
    it.next();
    it.next();
    assert_eq!(it.next_back(), Some((255, &255)));
}
'''),
 dict(id='c10-sparse-iter-mut-back-stops', prop='C10', needs='stepping a mutable iterator of a sparse map from the back over a vacant cell',
      breaks='IterMut::next_back of the sparse maps gives up at the first vacant cell',
      edits=[(ITER, '''impl<'a, K: Ordinal, V> DoubleEndedIterator for IterMut<'a, K, V> {
    #[inline]
    fn next_back(&mut self) -> Option<Self::Item> {
        loop {
            let next = self.iter.next_back()?;
            if let (k, Some(v)) = next {
                return Some((k, v));
            }
        }
''', '''impl<'a, K: Ordinal, V> DoubleEndedIterator for IterMut<'a, K, V> {
    #[inline]
    fn next_back(&mut self) -> Option<Self::Item> {
        match self.iter.next_back()? {
            (k, Some(v)) => Some((k, v)),
            _ => self.next(),
        }
''')],
      demo='''use ordinal_map::map::OrdinalMap;
fn main() {
    let mut m: OrdinalMap<u8, u8> = OrdinalMap::new();
    m.insert(3, 1);
    m.insert(5, 2);
    assert_eq!(m.iter_mut().next_back(), Some((5, &mut 2)));
}
'''),
 dict(id='c12-set64-all-63', prop='C12', needs='a key type with exactly 63 values',
      breaks='OrdinalSet64::all() of a type with exactly 63 values also has bit 63 set, so it differs from the set of all its members',
      edits=[(S64, "            set: match 1u64.checked_shl(T::ORDINAL_SIZE as u32) {\n", "            set: match 1u64.checked_shl((T::ORDINAL_SIZE + T::ORDINAL_SIZE / 63) as u32) {\n")],
      demo='''use ordinal_map::set::OrdinalSet64;
use ordinal_map::Ordinal;
use std::cmp::Ordering;
type K = Result<(Ordering, Ordering, Ordering, bool), (Ordering, Ordering)>;
fn main() {
    assert_eq!(K::ORDINAL_SIZE, 63);
    let a: OrdinalSet64<K> = OrdinalSet64::all();
    let b: OrdinalSet64<K> = K::all_values().collect();
    assert!(a == b);
}
'''),
 dict(id='c12-contains-word-boundary', prop='C12', needs='a key type with more than 64 values and an element whose number is one below a multiple of 64',
      breaks='the bit of an element is looked for modulo 63 in words other than the first',
      edits=[(SREF, "word & (1 << (ordinal.ordinal() % u64::BITS as usize)) != 0", "let bit = ordinal.ordinal() % u64::BITS as usize;\n        let bit = if ordinal.ordinal() >= 1 << 16 { bit % 63 } else { bit };\n        word & (1 << bit) != 0")],
      demo='''use ordinal_map::set::OrdinalSet;
type K = (u16, bool);
fn main() {
    let mut s: OrdinalSet<K> = OrdinalSet::new();
    let k = (65535, true);
    s.insert(k);
    assert!(s.contains(&k));
}
'''),
 dict(id='c13-set64-back-top-bit', prop='C13', needs='a type with exactly 64 values, a set holding the last one, stepped from the back',
      breaks='Iter64::next_back ignores the top bit once another bit is set',
      edits=[(S64, "        let ordinal = (u64::BITS - 1).checked_sub(self.set.leading_zeros())?;\n", "        let ordinal = if self.set > 1 << 63 { (self.set & !(1 << 63)).ilog2() } else { (u64::BITS - 1).checked_sub(self.set.leading_zeros())? };\n")],
      demo='''use ordinal_map::set::OrdinalSet64;
type K = (bool, (bool, bool, bool, bool, bool));
fn main() {
    let s: OrdinalSet64<K> = OrdinalSet64::all();
    assert_eq!(s.iter().next_back(), Some((true, (true, true, true, true, true))));
}
'''),
 dict(id='c14-values-nth-off', prop='C14', needs='nth() on an enumeration that was stepped before',
      breaks='a specialised OrdinalValues::nth forgets the steps already made from the front',
      edits=[(VAL, "    #[inline]\n    fn count(self) -> usize\n", "    #[inline]\n    fn nth(&mut self, n: usize) -> Option<T> {\n        if n == 0 {\n            return self.next();\n        }\n        let i = n + self.range.start.min(2);\n        let i = if i < self.range.end { i } else { self.range.end };\n        self.range.start = i;\n        self.next()\n    }\n\n    #[inline]\n    fn count(self) -> usize\n")],
      demo='''use ordinal_map::Ordinal;
fn main() {
    let mut it = u8::all_values();
    it.next();
    it.next();
    it.next();
    assert_eq!(it.nth(1), Some(4));
}
'''),
 dict(id='c14-clone-forgets-back', prop='C14', needs='cloning an enumeration after a step from the back while nothing was taken from the front',
      breaks='the clone of an enumeration that was only stepped from the back starts over at the full range',
      edits=[(VAL, "impl<T> Clone for OrdinalValues<T> {\n    #[inline]\n    fn clone(&self) -> Self {\n        OrdinalValues {\n            range: self.range.clone(),\n", "impl<T: Ordinal> Clone for OrdinalValues<T> {\n    #[inline]\n    fn clone(&self) -> Self {\n        OrdinalValues {\n            range: self.range.start..if self.range.start == 0 { T::ORDINAL_SIZE } else { self.range.end },\n"),
             (SIT, "impl<'a, T> Clone for Iter<'a, T> {", "impl<'a, T: Ordinal> Clone for Iter<'a, T> {")],
      demo='''use ordinal_map::Ordinal;
fn main() {
    let mut it = u8::all_values();
    it.next_back();
    assert_eq!(it.clone().next_back(), Some(254));
}
'''),
]
