TAM = 'ordinal-map/src/map/total/array_map.rs'
TM = 'ordinal-map/src/map/total/map.rs'
MAP = 'ordinal-map/src/map/map.rs'
AM = 'ordinal-map/src/map/array_map.rs'
SEEDS = [
 dict(id='c06-total-array-get-mut-narrow', prop='C06', needs='a key type with more than 65536 values (char, u32 pairs ...) and mutable access to a key numbered 65536 or above',
      breaks='OrdinalTotalArrayMap::get_mut narrows the index to 16 bits, so a large key reaches the cell of another key',
      edits=[(TAM, "-> &'a mut V {\n        &mut self.map[key.ordinal()]", "-> &'a mut V {\n        let cell = key.ordinal() as u16;\n        &mut self.map[cell as usize]")],
      demo='''use ordinal_map::map::total::OrdinalTotalArrayMap;
use ordinal_map::Ordinal;
fn main() {
    std::thread::Builder::new().stack_size(256 << 20).spawn(|| {
        type K = (u16, bool);
        let mut m: OrdinalTotalArrayMap<K, u8, { <K as Ordinal>::ORDINAL_SIZE }> = OrdinalTotalArrayMap::new(|_| 0);
        *m.get_mut(&(65535, true)) = 7;
        assert_eq!(*m.get(&(65535, true)), 7);
        assert_eq!(*m.get(&(32767, true)), 0);
    }).unwrap().join().unwrap();
}
'''),
 dict(id='c06-total-insert-equal-neighbour', prop='C06', needs='inserting for the last key of a type with at least three values',
      breaks='OrdinalTotalMap::insert reaches the cell before the last one when given the last key of a type with an odd number (>= 3) of values',
      edits=[(TM, "mem::replace(&mut self.map[key.ordinal()], value)", "let n = key.ordinal();\n        let last = self.map.len() & !1;\n        let n = if n >= 2 && n == last { n - 1 } else { n };\n        mem::replace(&mut self.map[n], value)")],
      demo='''use ordinal_map::map::total::OrdinalTotalMap;
use std::cmp::Ordering;
fn main() {
    let mut m: OrdinalTotalMap<Ordering, u8> = OrdinalTotalMap::new(|_| 0);
    assert_eq!(m.insert(Ordering::Greater, 5), 0);
    assert_eq!(*m.get(&Ordering::Greater), 5);
    assert_eq!(*m.get(&Ordering::Equal), 0);
}
'''),
 dict(id='c08-collect-first-wins', prop='C08', needs='collecting pairs with a repeated key',
      breaks='OrdinalMap::from_iter keeps the first value paired with a key instead of the last',
      edits=[(MAP, "            map.insert(k, v);\n", "            if !map.contains_key(&k) {\n                map.insert(k, v);\n            }\n")],
      demo='''use ordinal_map::map::OrdinalMap;
fn main() {
    let m: OrdinalMap<u8, char> = [(3, 'a'), (4, 'b'), (3, 'c')].into_iter().collect();
    assert_eq!(m.get(&3), Some(&'c'));
}
'''),
 dict(id='c08-is-empty-after-remove', prop='C08', needs='a map that was inserted into and then emptied again key by key',
      breaks='OrdinalMap::is_empty says whether storage was ever allocated instead of whether any key is present',
      edits=[(MAP, "self.iter().next().is_none()", "self.map.is_empty()")],
      demo='''use ordinal_map::map::OrdinalMap;
fn main() {
    let mut m: OrdinalMap<u8, char> = OrdinalMap::new();
    assert!(m.is_empty());
    m.insert(1, 'x');
    assert!(!m.is_empty());
    m.remove(&1);
    assert!(m.is_empty());
}
'''),
 dict(id='c07-try-new-keeps-going', prop='C07', needs='a fallible constructor that fails for a key and then for a later one',
      breaks='OrdinalTotalMap::try_new goes on after the first error and returns the last one',
      edits=[(TM, "        for v in K::all_values() {\n            map.push(init(v)?);\n        }\n", "        let mut failed = None;\n        for v in K::all_values() {\n            match init(v) {\n                Ok(value) => map.push(value),\n                Err(e) => failed = Some(e),\n            }\n        }\n        if let Some(e) = failed {\n            return Err(e);\n        }\n")],
      demo='''use ordinal_map::map::total::OrdinalTotalMap;
fn main() {
    let mut calls = 0;
    let r = OrdinalTotalMap::<u8, u8>::try_new(|k| { calls += 1; if k >= 7 { Err(k) } else { Ok(k) } });
    assert_eq!(r.err(), Some(7));
    assert_eq!(calls, 8);
}
'''),
 dict(id='c07-total-array-zip-large', prop='C07', needs='zipping two maps over a key type with at least 16 values',
      breaks='OrdinalTotalArrayMap::zip pairs the values of the second map in reverse for large key types',
      edits=[(TAM, "            map: array_from_iter(self.map.into_iter().zip(other.map)),\n", "            map: if S < 16 {\n                array_from_iter(self.map.into_iter().zip(other.map))\n            } else {\n                // large maps: consume from the back\n                array_from_iter(self.map.into_iter().zip(other.map.into_iter().rev()))\n            },\n")],
      demo='''use ordinal_map::map::total::OrdinalTotalArrayMap;
fn main() {
    let a: OrdinalTotalArrayMap<u8, u8, 256> = OrdinalTotalArrayMap::new(|k| k);
    let b: OrdinalTotalArrayMap<u8, u8, 256> = OrdinalTotalArrayMap::new(|k| k);
    for (k, (x, y)) in a.zip(b) {
        assert_eq!((k, k), (x, y));
    }
}
'''),
]
