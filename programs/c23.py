"""Borrows, exclusive access, threads and variance, as the compiler sees them."""
from witness import W

PRE = '''#![allow(dead_code, unused)]
use ordinal_map::Ordinal;
use ordinal_map::map::{OrdinalMap, OrdinalArrayMap};
use ordinal_map::map::total::{OrdinalTotalMap, OrdinalTotalArrayMap};
use ordinal_map::set::{OrdinalSet, OrdinalArraySet, OrdinalSet64};
use ordinal_map::AtomicOrdinal;
use std::hint::black_box;
#[derive(Ordinal, Clone, Copy, Debug)] pub enum K { A, B, C }
pub type V = String;
fn touch<X>(x: X) { black_box(x); }
'''
BORROW = ('E0499', 'E0502', 'E0503', 'E0505', 'E0506', 'E0597', 'E0716', 'E0515', 'E0521', 'E0382')

SP_SHARED = ['get(&K::A)', 'get(&K::A).unwrap()', 'iter()', 'keys()', 'values()', 'iter().next()', 'iter().next_back()', 'values().next()', 'values().next_back()',
             'iter().clone()', 'into_iter_ref', 'iter().rev().next()', 'values().clone().next()', 'iter().map(|x| x.1).last()', 'iter().nth(1)', 'values().nth(0)', 'iter().rev()']
SP_MUT = ['get_mut(&K::A)', 'iter_mut()', 'values_mut()', 'drain()', 'entry(K::A)', 'entry(K::A).or_insert(String::new())', 'iter_mut().next()', 'iter_mut().next_back()',
          'values_mut().next()', 'values_mut().next_back()', 'iter_mut().nth(1)', 'values_mut().last()', 'iter_mut().rev()']
TO_SHARED = ['get(&K::A)', 'iter()', 'values()', 'iter().next()', 'iter().next_back()', 'values().next()', 'INDEX', 'into_iter_ref', 'iter().clone()', 'iter().nth(1)', 'iter().rev()']
TO_MUT = ['get_mut(&K::A)', 'iter_mut()', 'values_mut()', 'iter_mut().next()', 'iter_mut().next_back()', 'values_mut().next()', 'INDEXMUT', 'iter_mut().nth(1)', 'iter_mut().rev()']
SET_SHARED = ['iter()', 'iter().clone()', 'iter().rev()', 'iter().skip(1)']

CONT = {
    'map': ('OrdinalMap<K, V>', '[(K::A, String::new())].into_iter().collect()', ['c.insert(K::B, String::new());', 'c.clear();', 'c.remove(&K::A);', 'c.drain();'], SP_SHARED, SP_MUT),
    'array_map': ('OrdinalArrayMap<K, V, 3>', '[(K::A, String::new())].into_iter().collect()', ['c.insert(K::B, String::new());', 'c.clear();', 'c.retain(|_, _| true);', 'c.entry(K::A);'], SP_SHARED, SP_MUT),
    'total': ('OrdinalTotalMap<K, V>', 'Default::default()', ['c.insert(K::B, String::new());', 'c[&K::A].push(\'x\');', 'c.iter_mut();'], TO_SHARED, TO_MUT),
    'total_array': ('OrdinalTotalArrayMap<K, V, 3>', 'Default::default()', ['c.insert(K::B, String::new());', 'c[&K::A].push(\'x\');', 'c.values_mut();'],
                    TO_SHARED + ['as_ref()', 'values_array()'], TO_MUT + ['as_mut()', 'values_array_mut()']),
    'set': ('OrdinalSet<K>', '[K::A].into_iter().collect()', ['c.insert(K::B);'], SET_SHARED, []),
}


def call(m):
    if m == 'INDEX':
        return '&c[&K::A]'
    if m == 'INDEXMUT':
        return '&mut c[&K::A]'
    if m == 'into_iter_ref':
        return '(&c).into_iter()'
    return 'c.' + m


def cases(tier):
    out = []

    def pair(name, bad_body, good_body, why, codes=BORROW, items=''):
        out.append(W(name + '.fine', PRE + items + good_body, why='the harmless twin of: ' + why))
        out.append(W(name + '.refused', PRE + items + bad_body, bad=codes, twin=name + '.fine', why=why))

    def ok(name, body, why):
        out.append(W(name, PRE + body, why=why))

    i = 0
    for cn, (ty, mk, muts, shared, mutm) in CONT.items():
        new = 'let mut c: %s = %s; ' % (ty, mk)
        for m in shared + mutm:
            i += 1
            e = call(m)
            base = 'c23.%s.%s' % (cn, m)
            mm = muts if tier != 'quick' else [muts[i % len(muts)]]
            for j, mut in enumerate(mm):
                pair('%s.mutate%d' % (base, j), 'fn main() { %s let r = %s; %s touch(r); }\n' % (new, e, mut),
                     'fn main() { %s let r = %s; touch(r); %s }\n' % (new, e, mut), 'what `%s` returns is used after `%s`' % (e, mut))
            pair(base + '.outlives', 'fn main() { let r; { %s r = %s; } touch(r); }\n' % (new, e), 'fn main() { %s { let r; r = %s; touch(r); } }\n' % (new, e),
                 'what `%s` returns is used after the container is gone' % e)
            pair(base + '.moved', 'fn main() { %s let r = %s; drop(c); touch(r); }\n' % (new, e), 'fn main() { %s let r = %s; touch(r); drop(c); }\n' % (new, e),
                 'what `%s` returns is used after the container is dropped' % e)
        for m in mutm:
            e = call(m)
            base = 'c23.%s.%s' % (cn, m)
            other = call(shared[0])
            pair(base + '.shared', 'fn main() { %s let r = %s; let s = %s; touch(r); touch(s); }\n' % (new, e, other),
                 'fn main() { %s let r = %s; touch(r); let s = %s; touch(s); }\n' % (new, e, other), 'what `%s` returns is used while `%s` is alive' % (e, other))
            pair(base + '.twice', 'fn main() { %s let r = %s; let s = %s; touch(r); touch(s); }\n' % (new, e, e),
                 'fn main() { %s let r = %s; touch(r); let s = %s; touch(s); }\n' % (new, e, e), 'two results of `%s` are alive together' % e)
            if e.startswith('c.'):
                pair(base + '.through_shared', 'fn f(c: &%s) { let r = %s; touch(r); } fn main() { black_box(f as fn(&%s)); }\n' % (ty, e, ty),
                     'fn f(c: &mut %s) { let r = %s; touch(r); } fn main() { black_box(f as fn(&mut %s)); }\n' % (ty, e, ty), '`%s` works through a shared reference' % e, codes=('E0596',))
        for k, mut in enumerate(muts):
            pair('c23.%s.mutator%d.through_shared' % (cn, k), 'fn f(c: &%s) { %s } fn main() { black_box(f as fn(&%s)); }\n' % (ty, mut, ty),
                 'fn f(c: &mut %s) { %s } fn main() { black_box(f as fn(&mut %s)); }\n' % (ty, mut, ty), '`%s` works through a shared reference' % mut, codes=('E0596', 'E0594'))
    # references to values cannot be made longer-lived
    for nm, ty, args, e, r in [
        ('map', 'OrdinalMap<K, V>', '&', 'c.get(&K::A).unwrap()', '&%s V'), ('map_mut', 'OrdinalMap<K, V>', '&mut ', 'c.get_mut(&K::A).unwrap()', '&%s mut V'),
        ('map_iter', 'OrdinalMap<K, V>', '&', 'c.iter().next().unwrap().1', '&%s V'), ('map_values', 'OrdinalMap<K, V>', '&', 'c.values().next_back().unwrap()', '&%s V'),
        ('map_values_mut', 'OrdinalMap<K, V>', '&mut ', 'c.values_mut().next().unwrap()', '&%s mut V'), ('map_iter_mut', 'OrdinalMap<K, V>', '&mut ', 'c.iter_mut().next_back().unwrap().1', '&%s mut V'),
        ('map_entry', 'OrdinalMap<K, V>', '&mut ', 'c.entry(K::A).or_insert(V::new())', '&%s mut V'),
        ('array_map', 'OrdinalArrayMap<K, V, 3>', '&', 'c.get(&K::A).unwrap()', '&%s V'), ('array_map_mut', 'OrdinalArrayMap<K, V, 3>', '&mut ', 'c.get_mut(&K::A).unwrap()', '&%s mut V'),
        ('array_map_entry', 'OrdinalArrayMap<K, V, 3>', '&mut ', 'c.entry(K::A).or_insert(V::new())', '&%s mut V'),
        ('total', 'OrdinalTotalMap<K, V>', '&', 'c.get(&K::A)', '&%s V'), ('total_mut', 'OrdinalTotalMap<K, V>', '&mut ', 'c.get_mut(&K::A)', '&%s mut V'),
        ('total_iter', 'OrdinalTotalMap<K, V>', '&', 'c.iter().next().unwrap().1', '&%s V'), ('total_index', 'OrdinalTotalMap<K, V>', '&', '&c[&K::A]', '&%s V'),
        ('total_index_mut', 'OrdinalTotalMap<K, V>', '&mut ', '&mut c[&K::A]', '&%s mut V'),
        ('total_array', 'OrdinalTotalArrayMap<K, V, 3>', '&', 'c.get(&K::A)', '&%s V'), ('total_array_mut', 'OrdinalTotalArrayMap<K, V, 3>', '&mut ', 'c.get_mut(&K::A)', '&%s mut V'),
        ('total_array_index', 'OrdinalTotalArrayMap<K, V, 3>', '&', '&c[&K::B]', '&%s V'), ('total_array_iter_mut', 'OrdinalTotalArrayMap<K, V, 3>', '&mut ', 'c.iter_mut().next().unwrap().1', '&%s mut V'),
        ('total_array_as_ref', 'OrdinalTotalArrayMap<K, V, 3>', '&', '*c.as_ref().get(&K::A)', '&%s V'), ('total_array_as_mut', 'OrdinalTotalArrayMap<K, V, 3>', '&mut ', 'c.as_mut().into_values().into_iter().next().unwrap()', '&%s mut V'),
        ('values_array', 'OrdinalTotalArrayMap<K, V, 3>', '&', 'c.values_array()', '&%s [V; 3]'), ('values_array_mut', 'OrdinalTotalArrayMap<K, V, 3>', '&mut ', 'c.values_array_mut()', '&%s mut [V; 3]'),
    ]:
        t = args.replace('&', "&'a ")
        sig = "fn f<'a>(c: %s%s) -> %s { %s }\nfn main() { let _ = f; }\n"
        pair('c23.static.' + nm, sig % (t, ty, r % "'static", e), sig % (t, ty, r % "'a", e), '`%s` gives a reference of any lifetime' % e, codes=('E?', 'E0521', 'E0621'))
    # the same through the key: the key reference must not be what the result borrows from, nor the other way round
    for nm, ty, e in [('map', 'OrdinalMap<K, V>', 'c.get(k)'), ('array_map', 'OrdinalArrayMap<K, V, 3>', 'c.get(k)'), ('total', 'OrdinalTotalMap<K, V>', 'Some(c.get(k))'), ('total_array', 'OrdinalTotalArrayMap<K, V, 3>', 'Some(c.get(k))')]:
        pair('c23.key_borrow.' + nm, "fn f<'a, 'k>(c: &'a %s, k: &'k K) -> Option<&'k V> { %s }\nfn main() { let _ = f; }\n" % (ty, e),
             "fn f<'a, 'k>(c: &'a %s, k: &'k K) -> Option<&'a V> { %s }\nfn main() { let _ = f; }\n" % (ty, e), 'the result of `%s` borrows from the key' % e, codes=('E?', 'E0621'))
    # entries
    ENT = 'let mut c: OrdinalMap<K, V> = [(K::A, V::new())].into_iter().collect(); '
    OCC = ENT + 'let ordinal_map::map::Entry::Occupied(mut e) = c.entry(K::A) else { return }; '
    VAC = ENT + 'let ordinal_map::map::Entry::Vacant(mut e) = c.entry(K::B) else { return }; '
    pair('c23.entry.get_mut_twice', 'fn main() { %s let a = e.get_mut(); let b = e.get_mut(); touch(a); touch(b); }' % OCC, 'fn main() { %s let a = e.get_mut(); touch(a); let b = e.get_mut(); touch(b); }' % OCC, 'two mutable references from one occupied entry')
    pair('c23.entry.get_while_mut', 'fn main() { %s let a = e.get_mut(); let b = e.get(); touch(a); touch(b); }' % OCC, 'fn main() { %s let b = e.get(); touch(b); let a = e.get_mut(); touch(a); }' % OCC, 'a shared reference beside a mutable one from one entry')
    pair('c23.entry.get_outlives', 'fn main() { %s let b = e.get(); drop(e); touch(b); }' % OCC, 'fn main() { %s let b = e.get(); touch(b); drop(e); }' % OCC, 'a reference from `get` outlives the entry')
    pair('c23.entry.get_mut_outlives', 'fn main() { %s let b = e.get_mut(); drop(e); touch(b); }' % OCC, 'fn main() { %s let b = e.get_mut(); touch(b); drop(e); }' % OCC, 'a reference from `get_mut` outlives the entry')
    pair('c23.entry.key_outlives', 'fn main() { %s let b = e.key(); drop(e); touch(b); }' % OCC, 'fn main() { %s let b = e.key(); touch(b); drop(e); }' % OCC, 'a key reference outlives the entry')
    pair('c23.entry.vacant_key_outlives', 'fn main() { %s let b = e.key(); e.insert(V::new()); touch(b); }' % VAC, 'fn main() { %s let b = e.key(); touch(b); e.insert(V::new()); }' % VAC, 'a key reference outlives the vacant entry')
    pair('c23.entry.vacant_insert_twice', 'fn main() { %s e.insert(V::new()); e.insert(V::new()); }' % VAC, 'fn main() { %s e.insert(V::new()); }' % VAC, 'a vacant entry is filled twice')
    pair('c23.entry.or_insert_twice', 'fn main() { %s let e = c.entry(K::B); e.or_insert(V::new()); e.or_insert(V::new()); }' % ENT, 'fn main() { %s let e = c.entry(K::B); e.or_insert(V::new()); }' % ENT, 'an entry is used twice')
    pair('c23.entry.two', 'fn main() { %s let a = c.entry(K::A); let b = c.entry(K::B); touch(a.key()); touch(b.key()); }' % ENT, 'fn main() { %s let a = c.entry(K::A); touch(a.key()); let b = c.entry(K::B); touch(b.key()); }' % ENT, 'two entries of one map are alive')
    pair('c23.entry.while_reading', 'fn main() { %s let v = c.get(&K::A); let b = c.entry(K::B); touch(v); touch(b.key()); }' % ENT, 'fn main() { %s let v = c.get(&K::A); touch(v); let b = c.entry(K::B); touch(b.key()); }' % ENT, 'an entry is made while a value is borrowed')
    pair('c23.entry.get_mut_shared', 'fn f(e: &ordinal_map::map::OccupiedEntry<K, V>) { e.get_mut(); } fn main() { black_box(f as fn(&ordinal_map::map::OccupiedEntry<K, V>)); }', 'fn f(e: &mut ordinal_map::map::OccupiedEntry<K, V>) { e.get_mut(); } fn main() { black_box(f as fn(&mut ordinal_map::map::OccupiedEntry<K, V>)); }', '`get_mut` through a shared entry', codes=('E0596',))
    # consumed containers
    for cn, ty in (('map', 'OrdinalMap<K, V>'), ('array_map', 'OrdinalArrayMap<K, V, 3>'), ('total', 'OrdinalTotalMap<K, V>'), ('total_array', 'OrdinalTotalArrayMap<K, V, 3>')):
        mk = CONT[cn][1]
        pair('c23.consumed.%s' % cn, 'fn main() { let c: %s = %s; let i = c.into_iter(); touch(c.iter().next().is_some()); touch(i); }' % (ty, mk), 'fn main() { let c: %s = %s; touch(c.iter().next().is_some()); let i = c.into_iter(); touch(i); }' % (ty, mk), 'a map is used after `into_iter`', codes=('E0382',))
    # duplicating exclusive iterators
    DUP = 'fn need<X: Clone>(x: X) { touch(x.clone()); } fn dbg<X: std::fmt::Debug>(x: X) { touch(format!("{:?}", x)); }\n'
    for cn in ('map', 'array_map', 'total', 'total_array'):
        ty, mk = CONT[cn][0], CONT[cn][1]
        for m in ['iter_mut()', 'values_mut()'] + (['drain()', 'entry(K::A)'] if 'total' not in cn else []):
            if m == 'values_mut()' and 'total' in cn:
                continue
            twin = 'touch(c.%s)' % m
            pair('c23.clone.%s.%s' % (cn, m), 'fn main() { let mut c: %s = %s; need(c.%s); }' % (ty, mk, m), 'fn main() { let mut c: %s = %s; %s; need(c.iter()); }' % (ty, mk, twin), '`%s` can be duplicated' % m, codes=('E0277', 'E0599'), items=DUP)
            if 'entry' not in m:
                pair('c23.copied.%s.%s' % (cn, m), 'fn main() { let mut c: %s = %s; let mut a = c.%s; let mut b = a; touch(a.next()); touch(b.next()); }' % (ty, mk, m), 'fn main() { let mut c: %s = %s; let mut a = c.%s; touch(a.next()); let mut b = a; touch(b.next()); }' % (ty, mk, m), '`%s` is copied by assignment' % m, codes=('E0382',))
        m = 'iter_mut()'
        pair('c23.reborrow.%s' % cn, 'fn main() { let mut c: %s = %s; let mut it = c.iter_mut(); let x = it.next(); touch(c.iter().next().is_some()); touch(x); }' % (ty, mk), 'fn main() { let mut c: %s = %s; let mut it = c.iter_mut(); let x = it.next(); touch(x); touch(c.iter().next().is_some()); }' % (ty, mk), 'a mutable item lives while the map is read')
    # threads
    TH = '''use std::rc::Rc; use std::cell::Cell; use std::marker::PhantomData;
fn send<X: Send>() {} fn sync<X: Sync>() {}
pub struct Bad(PhantomData<*const u8>);
impl Ordinal for Bad { const ORDINAL_SIZE: usize = 1; fn ordinal(&self) -> usize { 0 } fn from_ordinal(n: usize) -> Option<Self> { if n == 0 { Some(Bad(PhantomData)) } else { None } } }
pub struct OnlySend(PhantomData<Cell<u8>>);
impl Ordinal for OnlySend { const ORDINAL_SIZE: usize = 1; fn ordinal(&self) -> usize { 0 } fn from_ordinal(n: usize) -> Option<Self> { if n == 0 { Some(OnlySend(PhantomData)) } else { None } } }
'''
    OWN = ['OrdinalMap<%s, %s>', 'OrdinalArrayMap<%s, %s, 1>', 'OrdinalTotalMap<%s, %s>', 'OrdinalTotalArrayMap<%s, %s, 1>', 'ordinal_map::map::IntoIter<%s, %s>', 'ordinal_map::map::IntoIterArray<%s, %s, 1>',
           'ordinal_map::map::total::IntoIter<%s, %s>', 'ordinal_map::map::total::IntoIterArray<%s, %s, 1>']
    SHARED = ["ordinal_map::map::Iter<'a, %s, %s>", "ordinal_map::map::Keys<'a, %s, %s>", "ordinal_map::map::Values<'a, %s, %s>", "ordinal_map::map::total::Iter<'a, %s, %s>"]
    EXCL = ["ordinal_map::map::IterMut<'a, %s, %s>", "ordinal_map::map::Drain<'a, %s, %s>", "ordinal_map::map::total::IterMut<'a, %s, %s>", "ordinal_map::map::Entry<'a, %s, %s>",
            "ordinal_map::map::OccupiedEntry<'a, %s, %s>", "ordinal_map::map::VacantEntry<'a, %s, %s>"]
    KEYED = ['OrdinalSet<%s>', 'OrdinalArraySet<%s, 1>', 'OrdinalSet64<%s>', 'AtomicOrdinal<%s>', 'ordinal_map::OrdinalValues<%s>', 'ordinal_map::set::Iter64<%s>', "ordinal_map::set::Iter<'a, %s>"]
    for grp, tys in (('own', OWN), ('shared', SHARED), ('excl', EXCL)):
        for t in tys:
            nm = t.split('<')[0].replace('ordinal_map::', '').replace('::', '_')
            vs = 'Sync' if grp == 'shared' else 'Send'
            ok('c23.send.%s' % nm, TH + "fn f<'a, X: Ordinal + Send + Sync + 'a, Y: Send + Sync + 'a>() { send::<%s>(); sync::<%s>(); } fn main() { f::<K, V>() }" % (t % ('X', 'Y'), t % ('X', 'Y')), '%s of thread-safe types can be moved and shared between threads' % nm)
            ok('c23.send_only.%s' % nm, TH + "fn f<'a, X: Ordinal + Send + 'a, Y: %s + 'a>() { send::<%s>(); } fn main() { f::<K, V>() }" % (vs, t % ('X', 'Y')), '%s moves between threads if keys are Send and values are %s' % (nm, vs))
            ok('c23.sync_only.%s' % nm, TH + "fn f<'a, X: Ordinal + Sync + 'a, Y: Sync + 'a>() { sync::<%s>(); } fn main() { f::<K, V>() }" % (t % ('X', 'Y')), '%s is shared between threads if keys and values are Sync' % nm)
            for bad, what, b in (('send', t % ('K', 'Rc<u8>'), 'Rc values'), ('sync', t % ('K', 'Rc<u8>'), 'Rc values'), ('sync', t % ('K', 'Cell<u8>'), 'Cell values'), ('send', t % ('K', '*const u8'), 'raw pointer values'),
                                 ('send', t % ('Bad', 'u8'), 'keys that cannot move'), ('sync', t % ('Bad', 'u8'), 'keys that cannot be shared'), ('sync', t % ('OnlySend', 'u8'), 'keys that cannot be shared'),
                                 ('send', t % ('K', 'std::sync::MutexGuard<\'static, u8>') if grp != 'shared' else t % ('K', 'Cell<u8>'), 'values that cannot cross')):
                pair('c23.no_%s.%s.%s' % (bad, nm, (b + what[-14:]).replace(' ', '_')), "fn f<'a>() { %s::<%s>() } fn main() { f() }" % (bad, what), "fn f<'a>() { %s::<%s>() } fn main() { f() }" % (bad, t % ('K', 'u8')),
                     '%s with %s crosses threads' % (nm, b), codes=('E0277',), items=TH)
    for t in KEYED:
        nm = t.split('<')[0].replace('ordinal_map::', '').replace('::', '_')
        ok('c23.send.%s' % nm, TH + "fn f<'a, X: Ordinal + Send + Sync + 'a>() { send::<%s>(); sync::<%s>(); } fn main() { f::<K>() }" % (t % 'X', t % 'X'), '%s of thread-safe types' % nm)
        ok('c23.send_only.%s' % nm, TH + "fn f<'a, X: Ordinal + Send + 'a>() { send::<%s>(); } fn main() { f::<K>() }" % (t % 'X'), '%s moves if its values are Send' % nm)
        ok('c23.sync_only.%s' % nm, TH + "fn f<'a, X: Ordinal + Sync + 'a>() { sync::<%s>(); } fn main() { f::<K>() }" % (t % 'X'), '%s is shared if its values are Sync' % nm)
        for bad, k in (('send', 'Bad'), ('sync', 'Bad'), ('sync', 'OnlySend')):
            pair('c23.no_%s.%s.%s' % (bad, nm, k), "fn f<'a>() { %s::<%s>() } fn main() { f() }" % (bad, t % k), "fn f<'a>() { %s::<%s>() } fn main() { f() }" % (bad, t % 'K'), '%s crosses threads with keys that do not allow it' % nm, codes=('E0277',), items=TH)
    # values_mut of the sparse maps has no public name
    for bad, v in (('send', 'Rc<u8>'), ('sync', 'Cell<u8>'), ('send', '*const u8')):
        for cn, ty in (('map', 'OrdinalMap<K, %s>'), ('array_map', 'OrdinalArrayMap<K, %s, 3>')):
            body = 'fn is<X: %s>(_: X) {} fn f(mut c: %s) { is(c.values_mut()); } fn main() { let _ = f; }'
            pair('c23.no_%s.values_mut.%s.%s' % (bad, cn, v[:2]), body % (bad.title(), ty % v), body % (bad.title(), ty % 'u8'), 'values_mut crosses threads', codes=('E0277',), items=TH)
    # variance
    COV = [("OrdinalMap<K, &%s str>", 'o'), ("OrdinalArrayMap<K, &%s str, 3>", 'o'), ("OrdinalTotalMap<K, &%s str>", 'o'), ("OrdinalTotalArrayMap<K, &%s str, 3>", 'o'),
           ("ordinal_map::map::Iter<%s, K, u8>", 'v'), ("ordinal_map::map::Keys<%s, K, u8>", 'v'), ("ordinal_map::map::Values<%s, K, u8>", 'v'), ("ordinal_map::map::total::Iter<%s, K, u8>", 'v'), ("ordinal_map::set::Iter<%s, K>", 'v'),
           ("ordinal_map::map::Iter<'s, K, &%s str>", 'v'), ("ordinal_map::map::Keys<'s, K, &%s str>", 'v'), ("ordinal_map::map::Values<'s, K, &%s str>", 'v'), ("ordinal_map::map::total::Iter<'s, K, &%s str>", 'v'),
           ("ordinal_map::map::Iter<'s, Kl<%s>, u8>", 'v'), ("ordinal_map::map::Keys<'s, Kl<%s>, u8>", 'v'), ("ordinal_map::map::Values<'s, Kl<%s>, u8>", 'v'), ("ordinal_map::map::total::Iter<'s, Kl<%s>, u8>", 'v'), ("ordinal_map::set::Iter<'s, Kl<%s>>", 'v'),
           ("ordinal_map::map::IterMut<%s, K, u8>", 'v'), ("ordinal_map::map::total::IterMut<%s, K, u8>", 'v'), ("ordinal_map::map::Entry<%s, K, u8>", 'v'),
           ("OrdinalSet<Kl<%s>>", 'o'), ("OrdinalSet64<Kl<%s>>", 'o'), ("ordinal_map::OrdinalValues<Kl<%s>>", 'v'), ("ordinal_map::set::Iter64<Kl<%s>>", 'v')]
    KL = "pub struct Kl<'k>(std::marker::PhantomData<&'k u8>); impl<'k> Ordinal for Kl<'k> { const ORDINAL_SIZE: usize = 1; fn ordinal(&self) -> usize { 0 } fn from_ordinal(n: usize) -> Option<Self> { if n == 0 { Some(Kl(std::marker::PhantomData)) } else { None } } }\n"
    for k, (t, kind) in enumerate(COV):
        ok('c23.covariant.%d.%s' % (k, t.split('<')[0]), KL + "fn f<'s, 'l: 's>(x: %s) -> %s { x } fn main() { let _ = f; }" % (t % "'l", t % "'s"), '%s is covariant' % t)
        if kind == 'v' or True:
            pair('c23.no_longer.%d.%s' % (k, t.split('<')[0]), "fn f<'s, 'l: 's>(x: %s) -> %s { x } fn main() { let _ = f; }" % (t % "'s", t % "'l"), "fn f<'s, 'l: 's>(x: %s) -> %s { x } fn main() { let _ = f; }" % (t % "'s", t % "'s"),
                 'a lifetime in %s can be made longer' % t, codes=('E?', 'E0308', 'E0478', 'E0491'), items=KL)
    INV = ["ordinal_map::map::IterMut<'s, K, &%s str>", "ordinal_map::map::total::IterMut<'s, K, &%s str>", "ordinal_map::map::OccupiedEntry<'s, K, &%s str>", "ordinal_map::map::VacantEntry<'s, K, &%s str>", "ordinal_map::map::Entry<'s, K, &%s str>"]
    for t in INV:
        pair('c23.invariant.%s' % t.split('<')[0].replace('::', '_'), "fn f<'s, 'l: 's>(x: %s) -> %s { x } fn main() { let _ = f; }" % (t % "'l", t % "'s"), "fn f<'s, 'l: 's>(x: %s) -> %s { x } fn main() { let _ = f; }" % (t % "'s", t % "'s"),
             'the value type of %s can be replaced by a shorter-lived one' % t, codes=('E?', 'E0308'))
    return out
