//! C07: building and transforming total maps keeps each value with its key.
use ordinal_map::map::total::*;
use ordinal_map::Ordinal;
use crate::rt::*;
use crate::{assume, check};

macro_rules! total_specs {
    ($p:ident, $ty:ty, [$($g:tt)*]) => {
        pub mod $p {
            use super::*;
            type M<$($g)*> = $ty;

            pub fn omv_new<$($g)*>(j: K) {
                let mut n = 0usize;
                let m: $ty = <$ty>::new(|k: K| {
                    check!(k.ordinal() == n);
                    n += 1;
                    let v = fun::<0, K, V>(&k);
                    discard(k);
                    v
                });
                check!(n == K::ORDINAL_SIZE);
                check!(same(m.get(&j), &fun::<0, K, V>(&j)));
                discard((m, j));
            }

            pub fn omv_try_new<E, $($g)*>(j: K) {
                let mut n = 0usize;
                let mut failed = false;
                let mut at = 0usize;
                let m: Result<$ty, E> = <$ty>::try_new(|k: K| {
                    check!(!failed);
                    check!(k.ordinal() == n);
                    let o = n;
                    n += 1;
                    let ok = fun::<1, K, bool>(&k);
                    let r = if ok {
                        Ok(fun::<0, K, V>(&k))
                    } else {
                        failed = true;
                        at = o;
                        Err(fun::<2, usize, E>(&o))
                    };
                    discard(k);
                    r
                });
                match m {
                    Ok(m) => {
                        check!(!failed);
                        check!(n == K::ORDINAL_SIZE);
                        check!(fun::<1, K, bool>(&j));
                        check!(same(m.get(&j), &fun::<0, K, V>(&j)));
                        discard(m);
                    }
                    Err(e) => {
                        check!(failed);
                        check!(n == at + 1);
                        check!(same(&e, &fun::<2, usize, E>(&at)));
                        discard(e);
                    }
                }
                discard(j);
            }

            pub fn omv_views<$($g)*>(m: $ty, j: K) {
                let v = m.get(&j) as *const V;
                let o = j.ordinal();
                let mut it = m.values();
                check!(it.len() == K::ORDINAL_SIZE);
                check!(it.nth(o).unwrap() as *const V == v);
                discard((m, j));
            }

            pub fn omv_views_mut<$($g)*>(mut m: $ty, j: K) {
                let v = m.get(&j) as *const V;
                let before = ghost(&m);
                let o = j.ordinal();
                {
                    let mut it = m.values_mut();
                    check!(it.len() == K::ORDINAL_SIZE);
                    check!(it.nth(o).unwrap() as *mut V as *const V == v);
                }
                check!(same(m.get(&j), before.get(&j)));
                discard((m, before, j));
            }

            pub fn omv_into_values<$($g)*>(m: $ty, j: K) {
                let before = ghost(&m);
                let vs = m.into_values();
                check!(vs.len() == K::ORDINAL_SIZE);
                check!(same(&vs[j.ordinal()], before.get(&j)));
                discard((vs, before, j));
            }
        }
    };
}

total_specs!(boxed, OrdinalTotalMap<K, V>, [K: Ordinal, V]);
total_specs!(array, OrdinalTotalArrayMap<K, V, S>, [K: Ordinal, V, const S: usize]);

pub fn omv_from_array<K: Ordinal, V, const S: usize>(a: [V; S], j: K) {
    let b = ghost(&a);
    let m = OrdinalTotalArrayMap::<K, V, S>::from_array(a);
    check!(same(m.get(&j), &b[j.ordinal()]));
    discard((m, b, j));
}

pub fn omv_as_ref<K: Ordinal, V, const S: usize>(m: OrdinalTotalArrayMap<K, V, S>, j: K) {
    let before = ghost(&m);
    {
        let r = m.as_ref();
        check!(*r.get(&j) as *const V == m.get(&j) as *const V);
        discard(r);
    }
    check!(same(m.get(&j), before.get(&j)));
    discard((m, before, j));
}

pub fn omv_as_mut<K: Ordinal, V, const S: usize>(mut m: OrdinalTotalArrayMap<K, V, S>, j: K) {
    let before = ghost(&m);
    let p = m.get(&j) as *const V;
    {
        let r = m.as_mut();
        check!(*r.get(&j) as *const V == p);
        discard(r);
    }
    check!(same(m.get(&j), before.get(&j)));
    discard((m, before, j));
}

pub fn omv_zip<K: Ordinal, V, W, const S: usize>(a: OrdinalTotalArrayMap<K, V, S>, b: OrdinalTotalArrayMap<K, W, S>, j: K) {
    let a0 = ghost(&a);
    let b0 = ghost(&b);
    let m = a.zip(b);
    check!(same(&m.get(&j).0, a0.get(&j)));
    check!(same(&m.get(&j).1, b0.get(&j)));
    discard((m, a0, b0, j));
}

pub fn omv_map<K: Ordinal, V, W, const S: usize>(a: OrdinalTotalArrayMap<K, V, S>, j: K) {
    let a0 = ghost(&a);
    let mut n = 0usize;
    let m = a.map(|k, v| {
        check!(k.ordinal() == n);
        check!(same(&v, a0.get(&k)));
        n += 1;
        let w = fun::<0, K, W>(&k);
        discard((k, v));
        w
    });
    check!(n == K::ORDINAL_SIZE);
    check!(same(m.get(&j), &fun::<0, K, W>(&j)));
    discard((m, a0, j));
}

pub fn omv_map_values<K: Ordinal, V, W, const S: usize>(a: OrdinalTotalArrayMap<K, V, S>, j: K) {
    let a0 = ghost(&a);
    let mut n = 0usize;
    let m = a.map_values(|v| {
        n += 1;
        let w = fun::<0, V, W>(&v);
        discard(v);
        w
    });
    check!(n == K::ORDINAL_SIZE);
    check!(same(m.get(&j), &fun::<0, V, W>(a0.get(&j))));
    discard((m, a0, j));
}

pub fn omv_values_array<K: Ordinal, V, const S: usize>(mut m: OrdinalTotalArrayMap<K, V, S>, j: K) {
    let before = ghost(&m);
    let p = m.get(&j) as *const V;
    check!(&m.values_array()[j.ordinal()] as *const V == p);
    check!(&m.values_array_mut()[j.ordinal()] as *const V == p);
    check!(same(m.get(&j), before.get(&j)));
    discard((m, before, j));
}
