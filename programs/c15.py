"""Containers whose size parameter does not fit the key type have to be refused."""
from witness import W
from c05 import PRE

KEYS = {3: '#[derive(Ordinal)] pub enum K { A, B, C }', 0: '#[derive(Ordinal)] pub enum K {}'}


def key(n):
    return KEYS.get(n, 'type K = N<%d>;' % n)


# constructor expressions; {S} is the size parameter
TOTAL = 'ordinal_map::map::total::OrdinalTotalArrayMap<K, u8, {S}>'
SPARSE = 'ordinal_map::map::OrdinalArrayMap<K, u8, {S}>'
ASET = 'ordinal_map::set::OrdinalArraySet<K, {S}>'
SET64 = 'ordinal_map::set::OrdinalSet64<K>'
TOTAL_NEW = {
    'new': 'T::new(|_| 0)',
    'new_stateful': '{{ let mut n = 0; T::new(move |_| {{ n += 1; n }}) }}',
    'try_new': 'T::try_new(|k| if k.ordinal() < 7 {{ Ok(0) }} else {{ Err(()) }}).ok().unwrap()',
    'from_array': 'T::from_array([0; {S}])',
    'default': 'T::default()',
    'default_trait': '<T as Default>::default()',
    'new_generic': 'mk::<K, {S}>()',
}
TOTAL_DECL = 'fn mk<X: Ordinal, const S: usize>() -> ordinal_map::map::total::OrdinalTotalArrayMap<X, u8, S> {{ ordinal_map::map::total::OrdinalTotalArrayMap::new(|_| 0) }}'
TOTAL_USE = {
    'get': 'let f: fn(&T, &K) -> u8 = |m, k| *m.get(k); black_box(f);',
    'iter': 'let f: fn(&T) -> usize = |m| m.iter().count(); black_box(f);',
    'drop': '',
}
SPARSE_NEW = {
    'new': 'T::new()',
    'default': 'T::default()',
    'collect': 'Vec::<(K, u8)>::new().into_iter().collect::<T>()',
    'from_iter': '<T as std::iter::FromIterator<(K, u8)>>::from_iter(None)',
}
SPARSE_USE = {
    'insert': 'let f: fn(&mut T, K) = |m, k| {{ m.insert(k, 1); }}; black_box(f);',
    'iter': 'let f: fn(&T) -> usize = |m| m.iter().count(); black_box(f);',
    'drop': '',
}
ASET_NEW = {
    'new': 'T::new()',
    'default': 'T::default()',
    'default_trait': '<T as Default>::default()',
    'collect': 'Vec::<K>::new().into_iter().collect::<T>()',
    'clone_of_default': 'T::default().clone()',
    'array_default': '<[T; 1] as Default>::default()[0].clone()',
}
ASET_USE = {
    'insert': 'let f: fn(&mut T, K) -> bool = |m, k| m.insert(k); black_box(f);',
    'contains': 'let f: fn(&T, &K) -> bool = |m, k| m.contains(k); black_box(f);',
}
SET64_NEW = {
    'new': 'T::new()',
    'default': 'T::default()',
    'all': 'T::all()',
    'collect': 'Vec::<K>::new().into_iter().collect::<T>()',
    'const_new': 'X',
    'clone': 'T::new().clone()',
}
SET64_USE = {
    'insert': 'let f: fn(&mut T, K) -> bool = |m, k| m.insert(k); black_box(f);',
    'contains': 'let f: fn(&T, &K) -> bool = |m, k| m.contains(k); black_box(f);',
    'iter': 'let f: fn(&T) -> usize = |m| m.iter().count(); black_box(f);',
}


def words(n):
    return (n + 63) // 64


def cases(tier):
    out = []

    def add(name, kty, ty, S, decl, new, use, ok, twin, why):
        code = PRE + key(kty) + '\ntype T = %s;\n' % ty.format(S=S) + decl.format(S=S) + '\nfn main() { let m: T = %s; black_box(&m); %s }\n' % (
            new.format(S=S), use.format(S=S))
        out.append(W(name, code, bad=() if ok else ('E0080',), twin=None if ok else twin, why=why))

    sizes = [3, 0, 64, 65, 1] if tier == 'quick' else [3, 0, 1, 2, 63, 64, 65, 128, 200]
    for label, ty, news, uses, decl in (('total', TOTAL, TOTAL_NEW, TOTAL_USE, TOTAL_DECL), ('sparse', SPARSE, SPARSE_NEW, SPARSE_USE, '')):
        for n in sizes:
            for cn, c in news.items():
                us = uses if tier != 'quick' or n == 3 else {k: uses[k] for k in ('drop',)}
                for un, u in us.items():
                    base = 'c15.%s.%d.%s.%s' % (label, n, cn, un)
                    add(base + '.right', n, ty, n, decl, c, u, True, None, 'the size parameter is the number of keys')
                    for S in [s for s in (n - 1, n + 1, 0, 2 * n, words(n), 1) if s >= 0 and s != n][: 3 if tier == 'quick' else 9]:
                        add('%s.wrong%d' % (base, S), n, ty, S, decl, c, u, False, base + '.right', 'size parameter %d for a key type with %d values' % (S, n))
    for n in ([3, 64, 65, 0, 128, 200] if tier == 'quick' else [0, 1, 3, 63, 64, 65, 127, 128, 129, 200, 640]):
        for cn, c in ASET_NEW.items():
            for un, u in ASET_USE.items():
                base = 'c15.array_set.%d.%s.%s' % (n, cn, un)
                w = words(n)
                add(base + '.right', n, ASET, w, '', c, u, True, None, 'the size parameter is the number of words')
                for S in [s for s in dict.fromkeys((w - 1, w + 1, n, 0, 2 * w)) if s >= 0 and s != w][: 2 if tier == 'quick' else 9]:
                    add('%s.wrong%d' % (base, S), n, ASET, S, '', c, u, False, base + '.right', 'size parameter %d for a key type with %d values' % (S, n))
    for cn, c in SET64_NEW.items():
        decl = 'const X: T = T::new();' if cn == 'const_new' else ''
        for un, u in SET64_USE.items():
            base = 'c15.set64.%s.%s' % (cn, un)
            for n in (64, 0, 1, 63):
                add('%s.right%d' % (base, n), n, SET64, 0, decl, c, u, True, None, 'the key type has at most 64 values')
            for n in (65, 66, 128, 256, 1 << 40):
                add('%s.wrong%d' % (base, n), n, SET64, 0, decl, c, u, False, base + '.right64', 'single-word set for a key type with %d values' % n)
    return out
