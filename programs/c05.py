"""Key types with too many values: every conversion has to be refused."""
from witness import W

PRE = '''#![allow(dead_code)]
use ordinal_map::Ordinal;
use std::hint::black_box;
const MAX: usize = usize::MAX;
const H: usize = 1 << 32;
pub struct N<const S: usize>(usize);
impl<const S: usize> Ordinal for N<S> {
    const ORDINAL_SIZE: usize = S;
    fn ordinal(&self) -> usize { self.0 }
    fn from_ordinal(o: usize) -> Option<Self> { if o < S { Some(N(o)) } else { None } }
}
'''

USES = {
    'ordinal': 'fn main() { let f: fn(&T) -> usize = |x| x.ordinal(); black_box(f); }',
    'from_ordinal': 'fn main() { let f: fn(usize) -> Option<T> = |n| T::from_ordinal(n); black_box(f); }',
    'ordinal_generic': 'fn g<K: Ordinal>(x: &K) -> usize { x.ordinal() } fn main() { black_box(g::<T> as fn(&T) -> usize); }',
    'ordinal_dyn_call': 'fn main() { black_box(<T as Ordinal>::ordinal as fn(&T) -> usize); }',
    'from_ordinal_fn': 'fn main() { black_box(<T as Ordinal>::from_ordinal as fn(usize) -> Option<T>); }',
}
MORE = {
    'all_values': 'fn main() { let f: fn() -> Option<T> = || T::all_values().next(); black_box(f); }',
    'map_get': 'fn main() { let f: fn(&ordinal_map::map::OrdinalMap<T, u8>, &T) -> bool = |m, k| m.contains_key(k); black_box(f); }',
    'map_iter': 'fn main() { let f: fn(&ordinal_map::map::OrdinalMap<T, u8>) -> usize = |m| m.iter().map(|(k, _)| k.ordinal()).sum(); black_box(f); }',
    'atomic': 'fn main() { let f: fn(T) -> ordinal_map::AtomicOrdinal<T> = |x| ordinal_map::AtomicOrdinal::new(x); black_box(f); }',
    'set_insert': 'fn main() { let f: fn(&mut ordinal_map::set::OrdinalSet<T>, T) -> bool = |s, x| s.insert(x); black_box(f); }',
}

D = '#[derive(Ordinal)] '
# (name, overflowing type, type that just fits); a type may bring declarations
TYPES = [
    ('result_sum', 'type T = Result<N<MAX>, N<1>>;', 'type T = Result<N<{ MAX - 1 }>, N<1>>;'),
    ('result_sum_left', 'type T = Result<N<1>, N<MAX>>;', 'type T = Result<N<0>, N<MAX>>;'),
    ('result_halves', 'type T = Result<N<{ MAX / 2 + 1 }>, N<{ MAX / 2 + 1 }>>;', 'type T = Result<N<{ MAX / 2 }>, N<{ MAX / 2 + 1 }>>;'),
    ('result_wraps_to_small', 'type T = Result<N<MAX>, N<4>>;', 'type T = Result<N<MAX>, N<0>>;'),
    ('result_nested', 'type T = Result<Result<N<{ MAX - 1 }>, N<1>>, bool>;', 'type T = Result<Result<N<{ MAX - 3 }>, N<1>>, bool>;'),
    ('either_sum', 'type T = either::Either<N<MAX>, N<1>>;', 'type T = either::Either<N<{ MAX - 1 }>, N<1>>;'),
    ('either_right', 'type T = either::Either<N<2>, N<MAX>>;', 'type T = either::Either<N<0>, N<MAX>>;'),
    ('either_halves', 'type T = either::Either<N<{ MAX / 2 + 1 }>, N<{ MAX / 2 + 1 }>>;', 'type T = either::Either<N<{ MAX / 2 + 1 }>, N<{ MAX / 2 }>>;'),
    ('array_to_zero', 'type T = [N<H>; 2];', 'type T = [N<H>; 1];'),
    ('array_wraps', 'type T = [N<65537>; 4];', 'type T = [N<65535>; 4];'),
    ('array_bits', 'type T = [N<2>; 64];', 'type T = [N<2>; 63];'),
    ('array_bool', 'type T = [bool; 64];', 'type T = [bool; 63];'),
    ('array_u8', 'type T = [u8; 8];', 'type T = [u8; 7];'),
    ('array_long', 'type T = [N<2>; 200];', 'type T = [N<1>; 200];'),
    ('array_max', 'type T = [N<MAX>; 2];', 'type T = [N<MAX>; 1];'),
    ('array_three', 'type T = [N<3>; 41];', 'type T = [N<3>; 40];'),
    ('array_nested', 'type T = [[u8; 4]; 2];', 'type T = [[u8; 3]; 2];'),
    ('array_of_tuple', 'type T = [(u16, u16); 2];', 'type T = [(u16, u8); 2];'),
    ('tuple_prims', 'type T = (u32, u32);', 'type T = (u32, u16);'),
    ('tuple_wraps', 'type T = (N<{ H + 1 }>, N<H>);', 'type T = (N<{ H - 1 }>, N<{ H + 1 }>);'),
    ('tuple_nested', 'type T = ((u8, u32), (bool, u32));', 'type T = ((u8, u16), (bool, u32));'),
    ('tuple_option', 'type T = (Option<u32>, u32);', 'type T = (Option<u16>, u32);'),
    ('tuple_chars', 'type T = (char, char, char, char);', 'type T = (char, char, char);'),
    ('tuple_in_result', 'type T = Result<(u32, u16), [u16; 4]>;', 'type T = Result<(u32, u16), [u16; 3]>;'),
    ('derive_struct', D + 'pub struct T { a: u32, b: u32 }', D + 'pub struct T { a: u32, b: u16 }'),
    ('derive_struct_wraps', D + 'pub struct T { a: N<{ H + 1 }>, b: N<H> }', D + 'pub struct T { a: N<{ H - 1 }>, b: N<H> }'),
    ('derive_tuple_struct', D + 'pub struct T(u16, u16, u16, u16);', D + 'pub struct T(u16, u16, u16, u8);'),
    ('derive_struct_last', D + 'pub struct T(N<H>, (), N<1>, N<H>);', D + 'pub struct T(N<H>, (), N<1>, u16);'),
    ('derive_generic', D + 'pub struct G<A: Ordinal, B: Ordinal> { a: A, b: B } type T = G<u32, u32>;', D + 'pub struct G<A: Ordinal, B: Ordinal> { a: A, b: B } type T = G<u32, u16>;'),
    ('derive_const_generic', D + 'pub struct G<const M: usize>([bool; M], bool); type T = G<63>;', D + 'pub struct G<const M: usize>([bool; M], bool); type T = G<62>;'),
    ('derive_enum_sum', D + 'pub enum T { A(N<MAX>), B }', D + 'pub enum T { A(N<{ MAX - 1 }>), B }'),
    ('derive_enum_unit_first', D + 'pub enum T { A, B, C(N<{ MAX - 1 }>) }', D + 'pub enum T { A, B, C(N<{ MAX - 2 }>) }'),
    ('derive_enum_middle', D + 'pub enum T { A, B(N<MAX>), C { x: bool } }', D + 'pub enum T { A, B(N<{ MAX - 3 }>), C { x: bool } }'),
    ('derive_enum_product', D + 'pub enum T { A, B(u32, u32), C }', D + 'pub enum T { A, B(u32, u16), C }'),
    ('derive_enum_product_named', D + 'pub enum T { A, B { x: u32, y: bool, z: u32 } }', D + 'pub enum T { A, B { x: u32, y: bool, z: u16 } }'),
    ('derive_enum_generic', D + 'pub enum G<A: Ordinal, B: Ordinal> { X(A), Y(B), Z } type T = G<N<MAX>, ()>;', D + 'pub enum G<A: Ordinal, B: Ordinal> { X(A), Y(B), Z } type T = G<N<{ MAX - 2 }>, ()>;'),
    ('derive_enum_only_second', D + 'pub enum T { A(bool), B(N<MAX>) }', D + 'pub enum T { A(bool), B(N<{ MAX - 2 }>) }'),
    ('derive_enum_single', D + 'pub enum T { A(u32, u32) }', D + 'pub enum T { A(u32, u8) }'),
    ('derive_enum_inner', D + 'pub enum T { A, B((u32, u32)) }', D + 'pub enum T { A, B((u32, u16)) }'),
    ('derive_struct_inner', D + 'pub struct T { x: [u16; 4] }', D + 'pub struct T { x: [u16; 3] }'),
]
for n in range(2, 17):
    a, z = ['N<1>'] * n, ['N<1>'] * n
    a[0] = a[-1] = 'N<H>'
    z[0], z[-1] = 'N<H>', 'N<{ H - 1 }>'
    TYPES.append(('tuple%d' % n, 'type T = (%s);' % ', '.join(a), 'type T = (%s);' % ', '.join(z)))
    if n > 2:
        a, z = ['u8'] * n, ['N<1>'] * n
        if n >= 8:
            z[1:7] = ['u8'] * 6
            TYPES.append(('tuple%d_bytes' % n, 'type T = (%s);' % ', '.join(a), 'type T = (%s);' % ', '.join(z)))
        a, z = ['N<1>'] * n, ['N<1>'] * n
        a[n // 2], a[n // 2 - 1] = 'N<MAX>', 'N<2>'
        z[n // 2] = 'N<MAX>'
        TYPES.append(('tuple%d_middle' % n, 'type T = (%s);' % ', '.join(a), 'type T = (%s);' % ', '.join(z)))


def cases(tier):
    out = []
    for i, (n, bad, good) in enumerate(TYPES):
        uses = dict(USES)
        if tier != 'quick':
            uses.update(MORE)
        elif n.startswith('tuple') and n[5:6].isdigit():
            uses = {k: USES[k] for k in ('ordinal', 'from_ordinal')}
        else:
            uses = {k: USES[k] for k in ('ordinal', 'from_ordinal', list(USES)[2 + i % 3])}
            k = list(MORE)[i % len(MORE)]
            uses[k] = MORE[k]
        for u, t in uses.items():
            base = 'c05.%s.%s' % (n, u)
            out.append(W(base + '.fits', PRE + good + '\n' + t + '\n', why='the number of values fits in a machine word'))
            out.append(W(base + '.overflows', PRE + bad + '\n' + t + '\n', bad=('E0080',), twin=base + '.fits',
                         why='the number of values does not fit in a machine word'))
    return out
