"""Derive has to build whatever the names, generics, visibility, scope or macro."""
from witness import W

D = '#[derive(::ordinal_map::Ordinal)] '
USE = '''
fn main() {
    let f: fn(&%s) -> usize = |__v| ordinal_map::Ordinal::ordinal(__v);
    let g: fn(usize) -> ::std::option::Option<%s> = |__n| <%s as ordinal_map::Ordinal>::from_ordinal(__n);
    ::std::hint::black_box((f, g));
}
'''


def use(t):
    return USE % (t, t, t)


# names the generated code uses or might use, and keywords
NAMES = ['rem', 'ordinal', '_check_overflow', '_ignore', 'f0', 'f1', 'f2', 'a', 'b', 'value', 'result', 'size', 'count', 'index', 'i', 'n', 'x',
         'this', 'other', 'std', 'core', 'ordinal_map', 'usize', 'bool', 'r#type', 'r#match', 'r#fn', 'r#const', 'Ok', 'Some', 'None', 'Err', 'Option',
         'ORDINAL_SIZE', 'from_ordinal', 'unwrap', 'Ordinal', 'T', 'A', 'B', 'E', '_x', '__', 'r#struct', 'r#async', 'r#return', 'r#mut', 'r#let', 'r#impl', 'F0', 'Self_', 'r#use', 'union', 'auto', 'dyn_',
         'field', 'variant', 'rem_ordinal', 'rem0', 'first', 'rest', 'none', 'out', 'res', 'ord', 'div', 'modulo', 'acc', 'total']
LOWER = [n for n in NAMES if not n[:1].isupper()]


def cases(tier):
    out = []

    def add(name, code, t='T', edition='2021', flags=(), why='', main=True):
        out.append(W('c21.' + name, '#![allow(dead_code)]\n' + code + (use(t) if main else ''), edition=edition, flags=flags, why=why))

    for n in NAMES:
        t = n.replace('#', '_')
        add('field.%s' % t, D + 'pub struct T_ { %s: bool, second: u8 } type T1 = T_;' % n, 'T1', why='a struct with a field named %s' % n)
        add('fields.%s' % t, '#[allow(non_camel_case_types)] mod m { ' + D + 'pub enum Q { V { %s: bool, w: u8 }, W { w: bool, %s: u8 }, %s } } type T1 = m::Q;' % (n, n, n if n not in ('__',) else 'Z'),
            'T1', why='an enum with fields and a variant named %s' % n)
        if n not in ('__', '_x'):
            add('variant.%s' % t, D + 'pub enum Q { %s(bool, u8), Other, Third { a: bool } } type T1 = Q;' % n, 'T1', why='an enum with a variant named %s' % n)
        if n not in ('T', 'A', 'B', 'E') and n not in ('__',):
            add('type.%s' % t, 'mod m { pub mod inner { ' + D + 'pub struct %s { pub x: super::By, pub y: super::Bo } } pub type By = u8; pub type Bo = bool; } type T1 = m::inner::%s;' % (n, n),
                'T1', why='a struct named %s' % n)
    # pairs of clashing names
    add('field_and_param', D + 'pub struct S { ordinal: bool, rem: u8, f0: bool, f1: u8, _ignore: bool } type T = S;')
    add('enum_all', D + 'pub enum S { rem { rem: bool, ordinal: u8 }, ordinal { ordinal: bool, rem: u8 }, f0(bool, u8), f1 { f1: bool, f0: u8 } } type T = S;')
    # forms
    forms = {
        'unit': 'struct S;', 'unit_braces': 'struct S {}', 'unit_parens': 'struct S();', 'one': 'struct S(bool);', 'one_named': 'struct S { x: bool }',
        'empty_enum': 'enum S {}', 'one_variant': 'enum S { A }', 'variant_braces': 'enum S { A {}, B {} }', 'variant_parens': 'enum S { A(), B() }',
        'mixed': 'enum S { A, B(), C {}, D(bool), E { x: bool }, F(bool, u8), G { x: bool, y: u8 } }',
        'discriminants': '#[repr(u8)] enum S { A = 7, B = 3, C = 200 }', 'negative': '#[repr(i8)] enum S { A = -7, B = 3 }',
        'data_discriminants': '#[repr(u8)] enum S { A(bool) = 7, B { x: u8 } = 3, C = 200 }',
        'non_exhaustive': '#[non_exhaustive] enum S { A, B }', 'non_exhaustive_struct': '#[non_exhaustive] struct S { a: bool }',
        'non_exhaustive_variant': 'enum S { #[non_exhaustive] A { x: bool }, B }',
        'docs': '/** doc */ enum S { /// doc\n A(/** doc */ bool), /// doc\n B { /// doc\n x: u8 } }',
        'cfgs': 'enum S { #[cfg(any())] Gone(NoSuchType), A, #[cfg(all())] B(#[cfg(any())] NoSuchType, bool) }',
        'cfg_fields': 'struct S { #[cfg(any())] gone: NoSuchType, a: bool, #[cfg(all())] b: u8 }',
        'repr_c': '#[repr(C)] struct S { a: u8, b: u16 }', 'repr_transparent': '#[repr(transparent)] struct S(u16);', 'align': '#[repr(align(64))] struct S(u16, bool);',
        'uninhabited_field': 'enum S { A, B(std::convert::Infallible), C(bool) }', 'uninhabited_first': 'enum S { A(std::convert::Infallible), B }',
        'uninhabited_only': 'enum S { A(std::convert::Infallible) }', 'uninhabited_struct': 'struct S { a: bool, b: std::convert::Infallible }',
        'uninhabited_pair': 'enum S { A(std::convert::Infallible, std::convert::Infallible), B { x: bool, y: std::convert::Infallible } }',
        'units': 'struct S((), ((), ()), [bool; 0]);', 'unit_fields': 'enum S { A(()), B((), ()), C { x: (), y: bool } }',
        'nested_types': 'struct S { a: (bool, u8), b: [bool; 3], c: Option<Result<bool, u8>>, d: Box<u8>, e: std::cmp::Ordering, f: char }',
        'parens': 'struct S((bool), (u8));', 'either': 'struct S(either::Either<bool, u8>, Option<bool>);',
        'self_like': 'struct S { self_: bool, this: u8 }', 'big': 'struct S(u32, ());',
        'many_fields': 'struct S(%s);' % ', '.join(['bool'] * 40), 'many_variants': 'enum S { %s }' % ', '.join('V%d' % i for i in range(300)),
        'many_data_variants': 'enum S { %s }' % ', '.join('V%d(bool, u8)' % i for i in range(40)),
        'macro_type': 'struct S(ty!(), ty!(8));', 'qself': 'struct S(<u8 as Tr>::X, <bool as Tr>::X);', 'assoc': 'struct S(Alias, m::Deep);',
        'primitive_paths': 'struct S(core::primitive::u8, ::std::primitive::bool);', 'visibilities': 'struct S { pub a: bool, pub(crate) b: u8, pub(self) c: bool, pub(in crate) d: u8 }',
        'trailing': 'struct S(bool, u8,);', 'float_like_index': 'struct S((bool, (u8, bool)), bool);', 'duration': 'struct S { nz: std::num::NonZeroU8, i: i8 }',
    }
    pre = 'macro_rules! ty { () => { bool }; (8) => { u8 }; } trait Tr { type X; } impl Tr for u8 { type X = u16; } impl Tr for bool { type X = bool; } type Alias = u8; mod m { pub type Deep = bool; }\n'
    for k, v in forms.items():
        pos = v.index('struct S') if 'struct S' in v else v.index('enum S')
        v = v[:pos] + 'pub ' + v[pos:]
        for ed in ('2021',) if tier == 'quick' else ('2018', '2021', '2024'):
            add('form.%s.%s' % (k, ed), pre + D + v, 'S', edition=ed)
    # generics
    gens = {
        'type': ('pub struct S<A: Ordinal, B: Ordinal>(A, B);', 'S<bool, u8>'),
        'where': ('pub struct S<A, B> where A: Ordinal, B: Ordinal + Copy, Option<A>: Ordinal { a: A, b: Option<B> }', 'S<bool, u8>'),
        'default': ('pub struct S<A: Ordinal = bool>(A);', 'S'),
        'const': ('pub struct S<const N: usize>([bool; N]);', 'S<3>'),
        'const_default': ('pub struct S<const N: usize = 3>([bool; N], u8);', 'S'),
        'const_enum': ('pub enum S<const N: usize, const M: bool> { A([bool; N]), B }', 'S<3, true>'),
        'lifetime': ('pub struct S<\'a>(P<\'a>, bool);', 'S<\'static>'),
        'lifetimes': ('pub struct S<\'a, \'b: \'a, A: Ordinal + \'a>(P<\'a>, P<\'b>, A);', 'S<\'static, \'static, bool>'),
        'lifetime_enum': ('pub enum S<\'a, A: Ordinal> { V(P<\'a>), W { a: A } }', 'S<\'static, bool>'),
        'lifetime_named_like': ('pub struct S<\'ordinal, \'rem>(P<\'ordinal>, P<\'rem>);', 'S<\'static, \'static>'),
        'assoc': ('pub struct S<A: Tr>(A::X, bool) where A::X: Ordinal;', 'S<u8>'),
        'assoc_q': ('pub enum S<A> where A: Tr, <A as Tr>::X: Ordinal { V(<A as Tr>::X), W }', 'S<u8>'),
        'hrtb': ('pub struct S<A: Ordinal>(A) where for<\'x> P<\'x>: Ordinal;', 'S<u8>'),
        'phantom_bound': ('pub struct S<A: Ordinal + Clone + std::fmt::Debug + Send + \'static>(A, Option<A>);', 'S<u8>'),
        'unsized_param': ('pub struct S<A: ?Sized>(Ph<A>, bool);', 'S<str>'),
        'enum_where': ('pub enum S<A, B> where A: Ordinal, B: Ordinal { L(A), R(B), Both(A, B), Neither }', 'S<bool, u8>'),
        'array_of': ('pub struct S<A: Ordinal, const N: usize>([A; N], A);', 'S<bool, 3>'),
        'nested': ('pub struct S<A: Ordinal>(Option<Option<A>>, (A, A), Result<A, bool>);', 'S<bool>'),
        'own_bound': ('pub struct S<A>(A) where A: ordinal_map::Ordinal, Self: Sized;', 'S<bool>'),
        'fn_bound': ('pub struct S<F: Fn(u8) -> u8>(Ph<F>);', 'S<fn(u8) -> u8>'),
        'param_named_ordinal': ('#[allow(non_camel_case_types)] pub struct S<ordinal: Ordinal, rem: Ordinal> { a: ordinal, b: rem }', 'S<bool, u8>'),
        'const_named_n': ('pub struct S<const rem: usize, const ORDINAL_SIZE: usize>([bool; rem], [u8; ORDINAL_SIZE]);', 'S<2, 3>'),
        'const_upper': ('pub struct S<const ORDINAL: usize, const SIZE: usize> { a: [bool; ORDINAL], b: [u8; SIZE] }', 'S<2, 3>'),
        'param_named_self_types': ('#[allow(non_camel_case_types)] pub enum S<Option_: Ordinal, Result: Ordinal, Box: Ordinal> { A(Option_), B(Result, Box) }', 'S<bool, u8, bool>'),
        'single_letter': ('pub struct S<T: Ordinal, E: Ordinal, K: Ordinal>(T, E, K);', 'S<bool, u8, bool>'),
    }
    gpre = '''use ordinal_map::Ordinal;
pub struct P<'a>(std::marker::PhantomData<&'a ()>);
impl<'a> Ordinal for P<'a> { const ORDINAL_SIZE: usize = 1; fn ordinal(&self) -> usize { 0 } fn from_ordinal(n: usize) -> Option<Self> { if n == 0 { Some(P(std::marker::PhantomData)) } else { None } } }
pub struct Ph<A: ?Sized>(std::marker::PhantomData<A>);
impl<A: ?Sized> Ordinal for Ph<A> { const ORDINAL_SIZE: usize = 1; fn ordinal(&self) -> usize { 0 } fn from_ordinal(n: usize) -> Option<Self> { if n == 0 { Some(Ph(std::marker::PhantomData)) } else { None } } }
pub trait Tr { type X; } impl Tr for u8 { type X = u16; }
'''
    for k, (v, t) in gens.items():
        for ed in ('2021',) if tier == 'quick' else ('2018', '2021', '2024'):
            add('generic.%s.%s' % (k, ed), gpre + '#[derive(Ordinal)] ' + v, t, edition=ed)
    # scopes: everything around is shadowed
    scopes = {
        'std': 'pub mod std {}', 'core': 'pub mod core {}', 'ordinal_map': 'pub mod ordinal_map {}', 'alloc': 'pub mod alloc {}',
        'Option': 'pub enum Option {}', 'Some': 'pub struct Some;', 'None': 'pub struct None;', 'SomeFn': '#[allow(non_snake_case)] pub fn Some() {}',
        'NoneConst': 'pub const None: u8 = 1;', 'Ok': 'pub struct Ok; pub struct Err;', 'Result': 'pub struct Result;', 'Ordinal': 'pub trait Ordinal {}', 'OrdinalStruct': 'pub struct Ordinal;',
        'usize': '#[allow(non_camel_case_types)] pub struct usize;', 'u64': '#[allow(non_camel_case_types)] pub type u64 = char;',
        'unwrap_trait': 'pub trait Ext { fn unwrap(self) -> u8; fn ordinal(&self) -> u8 { 9 } fn from_ordinal(n: u8) -> u8 { n } const ORDINAL_SIZE: u8 = 1; } impl<X> Ext for X { fn unwrap(self) -> u8 { 0 } }',
        'const_rem': '#[allow(non_upper_case_globals)] pub const rem: u8 = 1;', 'const_ordinal': '#[allow(non_upper_case_globals)] pub const ordinal: u8 = 1;',
        'const_f0': '#[allow(non_upper_case_globals)] pub const f0: u8 = 1; #[allow(non_upper_case_globals)] pub const f1: u8 = 1;',
        'const_check': '#[allow(non_upper_case_globals)] pub const _check_overflow: u8 = 1; #[allow(non_upper_case_globals)] pub const _ignore: u8 = 1;',
        'static_x': '#[allow(non_upper_case_globals)] pub static x: u8 = 1; #[allow(non_upper_case_globals)] pub static y: u8 = 1;',
        'unit_x': '#[allow(non_camel_case_types)] pub struct x; #[allow(non_camel_case_types)] pub struct y();',
        'fn_rem': 'pub fn rem() {} pub fn ordinal() {} pub fn from_ordinal() {} pub fn f0() {}',
        'const_size': 'pub const ORDINAL_SIZE: u8 = 1;', 'macros': 'macro_rules! assert { () => {} } macro_rules! panic { () => {} } macro_rules! unreachable { () => {} }',
        'variants': 'pub enum Col { x, y, rem, ordinal } pub use self::Col::*;', 'drop': 'pub fn drop() {} pub struct Self_; pub struct Sized; pub struct Copy;',
        'ops': 'pub trait Add {} pub trait Rem {} pub trait Div {} pub trait Mul {}',
        'no_prelude': '', 'primitive_mod': '#[allow(non_snake_case)] pub mod option { pub enum Option {} } pub mod primitive {}',
    }
    shapes = {
        'tuple': 'pub struct S(pub By, pub Bo);', 'named': 'pub struct S { pub x: By, pub y: Bo }', 'enum': 'pub enum S { A(By, Bo), B { x: By, y: Bo }, C }',
        'clike': 'pub enum S { One, Two, Three }', 'unit': 'pub struct S;', 'empty': 'pub enum S {}',
    }
    for k, v in scopes.items():
        for sk, s in shapes.items():
            attr = '#![no_implicit_prelude]\n' if k == 'no_prelude' else ''
            code = 'mod types { pub type By = u8; pub type Bo = bool; }\nmod m {\n%s    use super::types::{Bo, By};\n    %s\n    #[derive(::ordinal_map::Ordinal)]\n    %s\n}\ntype S1 = m::S;' % (attr, v, s)
            add('scope.%s.%s' % (k, sk), code, 'S1', why='derive with `%s` in scope' % (v or 'no prelude'))
            if tier != 'quick' or sk in ('named', 'enum'):
                inside = 'mod types { pub type By = u8; pub type Bo = bool; }\nfn f() {\n    use types::{Bo, By};\n    %s\n    #[derive(::ordinal_map::Ordinal)]\n    %s\n    let _k: fn(&S) -> ::core::primitive::usize = |v| <S as ::ordinal_map::Ordinal>::ordinal(v);\n}\nfn main() { f() }' % (v.replace('pub use self::', 'use '), s)
                if k not in ('no_prelude', 'macros'):
                    add('block.%s.%s' % (k, sk), inside, main=False, why='derive inside a function with `%s` in scope' % v)
    # inherent items of the type itself
    for k, v in {'methods': 'impl S { pub fn ordinal(&self) -> &str { "" } pub fn from_ordinal(s: &str) -> &str { s } }',
                 'consts': 'impl S { pub const ORDINAL_SIZE: &\'static str = ""; }',
                 'deref': 'impl std::ops::Deref for S { type Target = String; fn deref(&self) -> &String { loop {} } }'}.items():
        for sk, s in shapes.items():
            if sk != 'empty':
                add('inherent.%s.%s' % (k, sk), 'type By = u8; type Bo = bool;\n' + D + s + '\n' + v, 'S')
    # declarative macros
    macs = {
        'whole': 'macro_rules! mk { ($n:ident) => { D pub struct $n { a: u8, b: bool } } } mk!(S);',
        'whole_enum': 'macro_rules! mk { ($n:ident) => { D pub enum $n { A { a: u8, b: bool }, B(u8, bool), C } } } mk!(S);',
        'tuple': 'macro_rules! mk { ($n:ident) => { D pub struct $n(u8, bool); } } mk!(S);',
        'fields': 'macro_rules! mk { ($n:ident { $($f:ident : $t:ty),* }) => { D pub struct $n { $($f: $t),* } } } mk!(S { a: u8, rem: bool, ordinal: u8 });',
        'variants': 'macro_rules! mk { ($n:ident { $($f:ident),* }) => { D pub enum $n { $($f),* } } } mk!(S { A, B, C });',
        'data_variants': 'macro_rules! mk { ($n:ident { $($v:ident { $($f:ident : $t:ty),* }),* }) => { D pub enum $n { $($v { $($f: $t),* }),* } } } mk!(S { A { x: u8, y: bool }, B { ordinal: bool }, C {} });',
        'tuple_variants': 'macro_rules! mk { ($n:ident { $($v:ident($($t:ty),*)),* }) => { D pub enum $n { $($v($($t),*)),* } } } mk!(S { A(u8, bool), B(bool), C() });',
        'types_only': 'macro_rules! mk { ($($t:ty),*) => { D pub struct S($($t),*); D pub enum E { X($($t),*), Y { a: bool } } } } mk!(u8, bool, (u8, bool));',
        'mixed_fields': 'macro_rules! mk { ($f:ident) => { D pub struct S { $f: u8, own: bool } } } mk!(other);',
        'mixed_same_name': 'macro_rules! mk { ($f:ident) => { D pub struct S { $f: u8, b: bool } } } mk!(a);',
        'mixed_variants': 'macro_rules! mk { ($v:ident) => { D pub enum S { $v, Own { x: u8 }, Own2(bool) } } } mk!(A);',
        'field_in_variant': 'macro_rules! mk { ($v:ident, $f:ident) => { D pub enum S { $v { $f: u8, own: bool }, Own2 { own: u8, $f: bool } } } } mk!(A, x);',
        'vis': 'macro_rules! mk { ($v:vis $n:ident) => { D $v struct $n { $v a: u8 } } } mk!(pub(crate) S);',
        'meta': 'macro_rules! mk { ($(#[$m:meta])* $n:ident) => { $(#[$m])* pub struct $n { a: u8 } } } mk!(#[derive(ordinal_map::Ordinal)] S);',
        'item': 'macro_rules! mk { ($i:item) => { D $i } } mk!(pub struct S { a: u8, b: bool });',
        'item_enum': 'macro_rules! mk { ($i:item) => { D $i } } mk!(pub enum S { A { a: u8 }, B(bool, u8), C });',
        'tt': 'macro_rules! mk { ($($t:tt)*) => { D pub $($t)* } } mk!(enum S { A { a: u8, rem: bool }, B(bool, u8), C });',
        'nested': 'macro_rules! outer { ($n:ident) => { macro_rules! inner { ($f:ident) => { D pub struct $n { $f: u8, z: bool } } } inner!(q); } } outer!(S);',
        'chained': 'macro_rules! one { ($n:ident, $f:ident) => { two!($n, $f, g); } } macro_rules! two { ($n:ident, $f:ident, $g:ident) => { D pub enum $n { V { $f: u8, $g: bool }, W($crate::By) } } } type By = u8; one!(S, f);',
        'generic': 'macro_rules! mk { ($n:ident, $t:ident) => { D pub struct $n<$t: ordinal_map::Ordinal> { a: $t, b: Option<$t> } } } mk!(S0, X); type S = S0<bool>;',
        'lifetime': 'macro_rules! mk { ($l:lifetime) => { D pub struct S0<$l>(P<$l>, u8); } } pub struct P<\'a>(std::marker::PhantomData<&\'a ()>); impl<\'a> ordinal_map::Ordinal for P<\'a> { const ORDINAL_SIZE: usize = 1; fn ordinal(&self) -> usize { 0 } fn from_ordinal(_: usize) -> Option<Self> { None } } mk!(\'q); type S = S0<\'static>;',
        'const_expr': 'macro_rules! mk { ($e:expr) => { D pub struct S([bool; $e], u8); } } mk!(1 + 2);',
        'const_generic': 'macro_rules! mk { ($n:ident) => { D pub struct S0<const $n: usize>([bool; $n]); } } mk!(N); type S = S0<3>;',
        'path': 'macro_rules! mk { ($p:path) => { D pub struct S { a: $p } } } mk!(std::primitive::u8);',
        'type_tt': 'macro_rules! mk { ($t:tt) => { D pub struct S { a: $t, b: $t } } } mk!(u8);',
        'repeat': 'macro_rules! mk { ($($n:ident)*) => { $( D pub enum $n { A, B($n::Inner0) } )* } } D pub struct Inner1; pub type Z = Inner1; macro_rules! mk2 { ($($n:ident)*) => { $( D pub enum $n { A, B(Z) } )* } } mk2!(S S2 S3);',
        'local': 'macro_rules! mk { () => { fn inner() -> usize { D enum L { A { rem: bool }, B(u8) } ordinal_map::Ordinal::ordinal(&L::B(3)) + ordinal_map::Ordinal::ordinal(&L::A { rem: true }) } } } mk!(); D pub struct S; pub fn k() -> usize { inner() }',
        'expr_local': 'macro_rules! mk { ($x:expr) => {{ D struct L { ordinal: bool, x: u8 } ordinal_map::Ordinal::ordinal(&L { ordinal: $x, x: 1 }) }} } D pub struct S; pub fn k() -> usize { let ordinal = true; mk!(ordinal) }',
        'discriminant': 'macro_rules! mk { ($($v:ident = $e:expr),*) => { D #[repr(u8)] pub enum S { $($v = $e),* } } } mk!(A = 1, B = 1 + 3);',
        'enum_fields_mixed_ctx': 'macro_rules! mk { ($a:ident) => { D pub enum S { V { $a: u8, a: bool, b: u8 } } } } mk!(c);',
        'where_clause': 'macro_rules! mk { ($t:ident : $($b:path),*) => { D pub struct S0<$t>($t) where $($t: $b),*; } } mk!(Q : ordinal_map::Ordinal, Copy); type S = S0<u8>;',
        'self_in_macro': 'macro_rules! mk { ($(#[$m:meta])* $v:vis enum $n:ident { $($t:tt)* }) => { $(#[$m])* $v enum $n { $($t)* } impl $n { pub fn get(&self) -> usize { ordinal_map::Ordinal::ordinal(self) } } } } mk!(#[derive(ordinal_map::Ordinal)] pub enum S { A(u8), B { q: bool } });',
    }
    for k, v in macs.items():
        if k == 'repeat':
            v = v[v.index('D pub struct Inner1'):]
        for ed in ('2021',) if tier == 'quick' else ('2018', '2021', '2024'):
            add('macro.%s.%s' % (k, ed), v.replace('D ', D), 'S', edition=ed)
    # visibility and place
    add('private_in_public', 'mod m { ' + D + 'pub(super) struct S { pub(super) a: Pv } ' + D + 'pub(super) enum Pv { A, B } } type T = m::S;')
    add('private', 'mod m { ' + D + 'enum S { A, B(u8) } pub fn k() -> usize { ordinal_map::Ordinal::ordinal(&S::B(3)) } } fn main() { ::std::hint::black_box(m::k as fn() -> usize); }', main=False)
    add('in_fn', 'fn k() -> usize { ' + D + 'struct S { a: u8, ordinal: bool } let ordinal = 3; ordinal_map::Ordinal::ordinal(&S { a: ordinal, ordinal: true }) } fn main() { ::std::hint::black_box(k as fn() -> usize); }', main=False)
    add('in_const_block', 'const K: () = { ' + D + 'pub enum S { A, B { rem: u8 } } }; fn main() { K }', main=False)
    add('in_generic_fn', 'fn k<ordinal>() -> usize { ' + D + 'struct S { a: u8 } ordinal_map::Ordinal::ordinal(&S { a: 1 }) } fn main() { ::std::hint::black_box(k::<u8> as fn() -> usize); }', main=False)
    add('in_impl_fn', 'struct Q; impl Q { fn k() -> usize { ' + D + 'enum S { A, B(u8, bool) } ordinal_map::Ordinal::ordinal(&S::A) } } fn main() { ::std::hint::black_box(Q::k as fn() -> usize); }', main=False)
    return out
