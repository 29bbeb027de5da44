use std::cmp::Ordering;
use std::convert::Infallible;
use std::num::*;
use ordinal_map::Ordinal;
use crate::rt::*;
use crate::{assume, check};

use crate::laws::*;

macro_rules! scalar {
    ($m:ident, $t:ty) => {
        pub mod $m {
            use super::*;
            pub fn omv_number() { from_number::<$t>() }
            pub fn omv_value() { from_value::<$t>() }
        }
    };
}
scalar!(t_bool, bool);
scalar!(t_char, char);
scalar!(t_u8, u8);
scalar!(t_i8, i8);
scalar!(t_u16, u16);
scalar!(t_i16, i16);
scalar!(t_u32, u32);
scalar!(t_i32, i32);
scalar!(t_nz_u8, NonZeroU8);
scalar!(t_nz_i8, NonZeroI8);
scalar!(t_nz_u16, NonZeroU16);
scalar!(t_nz_i16, NonZeroI16);
scalar!(t_nz_u32, NonZeroU32);
scalar!(t_nz_i32, NonZeroI32);
scalar!(t_nz_u64, NonZeroU64);
scalar!(t_nz_i64, NonZeroI64);
scalar!(t_nz_usize, NonZeroUsize);
scalar!(t_nz_isize, NonZeroIsize);
scalar!(t_ordering, Ordering);
scalar!(t_infallible, Infallible);
