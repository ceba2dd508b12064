@@ top
// The verifier orders the functions of trait impls before vstd's own impls of its specification traits, so what vstd
// says of a range taken backwards or of the order of i16 is not yet known there. A proof function that needs such an impl
// moves it to the front; each function of a trait impl calls `ready`.
pub mod vxready {
use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpecImpl;
use vstd::std_specs::cmp::{PartialEqSpecImpl, PartialOrdSpecImpl, OrdSpecImpl};
pub proof fn it<I: IteratorSpecImpl>() {}
pub proof fn eq<T: PartialEqSpecImpl>() {}
pub proof fn po<T: PartialOrdSpecImpl>() {}
pub proof fn or<T: OrdSpecImpl>() {}
pub proof fn ready() {
    it::<core::ops::Range<usize>>();
    it::<core::ops::Range<i32>>();
    it::<core::ops::Range<i16>>();
    it::<core::iter::Rev<core::ops::Range<usize>>>();
    it::<core::iter::Rev<core::ops::Range<i32>>>();
    it::<core::ops::RangeInclusive<usize>>();
    it::<core::slice::Iter<'static, u8>>();
    it::<core::iter::Rev<core::slice::Iter<'static, u8>>>();
    it::<core::slice::IterMut<'static, u8>>();
    it::<std::vec::IntoIter<u8>>();
    it::<core::iter::Zip<core::ops::Range<usize>, core::ops::Range<usize>>>();
    it::<core::str::Chars<'static>>();
    it::<core::iter::Skip<core::ops::Range<usize>>>();
    it::<core::iter::Take<core::ops::Range<usize>>>();
    eq::<bool>(); eq::<u8>(); eq::<u16>(); eq::<u32>(); eq::<u64>(); eq::<usize>(); eq::<i8>(); eq::<i16>(); eq::<i32>(); eq::<i64>(); eq::<isize>();
    eq::<Option<u8>>(); eq::<&'static u8>(); eq::<(u8, u8)>(); eq::<Vec<u8>>();
    po::<u8>(); po::<u16>(); po::<u32>(); po::<u64>(); po::<usize>(); po::<i8>(); po::<i16>(); po::<i32>(); po::<i64>(); po::<isize>();
    po::<Option<u8>>(); po::<&'static u8>(); po::<(u8, u8)>();
    or::<u8>(); or::<u16>(); or::<u32>(); or::<u64>(); or::<usize>(); or::<i8>(); or::<i16>(); or::<i32>(); or::<i64>(); or::<isize>();
    or::<Option<u8>>(); or::<&'static u8>(); or::<(u8, u8)>();
}
}
