@@ top
// Assumed contracts on core/alloc functions vstd has no specification for.
pub mod vxstd {
use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;

pub assume_specification<T, const N: usize, F, U> [<[T; N]>::map] (a: [T; N], f: F) -> (r: [U; N])
    where
        F: std::ops::FnMut(T,) -> U + std::marker::Destruct,
        T: std::marker::Destruct,
        U: std::marker::Destruct,
    requires forall|i: int| 0 <= i < N ==> #[trigger] f.requires((a@[i],)),
    ensures forall|i: int| 0 <= i < N ==> f.ensures((a@[i],), #[trigger] r@[i]);

pub assume_specification<T, const N: usize, F> [std::array::from_fn] (f: F) -> (r: [T; N])
    where
        F: std::ops::FnMut(usize) -> T,
    requires forall|i: usize| 0 <= i < N ==> #[trigger] f.requires((i,)),
    ensures forall|i: int| 0 <= i < N ==> f.ensures((i as usize,), #[trigger] r@[i]);

#[verifier::reject_recursive_types(T)]
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExArrayIntoIter<T, const N: usize>(std::array::IntoIter<T, N>);

/// `r` is the result of folding `f` over `s` from `init`
pub open spec fn folds<T, Acc, Fold: FnMut(Acc, T) -> Acc>(s: Seq<T>, init: Acc, f: Fold, r: Acc) -> bool {
    exists|t: Seq<Acc>| t.len() == s.len() + 1 && t[0] == init && #[trigger] t[s.len() as int] == r && forall|i: int| 0 <= i < s.len() ==> f.ensures((#[trigger] t[i], s[i]), t[i + 1])
}
pub assume_specification<T> [<[T]>::to_vec] (s: &[T]) -> (r: Vec<T>)
    where T: Clone
    ensures r@.len() == s@.len(), forall|i: int| 0 <= i < s@.len() ==> call_ensures(T::clone, (&#[trigger] s@[i],), r@[i]);
}
@@ top
pub mod vxstd2 {
use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;

pub assume_specification [i32::wrapping_pow] (x: i32, e: u32) -> (r: i32)
    ensures i32::MIN <= vstd::arithmetic::power::pow(x as int, e as nat) <= i32::MAX ==> r == vstd::arithmetic::power::pow(x as int, e as nat);

pub assume_specification [i16::wrapping_neg] (x: i16) -> (r: i16)
    ensures r == (if x == i16::MIN { i16::MIN as int } else { -(x as int) });

pub assume_specification [i16::trailing_zeros] (x: i16) -> (r: u32)
    ensures r == vstd::std_specs::bits::u16_trailing_zeros(x as u16);

pub assume_specification [String::with_capacity] (n: usize) -> (r: String)
    ensures r@ == Seq::<char>::empty();

#[verifier::external_trait_specification]
pub trait ExAsRef<T: core::marker::PointeeSized>: core::marker::PointeeSized {
    type ExternalTraitSpecificationFor: AsRef<T> + core::marker::PointeeSized;
    fn as_ref(&self) -> &T;
}
#[verifier::external_trait_specification]
pub trait ExFromStr: Sized {
    type ExternalTraitSpecificationFor: std::str::FromStr;
    type Err;
    fn from_str(s: &str) -> Result<Self, Self::Err>;
}
pub assume_specification<F: std::str::FromStr> [str::parse] (s: &str) -> (r: Result<F, <F as std::str::FromStr>::Err>)
    ensures call_ensures(<F as std::str::FromStr>::from_str, (s,), r);

/// identity, verified; wraps closures passed to generic iterators so that the verifier knows their type
pub fn vx_closure<A, B, F: FnMut(A) -> B>(f: F) -> (r: F)
    ensures r == f,
{ f }

/// char::to_string
pub broadcast axiom fn axiom_char_to_string(c: char, r: String)
    ensures #[trigger] vstd::string::to_string_from_display_ensures::<char>(&c, r) <==> r@ == seq![c];

/// Iterator methods without a vstd specification (the extraction renames `.fold(` to `.vx_fold(` and so on)
pub trait VxIter: Iterator + Sized {
    #[verifier::external_body]
    fn vx_fold<Acc, F: FnMut(Acc, Self::Item) -> Acc>(self, init: Acc, f: F) -> (r: Acc)
        ensures self.obeys_prophetic_iter_laws() ==> self.will_return_none() && crate::vxstd::folds(self.remaining(), init, f, r),
    { unimplemented!() }
    #[verifier::external_body]
    fn vx_count(self) -> (r: usize)
        ensures self.obeys_prophetic_iter_laws() ==> self.will_return_none() && r == self.remaining().len(),
    { unimplemented!() }
    #[verifier::external_body]
    fn vx_size_hint(&self) -> (r: (usize, Option<usize>))
        ensures
            r == size_hint_of(*self),
            self.obeys_prophetic_iter_laws() ==> hinted(self.remaining().len(), self.will_return_none(), r),
    { unimplemented!() }
}
/// the texts std's split_whitespace yields
pub uninterp spec fn pieces(s: Seq<char>) -> Seq<Seq<char>>;
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExSplitWhitespace<'a>(core::str::SplitWhitespace<'a>);
pub assume_specification<'a> [str::split_whitespace] (s: &'a str) -> (r: core::str::SplitWhitespace<'a>)
    ensures
        r.obeys_prophetic_iter_laws(), r.remaining().len() <= pieces(s@).len(), r.will_return_none() ==> r.remaining().len() == pieces(s@).len(),
        forall|i: int| 0 <= i < r.remaining().len() ==> (#[trigger] r.remaining()[i])@ == pieces(s@)[i];
pub assume_specification [<str as AsRef<str>>::as_ref] (s: &str) -> (r: &str)
    ensures r == s;
pub assume_specification [<String as AsRef<str>>::as_ref] (s: &String) -> (r: &str)
    ensures r@ == s@;
pub assume_specification<'a, 'b, T: core::marker::PointeeSized + AsRef<U>, U: core::marker::PointeeSized> [<&'a T as AsRef<U>>::as_ref] (s: &'b &'a T) -> (r: &'b U)
    ensures call_ensures(<T as AsRef<U>>::as_ref, (*s,), r);
/// Iterator::copied, Iterator::chain (vx_copied, vx_chain) of iterators that end
pub trait VxIter2: Iterator + Sized {
    #[verifier::external_body]
    fn vx_copied<'a, T: Copy + 'a>(self) -> (r: crate::vxdeps::more::Fixed<T>) where Self: Iterator<Item = &'a T>
        requires self.obeys_prophetic_iter_laws(), self.decrease() is Some,
        ensures self.will_return_none(), r.items() == self.remaining().map_values(|x: &'a T| *x),
    { unimplemented!() }
    #[verifier::external_body]
    fn vx_chain<U: Iterator<Item = Self::Item>>(self, other: U) -> (r: crate::vxdeps::more::Fixed<Self::Item>)
        requires self.obeys_prophetic_iter_laws(), self.decrease() is Some, other.obeys_prophetic_iter_laws(), other.decrease() is Some,
        ensures self.will_return_none(), other.will_return_none(), r.items() == self.remaining() + other.remaining(),
    { unimplemented!() }
}
impl<I: Iterator> VxIter2 for I {}
/// impl FromIterator<A> for Box<[A]>
pub broadcast axiom fn axiom_collect_box<A>(s: Seq<A>, b: Box<[A]>)
    ensures #[trigger] vstd::std_specs::iter::FromIteratorSpec::from_iter_ensures(s, b) ==> (*b)@ == s;
/// iteration over an array by value
pub trait VxArr: Sized {
    type T;
    spec fn elems(&self) -> Seq<Self::T>;
    fn vx_into_iter(self) -> (r: crate::vxdeps::more::Fixed<Self::T>)
        ensures r.items() == self.elems();
}
impl<A, const N: usize> VxArr for [A; N] {
    type T = A;
    open spec fn elems(&self) -> Seq<A> { self@ }
    #[verifier::external_body]
    fn vx_into_iter(self) -> (r: crate::vxdeps::more::Fixed<A>) { unimplemented!() }
}
pub fn arr<A, const N: usize>(a: [A; N]) -> (r: crate::vxdeps::more::Fixed<A>)
    ensures r.items() == a@,
{ a.vx_into_iter() }
/// bounds on the number of items still to come (the lower one holds for an iterator that is run to its end)
pub open spec fn hinted(left: nat, all: bool, h: (usize, Option<usize>)) -> bool {
    (all ==> h.0 <= left) && (h.1 is Some ==> left <= h.1->0)
}
/// collecting results: all the values in order, or the first error
pub open spec fn collected<A, E, C: FromIterator<A>>(s: Seq<Result<A, E>>, r: Result<C, E>) -> bool {
    match r {
        Ok(c) => (forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) is Ok) && vstd::std_specs::iter::FromIteratorSpec::from_iter_ensures(Seq::new(s.len(), |i: int| s[i]->Ok_0), c),
        Err(e) => exists|k: int| 0 <= k < s.len() && #[trigger] s[k] == Err::<A, E>(e) && forall|i: int| 0 <= i < k ==> (#[trigger] s[i]) is Ok,
    }
}
/// impl FromIterator<Result<A, E>> for Result<C, E>, as std documents it
pub broadcast axiom fn axiom_collect_results<A, E, C: FromIterator<A>>(s: Seq<Result<A, E>>, r: Result<C, E>)
    ensures #[trigger] vstd::std_specs::iter::FromIteratorSpec::from_iter_ensures(s, r) ==> collected(s, r);
pub uninterp spec fn size_hint_of<I>(i: I) -> (usize, Option<usize>);
impl<I: Iterator> VxIter for I {}
}

