@@ top
// Assumed contracts on more of std: not used by the code as committed, they keep edits of it within the verifier's reach.
pub mod vxstd3 {
use vstd::prelude::*;
use core::cmp::Ordering;
use vstd::std_specs::iter::IteratorSpec;
use vstd::std_specs::cmp::{OrdSpec, PartialEqSpec};

pub assume_specification<T: Ord + core::marker::Destruct> [core::cmp::max] (a: T, b: T) -> (r: T)
    ensures call_ensures(<T as Ord>::max, (a, b), r);
pub assume_specification<T: Ord + core::marker::Destruct> [core::cmp::min] (a: T, b: T) -> (r: T)
    ensures call_ensures(<T as Ord>::min, (a, b), r);
pub assume_specification<T> [core::mem::replace] (d: &mut T, s: T) -> (r: T)
    ensures *final(d) == s, r == *old(d);
pub assume_specification<T: core::default::Default> [core::mem::take] (d: &mut T) -> (r: T)
    ensures r == *old(d), call_ensures(<T as Default>::default, (), *final(d));

pub assume_specification<T: PartialEq> [<[T]>::contains] (s: &[T], x: &T) -> (r: bool)
    ensures T::obeys_eq_spec() ==> r == exists|i: int| 0 <= i < s@.len() && #[trigger] s@[i].eq_spec(x);
pub assume_specification<T> [<[T]>::swap] (s: &mut [T], a: usize, b: usize)
    requires a < old(s)@.len(), b < old(s)@.len(),
    ensures final(s)@ == old(s)@.update(a as int, old(s)@[b as int]).update(b as int, old(s)@[a as int]);
pub assume_specification<T> [<[T]>::reverse] (s: &mut [T])
    ensures final(s)@ == old(s)@.reverse();
pub open spec fn in_order<T: Ord>(s: Seq<T>) -> bool {
    T::obeys_cmp_spec() ==> forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).cmp_spec(#[trigger] &s[j]) != Ordering::Greater
}
pub assume_specification<T, A: core::alloc::Allocator, I: IntoIterator<Item = T>> [<Vec<T, A> as Extend<T>>::extend] (v: &mut Vec<T, A>, i: I)
    ensures exists|it: I::IntoIter| #[trigger] call_ensures(<I as IntoIterator>::into_iter, (i,), it)
        && (it.obeys_prophetic_iter_laws() ==> it.will_return_none() && final(v)@ == old(v)@ + it.remaining());
pub assume_specification<T: Ord> [<[T]>::sort] (s: &mut [T])
    ensures final(s)@.len() == old(s)@.len(), final(s)@.to_multiset() == old(s)@.to_multiset(), in_order(final(s)@);
pub assume_specification<T: Ord> [<[T]>::sort_unstable] (s: &mut [T])
    ensures final(s)@.len() == old(s)@.len(), final(s)@.to_multiset() == old(s)@.to_multiset(), in_order(final(s)@);
pub assume_specification<T, F: FnMut(&T, &T) -> Ordering> [<[T]>::sort_by] (s: &mut [T], f: F)
    ensures final(s)@.len() == old(s)@.len(), final(s)@.to_multiset() == old(s)@.to_multiset();
pub assume_specification<T, F: FnMut(&T, &T) -> Ordering> [<[T]>::sort_unstable_by] (s: &mut [T], f: F)
    ensures final(s)@.len() == old(s)@.len(), final(s)@.to_multiset() == old(s)@.to_multiset();
pub assume_specification<T, K: Ord, F: FnMut(&T) -> K> [<[T]>::sort_by_key] (s: &mut [T], f: F)
    ensures final(s)@.len() == old(s)@.len(), final(s)@.to_multiset() == old(s)@.to_multiset();
pub assume_specification<T, K: Ord, F: FnMut(&T) -> K> [<[T]>::sort_unstable_by_key] (s: &mut [T], f: F)
    ensures final(s)@.len() == old(s)@.len(), final(s)@.to_multiset() == old(s)@.to_multiset();
pub assume_specification<T> [<[T]>::split_last] (s: &[T]) -> (r: Option<(&T, &[T])>)
    ensures
        s@.len() == 0 ==> r is None,
        s@.len() > 0 ==> r is Some && *(r->0).0 == s@.last() && (r->0).1@ == s@.drop_last();
pub assume_specification<T, A: core::alloc::Allocator> [Vec::<T, A>::into_boxed_slice] (v: Vec<T, A>) -> (r: Box<[T], A>)
    ensures (*r)@ == v@;

pub assume_specification<T, U: core::marker::Destruct, F: FnOnce(T) -> U + core::marker::Destruct> [Option::<T>::map_or] (o: Option<T>, d: U, f: F) -> (r: U)
    requires o is Some ==> f.requires((o->0,)),
    ensures o is Some ==> f.ensures((o->0,), r), o is None ==> r == d;
pub assume_specification<T, U, D: FnOnce() -> U + core::marker::Destruct, F: FnOnce(T) -> U + core::marker::Destruct> [Option::<T>::map_or_else] (o: Option<T>, d: D, f: F) -> (r: U)
    requires o is Some ==> f.requires((o->0,)), o is None ==> d.requires(()),
    ensures o is Some ==> f.ensures((o->0,), r), o is None ==> d.ensures((), r);
pub assume_specification<T: core::marker::Destruct> [Option::<T>::or] (o: Option<T>, d: Option<T>) -> (r: Option<T>)
    ensures r == (if o is Some { o } else { d });
pub assume_specification<T, F: FnOnce() -> Option<T> + core::marker::Destruct> [Option::<T>::or_else] (o: Option<T>, f: F) -> (r: Option<T>)
    where T: core::marker::Destruct
    requires o is None ==> f.requires(()),
    ensures o is Some ==> r == o, o is None ==> f.ensures((), r);
pub assume_specification<T: core::marker::Destruct, P: FnOnce(&T) -> bool + core::marker::Destruct> [Option::<T>::filter] (o: Option<T>, p: P) -> (r: Option<T>)
    requires o is Some ==> p.requires((&o->0,)),
    ensures o is None ==> r is None, o is Some ==> (r == o && p.ensures((&o->0,), true)) || (r is None && p.ensures((&o->0,), false));
pub assume_specification<T> [Option::<T>::replace] (o: &mut Option<T>, v: T) -> (r: Option<T>)
    ensures r == *old(o), *final(o) == Some(v);
pub assume_specification<T: core::marker::Destruct, U: core::marker::Destruct> [Option::<T>::zip] (o: Option<T>, p: Option<U>) -> (r: Option<(T, U)>)
    ensures r == (if o is Some && p is Some { Some((o->0, p->0)) } else { None });
pub assume_specification<'a, T: Copy> [Option::<&'a T>::copied] (o: Option<&'a T>) -> (r: Option<T>)
    ensures r == (if o is Some { Some(*o->0) } else { None });
pub assume_specification<T: core::marker::Destruct> [Option::<T>::xor] (o: Option<T>, p: Option<T>) -> (r: Option<T>)
    ensures r == (if o is Some && p is None { o } else if o is None && p is Some { p } else { None });
pub assume_specification<T, F: FnOnce(T) -> bool + core::marker::Destruct> [Option::<T>::is_some_and] (o: Option<T>, f: F) -> (r: bool)
    requires o is Some ==> f.requires((o->0,)),
    ensures o is None ==> !r, o is Some ==> f.ensures((o->0,), r);
pub assume_specification<T, E, U, F: FnOnce(T) -> Result<U, E> + core::marker::Destruct> [Result::<T, E>::and_then] (o: Result<T, E>, f: F) -> (r: Result<U, E>)
    requires o is Ok ==> f.requires((o->Ok_0,)),
    ensures o is Ok ==> f.ensures((o->Ok_0,), r), o is Err ==> r == Err::<U, E>(o->Err_0);
pub assume_specification<T: core::marker::Destruct, E: core::marker::Destruct> [Result::<T, E>::unwrap_or] (o: Result<T, E>, d: T) -> (r: T)
    ensures r == (if o is Ok { o->Ok_0 } else { d });

pub assume_specification [Ordering::reverse] (o: Ordering) -> (r: Ordering)
    ensures r == (match o { Ordering::Less => Ordering::Greater, Ordering::Equal => Ordering::Equal, Ordering::Greater => Ordering::Less });
pub assume_specification [Ordering::then] (o: Ordering, p: Ordering) -> (r: Ordering)
    ensures r == (if o == Ordering::Equal { p } else { o });
pub assume_specification<F: FnOnce() -> Ordering + core::marker::Destruct> [Ordering::then_with] (o: Ordering, f: F) -> (r: Ordering)
    requires o == Ordering::Equal ==> f.requires(()),
    ensures o == Ordering::Equal ==> f.ensures((), r), o != Ordering::Equal ==> r == o;
pub assume_specification [Ordering::is_lt] (o: Ordering) -> (r: bool) ensures r == (o == Ordering::Less);
pub assume_specification [Ordering::is_le] (o: Ordering) -> (r: bool) ensures r == (o != Ordering::Greater);
pub assume_specification [Ordering::is_gt] (o: Ordering) -> (r: bool) ensures r == (o == Ordering::Greater);
pub assume_specification [Ordering::is_ge] (o: Ordering) -> (r: bool) ensures r == (o != Ordering::Less);
pub assume_specification [Ordering::is_eq] (o: Ordering) -> (r: bool) ensures r == (o == Ordering::Equal);
pub assume_specification [Ordering::is_ne] (o: Ordering) -> (r: bool) ensures r == (o != Ordering::Equal);
pub assume_specification<T: core::marker::Destruct> [bool::then_some] (b: bool, v: T) -> (r: Option<T>)
    ensures r == (if b { Some(v) } else { None });

/// the number of ones in the binary representation
pub open spec fn ones(n: nat) -> nat
    decreases n
{ if n == 0 { 0 } else { n % 2 + ones(n / 2) } }
pub assume_specification [u8::count_ones] (x: u8) -> (r: u32) ensures r == ones(x as nat);
pub assume_specification [u16::count_ones] (x: u16) -> (r: u32) ensures r == ones(x as nat);
pub assume_specification [u32::count_ones] (x: u32) -> (r: u32) ensures r == ones(x as nat);
pub assume_specification [u64::count_ones] (x: u64) -> (r: u32) ensures r == ones(x as nat);
pub assume_specification [i16::count_ones] (x: i16) -> (r: u32) ensures r == ones(x as u16 as nat);
pub assume_specification [i32::count_ones] (x: i32) -> (r: u32) ensures r == ones(x as u32 as nat);
pub assume_specification [i64::count_ones] (x: i64) -> (r: u32) ensures r == ones(x as u64 as nat);
pub assume_specification [i32::trailing_zeros] (x: i32) -> (r: u32) ensures r == vstd::std_specs::bits::u32_trailing_zeros(x as u32);
pub assume_specification [i64::trailing_zeros] (x: i64) -> (r: u32) ensures r == vstd::std_specs::bits::u64_trailing_zeros(x as u64);
pub assume_specification [i16::leading_zeros] (x: i16) -> (r: u32) ensures r == vstd::std_specs::bits::u16_leading_zeros(x as u16);
pub assume_specification [i32::leading_zeros] (x: i32) -> (r: u32) ensures r == vstd::std_specs::bits::u32_leading_zeros(x as u32);
pub assume_specification [u16::is_power_of_two] (x: u16) -> (r: bool) ensures r == (x != 0 && x & (x - 1) as u16 == 0);
pub assume_specification [u32::is_power_of_two] (x: u32) -> (r: bool) ensures r == (x != 0 && x & (x - 1) as u32 == 0);
pub assume_specification [i32::pow] (x: i32, e: u32) -> (r: i32)
    requires i32::MIN <= vstd::arithmetic::power::pow(x as int, e as nat) <= i32::MAX
    ensures r == vstd::arithmetic::power::pow(x as int, e as nat);
pub assume_specification [u32::pow] (x: u32, e: u32) -> (r: u32)
    requires vstd::arithmetic::power::pow(x as int, e as nat) <= u32::MAX
    ensures r == vstd::arithmetic::power::pow(x as int, e as nat);
pub assume_specification [usize::pow] (x: usize, e: u32) -> (r: usize)
    requires vstd::arithmetic::power::pow(x as int, e as nat) <= usize::MAX
    ensures r == vstd::arithmetic::power::pow(x as int, e as nat);
pub assume_specification [i32::abs_diff] (x: i32, y: i32) -> (r: u32) ensures r == (if x < y { y - x } else { x - y });
pub assume_specification [i16::abs_diff] (x: i16, y: i16) -> (r: u16) ensures r == (if x < y { y - x } else { x - y });
pub assume_specification [usize::abs_diff] (x: usize, y: usize) -> (r: usize) ensures r == (if x < y { y - x } else { x - y });
pub assume_specification [i32::abs] (x: i32) -> (r: i32) requires x != i32::MIN ensures r == (if x < 0 { -x } else { x as int });
pub assume_specification [i16::abs] (x: i16) -> (r: i16) requires x != i16::MIN ensures r == (if x < 0 { -x } else { x as int });

pub assume_specification [char::to_ascii_uppercase] (c: &char) -> (r: char)
    ensures r == (if 'a' <= *c && *c <= 'z' { (*c as u8 - 32) as u8 as char } else { *c });
pub assume_specification [char::to_ascii_lowercase] (c: &char) -> (r: char)
    ensures r == (if 'A' <= *c && *c <= 'Z' { (*c as u8 + 32) as u8 as char } else { *c });
pub assume_specification [char::is_ascii_digit] (c: &char) -> (r: bool) ensures r == ('0' <= *c && *c <= '9');
pub assume_specification [char::is_ascii_lowercase] (c: &char) -> (r: bool) ensures r == ('a' <= *c && *c <= 'z');
pub assume_specification [char::is_ascii_uppercase] (c: &char) -> (r: bool) ensures r == ('A' <= *c && *c <= 'Z');
pub assume_specification [char::is_ascii_alphabetic] (c: &char) -> (r: bool) ensures r == ('a' <= *c && *c <= 'z' || 'A' <= *c && *c <= 'Z');
pub uninterp spec fn alphabetic(c: char) -> bool;
pub assume_specification [char::is_alphabetic] (c: char) -> (r: bool) ensures r == alphabetic(c);
pub uninterp spec fn alphanumeric(c: char) -> bool;
pub assume_specification [char::is_alphanumeric] (c: char) -> (r: bool) ensures r == alphanumeric(c);
pub uninterp spec fn same_ascii(c: char, d: char) -> bool;
pub assume_specification [char::eq_ignore_ascii_case] (c: &char, d: &char) -> (r: bool) ensures r == same_ascii(*c, *d);
pub assume_specification [char::to_digit] (c: char, radix: u32) -> (r: Option<u32>)
    requires 2 <= radix <= 36
    ensures radix <= 10 ==> r == (if '0' <= c && (c as u32) < ('0' as u32) + radix { Some((c as u32 - '0' as u32) as u32) } else { None });
pub assume_specification [char::from_digit] (n: u32, radix: u32) -> (r: Option<char>)
    requires radix <= 36
    ensures n >= radix ==> r is None, n < radix && n < 10 ==> r == Some((('0' as u8) + n) as u8 as char);
pub uninterp spec fn trimmed(s: Seq<char>) -> Seq<char>;
pub assume_specification [str::trim] (s: &str) -> (r: &str) ensures r@ == trimmed(s@), r@.len() <= s@.len();
pub uninterp spec fn trimmed_start(s: Seq<char>) -> Seq<char>;
pub assume_specification [str::trim_start] (s: &str) -> (r: &str) ensures r@ == trimmed_start(s@), r@.len() <= s@.len();
pub uninterp spec fn trimmed_end(s: Seq<char>) -> Seq<char>;
pub assume_specification [str::trim_end] (s: &str) -> (r: &str) ensures r@ == trimmed_end(s@), r@.len() <= s@.len();
/// more Iterator methods, for iterators that end (the extraction renames `.enumerate()` to `.vx_enumerate()` and so on)
pub trait VxIter3: Iterator + Sized {
    #[verifier::external_body]
    fn vx_enumerate(self) -> (r: crate::vxdeps::more::Fixed<(usize, Self::Item)>)
        requires self.obeys_prophetic_iter_laws(), self.decrease() is Some,
        ensures
            self.will_return_none(), r.items().len() == self.remaining().len(), self.remaining().len() <= usize::MAX,
            forall|i: int| 0 <= i < r.items().len() ==> #[trigger] r.items()[i] == (i as usize, self.remaining()[i]),
    { unimplemented!() }
    #[verifier::external_body]
    fn vx_position<P: FnMut(Self::Item) -> bool>(&mut self, p: P) -> (r: Option<usize>)
        requires
            old(self).obeys_prophetic_iter_laws(), old(self).decrease() is Some,
            forall|i: int| 0 <= i < old(self).remaining().len() ==> #[trigger] p.requires((old(self).remaining()[i],)),
        ensures
            match r {
                Some(k) => k < old(self).remaining().len() && p.ensures((old(self).remaining()[k as int],), true)
                    && forall|j: int| 0 <= j < k ==> p.ensures((#[trigger] old(self).remaining()[j],), false),
                None => forall|j: int| 0 <= j < old(self).remaining().len() ==> p.ensures((#[trigger] old(self).remaining()[j],), false),
            },
    { unimplemented!() }
    #[verifier::external_body]
    fn vx_max(self) -> (r: Option<Self::Item>) where Self::Item: Ord
        requires self.obeys_prophetic_iter_laws(), self.decrease() is Some,
        ensures
            self.will_return_none(), r is None <==> self.remaining().len() == 0,
            r is Some ==> self.remaining().contains(r->0) && (<Self::Item as OrdSpec>::obeys_cmp_spec() ==>
                forall|i: int| 0 <= i < self.remaining().len() ==> (#[trigger] self.remaining()[i]).cmp_spec(&r->0) != Ordering::Greater),
    { unimplemented!() }
    #[verifier::external_body]
    fn vx_min(self) -> (r: Option<Self::Item>) where Self::Item: Ord
        requires self.obeys_prophetic_iter_laws(), self.decrease() is Some,
        ensures
            self.will_return_none(), r is None <==> self.remaining().len() == 0,
            r is Some ==> self.remaining().contains(r->0) && (<Self::Item as OrdSpec>::obeys_cmp_spec() ==>
                forall|i: int| 0 <= i < self.remaining().len() ==> (#[trigger] self.remaining()[i]).cmp_spec(&r->0) != Ordering::Less),
    { unimplemented!() }
    #[verifier::external_body]
    fn vx_nth(&mut self, n: usize) -> (r: Option<Self::Item>)
        ensures
            old(self).obeys_prophetic_iter_laws() ==> match r {
                Some(x) => n < old(self).remaining().len() && x == old(self).remaining()[n as int]
                    && (*final(self)).remaining() == old(self).remaining().skip(n as int + 1)
                    && (*final(self)).obeys_prophetic_iter_laws() && (*final(self)).will_return_none() == old(self).will_return_none(),
                None => old(self).remaining().len() <= n && old(self).will_return_none(),
            },
    { unimplemented!() }
    #[verifier::external_body]
    fn vx_step_by(self, n: usize) -> (r: crate::vxdeps::more::Fixed<Self::Item>)
        requires n > 0, self.obeys_prophetic_iter_laws(), self.decrease() is Some,
        ensures
            self.will_return_none(),
            r.items().len() == (self.remaining().len() + n - 1) / (n as int),
            forall|i: int| 0 <= i < r.items().len() ==> #[trigger] r.items()[i] == self.remaining()[i * n],
    { unimplemented!() }
    #[verifier::external_body]
    fn vx_cloned<'a, T: Clone + 'a>(self) -> (r: crate::vxdeps::more::Fixed<T>) where Self: Iterator<Item = &'a T>
        requires self.obeys_prophetic_iter_laws(), self.decrease() is Some,
        ensures
            self.will_return_none(), r.items().len() == self.remaining().len(),
            forall|i: int| 0 <= i < r.items().len() ==> call_ensures(T::clone, (self.remaining()[i],), #[trigger] r.items()[i]),
    { unimplemented!() }
    #[verifier::external_body]
    fn vx_max_by_key<K: Ord, F: FnMut(&Self::Item) -> K>(self, f: F) -> (r: Option<Self::Item>)
        requires self.obeys_prophetic_iter_laws(), self.decrease() is Some, forall|i: int| 0 <= i < self.remaining().len() ==> #[trigger] f.requires((&self.remaining()[i],)),
        ensures
            self.will_return_none(), r is None <==> self.remaining().len() == 0,
            r is Some ==> exists|k: Seq<K>, m: int| k.len() == self.remaining().len() && 0 <= m < k.len() && r->0 == self.remaining()[m] && f.ensures((&self.remaining()[m],), #[trigger] k[m])
                && (forall|i: int| 0 <= i < k.len() ==> f.ensures((&self.remaining()[i],), #[trigger] k[i]))
                && (<K as OrdSpec>::obeys_cmp_spec() ==> forall|i: int| 0 <= i < k.len() ==> (#[trigger] k[i]).cmp_spec(&k[m]) != Ordering::Greater),
    { unimplemented!() }
    #[verifier::external_body]
    fn vx_min_by_key<K: Ord, F: FnMut(&Self::Item) -> K>(self, f: F) -> (r: Option<Self::Item>)
        requires self.obeys_prophetic_iter_laws(), self.decrease() is Some, forall|i: int| 0 <= i < self.remaining().len() ==> #[trigger] f.requires((&self.remaining()[i],)),
        ensures
            self.will_return_none(), r is None <==> self.remaining().len() == 0,
            r is Some ==> exists|k: Seq<K>, m: int| k.len() == self.remaining().len() && 0 <= m < k.len() && r->0 == self.remaining()[m] && f.ensures((&self.remaining()[m],), #[trigger] k[m])
                && (forall|i: int| 0 <= i < k.len() ==> f.ensures((&self.remaining()[i],), #[trigger] k[i]))
                && (<K as OrdSpec>::obeys_cmp_spec() ==> forall|i: int| 0 <= i < k.len() ==> (#[trigger] k[i]).cmp_spec(&k[m]) != Ordering::Less),
    { unimplemented!() }
    #[verifier::external_body]
    fn vx_reduce<F: FnMut(Self::Item, Self::Item) -> Self::Item>(self, f: F) -> (r: Option<Self::Item>)
        requires self.obeys_prophetic_iter_laws(), self.decrease() is Some,
        ensures
            self.will_return_none(), r is None <==> self.remaining().len() == 0,
            r is Some ==> crate::vxstd::folds(self.remaining().skip(1), self.remaining()[0], f, r->0),
    { unimplemented!() }
}
impl<I: Iterator> VxIter3 for I {}
/// Option::copied, cloned, filter, under the names the extraction gives the iterator methods
pub trait VxOptRef<'a, T: 'a>: Sized {
    spec fn opt(self) -> Option<&'a T>;
    fn vx_copied(self) -> (r: Option<T>) where T: Copy
        ensures r == (if self.opt() is Some { Some(*self.opt()->0) } else { None });
    fn vx_cloned(self) -> (r: Option<T>) where T: Clone
        ensures self.opt() is None <==> r is None, r is Some ==> call_ensures(T::clone, (self.opt()->0,), r->0);
}
impl<'a, T: 'a> VxOptRef<'a, T> for Option<&'a T> {
    open spec fn opt(self) -> Option<&'a T> { self }
    fn vx_copied(self) -> (r: Option<T>) where T: Copy { match self { Some(x) => Some(*x), None => None } }
    fn vx_cloned(self) -> (r: Option<T>) where T: Clone { match self { Some(x) => Some(x.clone()), None => None } }
}
pub trait VxOpt<T>: Sized {
    spec fn opt(self) -> Option<T>;
    fn vx_filter<P: FnOnce(&T) -> bool>(self, p: P) -> (r: Option<T>)
        requires self.opt() is Some ==> p.requires((&self.opt()->0,)),
        ensures self.opt() is None ==> r is None, self.opt() is Some ==> (r == self.opt() && p.ensures((&self.opt()->0,), true)) || (r is None && p.ensures((&self.opt()->0,), false));
}
impl<T> VxOpt<T> for Option<T> {
    open spec fn opt(self) -> Option<T> { self }
    fn vx_filter<P: FnOnce(&T) -> bool>(self, p: P) -> (r: Option<T>) { match self { Some(x) => if p(&x) { Some(x) } else { None }, None => None } }
}
/// [T]::windows
pub trait VxSlice<T> {
    spec fn items(&self) -> Seq<T>;
    fn vx_windows(&self, n: usize) -> (r: crate::vxdeps::more::Fixed<&[T]>)
        requires n > 0,
        ensures
            r.items().len() == (if self.items().len() < n { 0 } else { self.items().len() - n + 1 }),
            forall|i: int| 0 <= i < r.items().len() ==> (#[trigger] r.items()[i])@ == self.items().subrange(i, i + n);
}
impl<T> VxSlice<T> for [T] {
    open spec fn items(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_windows(&self, n: usize) -> (r: crate::vxdeps::more::Fixed<&[T]>) { unimplemented!() }
}
}
