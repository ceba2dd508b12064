@@ head
#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_assignments, unused_parens, unused_braces, non_shorthand_field_patterns, non_upper_case_globals, unreachable_code, macro_expanded_macro_exports_accessed_by_absolute_paths)]
#![feature(sized_hierarchy, allocator_api, const_destruct)]
#![verifier::allow(undeclared_external_trait)]
#![verifier::allow(autoderive_clone_without_spec)]
#[allow(unused_imports)]
use vstd::prelude::*;
@@ top
// Assumed contracts on the crate's dependencies and on the parts of std that vstd does not specify.
// Everything in this module is trusted; nothing in it is code of the crate under verification.
pub mod vxdeps {
use vstd::prelude::*;

// ---- aborting macros: reaching one is an unmet obligation
#[verifier::external_body]
pub fn rt_panic() -> !
    requires false,
    opens_invariants none
    no_unwind
{ panic!() }

pub const fn rt_assert(b: bool)
    requires b,
{ }

/// whether the crate is built with debug assertions: anyone's guess, so both are verified
#[verifier::external_body]
pub const fn rt_debug() -> bool { cfg!(debug_assertions) }

// ---- map[&key]
pub trait MapIndex<V> {
    spec fn map_view(&self) -> IMap<i32, V>;
    fn vx_index(&self, k: &i32) -> (r: &V)
        requires self.map_view().dom().contains(*k),
        ensures *r == self.map_view()[*k];
}

// ---- core::fmt
pub mod fmt {
    use vstd::prelude::*;
    #[derive(Clone, Copy)]
    pub struct Error;
    pub type Result = core::result::Result<(), Error>;

    #[verifier::external_body]
    pub struct FormatterImp<'a> { x: &'a () }
    pub type Formatter<'a> = FormatterImp<'a>;

    impl<'a> FormatterImp<'a> {
        /// characters written so far
        pub uninterp spec fn out(&self) -> Seq<char>;
        /// the underlying writer never fails (String, Vec<u8>, stdout that stays open ...)
        pub uninterp spec fn healthy(&self) -> bool;

        #[verifier::external_body]
        pub fn write_str(&mut self, s: &str) -> (r: Result)
            ensures
                r is Ok ==> final(self).out() == old(self).out() + s@,
                old(self).healthy() ==> r is Ok && final(self).healthy(),
        { unimplemented!() }
        #[verifier::external_body]
        pub fn write_char(&mut self, c: char) -> (r: Result)
            ensures
                r is Ok ==> final(self).out() == old(self).out() + seq![c],
                old(self).healthy() ==> r is Ok && final(self).healthy(),
        { unimplemented!() }
    }
    pub trait Write {}

    pub trait Display {
        spec fn text(&self) -> Seq<char>;
        /// the text is a function of the value
        open spec fn det(&self) -> bool { true }
        fn fmt(&self, f: &mut Formatter<'_>) -> (r: Result)
            ensures
                r is Ok && self.det() ==> final(f).out() =~= old(f).out() + self.text(),
                old(f).healthy() ==> r is Ok && final(f).healthy();
    }
    impl<T: Display + ?Sized> Display for &T {
        open spec fn text(&self) -> Seq<char> { (**self).text() }
        open spec fn det(&self) -> bool { (**self).det() }
        fn fmt(&self, f: &mut Formatter<'_>) -> (r: Result) { (**self).fmt(f) }
    }
    impl Display for str {
        open spec fn text(&self) -> Seq<char> { self@ }
        fn fmt(&self, f: &mut Formatter<'_>) -> (r: Result) { f.write_str(self) }
    }
    impl Display for String {
        open spec fn text(&self) -> Seq<char> { self@ }
        fn fmt(&self, f: &mut Formatter<'_>) -> (r: Result) { f.write_str(self.as_str()) }
    }
    impl Display for char {
        open spec fn text(&self) -> Seq<char> { seq![*self] }
        fn fmt(&self, f: &mut Formatter<'_>) -> (r: Result) { f.write_char(*self) }
    }
    pub open spec fn digit(d: nat) -> char {
        if d == 0 { '0' } else if d == 1 { '1' } else if d == 2 { '2' } else if d == 3 { '3' } else if d == 4 { '4' }
        else if d == 5 { '5' } else if d == 6 { '6' } else if d == 7 { '7' } else if d == 8 { '8' } else { '9' }
    }
    pub open spec fn decimal(n: nat) -> Seq<char>
        decreases n
    { if n < 10 { seq![digit(n)] } else { decimal(n / 10).push(digit(n % 10)) } }
    impl Display for usize {
        open spec fn text(&self) -> Seq<char> { decimal(*self as nat) }
        #[verifier::external_body]
        fn fmt(&self, f: &mut Formatter<'_>) -> (r: Result) { unimplemented!() }
    }

    // write!(f, "l0{}l1{}...", a0, a1, ...) == the pieces and the Display text of the arguments, in order
    pub fn write0(f: &mut Formatter<'_>, l0: &str) -> (r: Result)
        ensures
            r is Ok ==> final(f).out() == old(f).out() + l0@,
            old(f).healthy() ==> r is Ok && final(f).healthy(),
    { f.write_str(l0) }
    pub fn write1<A: Display + ?Sized>(f: &mut Formatter<'_>, l0: &str, a0: &A, l1: &str) -> (r: Result)
        ensures
            r is Ok && a0.det() ==> final(f).out() == old(f).out() + l0@ + a0.text() + l1@,
            old(f).healthy() ==> r is Ok && final(f).healthy(),
    { f.write_str(l0)?; a0.fmt(f)?; f.write_str(l1) }
    pub fn write2<A: Display + ?Sized, B: Display + ?Sized>(f: &mut Formatter<'_>, l0: &str, a0: &A, l1: &str, a1: &B, l2: &str) -> (r: Result)
        ensures
            r is Ok && a0.det() && a1.det() ==> final(f).out() == old(f).out() + l0@ + a0.text() + l1@ + a1.text() + l2@,
            old(f).healthy() ==> r is Ok && final(f).healthy(),
    { f.write_str(l0)?; a0.fmt(f)?; f.write_str(l1)?; a1.fmt(f)?; f.write_str(l2) }
    pub fn write3<A: Display + ?Sized, B: Display + ?Sized, C: Display + ?Sized>(f: &mut Formatter<'_>, l0: &str, a0: &A, l1: &str, a1: &B, l2: &str, a2: &C, l3: &str) -> (r: Result)
        ensures
            r is Ok && a0.det() && a1.det() && a2.det() ==> final(f).out() == old(f).out() + l0@ + a0.text() + l1@ + a1.text() + l2@ + a2.text() + l3@,
            old(f).healthy() ==> r is Ok && final(f).healthy(),
    { f.write_str(l0)?; a0.fmt(f)?; f.write_str(l1)?; a1.fmt(f)?; f.write_str(l2)?; a2.fmt(f)?; f.write_str(l3) }
}

// ---- core::hash
pub mod hash {
    use vstd::prelude::*;
    pub trait Hasher {
        spec fn fed(&self) -> Seq<int>;
    }
    pub trait Hash {
        /// what the value feeds to a hasher
        spec fn feed(&self) -> Seq<int>;
        fn hash<H: Hasher>(&self, state: &mut H)
            ensures final(state).fed() == old(state).fed() + self.feed();
    }
    impl Hash for i16 {
        open spec fn feed(&self) -> Seq<int> { seq![*self as int] }
        #[verifier::external_body]
        fn hash<H: Hasher>(&self, state: &mut H) { unimplemented!() }
    }
    impl Hash for i32 {
        open spec fn feed(&self) -> Seq<int> { seq![*self as int] }
        #[verifier::external_body]
        fn hash<H: Hasher>(&self, state: &mut H) { unimplemented!() }
    }
    impl Hash for u8 {
        open spec fn feed(&self) -> Seq<int> { seq![*self as int] }
        #[verifier::external_body]
        fn hash<H: Hasher>(&self, state: &mut H) { unimplemented!() }
    }
    impl Hash for u16 {
        open spec fn feed(&self) -> Seq<int> { seq![*self as int] }
        #[verifier::external_body]
        fn hash<H: Hasher>(&self, state: &mut H) { unimplemented!() }
    }
    impl Hash for u32 {
        open spec fn feed(&self) -> Seq<int> { seq![*self as int] }
        #[verifier::external_body]
        fn hash<H: Hasher>(&self, state: &mut H) { unimplemented!() }
    }
    impl Hash for u64 {
        open spec fn feed(&self) -> Seq<int> { seq![*self as int] }
        #[verifier::external_body]
        fn hash<H: Hasher>(&self, state: &mut H) { unimplemented!() }
    }
    impl Hash for i64 {
        open spec fn feed(&self) -> Seq<int> { seq![*self as int] }
        #[verifier::external_body]
        fn hash<H: Hasher>(&self, state: &mut H) { unimplemented!() }
    }
    impl Hash for usize {
        open spec fn feed(&self) -> Seq<int> { seq![*self as int] }
        #[verifier::external_body]
        fn hash<H: Hasher>(&self, state: &mut H) { unimplemented!() }
    }
    impl Hash for bool {
        open spec fn feed(&self) -> Seq<int> { seq![if *self { 1int } else { 0int }] }
        #[verifier::external_body]
        fn hash<H: Hasher>(&self, state: &mut H) { unimplemented!() }
    }
}


// ---- itertools
pub mod itertools {
    use vstd::prelude::*;
    use vstd::std_specs::iter::IteratorSpec;
    #[verifier::external_body]
    #[verifier::reject_recursive_types(I)]
    #[verifier::reject_recursive_types(J)]
    pub struct Product<I: Iterator, J: Iterator> { x: std::marker::PhantomData<(I, J)> }
    impl<I: Iterator, J: Iterator> Product<I, J> {
        pub uninterp spec fn items(&self) -> Seq<(I::Item, J::Item)>;
    }
    impl<I: Iterator, J: Iterator> vstd::std_specs::iter::IteratorSpecImpl for Product<I, J> {
        open spec fn obeys_prophetic_iter_laws(&self) -> bool { true }
        open spec fn remaining(&self) -> Seq<(I::Item, J::Item)> { self.items() }
        open spec fn will_return_none(&self) -> bool { true }
        open spec fn decrease(&self) -> Option<nat> { Some(self.items().len()) }
        open spec fn peek(&self, index: int) -> Option<(I::Item, J::Item)> { if 0 <= index < self.items().len() { Some(self.items()[index]) } else { None } }
    }
    impl<I: Iterator, J: Iterator> Iterator for Product<I, J> {
        type Item = (I::Item, J::Item);
        #[verifier::external_body]
        fn next(&mut self) -> (r: Option<(I::Item, J::Item)>) { unimplemented!() }
    }
    pub open spec fn product_seq<A, B>(a: Seq<A>, b: Seq<B>) -> Seq<(A, B)> {
        Seq::new(a.len() * b.len(), |k: int| (a[k / b.len() as int], b[k % b.len() as int]))
    }
    pub trait Itertools: Iterator + Sized {
        #[verifier::external_body]
        fn cartesian_product<J: Eager>(self, other: J) -> (r: Product<Self, J>)
            ensures
                r.items() == product_seq(self.remaining(), other.remaining()),
        { unimplemented!() }
    }
    /// iterators whose `remaining` is everything they hold (not only what will be taken from them)
    pub trait Eager: Iterator {}
    impl<'a, T> Eager for core::slice::Iter<'a, T> {}
    impl<'a, T> Itertools for core::slice::Iter<'a, T> {}

    /// the hash map made by `counts`, and its iteration in an order nobody knows
    #[verifier::external_body]
    #[verifier::reject_recursive_types(K)]
    pub struct Counts<K> { x: std::marker::PhantomData<K> }
    impl<K> Counts<K> { pub uninterp spec fn of(&self) -> Seq<K>; }
    #[verifier::external_body]
    #[verifier::reject_recursive_types(K)]
    pub struct CountsIter<K> { x: std::marker::PhantomData<K> }
    impl<K> CountsIter<K> { pub uninterp spec fn items(&self) -> Seq<(K, usize)>; }
    /// each distinct element of `src` once, with the number of times it occurs
    pub open spec fn counted<K>(items: Seq<(K, usize)>, src: Seq<K>) -> bool {
        (forall|i: int, j: int| 0 <= i < j < items.len() ==> (#[trigger] items[i]).0 != (#[trigger] items[j]).0)
        && (forall|i: int| 0 <= i < items.len() ==> (#[trigger] items[i]).1 >= 1 && items[i].1 == src.to_multiset().count(items[i].0))
        && (forall|k: K| #[trigger] src.contains(k) ==> exists|i: int| 0 <= i < items.len() && (#[trigger] items[i]).0 == k)
    }
    impl<K> IntoIterator for Counts<K> {
        type Item = (K, usize);
        type IntoIter = CountsIter<K>;
        #[verifier::external_body]
        fn into_iter(self) -> (r: CountsIter<K>)
            ensures counted(r.items(), self.of()),
        { unimplemented!() }
    }
    impl<K> vstd::std_specs::iter::IteratorSpecImpl for CountsIter<K> {
        open spec fn obeys_prophetic_iter_laws(&self) -> bool { true }
        open spec fn remaining(&self) -> Seq<(K, usize)> { self.items() }
        open spec fn will_return_none(&self) -> bool { true }
        open spec fn decrease(&self) -> Option<nat> { Some(self.items().len()) }
        open spec fn peek(&self, index: int) -> Option<(K, usize)> { if 0 <= index < self.items().len() { Some(self.items()[index]) } else { None } }
    }
    impl<K> Iterator for CountsIter<K> {
        type Item = (K, usize);
        #[verifier::external_body]
        fn next(&mut self) -> (r: Option<(K, usize)>) { unimplemented!() }
    }
    pub trait ItertoolsCounts: Iterator + Sized {
        #[verifier::external_body]
        fn counts(self) -> (r: Counts<Self::Item>)
            ensures self.obeys_prophetic_iter_laws() ==> self.will_return_none() && r.of() == self.remaining(),
        { unimplemented!() }
    }
    impl<'a, T> ItertoolsCounts for core::slice::Iter<'a, T> where T: Eq {}
}

// ---- Iterator::filter_map and [String]::join (the extraction renames the methods to vx_filter_map, vx_join)
pub mod more {
    use vstd::prelude::*;
    use vstd::std_specs::iter::IteratorSpec;
    #[verifier::external_body]
    #[verifier::reject_recursive_types(B)]
    pub struct Fixed<B> { x: std::marker::PhantomData<B> }
    impl<B> Fixed<B> { pub uninterp spec fn items(&self) -> Seq<B>; }
    impl<B> vstd::std_specs::iter::IteratorSpecImpl for Fixed<B> {
        open spec fn obeys_prophetic_iter_laws(&self) -> bool { true }
        open spec fn remaining(&self) -> Seq<B> { self.items() }
        open spec fn will_return_none(&self) -> bool { true }
        open spec fn decrease(&self) -> Option<nat> { Some(self.items().len()) }
        open spec fn peek(&self, index: int) -> Option<B> { if 0 <= index < self.items().len() { Some(self.items()[index]) } else { None } }
    }
    impl<B> Iterator for Fixed<B> {
        type Item = B;
        #[verifier::external_body]
        fn next(&mut self) -> (r: Option<B>) { unimplemented!() }
    }
    /// the Some values, in order
    pub open spec fn somes<B>(o: Seq<Option<B>>) -> Seq<B>
        decreases o.len()
    {
        if o.len() == 0 { seq![] } else {
            match o.last() { Some(b) => somes(o.drop_last()).push(b), None => somes(o.drop_last()) }
        }
    }
    pub trait FilterMapExt: Iterator + Sized {
        #[verifier::external_body]
        fn vx_filter_map<B, F: FnMut(Self::Item) -> Option<B>>(self, f: F) -> (r: Fixed<B>)
            requires
                self.obeys_prophetic_iter_laws(), self.will_return_none(),
                forall|i: int| 0 <= i < self.remaining().len() ==> #[trigger] f.requires((self.remaining()[i],)),
            ensures
                exists|o: Seq<Option<B>>| o.len() == self.remaining().len() && r.items() == #[trigger] somes(o)
                    && forall|i: int| 0 <= i < o.len() ==> f.ensures((self.remaining()[i],), #[trigger] o[i]),
        { unimplemented!() }
    }
    impl<I: Iterator> FilterMapExt for I {}
    pub trait FilterExt: Iterator + Sized {
        #[verifier::external_body]
        fn vx_filter<P: FnMut(&Self::Item) -> bool>(self, p: P) -> (r: Fixed<Self::Item>)
            requires
                self.obeys_prophetic_iter_laws(), self.decrease() is Some,
                forall|i: int| 0 <= i < self.remaining().len() ==> #[trigger] p.requires((&self.remaining()[i],)),
            ensures
                self.will_return_none(),
                exists|keep: spec_fn(int) -> bool| r.items() == #[trigger] self.remaining().filter_index(keep)
                    && forall|i: int| 0 <= i < self.remaining().len() ==> p.ensures((&self.remaining()[i],), #[trigger] keep(i)),
        { unimplemented!() }
    }
    impl<I: Iterator> FilterExt for I {}
    pub open spec fn joined(v: Seq<Seq<char>>, sep: Seq<char>) -> Seq<char>
        decreases v.len()
    {
        if v.len() == 0 { seq![] } else if v.len() == 1 { v[0] } else { joined(v.drop_last(), sep) + sep + v.last() }
    }
    pub trait JoinExt {
        spec fn parts(&self) -> Seq<Seq<char>>;
        fn vx_join(&self, sep: &str) -> (r: String)
            ensures r@ == joined(self.parts(), sep@);
    }
    impl JoinExt for Vec<String> {
        open spec fn parts(&self) -> Seq<Seq<char>> { Seq::new(self@.len(), |i: int| self@[i]@) }
        #[verifier::external_body]
        fn vx_join(&self, sep: &str) -> (r: String) { unimplemented!() }
    }
}

// ---- rand
pub mod rand {
    use vstd::prelude::*;
    /// all that a generator's later numbers depend on
    #[verifier::external_body]
    pub struct State { x: () }
    pub uninterp spec fn state<R: ?Sized>(r: &R) -> State;
    /// the number gen_range(0..n) takes from a generator in state `s`, and the state it leaves it in
    pub uninterp spec fn pick<A>(s: State, n: A) -> A;
    pub uninterp spec fn after<A>(s: State, n: A) -> State;
    pub trait SampleRange<A> {
        spec fn below(&self) -> Option<A>;
        spec fn has(&self, x: A) -> bool;
        spec fn empty(&self) -> bool;
    }
    impl SampleRange<u32> for core::ops::Range<u32> {
        open spec fn below(&self) -> Option<u32> { if self.start == 0 { Some(self.end) } else { None } }
        open spec fn has(&self, x: u32) -> bool { self.start <= x < self.end }
        open spec fn empty(&self) -> bool { self.start >= self.end }
    }
    impl SampleRange<usize> for core::ops::Range<usize> {
        open spec fn below(&self) -> Option<usize> { if self.start == 0 { Some(self.end) } else { None } }
        open spec fn has(&self, x: usize) -> bool { self.start <= x < self.end }
        open spec fn empty(&self) -> bool { self.start >= self.end }
    }
    pub trait Rng {
        /// rand 0.8: within the range, and nothing but the generator's state decides
        #[verifier::external_body]
        fn gen_range<A, B: SampleRange<A>>(&mut self, range: B) -> (r: A)
            requires !range.empty(),
            ensures
                range.has(r),
                range.below() is Some ==> r == pick(state(old(self)), range.below()->0) && state(final(self)) == after(state(old(self)), range.below()->0),
        { unimplemented!() }
    }
    #[verifier::external_body]
    pub struct ThreadRng { x: () }
    impl Rng for ThreadRng {}
    #[verifier::external_body]
    pub fn thread_rng() -> ThreadRng { unimplemented!() }

    /// rand's gen_index
    pub open spec fn index(s: State, n: int) -> int { if n <= u32::MAX { pick(s, n as u32) as int } else { pick(s, n as usize) as int } }
    pub open spec fn index_after(s: State, n: int) -> State { if n <= u32::MAX { after(s, n as u32) } else { after(s, n as usize) } }
    pub open spec fn swapped<T>(s: Seq<T>, a: int, b: int) -> Seq<T> { s.update(a, s[b]).update(b, s[a]) }
    /// the places n - 1 down to 1 drawn in turn from the ones not drawn yet
    pub open spec fn drawn<T>(s: Seq<T>, g: State, n: int) -> Seq<T>
        decreases n,
    { if n <= 1 { s } else { drawn(swapped(s, n - 1, index(g, n)), index_after(g, n), n - 1) } }
    pub open spec fn drawn_state(g: State, n: int) -> State
        decreases n,
    { if n <= 1 { g } else { drawn_state(index_after(g, n), n - 1) } }
    /// what a shuffle makes of a slice: a function of the slice and of the generator's state
    pub open spec fn shuffled_seq<T, R: ?Sized>(s: Seq<T>, g: &R) -> Seq<T> { drawn(s, state(g), s.len() as int) }
    pub proof fn lemma_swap_multiset<T>(s: Seq<T>, a: int, b: int)
        requires 0 <= a < s.len(), 0 <= b < s.len(),
        ensures swapped(s, a, b).to_multiset() =~= s.to_multiset(), swapped(s, a, b).len() == s.len(),
    {
        broadcast use vstd::seq_lib::group_to_multiset_ensures;
        vstd::seq_lib::to_multiset_update(s, a, s[b]);
        let t = s.update(a, s[b]);
        vstd::seq_lib::to_multiset_update(t, b, s[a]);
        assert(s.contains(s[a]) && s.contains(s[b]));
        assert(t.contains(t[b]));
    }
    pub mod seq { pub use super::prelude::SliceRandom; }
    pub mod rngs { pub use super::ThreadRng; }
    pub mod prelude {
        use vstd::prelude::*;
        pub use super::{Rng, ThreadRng, thread_rng};
        /// rand's trait of the same name, as far as it is used; the implementation for slices is rand's own text (05_shuffle.vc)
        pub trait SliceRandom {
            type Item;
            spec fn items(&self) -> Seq<Self::Item>;
            fn shuffle<R>(&mut self, rng: &mut R) where R: super::Rng + ?Sized
                ensures
                    final(self).items().to_multiset() == old(self).items().to_multiset(),
                    final(self).items() == super::shuffled_seq(old(self).items(), &*old(rng)),
                    super::state(final(rng)) == super::drawn_state(super::state(old(rng)), old(self).items().len() as int);
        }
        /// a vector is dereferenced to its slice
        impl<T> SliceRandom for Vec<T> {
            type Item = T;
            open spec fn items(&self) -> Seq<T> { self@ }
            fn shuffle<R>(&mut self, rng: &mut R) where R: super::Rng + ?Sized { self.as_mut_slice().shuffle(rng) }
        }
    }
}

// ---- rustc_hash: a hash map with a deterministic hasher
pub mod rustc_hash {
    use vstd::prelude::*;
    pub struct FxBuildHasher;
    #[verifier::external_body]
    #[verifier::reject_recursive_types(K)]
    #[verifier::accept_recursive_types(V)]
    pub struct FxHashMap<K, V> { x: std::marker::PhantomData<(K, V)> }
    impl<K, V> View for FxHashMap<K, V> {
        type V = IMap<K, V>;
        uninterp spec fn view(&self) -> IMap<K, V>;
    }
    impl<V> FxHashMap<i32, V> {
        #[verifier::external_body]
        pub fn with_capacity_and_hasher(cap: usize, h: FxBuildHasher) -> (r: Self)
            ensures r@ == IMap::<i32, V>::empty(),
        { unimplemented!() }
        #[verifier::external_body]
        pub fn insert(&mut self, k: i32, v: V) -> (r: Option<V>)
            ensures final(self)@ == old(self)@.insert(k, v),
        { unimplemented!() }
    }
    impl<V> Default for FxHashMap<i32, V> {
        #[verifier::external_body]
        fn default() -> (r: Self)
            ensures r@ == IMap::<i32, V>::empty(),
        { unimplemented!() }
    }
    impl<V: Copy> Clone for FxHashMap<i32, V> {
        #[verifier::external_body]
        fn clone(&self) -> (r: Self)
            ensures r@ == self@,
        { unimplemented!() }
    }
    impl<V: PartialEq> vstd::std_specs::cmp::PartialEqSpecImpl for FxHashMap<i32, V> {
        open spec fn obeys_eq_spec() -> bool { <V as vstd::std_specs::cmp::PartialEqSpec>::obeys_eq_spec() }
        open spec fn eq_spec(&self, other: &Self) -> bool {
            self@.dom() =~= other@.dom() && forall|k: i32| #[trigger] self@.dom().contains(k) ==> vstd::std_specs::cmp::PartialEqSpec::eq_spec(&self@[k], &other@[k])
        }
    }
    impl<V: PartialEq> PartialEq for FxHashMap<i32, V> {
        #[verifier::external_body]
        fn eq(&self, other: &Self) -> (r: bool) { unimplemented!() }
    }
    impl<V: Eq> Eq for FxHashMap<i32, V> {}
    impl<V> super::MapIndex<V> for FxHashMap<i32, V> {
        open spec fn map_view(&self) -> IMap<i32, V> { self@ }
        #[verifier::external_body]
        fn vx_index(&self, k: &i32) -> (r: &V) { unimplemented!() }
    }
}
}
@@ drop trait Error
@@ drop trait Debug
