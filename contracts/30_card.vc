@@ const constants::PRIMES
@open
@@ const card::rank::Rank::ALL_VARIANTS
    ensures Self::ALL_VARIANTS@ == seq![Rank::Two, Rank::Three, Rank::Four, Rank::Five, Rank::Six, Rank::Seven, Rank::Eight, Rank::Nine, Rank::Ten, Rank::Jack, Rank::Queen, Rank::King, Rank::Ace],
@@ const card::suit::Suit::ALL_VARIANTS
    ensures Self::ALL_VARIANTS@.len() == 4, Self::ALL_VARIANTS@ == seq![Suit::Clubs, Suit::Hearts, Suit::Spades, Suit::Diamonds],
@@ fn card::rank::Rank::as_char
@ret r
@spec
    ensures r == rank_char(self),
@@ fn card::rank::Rank::as_i32
@ret r
@spec
    ensures r == rn(self),
@@ fn card::rank::Rank::from_i32
@ret r
@spec
    ensures 0 <= val <= 12 ==> r == rank_at(val as int),
@@ fn card::rank::Rank::as_str_name
@ret r
@spec
    ensures r@ == rank_word(self),
@@ fn card::rank::Rank::as_str_name_plural
@ret r
@spec
    ensures r@ == rank_words(self),
@@ mod card::rank
impl vstd::std_specs::convert::TryFromSpecImpl<char> for Rank {
    open spec fn obeys_try_from_spec() -> bool { true }
    open spec fn try_from_spec(v: char) -> Result<Self, char> { match char_rank(v) { Some(r) => Ok(r), None => Err(v) } }
}
@@ fn card::rank::<Rank as TryFrom>::try_from
@@ impl card::rank::<Rank as Display>
    open spec fn text(&self) -> Seq<char> { seq![rank_char(*self)] }
@@ fn card::rank::<Rank as Display>::fmt

@@ fn card::suit::Suit::as_char
@ret r
@spec
    ensures r == suit_char(self),
@@ fn card::suit::Suit::as_pretty_char
@ret r
@spec
    ensures r == suit_symbol(self),
@@ fn card::suit::Suit::as_i32
@ret r
@spec
    ensures r == sf(self),
@@ fn card::suit::Suit::from_i32
@ret r
@spec
    ensures val == 1 || val == 2 || val == 4 || val == 8 ==> r == suit_at(val as int),
@@ mod card::suit
impl vstd::std_specs::convert::TryFromSpecImpl<char> for Suit {
    open spec fn obeys_try_from_spec() -> bool { true }
    open spec fn try_from_spec(v: char) -> Result<Self, char> { match char_suit(v) { Some(r) => Ok(r), None => Err(v) } }
}
@@ fn card::suit::<Suit as TryFrom>::try_from
@@ impl card::suit::<Suit as Display>
    open spec fn text(&self) -> Seq<char> { seq![suit_symbol(*self)] }
@@ fn card::suit::<Suit as Display>::fmt

@@ mod card
impl Card {
    pub closed spec fn ui(self) -> int { self.unique_integer as int }
    /// rank and suit a card denotes
    pub open spec fn rk(self) -> Rank { rank_at((self.ui() / 256) % 16) }
    pub open spec fn st(self) -> Suit { suit_at((self.ui() / 4096) % 16) }
    /// the integer is the documented encoding of that rank and suit
    #[verifier::type_invariant]
    pub open spec fn wf(self) -> bool { self.ui() == enc(self.rk(), self.st()) }
}
#[verifier::rlimit(60)]
pub proof fn lemma_enc_decode(r: Rank, s: Suit)
    ensures
        rank_at((enc(r, s) / 256) % 16) == r,
        suit_at((enc(r, s) / 4096) % 16) == s,
        0 < enc(r, s) < 0x2000_0000,
{
}
/// encodings (and so cards) are equal exactly when rank and suit are
pub proof fn lemma_card_eq(a: Card, b: Card)
    requires a.wf(), b.wf(),
    ensures
        a == b <==> (a.rk() == b.rk() && a.st() == b.st()),
        a.ui() == b.ui() <==> (a.rk() == b.rk() && a.st() == b.st()),
        vstd::std_specs::cmp::PartialEqSpec::eq_spec(&a, &b) <==> a == b,
{
    lemma_enc_decode(a.rk(), a.st());
    lemma_enc_decode(b.rk(), b.st());
}
@@ fn card::Card::new
@ret c
@spec
    ensures c.wf(), c.rk() == rank, c.st() == suit, c.ui() == enc(rank, suit),
@end
        proof {
            lemma_new_bits(rank_int, suit_int, rank_prime);
            lemma_enc_decode(rank, suit);
        }
@@ mod card
proof fn lemma_new_bits(r: i32, s: i32, p: i32)
    requires 0 <= r <= 12, s == 1 || s == 2 || s == 4 || s == 8, 0 < p < 64,
    ensures
        ((1i32 << r) << 16i32) | (s << 12i32) | (r << 8i32) | p == p2(r as int) * 65536 + s * 4096 + r * 256 + p,
{
    let u = r as u32;
    assert(((1i32 << u) << 16i32) | (s << 12i32) | (r << 8i32) | p == add(add(add(mul(1i32 << u, 65536), mul(s, 4096)), mul(r, 256)), p)) by(bit_vector)
        requires 0 <= r <= 12, r == u, s == 1 || s == 2 || s == 4 || s == 8, 0 < p < 64;
    assert((1i32 << u) == (if u == 0 { 1i32 } else if u == 1 { 2 } else if u == 2 { 4 } else if u == 3 { 8 } else if u == 4 { 16 } else if u == 5 { 32 } else if u == 6 { 64 }
    else if u == 7 { 128 } else if u == 8 { 256 } else if u == 9 { 512 } else if u == 10 { 1024 } else if u == 11 { 2048 } else { 4096 })) by(bit_vector)
        requires 0 <= u <= 12;
    assert((1i32 << r) == (1i32 << u));
}
@@ fn card::Card::rank
@ret r
@spec
    ensures self.wf(), r == self.rk(),
@start
        proof {
            use_type_invariant(&self);
            lemma_enc_decode(self.rk(), self.st());
            let u = self.unique_integer;
            assert((u >> 8i32) & 0xFi32 == (u / 256) % 16) by(bit_vector) requires u > 0;
        }
@@ fn card::Card::suit
@ret r
@spec
    ensures self.wf(), r == self.st(),
@start
        proof {
            use_type_invariant(&self);
            lemma_enc_decode(self.rk(), self.st());
            let u = self.unique_integer;
            assert((u >> 12i32) & 0xFi32 == (u / 4096) % 16) by(bit_vector) requires u > 0;
        }
@@ fn card::Card::unique_integer
@ret r
@spec
    ensures self.wf(), r == self.ui(), r == enc(self.rk(), self.st()),
@start
        proof { use_type_invariant(&self); }

@@ fn card::Card::rank_suit_string
@ret r
@spec
    ensures self.wf(), r@ == card_name(self),
@end
        proof { assert(s@ =~= card_name(self)); }
@@ fn card::Card::try_from_chars
@ret r
@spec
    ensures
        char_rank(rank_char) is None ==> (r matches Err(ParseCardError::InvalidRank { original_input, incorrect_char }) && original_input@ == seq![rank_char] && incorrect_char == rank_char),
        char_rank(rank_char) is Some && char_suit(suit_char) is None ==> (r matches Err(ParseCardError::InvalidSuit { original_input, incorrect_char }) && original_input@ == seq![suit_char] && incorrect_char == suit_char),
        char_rank(rank_char) is Some && char_suit(suit_char) is Some ==> (r matches Ok(c) && c.rk() == char_rank(rank_char)->0 && c.st() == char_suit(suit_char)->0),
@start
        broadcast use crate::vxstd2::axiom_char_to_string;
@closure 0 |incorrect_char: char| -> (e: ParseCardError)
    ensures e matches ParseCardError::InvalidRank { original_input, incorrect_char: k } && original_input@ == seq![rank_char] && k == incorrect_char,
@closure 1 |incorrect_char: char| -> (e: ParseCardError)
    ensures e matches ParseCardError::InvalidSuit { original_input, incorrect_char: k } && original_input@ == seq![suit_char] && k == incorrect_char,

@@ fn card::<Card as FromStr>::from_str
@ret r
@spec
    ensures parsed(value@, r),
@closure 0 |incorrect_char: char| -> (e: ParseCardError)
    ensures e matches ParseCardError::InvalidRank { original_input, incorrect_char: k } && original_input@ == value@ && k == incorrect_char,
@closure 1 |incorrect_char: char| -> (e: ParseCardError)
    ensures e matches ParseCardError::InvalidSuit { original_input, incorrect_char: k } && original_input@ == value@ && k == incorrect_char,

@@ mod card
impl vstd::std_specs::cmp::PartialOrdSpecImpl for Card {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, other: &Self) -> Option<Ordering> { Some(icmp(rn(self.rk()), rn(other.rk()))) }
}
impl vstd::std_specs::cmp::OrdSpecImpl for Card {
    open spec fn obeys_cmp_spec() -> bool { true }
    open spec fn cmp_spec(&self, other: &Self) -> Ordering { icmp(rn(self.rk()), rn(other.rk())) }
}
@@ fn card::<Card as PartialOrd>::partial_cmp
@@ fn card::<Card as Ord>::cmp
@@ impl card::<Card as Display>
    open spec fn text(&self) -> Seq<char> { seq!['[', ' ', rank_char(self.rk()), suit_symbol(self.st()), ' ', ']'] }
@@ fn card::<Card as Display>::fmt
@start
        proof {
            reveal_strlit("[ "); reveal_strlit(""); reveal_strlit(" ]");
            assert("[ "@ + seq![rank_char(self.rk())] + ""@ + seq![suit_symbol(self.st())] + " ]"@ =~= self.text());
        }
@tail
        proof {
            if vx_r is Ok { assert(f.out() =~= old(f).out() + self.text()); }
        }

@@ mod card
impl<I: Iterator> vstd::std_specs::iter::IteratorSpecImpl for ParseToIter<I> {
    closed spec fn obeys_prophetic_iter_laws(&self) -> bool { vstd::std_specs::iter::IteratorSpec::obeys_prophetic_iter_laws(&self.0) }
    #[verifier::prophetic]
    closed spec fn remaining(&self) -> Seq<I::Item> { vstd::std_specs::iter::IteratorSpec::remaining(&self.0) }
    #[verifier::prophetic]
    closed spec fn will_return_none(&self) -> bool { vstd::std_specs::iter::IteratorSpec::will_return_none(&self.0) }
    closed spec fn decrease(&self) -> Option<nat> { vstd::std_specs::iter::IteratorSpec::decrease(&self.0) }
    closed spec fn peek(&self, index: int) -> Option<I::Item> { vstd::std_specs::iter::IteratorSpec::peek(&self.0, index) }
}

impl<I: ExactSizeIterator> vstd::std_specs::iter::ExactSizeIteratorSpecImpl for ParseToIter<I> {
    closed spec fn exact_len(&self) -> usize { vstd::std_specs::iter::ExactSizeIteratorSpec::exact_len(&self.0) }
}
@@ fn card::Card::parse_to_iter
@ret r
@spec
    requires
        forall|it: S::IntoIter| #[trigger] call_ensures(<S as IntoIterator>::into_iter, (strings,), it) ==> it.obeys_prophetic_iter_laws(),
    ensures
        r.obeys_prophetic_iter_laws(),
        exists|it: S::IntoIter| #[trigger] call_ensures(<S as IntoIterator>::into_iter, (strings,), it) && it.obeys_prophetic_iter_laws()
            && parsed_from::<S::Item>(it.remaining(), r.remaining()) && (r.will_return_none() ==> it.will_return_none() && it.remaining().len() == r.remaining().len()),
@closure 0 wrap |s: S::Item| -> (e: Result<Card, ParseCardError>)
    ensures parsed_one(s, e),
@@ fn card::<ParseToIter as Iterator>::next
@@ fn card::<ParseToIter as Iterator>::size_hint
@ret r
@spec
    ensures self.obeys_prophetic_iter_laws() ==> crate::vxstd2::hinted(self.remaining().len(), self.will_return_none(), r),
@@ fn card::<ParseToIter as Iterator>::fold
@ret r
@spec
    ensures self.obeys_prophetic_iter_laws() ==> self.will_return_none() && crate::vxstd::folds(self.remaining(), init, f, r),
@@ fn card::<ParseToIter as ExactSizeIterator>::len
@@ fn card::<ParseToIter as DoubleEndedIterator>::next_back
@@ fn card::ParseToIter::try_collect
@ret r
@spec
    ensures self.obeys_prophetic_iter_laws() ==> self.will_return_none() && crate::vxstd2::collected(self.remaining(), r),
@start
    broadcast use crate::vxstd2::axiom_collect_results;
@@ mod card
pub mod vxc05 {
use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
use super::{Card, ParseToIter};
use crate::error::ParseCardError;
use crate::vxspec::*;
/// C05, as a client sees it: every result, in order, and collecting them
pub fn c05_collect<S: IntoIterator>(strings: S) -> (r: Result<Vec<Card>, ParseCardError>) where S::Item: AsRef<str>
    requires
        forall|it: S::IntoIter| #[trigger] call_ensures(<S as IntoIterator>::into_iter, (strings,), it) ==> it.obeys_prophetic_iter_laws(),
    ensures
        exists|it: S::IntoIter, all: Seq<Result<Card, ParseCardError>>| #[trigger] call_ensures(<S as IntoIterator>::into_iter, (strings,), it) && #[trigger] parsed_all::<S::Item>(it.remaining(), all)
            && match r {
                Ok(v) => v@.len() == all.len() && forall|i: int| 0 <= i < all.len() ==> all[i] == Ok::<Card, ParseCardError>(#[trigger] v@[i]),
                Err(e) => exists|k: int| 0 <= k < all.len() && #[trigger] all[k] == Err::<Card, ParseCardError>(e) && forall|i: int| 0 <= i < k ==> (#[trigger] all[i]) is Ok,
            },
{
    let p = Card::parse_to_iter(strings);
    let ghost all = p.remaining();
    let r: Result<Vec<Card>, ParseCardError> = p.try_collect();
    proof {
        let it = choose|it: S::IntoIter| #[trigger] call_ensures(<S as IntoIterator>::into_iter, (strings,), it) && it.obeys_prophetic_iter_laws()
            && parsed_from::<S::Item>(it.remaining(), all) && it.remaining().len() == all.len();
        assert(parsed_all::<S::Item>(it.remaining(), all));
        if r is Ok { assert forall|i: int| 0 <= i < all.len() implies all[i] == Ok::<Card, ParseCardError>(#[trigger] r->Ok_0@[i]) by { assert(all[i] is Ok); } }
    }
    r
}
/// one of the 52 names
pub open spec fn named(s: Seq<char>) -> bool { s.len() == 2 && char_rank(s[0]) is Some && char_suit(s[1]) is Some }
/// for instance, for texts in a vector
pub fn c05_vec<'a>(v: Vec<&'a str>) -> (r: Result<Vec<Card>, ParseCardError>)
    ensures
        r is Ok ==> r->Ok_0@.len() == v@.len() && forall|i: int| 0 <= i < v@.len() ==> parsed(v@[i]@, Ok(#[trigger] r->Ok_0@[i])),
        r is Err ==> exists|k: int| 0 <= k < v@.len() && parsed((#[trigger] v@[k])@, Err(r->Err_0)) && forall|i: int| 0 <= i < k ==> #[trigger] named(v@[i]@),
{
    let r = c05_collect(v);
    proof {
        if r is Err {
            let (it, all) = choose|it: <Vec<&'a str> as IntoIterator>::IntoIter, all: Seq<Result<Card, ParseCardError>>| #[trigger] call_ensures(<Vec<&'a str> as IntoIterator>::into_iter, (v,), it) && #[trigger] parsed_all::<&'a str>(it.remaining(), all)
                && exists|k: int| 0 <= k < all.len() && #[trigger] all[k] == Err::<Card, ParseCardError>(r->Err_0) && forall|i: int| 0 <= i < k ==> (#[trigger] all[i]) is Ok;
            let k = choose|k: int| 0 <= k < all.len() && #[trigger] all[k] == Err::<Card, ParseCardError>(r->Err_0) && forall|i: int| 0 <= i < k ==> (#[trigger] all[i]) is Ok;
            assert(parsed_one(v@[k], all[k]));
            assert(parsed(v@[k]@, all[k]));
            assert forall|i: int| 0 <= i < k implies #[trigger] named(v@[i]@) by { assert(parsed_one(v@[i], all[i]) && all[i] is Ok); }
        }
    }
    r
}
pub fn c05_next<S: IntoIterator>(strings: S) where S::Item: AsRef<str>
    requires
        forall|it: S::IntoIter| #[trigger] call_ensures(<S as IntoIterator>::into_iter, (strings,), it) ==> it.obeys_prophetic_iter_laws(),
{
    let mut p = Card::parse_to_iter(strings);
    let ghost r = p.remaining();
    let h = p.size_hint();
    let a = p.next();
    let b = p.next();
    assert(r.len() >= 1 ==> a == Some(r[0]));
    assert(r.len() >= 2 ==> b == Some(r[1]));
    assert(a is None ==> b is None);
    assert(b is Some ==> (h.1 is Some ==> h.1->0 >= 2));
    assert(a is None ==> h.0 == 0);
}
pub fn c05_fold<S: IntoIterator>(strings: S) -> (n: usize) where S::Item: AsRef<str>
    requires
        forall|it: S::IntoIter| #[trigger] call_ensures(<S as IntoIterator>::into_iter, (strings,), it) ==> it.obeys_prophetic_iter_laws(),
    ensures
        exists|it: S::IntoIter, all: Seq<Result<Card, ParseCardError>>| #[trigger] call_ensures(<S as IntoIterator>::into_iter, (strings,), it) && #[trigger] parsed_all::<S::Item>(it.remaining(), all),
{
    let p = Card::parse_to_iter(strings);
    let ghost all = p.remaining();
    let f = p.fold(0usize, |n: usize, c: Result<Card, ParseCardError>| -> (e: usize) ensures e == if n < 1000 { (n + 1) as usize } else { n } { if n < 1000 { n + 1 } else { n } });
    proof {
        let it = choose|it: S::IntoIter| #[trigger] call_ensures(<S as IntoIterator>::into_iter, (strings,), it) && it.obeys_prophetic_iter_laws()
            && parsed_from::<S::Item>(it.remaining(), all) && it.remaining().len() == all.len();
        assert(parsed_all::<S::Item>(it.remaining(), all));
        
    }
    f
}
}
