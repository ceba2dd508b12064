@@ const constants::INT_RANKS
@open
@@ const evaluate::lookup_table::constants::STRAIGHTS
@open
@@ mod evaluate::utils
use crate::vxrules::*;
use crate::vxorder::*;
use crate::vxtab::*;
use crate::vxbits::*;
/// a number of its own for each card
pub open spec fn card_ix(c: Card) -> int {
    (match c.st() { Suit::Clubs => 0int, Suit::Diamonds => 13, Suit::Hearts => 26, Suit::Spades => 39 }) + rn(c.rk())
}
pub open spec fn distinct_cards(s: Seq<Card>) -> bool {
    forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).rk() != (#[trigger] s[j]).rk() || s[i].st() != s[j].st()
}
pub proof fn lemma_card_ix(a: Card, b: Card)
    ensures 0 <= card_ix(a) <= 51, card_ix(a) == card_ix(b) <==> a.rk() == b.rk() && a.st() == b.st(),
{ }
proof fn lemma_flag(f: u64, x: u64, y: u64)
    requires x < 64, y < 64,
    ensures ((f | (1u64 << x)) & (1u64 << y) != 0) <==> (x == y || f & (1u64 << y) != 0),
{
    assert(((f | (1u64 << x)) & (1u64 << y) != 0) <==> (x == y || f & (1u64 << y) != 0)) by(bit_vector) requires x < 64, y < 64;
}
@@ fn evaluate::utils::card_to_index
@ret r
@spec
    ensures r == card_ix(card), r < 52,
@@ fn evaluate::utils::all_unique
@ret r
@spec
    ensures r == distinct_cards(hand@),
@start
    proof { assert forall|y: u64| y < 64 implies #[trigger] (0u64 & (1u64 << y)) == 0 by { assert(0u64 & (1u64 << y) == 0) by(bit_vector); } }
@loop 0 iter=it
        invariant
            it.seq().len() == hand@.len(), forall|i: int| 0 <= i < hand@.len() ==> *(#[trigger] it.seq()[i]) == hand@[i],
            forall|y: u64| y < 64 ==> (#[trigger] (card_flags & (1u64 << y)) != 0 <==> exists|i: int| 0 <= i < it.index() && card_ix(#[trigger] hand@[i]) == y),
            distinct_cards(hand@.take(it.index() as int)),
@loop-start 0
        proof {
            let n = it.index();
            let y = card_ix(hand@[n]) as u64;
            lemma_card_ix(hand@[n], hand@[n]);
            assert forall|i: int| 0 <= i < n implies (card_ix(#[trigger] hand@[i]) == y <==> hand@[i].rk() == hand@[n].rk() && hand@[i].st() == hand@[n].st()) by { lemma_card_ix(hand@[i], hand@[n]); }
            assert forall|x: u64| x < 64 implies ((#[trigger] ((card_flags | (1u64 << y)) & (1u64 << x)) != 0) <==> (y == x || card_flags & (1u64 << x) != 0)) by { lemma_flag(card_flags, y, x); }
            assert(forall|i: int| 0 <= i < n ==> hand@.take(n as int)[i] == hand@[i]);
            assert(forall|i: int| 0 <= i < n + 1 ==> hand@.take(n + 1)[i] == hand@[i]);
        }
@end
    proof { assert(hand@.take(hand@.len() as int) =~= hand@); }
@@ fn evaluate::utils::prime_product_from_rank_bits
@ret r
@spec
    requires 0 <= rank_bits,
    ensures forall|s: Seq<int>| distinct5(s) && #[trigger] set5(s) == rank_bits ==> r == prod(s),
@loop 0 iter=it
        invariant
            0 <= rank_bits,
            it.seq().len() == 13, forall|i: int| 0 <= i < 13 ==> #[trigger] it.seq()[i] == i,
            forall|s: Seq<int>| distinct5(s) && #[trigger] set5(s) == rank_bits ==> product == bp(s, it.index() as int),
@start
    proof { lemma_bp_ends(rank_bits as int); }
@loop-end 0
        proof {
            lemma_bit_test(rank_bits, i);
            assert(PRIMES@[i as int] == prime(i as int));
            assert forall|s: Seq<int>| distinct5(s) && #[trigger] set5(s) == rank_bits implies product == bp(s, i + 1) by { lemma_bp_step(s, i as int); }
        }
@@ fn evaluate::utils::high_rank_from_rank_bits
@ret r
@spec
    requires 0 < rank_bits < 8192,
    ensures forall|s: Seq<int>, f: bool| distinct5(s) && #[trigger] set5(s) == rank_bits ==> r == rank_at((#[trigger] groups(s, f)).g1),
@loop 0 iter=it
        invariant
            0 < rank_bits, rank_bits != 4111, it.seq().len() == 13, forall|i: int| 0 <= i < 13 ==> #[trigger] it.seq()[i] == 12 - i,
            rank_bits < 1i16 << (13 - it.index()),
@start
    proof {
        assert(1i16 << 13 == 8192) by(bit_vector);
        assert(1i16 << 0 == 1) by(bit_vector);
        assert forall|s: Seq<int>, f: bool| distinct5(s) && #[trigger] set5(s) == rank_bits implies
            (rank_bits == 4111 ==> (#[trigger] groups(s, f)).g1 == 3) && (rank_bits != 4111 ==> groups(s, f).g1 == s[0]) by { lemma_high(rank_bits, s, f); }
    }
@loop-start 0
        proof {
            if rank_bits & (1i16 << i) == 0 { lemma_below(rank_bits, i); }
            else {
                assert forall|s: Seq<int>| distinct5(s) && #[trigger] set5(s) == rank_bits implies i == s[0] by { lemma_top(rank_bits, i, s); }
            }
        }
@@ mod evaluate::utils
pub broadcast proof fn lemma_low_byte(u: i32)
    ensures #[trigger] (u & 0xFFi32) == (if u >= 0 { (u as int) % 256 } else { (u & 0xFFi32) as int }),
{ assert(u >= 0 ==> (u & 0xFFi32) == u % 256) by(bit_vector); }
pub broadcast proof fn lemma_enc_low(r: Rank, s: Suit)
    ensures (#[trigger] crate::vxspec::enc(r, s)) % 256 == prime(rn(r)), enc(r, s) >= 0,
{ }
/// folding a multiplication over five primes
pub broadcast proof fn lemma_fold5<F: FnMut(i32, i32) -> i32>(s: Seq<i32>, f: F, r: i32)
    requires
        #[trigger] crate::vxstd::folds(s, 1i32, f, r), s.len() == 5, forall|i: int| 0 <= i < 5 ==> 0 < #[trigger] s[i] <= 41,
        forall|a: i32, x: i32, e: i32| #[trigger] f.ensures((a, x), e) && fits32(a * x) ==> e == a * x,
    ensures r == s[0] * s[1] * s[2] * s[3] * s[4],
{
    let t = choose|t: Seq<i32>| t.len() == s.len() + 1 && t[0] == 1 && #[trigger] t[s.len() as int] == r && forall|i: int| 0 <= i < s.len() ==> f.ensures((#[trigger] t[i], s[i]), t[i + 1]);
    lemma_bound5(s[0] as int, s[1] as int, s[2] as int, s[3] as int, s[4] as int);
    assert(f.ensures((t[0], s[0]), t[0 + 1int]));
    assert(t[1] == s[0]);
    assert(f.ensures((t[1], s[1]), t[1 + 1int]));
    assert(t[2] == s[0] * s[1]);
    assert(f.ensures((t[2], s[2]), t[2 + 1int]));
    assert(f.ensures((t[3], s[3]), t[3 + 1int]));
    assert(f.ensures((t[4], s[4]), t[4 + 1int]));
}
pub open spec fn fits32(x: int) -> bool { -0x8000_0000 <= x <= 0x7fff_ffff }
pub open spec fn hand_ranks(h: Seq<Card>) -> Seq<int> { Seq::new(h.len(), |i: int| rn(h[i].rk())) }
@@ fn evaluate::utils::prime_product_from_hand
@ret r
@spec
    ensures r == prod(hand_ranks(hand@)), forall|i: int| 0 <= i < 5 ==> (#[trigger] hand@[i]).wf(),
@start
    hide(crate::vxspec::enc);
    hide(crate::vxspec::rn);
    hide(crate::vxspec::prime);
    hide(Card::rk);
    hide(Card::st);
    broadcast use {lemma_low_byte, lemma_enc_low, lemma_fold5, lemma_primes_small};
    let ghost hs = hand@;
@rename into_iter
@closure 0 |card: Card| -> (e: i32)
    ensures card.wf(), e == prime(rn(card.rk())),
@closure 1 |acc: i32, x: i32| -> (e: i32)
    ensures fits32(acc * x) ==> e == acc * x,
@tail
    proof {
        lemma_prod_hand(hs);
    }
@@ mod evaluate::utils
pub broadcast proof fn lemma_primes_small(n: int)
    ensures 0 < #[trigger] prime(n) <= 41,
{ }
pub proof fn lemma_prod_hand(hs: Seq<Card>)
    requires hs.len() == 5,
    ensures prod(hand_ranks(hs)) == prime(rn(hs[0].rk())) * prime(rn(hs[1].rk())) * prime(rn(hs[2].rk())) * prime(rn(hs[3].rk())) * prime(rn(hs[4].rk())),
{
    let s = hand_ranks(hs);
    lemma_prod5(s[0], s[1], s[2], s[3], s[4]);
    assert(s =~= seq![s[0], s[1], s[2], s[3], s[4]]);
}
@@ mod evaluate::utils
impl BitSequence {
    /// the set of ranks reached last
    pub closed spec fn cur(self) -> int { self.bits as int }
}
proof fn lemma_tz(x: i16, z: u32)
    requires 0 < x, z == vstd::std_specs::bits::u16_trailing_zeros(x as u16),
    ensures z < 16, (x >> z) & 1 == 1, forall|j: u32| j < z ==> #[trigger] ((x >> j) & 1) == 0,
{
    let u = x as u16;
    vstd::std_specs::bits::axiom_u16_trailing_zeros(u);
    assert((x >> z) & 1 == (u >> z) & 1) by(bit_vector) requires u == x, 0 < x, z < 16;
    assert forall|j: u32| j < z implies #[trigger] ((x >> j) & 1) == 0 by {
        let k = j as u16;
        assert((u >> k) & 1 == 0);
        assert((x >> j) & 1 == (u >> j) & 1) by(bit_vector) requires u == x, 0 < x, j < 16;
    }
}
@@ fn evaluate::utils::BitSequence::new
@ret r
@spec
    ensures r.cur() == bits,
@@ fn evaluate::utils::BitSequence::get_next
@ret r
@spec
    requires 0 < old(self).cur() < 7936, ones(old(self).cur()) == 5,
    ensures
        r == final(self).cur(), old(self).cur() < r < 8192, ones(r as int) == 5,
        forall|v: int| old(self).cur() < v < r ==> #[trigger] ones(v) != 5,
@start
    let ghost x = self.bits;
    proof {
        let z = vstd::std_specs::bits::u16_trailing_zeros(x as u16) as u32;
        lemma_tz(x, z);
        assert(z <= 12) by(bit_vector) requires 0 < x < 7936, z < 16, (x >> z) & 1 == 1;
    }
@end
    proof {
        let t = self.t;
        assert(0 < x < 7936 && t == x | sub(x, 1) ==> 0 < t < 8192) by(bit_vector);
        assert(0 < t < 8192 ==> -8193 < !t < -1) by(bit_vector);
        let nt = !t;
        let mt = sub(0, !t);
        assert(0 < t < 8192 && nt == !t && mt == sub(0, nt) ==> 0 <= (nt & mt) <= 8192 && 0 < mt) by(bit_vector);
        let z = vstd::std_specs::bits::u16_trailing_zeros(x as u16) as u32;
        let y = sub(!self.t & sub(0, !self.t), 1);
        lemma_next_bits(x, self.t, y, self.bits, z);
    }
@@ mod evaluate::utils
use crate::vxcombos::*;
impl<'a, T, const N: usize> Combinations<'a, T, N> {
    /// no index is out of reach
    #[verifier::type_invariant]
    pub closed spec fn inside(self) -> bool {
        1 <= N <= self.data@.len() && (forall|i: int| 0 <= i < N ==> #[trigger] self.indices@[i] <= self.data@.len() - N + i)
        && (forall|i: int, j: int| 0 <= i < j < N ==> #[trigger] self.indices@[i] < #[trigger] self.indices@[j])
    }
    pub closed spec fn ix(self) -> Seq<int> { Seq::new(N as nat, |i: int| self.indices@[i] as int) }
    pub closed spec fn items(self) -> Seq<T> { self.data@ }
    pub closed spec fn over(self) -> bool { self.done }
    pub open spec fn left(self) -> Seq<[T; N]> { if self.over() { Seq::empty() } else { combos_from(self.items(), self.at()) } }
    pub open spec fn at(self) -> int { pos(self.ix(), 0, self.items().len() as int) }
}
impl<'a, T: Copy, const N: usize> vstd::std_specs::iter::IteratorSpecImpl for Combinations<'a, T, N> {
    open spec fn obeys_prophetic_iter_laws(&self) -> bool { true }
    open spec fn remaining(&self) -> Seq<[T; N]> { self.left() }
    open spec fn will_return_none(&self) -> bool { true }
    open spec fn decrease(&self) -> Option<nat> { Some(self.left().len()) }
    open spec fn peek(&self, index: int) -> Option<[T; N]> { if 0 <= index < self.left().len() { Some(self.left()[index]) } else { None } }
}
@@ item evaluate::utils::Combinations
#[verifier::external_derive]
@@ fn evaluate::utils::Combinations::new
@ret r
@spec
    requires 1 <= N <= data@.len(),
    ensures r.items() == data@, !r.over(), r.at() == 0, inc(r.ix(), 0, data@.len() as int),
@closure 0 |index: usize| -> (e: usize)
    ensures e == index,
@tail
    proof {
        lemma_pos_first(vx_r.ix(), 0, data@.len() as int);
    }
@@ fn evaluate::utils::const_combos
@ret r
@spec
    requires 1 <= N <= items@.len(),
    ensures r.obeys_prophetic_iter_laws(), r.will_return_none(), r.decrease() is Some, r.remaining() == combos_from::<T, N>(items@, 0),
@@ fn evaluate::utils::<Combinations as Iterator>::next
@ret r
@closure 0 |i: usize| -> (t: T)
    requires i < self.data@.len(),
    ensures t == self.data@[i as int],
@start
    proof { use_type_invariant(&*self); }
    let ghost c = self.ix();
    let ghost n = self.items().len() as int;
    assert(n == self.data.len());
@loop 0 iter=it
            invariant_except_break
                self.ix() == c, !self.done || it.index() == N,
                forall|j: int| N - it.index() <= j < N ==> #[trigger] c[j] == n - N + j,
                it.index() == N ==> self.done,
            invariant
                it.seq().len() == N, forall|k: int| 0 <= k < N ==> #[trigger] it.seq()[k] == N - 1 - k,
                self.data@.len() == n, 1 <= N <= n, self.items() == old(self).items(), self.inside(), c.len() == N, n <= usize::MAX,
                forall|j: int| 0 <= j < N ==> #[trigger] c[j] <= n - N + j,
            ensures
                (self.done && is_last(c, n)) || (!self.done && exists|i: int| follows(c, self.ix(), i, n)),
@loop-start 0
            proof {
                assert(i == N - 1 - it.index());
                assert forall|k: int| 0 <= k < N implies #[trigger] self.indices@[k] == c[k] by { assert(self.ix()[k] == c[k]); }
                assert forall|k: int| i < k < N implies #[trigger] self.indices@[k] == n - N + k by { assert(c[k] == n - N + k); }
            }
@loop 1 iter=jt
                invariant
                    i < N, c.len() == N, jt.seq().len() == N - i - 1, forall|k: int| 0 <= k < N - i - 1 ==> #[trigger] jt.seq()[k] == i + 1 + k,
                    self.data@.len() == n, 1 <= N <= n, self.items() == old(self).items(), self.inside(), !self.done, n <= usize::MAX,
                    c[i as int] < n - N + i,
                    forall|k: int| 0 <= k < i ==> #[trigger] self.indices@[k] == c[k],
                    forall|k: int| i <= k < i + 1 + jt.index() ==> #[trigger] self.indices@[k] == c[i as int] + 1 + k - i,
                    forall|k: int| i + 1 + jt.index() <= k < N ==> #[trigger] self.indices@[k] == n - N + k,
                    forall|k: int| i < k < N ==> #[trigger] c[k] == n - N + k,
@loop-start 1
                proof {
                    assert(j == i + 1 + jt.index());
                    assert(self.indices@[j - 1] == c[i as int] + 1 + (j - 1) - i);
                }
@end
    proof {
        lemma_unrank_pos(c, 0, n);
        lemma_pos_bounds(c, 0, n);
        let s = pick(old(self).items(), c);
        assert(result@ =~= s);
        let a = arr_of::<T, N>(s);
        assert(a@ == s);
        assert(a =~= result);
        if self.done {
            lemma_pos_last(c, 0, n);
        } else {
            let i = choose|i: int| follows(c, self.ix(), i, n);
            lemma_follows(c, self.ix(), i, 0, n);
        }
        assert(old(self).left()[0] == result);
        assert(self.left() =~= old(self).left().drop_first());
    }
@loop-after 1
                proof {
                    assert(follows(c, self.ix(), i as int, n));
                }
