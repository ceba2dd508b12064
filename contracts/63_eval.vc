@@ mod evaluate::evaluation
use crate::vxrules::*;
use crate::vxorder::*;
use crate::vxtab::*;
use crate::vxbits::*;
use crate::vxcombos::*;
use crate::vxhand::*;
use crate::vxtext::{meta_of, lemma_meta_of};
use crate::evaluate::utils::distinct_cards;
use crate::evaluate::utils::hand_ranks;
use crate::card::*;
use crate::vxstd::folds;

/// what evaluating the cards `s` must give
pub open spec fn evaluated(s: Seq<Card>, r: Result<Eval, EvalError>) -> bool {
    if !distinct_cards(s) { r matches Err(EvalError::CardsNotUnique(v)) && v@ =~= s }
    else if s.len() < 5 { r matches Err(EvalError::InvalidHandSize(n)) && n == s.len() }
    else { r matches Ok(e) && e.0 == meta_of(value(s)) }
}
pub broadcast proof fn lemma_fold_and<F: FnMut(i32, i32) -> i32>(s: Seq<i32>, f: F, r: i32)
    requires
        #[trigger] folds(s, 0xF000i32, f, r), s.len() == 5,
        forall|a: i32, x: i32, e: i32| #[trigger] f.ensures((a, x), e) ==> e == a & x,
    ensures r == 0xF000i32 & s[0] & s[1] & s[2] & s[3] & s[4],
{
    let t = choose|t: Seq<i32>| t.len() == s.len() + 1 && t[0] == 0xF000i32 && #[trigger] t[s.len() as int] == r && forall|i: int| 0 <= i < s.len() ==> f.ensures((#[trigger] t[i], s[i]), t[i + 1]);
    assert(f.ensures((t[0], s[0]), t[0 + 1int]));
    assert(f.ensures((t[1], s[1]), t[1 + 1int]));
    assert(f.ensures((t[2], s[2]), t[2 + 1int]));
    assert(f.ensures((t[3], s[3]), t[3 + 1int]));
    assert(f.ensures((t[4], s[4]), t[4 + 1int]));
}
pub broadcast proof fn lemma_fold_or<F: FnMut(i32, i32) -> i32>(s: Seq<i32>, f: F, r: i32)
    requires
        #[trigger] folds(s, 0i32, f, r), s.len() == 5,
        forall|a: i32, x: i32, e: i32| #[trigger] f.ensures((a, x), e) ==> e == a | x,
    ensures r == 0i32 | s[0] | s[1] | s[2] | s[3] | s[4],
{
    let t = choose|t: Seq<i32>| t.len() == s.len() + 1 && t[0] == 0i32 && #[trigger] t[s.len() as int] == r && forall|i: int| 0 <= i < s.len() ==> f.ensures((#[trigger] t[i], s[i]), t[i + 1]);
    assert(f.ensures((t[0], s[0]), t[0 + 1int]));
    assert(f.ensures((t[1], s[1]), t[1 + 1int]));
    assert(f.ensures((t[2], s[2]), t[2 + 1int]));
    assert(f.ensures((t[3], s[3]), t[3 + 1int]));
    assert(f.ensures((t[4], s[4]), t[4 + 1int]));
}
/// the suit flag and the rank bit of an encoded card
pub proof fn lemma_parts(u: i32, r: Rank, s: Suit)
    requires u == enc(r, s),
    ensures (u & 0xF000i32) == sf(s) * 4096, (u >> 16i32) == p2(rn(r)), 0 <= u < 0x2000_0000,
{
    let a = p2(rn(r)) as i32;
    let b = sf(s) as i32;
    let c = (rn(r) * 256 + prime(rn(r))) as i32;
    assert(0 < a <= 4096 && 0 < b <= 8 && 0 <= c < 4096);
    assert(u == add(add(mul(a, 65536), mul(b, 4096)), c));
    assert((u & 0xF000i32) == mul(b, 4096) && (u >> 16i32) == a && 0 <= u < 0x2000_0000) by(bit_vector)
        requires u == add(add(mul(a, 65536), mul(b, 4096)), c), 0 < a <= 4096, 0 < b <= 8, 0 <= c < 4096;
}
proof fn lemma_one_hot(a: i32, b: i32, c: i32, d: i32, e: i32)
    ensures
        ((a & 0xF000) == 0x1000 || (a & 0xF000) == 0x2000 || (a & 0xF000) == 0x4000 || (a & 0xF000) == 0x8000)
        && ((b & 0xF000) == 0x1000 || (b & 0xF000) == 0x2000 || (b & 0xF000) == 0x4000 || (b & 0xF000) == 0x8000)
        && ((c & 0xF000) == 0x1000 || (c & 0xF000) == 0x2000 || (c & 0xF000) == 0x4000 || (c & 0xF000) == 0x8000)
        && ((d & 0xF000) == 0x1000 || (d & 0xF000) == 0x2000 || (d & 0xF000) == 0x4000 || (d & 0xF000) == 0x8000)
        && ((e & 0xF000) == 0x1000 || (e & 0xF000) == 0x2000 || (e & 0xF000) == 0x4000 || (e & 0xF000) == 0x8000)
        ==> ((0xF000i32 & a & b & c & d & e) != 0 <==> ((a & 0xF000) == (b & 0xF000) && (a & 0xF000) == (c & 0xF000) && (a & 0xF000) == (d & 0xF000) && (a & 0xF000) == (e & 0xF000))),
{
    assert(
        ((a & 0xF000) == 0x1000 || (a & 0xF000) == 0x2000 || (a & 0xF000) == 0x4000 || (a & 0xF000) == 0x8000)
        && ((b & 0xF000) == 0x1000 || (b & 0xF000) == 0x2000 || (b & 0xF000) == 0x4000 || (b & 0xF000) == 0x8000)
        && ((c & 0xF000) == 0x1000 || (c & 0xF000) == 0x2000 || (c & 0xF000) == 0x4000 || (c & 0xF000) == 0x8000)
        && ((d & 0xF000) == 0x1000 || (d & 0xF000) == 0x2000 || (d & 0xF000) == 0x4000 || (d & 0xF000) == 0x8000)
        && ((e & 0xF000) == 0x1000 || (e & 0xF000) == 0x2000 || (e & 0xF000) == 0x4000 || (e & 0xF000) == 0x8000)
        ==> ((0xF000i32 & a & b & c & d & e) != 0 <==> ((a & 0xF000) == (b & 0xF000) && (a & 0xF000) == (c & 0xF000) && (a & 0xF000) == (d & 0xF000) && (a & 0xF000) == (e & 0xF000)))) by(bit_vector);
}
pub open spec fn encodes(u: Seq<i32>, h: Seq<Card>) -> bool {
    u.len() == 5 && h.len() == 5 && forall|i: int| 0 <= i < 5 ==> #[trigger] u[i] == enc(h[i].rk(), h[i].st())
}
pub open spec fn ints(h: Seq<Card>) -> Seq<i32> { Seq::new(h.len(), |i: int| enc(h[i].rk(), h[i].st()) as i32) }
pub proof fn lemma_ints(h: Seq<Card>)
    requires h.len() == 5,
    ensures encodes(ints(h), h), forall|i: int| 0 <= i < 5 ==> #[trigger] ints(h)[i] == enc(h[i].rk(), h[i].st()),
{
    assert forall|i: int| 0 <= i < 5 implies #[trigger] ints(h)[i] == enc(h[i].rk(), h[i].st()) by { crate::card::lemma_enc_decode(h[i].rk(), h[i].st()); }
}
pub proof fn lemma_high_half()
    ensures forall|x: i32| 0 <= x <= 8191 ==> #[trigger] (x as i16) == x,
{ }
pub proof fn lemma_flush_test(u: Seq<i32>, h: Seq<Card>)
    requires encodes(u, h),
    ensures (0xF000i32 & u[0] & u[1] & u[2] & u[3] & u[4]) != 0 <==> same_suit(h),
{
    lemma_parts(u[0], h[0].rk(), h[0].st());
    lemma_parts(u[1], h[1].rk(), h[1].st());
    lemma_parts(u[2], h[2].rk(), h[2].st());
    lemma_parts(u[3], h[3].rk(), h[3].st());
    lemma_parts(u[4], h[4].rk(), h[4].st());
    lemma_one_hot(u[0], u[1], u[2], u[3], u[4]);
    if same_suit(h) { assert(h[1].st() == h[0].st() && h[2].st() == h[0].st() && h[3].st() == h[0].st() && h[4].st() == h[0].st()); }
}
proof fn lemma_ins_sum(x: int, s: Seq<int>)
    ensures sum2(ins(x, s)) == p2(x) + sum2(s), ins(x, s).len() == s.len() + 1,
    decreases s.len()
{
    if s.len() == 0 {
        assert(seq![x].drop_first() =~= s);
    } else if x >= s[0] {
        assert((seq![x] + s).drop_first() =~= s);
    } else {
        let t = s.drop_first();
        lemma_ins_sum(x, t);
        assert((seq![s[0]] + ins(x, t)).drop_first() =~= ins(x, t));
    }
}
proof fn lemma_sorted_sum(s: Seq<int>)
    ensures sum2(sorted(s)) == sum2(s), sorted(s).len() == s.len(),
    decreases s.len()
{
    if s.len() > 0 {
        lemma_sorted_sum(s.drop_first());
        lemma_ins_sum(s[0], sorted(s.drop_first()));
    }
}
proof fn lemma_apart(x: int, y: int)
    requires 0 <= x <= 12, 0 <= y <= 12, x != y,
    ensures ((p2(x) as i32) & (p2(y) as i32)) == 0,
{
    let (a, b) = (p2(x) as i32, p2(y) as i32);
    assert(a == 1 || a == 2 || a == 4 || a == 8 || a == 16 || a == 32 || a == 64 || a == 128 || a == 256 || a == 512 || a == 1024 || a == 2048 || a == 4096);
    assert(b == 1 || b == 2 || b == 4 || b == 8 || b == 16 || b == 32 || b == 64 || b == 128 || b == 256 || b == 512 || b == 1024 || b == 2048 || b == 4096);
    assert(a != b);
    assert((a & b) == 0) by(bit_vector) requires
        a == 1 || a == 2 || a == 4 || a == 8 || a == 16 || a == 32 || a == 64 || a == 128 || a == 256 || a == 512 || a == 1024 || a == 2048 || a == 4096,
        b == 1 || b == 2 || b == 4 || b == 8 || b == 16 || b == 32 || b == 64 || b == 128 || b == 256 || b == 512 || b == 1024 || b == 2048 || b == 4096,
        a != b;
}
pub proof fn lemma_rank_or(u: Seq<i32>, h: Seq<Card>)
    requires encodes(u, h), same_suit(h), distinct_cards(h),
    ensures
        0 <= ((0i32 | u[0] | u[1] | u[2] | u[3] | u[4]) >> 16i32) <= 8191,
        ((0i32 | u[0] | u[1] | u[2] | u[3] | u[4]) >> 16i32) == set5(top5(h)),
{
    let s = hand_ranks(h);
    lemma_parts(u[0], h[0].rk(), h[0].st());
    lemma_parts(u[1], h[1].rk(), h[1].st());
    lemma_parts(u[2], h[2].rk(), h[2].st());
    lemma_parts(u[3], h[3].rk(), h[3].st());
    lemma_parts(u[4], h[4].rk(), h[4].st());
    let (a, b, c, d, e) = (p2(s[0]) as i32, p2(s[1]) as i32, p2(s[2]) as i32, p2(s[3]) as i32, p2(s[4]) as i32);
    assert forall|i: int, j: int| 0 <= i < j < 5 implies #[trigger] s[i] != #[trigger] s[j] by { lemma_rn_inj(h[i].rk(), h[j].rk()); assert(h[i].st() == h[0].st() && h[j].st() == h[0].st()); }
    lemma_apart(s[0], s[1]); lemma_apart(s[0], s[2]); lemma_apart(s[0], s[3]); lemma_apart(s[0], s[4]); lemma_apart(s[1], s[2]);
    lemma_apart(s[1], s[3]); lemma_apart(s[1], s[4]); lemma_apart(s[2], s[3]); lemma_apart(s[2], s[4]); lemma_apart(s[3], s[4]);
    let (u0, u1, u2, u3, u4) = (u[0], u[1], u[2], u[3], u[4]);
    assert(0 < a <= 4096 && 0 < b <= 4096 && 0 < c <= 4096 && 0 < d <= 4096 && 0 < e <= 4096);
    assert(((0i32 | u0 | u1 | u2 | u3 | u4) >> 16i32) == (a | b | c | d | e)) by(bit_vector)
        requires (u0 >> 16i32) == a, (u1 >> 16i32) == b, (u2 >> 16i32) == c, (u3 >> 16i32) == d, (u4 >> 16i32) == e;
    assert((a | b | c | d | e) == add(add(add(add(a, b), c), d), e) && 0 <= (a | b | c | d | e) <= 8191) by(bit_vector)
        requires (a & b) == 0, (a & c) == 0, (a & d) == 0, (a & e) == 0, (b & c) == 0, (b & d) == 0, (b & e) == 0, (c & d) == 0, (c & e) == 0, (d & e) == 0,
            0 < a <= 4096, 0 < b <= 4096, 0 < c <= 4096, 0 < d <= 4096, 0 < e <= 4096;
    lemma_sorted_sum(s);
    lemma_sum2_5(s);
    lemma_sum2_5(sorted(s));
}
pub open spec fn worst_group() -> G { grp(0, 5, 3, 2, 1, 0) }
pub proof fn lemma_worst()
    ensures wfg(worst_group()), standing(worst_group()) == 7462, meta_of(worst_group()) == (Meta::HighCard { hand_rank: crate::evaluate::hand_rank::PokerHandRank(7462), high_rank: Rank::Seven }),
{
    let s = seq![5int, 3, 2, 1, 0];
    assert(set5(s) == 47);
    lemma_cnt_total();
    lemma_cnt_range(1, 47);
    assert(cnt_range(1, 47) == 1) by(compute);
    assert(cnt_above(47) == 1276);
}
/// the five cards at position k among the selections
pub proof fn lemma_nth(s: Seq<Card>, k: int) -> (c: Seq<int>)
    requires distinct_cards(s), s.len() >= 5, 0 <= k < nc(s.len() as int, 5),
    ensures sel(c, s.len() as int), combos_from::<Card, 5>(s, 0)[k]@ == pick(s, c), distinct_cards(pick(s, c)), pick(s, c).len() == 5, wfg(value5(pick(s, c))), combos_from::<Card, 5>(s, 0).len() == nc(s.len() as int, 5),
{
    let c = unrank(k, 5, 0, s.len() as int);
    lemma_unrank(k, 5, 0, s.len() as int);
    lemma_pick(s, c);
    lemma_arr_of5(pick(s, c));
    c
}
/// the best of all selections
pub proof fn lemma_all_seen(s: Seq<Card>, g: G)
    requires
        legal(s), wfg(g),
        forall|k: int| 0 <= k < nc(s.len() as int, 5) ==> standing(g) <= standing(value5((#[trigger] combos_from::<Card, 5>(s, 0)[k])@)),
        standing(g) == 7462 || exists|k: int| 0 <= k < nc(s.len() as int, 5) && value5((#[trigger] combos_from::<Card, 5>(s, 0)[k])@) == g,
    ensures is_best(s, g), value(s) == g,
{
    let n = s.len() as int;
    let q = combos_from::<Card, 5>(s, 0);
    lemma_nc_pos(n, 5);
    if !exists|k: int| 0 <= k < nc(n, 5) && value5((#[trigger] q[k])@) == g {
        let c = lemma_nth(s, 0);
        assert(q[0]@ == pick(s, c));
        lemma_standing_range(value5(pick(s, c)));
        lemma_order(g, value5(pick(s, c)));
    }
    let k = choose|k: int| 0 <= k < nc(n, 5) && value5((#[trigger] q[k])@) == g;
    let c = lemma_nth(s, k);
    assert(value5(pick(s, c)) == g);
    assert forall|c: Seq<int>| sel(c, n) implies standing(g) <= standing(value5(#[trigger] pick(s, c))) by {
        lemma_unrank_pos(c, 0, n);
        lemma_pos_bounds(c, 0, n);
        let k = pos(c, 0, n);
        let d = lemma_nth(s, k);
        assert(q[k]@ == pick(s, unrank(k, 5, 0, n))) by { lemma_unrank(k, 5, 0, n); lemma_pick(s, c); lemma_arr_of5(pick(s, c)); }
        assert(q[k]@ == pick(s, c));
    }
    lemma_best(s, g);
}
@@ fn evaluate::evaluation::Evaluation::flush_lookup
@ret r
@spec
    ensures r.map_view() == tab(true, 1, 7463),
@@ fn evaluate::evaluation::Evaluation::unsuited_lookup
@ret r
@spec
    ensures r.map_view() == tab(false, 1, 7463),
@@ fn evaluate::evaluation::<Evaluator as Evaluation>::flush_lookup
@start
    proof { use_type_invariant(&*self); }
@@ fn evaluate::evaluation::<Evaluator as Evaluation>::unsuited_lookup
@start
    proof { use_type_invariant(&*self); }
@@ mod evaluate
use crate::vxtab::tab;
impl Evaluator {
    /// the tables hold every entry
    #[verifier::type_invariant]
    pub closed spec fn complete(self) -> bool {
        self.0.flush_lookup@ == tab(true, 1, 7463) && self.0.unsuited_lookup@ == tab(false, 1, 7463)
    }
}
@@ fn evaluate::Evaluator::derived::clone
@start
    proof { use_type_invariant(&*self); }
@@ fn evaluate::lookup_table::LookupTable::derived::clone
@spec
    ensures vx_r.flush_lookup@ == self.flush_lookup@, vx_r.unsuited_lookup@ == self.unsuited_lookup@,
@@ fn evaluate::evaluation::five
@ret r
@spec
    requires distinct_cards(cards@),
    ensures r.0 == meta_of(value5(cards@)),
@rename into_iter
@closure 0 |acc: i32, x: i32| -> (e: i32)
    ensures e == acc & x,
@closure 1 |acc: i32, x: i32| -> (e: i32)
    ensures e == acc | x,
@start
    hide(enc); hide(Card::rk); hide(Card::st); hide(meta_of); hide(tab); hide(groups); hide(sorted); hide(prod); hide(standing); hide(distinct_cards); hide(same_suit);
    hide(tg); hide(gprod); hide(wfg); hide(ranks); hide(set5);
    broadcast use {lemma_fold_and, lemma_fold_or};
    let ghost h = cards@;
    let ghost us = ints(h);
    proof {
        lemma_ints(h);
        lemma_value5(h);
        lemma_flush_test(us, h);
        if same_suit(h) { lemma_rank_or(us, h); }
        lemma_high_half();
    }
@@ fn evaluate::evaluation::six_plus
@ret r
@spec
    requires legal(cards@), cards@.len() > 5,
    ensures r.0 == meta_of(value(cards@)),
@start
    hide(meta_of); hide(value5); hide(standing); hide(distinct_cards); hide(wfg);
    let ghost s = cards@;
    let ghost mut g = worst_group();
    proof { lemma_worst(); lemma_nc_pos(s.len() as int, 5); let c = lemma_nth(s, 0); }
@loop 0 iter=it
        invariant
            legal(s), s.len() == cards@.len(), it.iter.obeys_prophetic_iter_laws(), it.seq() == combos_from::<Card, 5>(s, 0), it.seq().len() == nc(s.len() as int, 5),
            current_max.0 == meta_of(g), wfg(g),
            forall|k: int| 0 <= k < it.index() ==> standing(g) <= standing(value5((#[trigger] combos_from::<Card, 5>(s, 0)[k])@)),
            standing(g) == 7462 || exists|k: int| 0 <= k < it.index() && value5((#[trigger] combos_from::<Card, 5>(s, 0)[k])@) == g,
@loop-start 0
        let ghost g0 = g;
        proof {
            let k = it.index() as int;
            let c = lemma_nth(s, k);
            let v = value5(combos_from::<Card, 5>(s, 0)[k]@);
            lemma_meta_of(g);
            lemma_meta_of(v);
            lemma_order(g, v);
            if standing(v) < standing(g) { g = v; }
        }
@loop-after 0
    proof { lemma_all_seen(s, g); }
@@ fn evaluate::evaluation::evaluate
@ret r
@spec
    ensures evaluated(cards@, r),
@start
    hide(meta_of); hide(value5); hide(distinct_cards);
    proof { if legal(cards@) && cards@.len() == 5 { lemma_best5(cards@); assert(cards@ =~= seq![cards@[0], cards@[1], cards@[2], cards@[3], cards@[4]]); } }
@@ fn evaluate::Evaluator::evaluate
@ret r
@spec
    ensures exists|s: &[Card]| call_ensures(<C as AsRef<[Card]>>::as_ref, (&cards,), s) && crate::evaluate::evaluation::evaluated(s@, r),
@@ mod card
impl Card {
    /// the card of a rank and a suit
    pub closed spec fn made(r: Rank, s: Suit) -> Card { Card { unique_integer: enc(r, s) as i32 } }
}
pub proof fn lemma_made(r: Rank, s: Suit)
    ensures Card::made(r, s).wf(), Card::made(r, s).rk() == r, Card::made(r, s).st() == s,
{ lemma_enc_decode(r, s); }
@@ fn evaluate::Evaluator::new
@@ fn evaluate::<Evaluator as Default>::default
@@ mod evaluate
pub mod vxc20 {
use vstd::prelude::*;
use super::*;
use crate::evaluate::eval::Eval;
use crate::error::EvalError;
use crate::card::Card;
use crate::evaluate::evaluation::evaluated;
use crate::vxhand::legal;
/// the same cards, the same result: nothing but the cards decides it
pub proof fn lemma_same(s: Seq<Card>, a: Result<Eval, EvalError>, b: Result<Eval, EvalError>)
    requires evaluated(s, a), evaluated(s, b),
    ensures
        a is Ok <==> b is Ok, a is Ok ==> a->Ok_0 == b->Ok_0,
        a is Err ==> (a->Err_0 is CardsNotUnique <==> b->Err_0 is CardsNotUnique),
        a is Err && a->Err_0 is CardsNotUnique ==> a->Err_0->CardsNotUnique_0@ == b->Err_0->CardsNotUnique_0@,
        a is Err && a->Err_0 is InvalidHandSize ==> a->Err_0->InvalidHandSize_0 == b->Err_0->InvalidHandSize_0,
{ }
pub proof fn lemma_meta_refl(a: crate::evaluate::meta::Meta)
    ensures vstd::std_specs::cmp::PartialEqSpec::eq_spec(&a, &a),
{ }
/// C20: any two evaluators, whatever made them: equal, and of one mind; and a third evaluation in between changes nothing
pub fn c20_evaluators<'a>(a: &Evaluator, b: &Evaluator, cards: &'a [Card], other: &'a [Card])
{
    proof { use_type_invariant(a); use_type_invariant(b); }
    assert forall|k: i32| #[trigger] a.0.flush_lookup@.dom().contains(k) implies vstd::std_specs::cmp::PartialEqSpec::eq_spec(&a.0.flush_lookup@[k], &b.0.flush_lookup@[k]) by { lemma_meta_refl(a.0.flush_lookup@[k]); }
    assert forall|k: i32| #[trigger] a.0.unsuited_lookup@.dom().contains(k) implies vstd::std_specs::cmp::PartialEqSpec::eq_spec(&a.0.unsuited_lookup@[k], &b.0.unsuited_lookup@[k]) by { lemma_meta_refl(a.0.unsuited_lookup@[k]); }
    let same = *a == *b;
    assert(same);
    let x = evaluation::evaluate(a, cards);
    let between = evaluation::evaluate(a, other);
    let again = evaluation::evaluate(a, cards);
    let y = evaluation::evaluate(b, cards);
    proof { lemma_same(cards@, x, y); lemma_same(cards@, x, again); }
    assert(x is Ok <==> legal(cards@));
    assert(x is Ok ==> y is Ok && again is Ok && x->Ok_0 == y->Ok_0 && x->Ok_0 == again->Ok_0);
}
pub fn c20_made()
{
    let (a, b) = (Evaluator::new(), Evaluator::default());
    let c = a.clone();
    c20_equal(&a, &b);
    c20_equal(&b, &c);
}
pub fn c20_equal(a: &Evaluator, b: &Evaluator)
{
    proof { use_type_invariant(a); use_type_invariant(b); }
    assert forall|k: i32| #[trigger] a.0.flush_lookup@.dom().contains(k) implies vstd::std_specs::cmp::PartialEqSpec::eq_spec(&a.0.flush_lookup@[k], &b.0.flush_lookup@[k]) by { lemma_meta_refl(a.0.flush_lookup@[k]); }
    assert forall|k: i32| #[trigger] a.0.unsuited_lookup@.dom().contains(k) implies vstd::std_specs::cmp::PartialEqSpec::eq_spec(&a.0.unsuited_lookup@[k], &b.0.unsuited_lookup@[k]) by { lemma_meta_refl(a.0.unsuited_lookup@[k]); }
    let same = *a == *b;
    assert(same);
}
}
