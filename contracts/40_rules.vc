@@ top
// The rules of poker for five cards, as a specification on ranks (0 = deuce ... 12 = ace).
pub mod vxrules {
use vstd::prelude::*;
use crate::vxspec::*;
use crate::card::{Card, Rank, Suit};
use crate::evaluate::class::EvalClass;
use crate::evaluate::meta::Meta;
use crate::evaluate::hand_rank::PokerHandRank;

// ---------------------------------------------------------------- ranked hands
/// five ranks from the highest down, at most four of them the same
pub open spec fn desc5(r: Seq<int>) -> bool {
    r.len() == 5 && 12 >= r[0] >= r[1] >= r[2] >= r[3] >= r[4] >= 0 && r[0] > r[4]
}
/// no two of the five ranks are the same
pub open spec fn distinct5(r: Seq<int>) -> bool {
    r.len() == 5 && 12 >= r[0] > r[1] > r[2] > r[3] > r[4] >= 0
}
/// five consecutive ranks, or ace-five-four-three-deuce
pub open spec fn straight5(r: Seq<int>) -> bool { distinct5(r) && (r[0] - r[4] == 4 || wheel5(r)) }
pub open spec fn wheel5(r: Seq<int>) -> bool { r[0] == 12 && r[1] == 3 && r[2] == 2 && r[3] == 1 && r[4] == 0 }

/// category (0 high card ... 8 straight flush) and then the ranks that decide, in the order in which they decide
pub struct G { pub cat: int, pub g1: int, pub g2: int, pub g3: int, pub g4: int, pub g5: int }

pub open spec fn grp(cat: int, g1: int, g2: int, g3: int, g4: int, g5: int) -> G { G { cat, g1, g2, g3, g4, g5 } }

/// the rules: what five ranks (and whether all five suits agree) amount to
pub open spec fn groups(r: Seq<int>, flush: bool) -> G {
    let (a, b, c, d, e) = (r[0], r[1], r[2], r[3], r[4]);
    if distinct5(r) {
        if wheel5(r) { grp(if flush { 8 } else { 4 }, 3, 0, 0, 0, 0) }
        else if a - e == 4 { grp(if flush { 8 } else { 4 }, a, 0, 0, 0, 0) }
        else { grp(if flush { 5 } else { 0 }, a, b, c, d, e) }
    }
    else if a == d { grp(7, a, e, 0, 0, 0) }
    else if b == e { grp(7, b, a, 0, 0, 0) }
    else if a == c && d == e { grp(6, a, d, 0, 0, 0) }
    else if a == b && c == e { grp(6, c, a, 0, 0, 0) }
    else if a == c { grp(3, a, d, e, 0, 0) }
    else if b == d { grp(3, b, a, e, 0, 0) }
    else if c == e { grp(3, c, a, b, 0, 0) }
    else if a == b && c == d { grp(2, a, c, e, 0, 0) }
    else if a == b && d == e { grp(2, a, d, c, 0, 0) }
    else if b == c && d == e { grp(2, b, d, a, 0, 0) }
    else if a == b { grp(1, a, c, d, e, 0) }
    else if b == c { grp(1, b, a, d, e, 0) }
    else if c == d { grp(1, c, a, b, e, 0) }
    else { grp(1, d, a, b, c, 0) }
}
/// the class a user sees
pub open spec fn class_of(g: G) -> EvalClass {
    if g.cat == 8 { EvalClass::StraightFlush { high_rank: rank_at(g.g1) } }
    else if g.cat == 7 { EvalClass::FourOfAKind { quads: rank_at(g.g1) } }
    else if g.cat == 6 { EvalClass::FullHouse { trips: rank_at(g.g1), pair: rank_at(g.g2) } }
    else if g.cat == 5 { EvalClass::Flush { high_rank: rank_at(g.g1) } }
    else if g.cat == 4 { EvalClass::Straight { high_rank: rank_at(g.g1) } }
    else if g.cat == 3 { EvalClass::ThreeOfAKind { trips: rank_at(g.g1) } }
    else if g.cat == 2 { EvalClass::TwoPair { first_pair: rank_at(g.g1), second_pair: rank_at(g.g2) } }
    else if g.cat == 1 { EvalClass::Pair { pair: rank_at(g.g1) } }
    else { EvalClass::HighCard { high_rank: rank_at(g.g1) } }
}
/// comparison by the rules: category first, then the deciding ranks from the first on
pub open spec fn key(g: G) -> int {
    ((((g.cat * 13 + g.g1) * 13 + g.g2) * 13 + g.g3) * 13 + g.g4) * 13 + g.g5
}
/// what `groups` can return
pub open spec fn wfg(g: G) -> bool {
    0 <= g.cat <= 8 && 0 <= g.g1 <= 12 && 0 <= g.g2 <= 12 && 0 <= g.g3 <= 12 && 0 <= g.g4 <= 12 && 0 <= g.g5 <= 12
    && (g.cat == 8 || g.cat == 4 ==> g.g1 >= 3 && g.g2 == 0 && g.g3 == 0 && g.g4 == 0 && g.g5 == 0)
    && (g.cat == 7 || g.cat == 6 ==> g.g1 != g.g2 && g.g3 == 0 && g.g4 == 0 && g.g5 == 0)
    && (g.cat == 5 || g.cat == 0 ==> g.g1 > g.g2 > g.g3 > g.g4 > g.g5 && !straight5(seq![g.g1, g.g2, g.g3, g.g4, g.g5]))
    && (g.cat == 3 ==> g.g1 != g.g2 && g.g1 != g.g3 && g.g2 > g.g3 && g.g4 == 0 && g.g5 == 0)
    && (g.cat == 2 ==> g.g1 > g.g2 && g.g3 != g.g1 && g.g3 != g.g2 && g.g4 == 0 && g.g5 == 0)
    && (g.cat == 1 ==> g.g1 != g.g2 && g.g1 != g.g3 && g.g1 != g.g4 && g.g2 > g.g3 > g.g4 && g.g5 == 0)
}

// ---------------------------------------------------------------- standing: 1 (best) ... 7462 (worst)
/// number of ways to choose k of m
pub open spec fn nc(m: int, k: int) -> int
    decreases m
{
    if k <= 0 { 1 } else if m < k { 0 } else { nc(m - 1, k - 1) + nc(m - 1, k) }
}
/// position of the increasing sequence `c` among those of its length over lo..n, in lexicographic order
pub open spec fn pos(c: Seq<int>, lo: int, n: int) -> int
    decreases n - lo
{
    if c.len() == 0 || lo >= n { 0 }
    else if c[0] == lo { pos(c.drop_first(), lo + 1, n) }
    else { nc(n - lo - 1, c.len() - 1) + pos(c, lo + 1, n) }
}
/// position of rank k, from the ace down, when x (and y) are left out
pub open spec fn ix(k: int) -> int { 12 - k }
pub open spec fn ix1(k: int, x: int) -> int { 12 - k - (if k < x { 1int } else { 0int }) }
pub open spec fn ix2(k: int, x: int, y: int) -> int { 12 - k - (if k < x { 1int } else { 0int }) - (if k < y { 1int } else { 0int }) }

pub open spec fn bit(v: int, i: int) -> int { (v / p2(i)) % 2 }
pub open spec fn ones(v: int) -> int {
    v % 2 + (v / 2) % 2 + (v / 4) % 2 + (v / 8) % 2 + (v / 16) % 2 + (v / 32) % 2 + (v / 64) % 2 + (v / 128) % 2 + (v / 256) % 2 + (v / 512) % 2 + (v / 1024) % 2 + (v / 2048) % 2 + (v / 4096) % 2
}
pub open spec fn straight_bits(v: int) -> bool {
    v == 7936 || v == 3968 || v == 1984 || v == 992 || v == 496 || v == 248 || v == 124 || v == 62 || v == 31 || v == 4111
}
/// five ranks that are not a straight, as a bit set
pub open spec fn loose_bits(v: int) -> bool { ones(v) == 5 && !straight_bits(v) }
/// how many such sets there are above v (below 8192)
pub open spec fn cnt_above(v: int) -> int
    decreases 8192 - v
{
    if v >= 8191 { 0 } else { cnt_above(v + 1) + (if loose_bits(v + 1) { 1int } else { 0int }) }
}
/// bit set of five ranks
pub open spec fn set5(r: Seq<int>) -> int { p2(r[0]) + p2(r[1]) + p2(r[2]) + p2(r[3]) + p2(r[4]) }

pub open spec fn standing(g: G) -> int {
    if g.cat == 8 { 13 - g.g1 }
    else if g.cat == 7 { 11 + (12 - g.g1) * 12 + ix1(g.g2, g.g1) }
    else if g.cat == 6 { 167 + (12 - g.g1) * 12 + ix1(g.g2, g.g1) }
    else if g.cat == 5 { 323 + cnt_above(set5(seq![g.g1, g.g2, g.g3, g.g4, g.g5])) }
    else if g.cat == 4 { 1600 + 12 - g.g1 }
    else if g.cat == 3 { 1610 + (12 - g.g1) * 66 + pos(seq![ix1(g.g2, g.g1), ix1(g.g3, g.g1)], 0, 12) }
    else if g.cat == 2 { 2468 + pos(seq![ix(g.g1), ix(g.g2)], 0, 13) * 11 + ix2(g.g3, g.g1, g.g2) }
    else if g.cat == 1 { 3326 + (12 - g.g1) * 220 + pos(seq![ix1(g.g2, g.g1), ix1(g.g3, g.g1), ix1(g.g4, g.g1)], 0, 12) }
    else { 6186 + cnt_above(set5(seq![g.g1, g.g2, g.g3, g.g4, g.g5])) }
}
pub open spec fn best_of_cat(cat: int) -> int {
    if cat == 8 { 1 } else if cat == 7 { 11 } else if cat == 6 { 167 } else if cat == 5 { 323 } else if cat == 4 { 1600 }
    else if cat == 3 { 1610 } else if cat == 2 { 2468 } else if cat == 1 { 3326 } else { 6186 }
}
pub open spec fn worst_of_cat(cat: int) -> int {
    if cat == 8 { 10 } else if cat == 7 { 166 } else if cat == 6 { 322 } else if cat == 5 { 1599 } else if cat == 4 { 1609 }
    else if cat == 3 { 2467 } else if cat == 2 { 3325 } else if cat == 1 { 6185 } else { 7462 }
}

// ---------------------------------------------------------------- increasing sequences of indices
pub open spec fn inc(c: Seq<int>, lo: int, n: int) -> bool {
    (forall|i: int| 0 <= i < c.len() ==> lo <= #[trigger] c[i] < n) && (forall|i: int, j: int| 0 <= i < j < c.len() ==> #[trigger] c[i] < #[trigger] c[j])
}
pub proof fn lemma_nc_pos(m: int, k: int)
    requires 0 <= k <= m,
    ensures nc(m, k) >= 1,
    decreases m
{
    if k > 0 { lemma_nc_pos(m - 1, k - 1); lemma_nc_nonneg(m - 1, k); }
}
pub proof fn lemma_nc_nonneg(m: int, k: int)
    ensures nc(m, k) >= 0,
    decreases m
{
    if k > 0 && m >= k { lemma_nc_nonneg(m - 1, k - 1); lemma_nc_nonneg(m - 1, k); }
}
pub proof fn lemma_inc_len(c: Seq<int>, lo: int, n: int)
    requires inc(c, lo, n), lo <= n,
    ensures c.len() <= n - lo,
    decreases n - lo
{
    if c.len() > 0 {
        assert(lo <= c[0] < n);
        let d = c.drop_first();
        assert forall|i: int| 0 <= i < d.len() implies lo + 1 <= #[trigger] d[i] < n by { assert(c[0] < c[i + 1]); }
        assert forall|i: int, j: int| 0 <= i < j < d.len() implies #[trigger] d[i] < #[trigger] d[j] by { assert(c[i + 1] < c[j + 1]); }
        lemma_inc_len(d, lo + 1, n);
    }
}
pub proof fn lemma_inc_tail(c: Seq<int>, lo: int, n: int)
    requires inc(c, lo, n), c.len() > 0,
    ensures inc(c.drop_first(), c[0] + 1, n), inc(c.drop_first(), lo + 1, n), c[0] > lo ==> inc(c, lo + 1, n), lo < n,
{
    assert(lo <= c[0] < n);
    let d = c.drop_first();
    assert forall|i: int| 0 <= i < d.len() implies c[0] + 1 <= #[trigger] d[i] < n by { assert(c[0] < c[i + 1]); }
    assert forall|i: int, j: int| 0 <= i < j < d.len() implies #[trigger] d[i] < #[trigger] d[j] by { assert(c[i + 1] < c[j + 1]); }
    if c[0] > lo {
        assert forall|i: int| 0 <= i < c.len() implies lo + 1 <= #[trigger] c[i] < n by { if i > 0 { assert(c[0] < c[i]); } }
    }
}
pub proof fn lemma_pos_bounds(c: Seq<int>, lo: int, n: int)
    requires inc(c, lo, n), lo <= n,
    ensures 0 <= pos(c, lo, n) < nc(n - lo, c.len() as int),
    decreases n - lo
{
    lemma_inc_len(c, lo, n);
    if c.len() > 0 {
        lemma_inc_tail(c, lo, n);
        lemma_nc_nonneg(n - lo - 1, c.len() as int);
        lemma_nc_nonneg(n - lo - 1, c.len() - 1);
        if c[0] == lo { lemma_pos_bounds(c.drop_first(), lo + 1, n); }
        else { lemma_pos_bounds(c, lo + 1, n); }
    }
}
/// lexicographic order on sequences of the same length
pub open spec fn lex(a: Seq<int>, b: Seq<int>) -> bool
    decreases a.len()
{
    a.len() == b.len() && a.len() > 0 && (a[0] < b[0] || (a[0] == b[0] && lex(a.drop_first(), b.drop_first())))
}
pub proof fn lemma_pos_lex(a: Seq<int>, b: Seq<int>, lo: int, n: int)
    requires inc(a, lo, n), inc(b, lo, n), lo <= n, lex(a, b),
    ensures pos(a, lo, n) < pos(b, lo, n),
    decreases n - lo
{
    lemma_inc_tail(a, lo, n);
    lemma_inc_tail(b, lo, n);
    assert(lo <= a[0] < n && lo <= b[0] < n);
    if a[0] == lo {
        if b[0] == lo { lemma_pos_lex(a.drop_first(), b.drop_first(), lo + 1, n); }
        else {
            lemma_pos_bounds(a.drop_first(), lo + 1, n);
            lemma_pos_bounds(b, lo + 1, n);
        }
    } else {
        lemma_pos_lex(a, b, lo + 1, n);
    }
}
pub proof fn lemma_nc_values()
    ensures nc(12, 1) == 12, nc(12, 2) == 66, nc(13, 2) == 78, nc(12, 3) == 220,
{
    assert(nc(12, 1) == 12) by(compute);
    assert(nc(12, 2) == 66) by(compute);
    assert(nc(13, 2) == 78) by(compute);
    assert(nc(12, 3) == 220) by(compute);
}
}
