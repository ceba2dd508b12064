@@ top
// Texts of evaluations, and what the evaluator stores for a hand.
pub mod vxtext {
use vstd::prelude::*;
use crate::vxspec::*;
use crate::vxrules::*;
use crate::card::Rank;
use crate::evaluate::class::EvalClass;
use crate::evaluate::meta::Meta;
use crate::evaluate::hand_rank::PokerHandRank;

pub open spec fn class_text(c: EvalClass) -> Seq<char> {
    match c {
        EvalClass::HighCard { high_rank } => "High card, "@ + rank_word(high_rank),
        EvalClass::Pair { pair } => "Pair, "@ + rank_words(pair),
        EvalClass::TwoPair { first_pair, second_pair } => "Two pair, "@ + rank_words(first_pair) + " and "@ + rank_words(second_pair),
        EvalClass::ThreeOfAKind { trips } => "Three of a kind, "@ + rank_words(trips),
        EvalClass::Straight { high_rank } => "Straight, "@ + rank_word(high_rank) + "-high"@,
        EvalClass::Flush { high_rank } => "Flush, "@ + rank_word(high_rank) + "-high"@,
        EvalClass::FullHouse { trips, pair } => "Full house, "@ + rank_words(trips) + " over "@ + rank_words(pair),
        EvalClass::FourOfAKind { quads } => "Four of a kind, "@ + rank_words(quads),
        EvalClass::StraightFlush { high_rank } => if high_rank == Rank::Ace { "Royal flush"@ } else { "Straight flush, "@ + rank_word(high_rank) + "-high"@ },
    }
}
/// what is stored for a hand that amounts to g
pub open spec fn meta_of(g: G) -> Meta {
    let hand_rank = PokerHandRank(standing(g) as i16);
    if g.cat == 8 { Meta::StraightFlush { hand_rank, high_rank: rank_at(g.g1) } }
    else if g.cat == 7 { Meta::FourOfAKind { hand_rank, quads: rank_at(g.g1) } }
    else if g.cat == 6 { Meta::FullHouse { hand_rank, trips: rank_at(g.g1), pair: rank_at(g.g2) } }
    else if g.cat == 5 { Meta::Flush { hand_rank, high_rank: rank_at(g.g1) } }
    else if g.cat == 4 { Meta::Straight { hand_rank, high_rank: rank_at(g.g1) } }
    else if g.cat == 3 { Meta::ThreeOfAKind { hand_rank, trips: rank_at(g.g1) } }
    else if g.cat == 2 { Meta::TwoPair { hand_rank, high_pair: rank_at(g.g1), low_pair: rank_at(g.g2) } }
    else if g.cat == 1 { Meta::Pair { hand_rank, pair: rank_at(g.g1) } }
    else { Meta::HighCard { hand_rank, high_rank: rank_at(g.g1) } }
}
pub proof fn lemma_meta_of(g: G)
    requires wfg(g),
    ensures
        meta_of(g).hr() == standing(g),
        meta_of(g).cl() == class_of(g),
{
    crate::vxorder::lemma_standing_range(g);
}
}
@@ impl evaluate::class::<EvalClass as Display>
    open spec fn text(&self) -> Seq<char> { crate::vxtext::class_text(*self) }
@@ fn evaluate::class::<EvalClass as Display>::fmt
@start
        broadcast use crate::vxspec::group_cat;
        proof { reveal_strlit("High card, "); reveal_strlit("Pair, "); reveal_strlit("Two pair, "); reveal_strlit(" and "); reveal_strlit("Three of a kind, "); reveal_strlit("Straight, "); reveal_strlit("-high"); reveal_strlit("Flush, "); reveal_strlit("Full house, "); reveal_strlit(" over "); reveal_strlit("Four of a kind, "); reveal_strlit("Royal flush"); reveal_strlit("Straight flush, "); }
@@ mod evaluate::meta
impl Meta {
    /// 1 (best) ... 7462 (worst)
    pub open spec fn hr(self) -> int {
        match self {
            Meta::HighCard { hand_rank, .. } => hand_rank.0 as int,
            Meta::Pair { hand_rank, .. } => hand_rank.0 as int,
            Meta::TwoPair { hand_rank, .. } => hand_rank.0 as int,
            Meta::ThreeOfAKind { hand_rank, .. } => hand_rank.0 as int,
            Meta::Straight { hand_rank, .. } => hand_rank.0 as int,
            Meta::Flush { hand_rank, .. } => hand_rank.0 as int,
            Meta::FullHouse { hand_rank, .. } => hand_rank.0 as int,
            Meta::FourOfAKind { hand_rank, .. } => hand_rank.0 as int,
            Meta::StraightFlush { hand_rank, .. } => hand_rank.0 as int,
        }
    }
    pub open spec fn cl(self) -> EvalClass {
        match self {
            Meta::HighCard { high_rank, .. } => EvalClass::HighCard { high_rank },
            Meta::Pair { pair, .. } => EvalClass::Pair { pair },
            Meta::TwoPair { high_pair, low_pair, .. } => EvalClass::TwoPair { first_pair: high_pair, second_pair: low_pair },
            Meta::ThreeOfAKind { trips, .. } => EvalClass::ThreeOfAKind { trips },
            Meta::Straight { high_rank, .. } => EvalClass::Straight { high_rank },
            Meta::Flush { high_rank, .. } => EvalClass::Flush { high_rank },
            Meta::FullHouse { trips, pair, .. } => EvalClass::FullHouse { trips, pair },
            Meta::FourOfAKind { quads, .. } => EvalClass::FourOfAKind { quads },
            Meta::StraightFlush { high_rank, .. } => EvalClass::StraightFlush { high_rank },
        }
    }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for Meta {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Self) -> bool { self.hr() == other.hr() }
}
impl vstd::std_specs::cmp::PartialOrdSpecImpl for Meta {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, other: &Self) -> Option<Ordering> { Some(icmp(other.hr(), self.hr())) }
}
impl vstd::std_specs::cmp::OrdSpecImpl for Meta {
    open spec fn obeys_cmp_spec() -> bool { true }
    open spec fn cmp_spec(&self, other: &Self) -> Ordering { icmp(other.hr(), self.hr()) }
}
@@ fn evaluate::meta::Meta::hand_rank
@ret r
@spec
    ensures r.0 == self.hr(),
@@ fn evaluate::meta::Meta::class
@ret r
@spec
    ensures r == self.cl(),
@@ fn evaluate::meta::Meta::is_high_card
@ret r
@spec
    ensures r == (self is HighCard),
@@ fn evaluate::meta::Meta::is_pair
@ret r
@spec
    ensures r == (self is Pair),
@@ fn evaluate::meta::Meta::is_two_pair
@ret r
@spec
    ensures r == (self is TwoPair),
@@ fn evaluate::meta::Meta::is_three_of_a_kind
@ret r
@spec
    ensures r == (self is ThreeOfAKind),
@@ fn evaluate::meta::Meta::is_straight
@ret r
@spec
    ensures r == (self is Straight),
@@ fn evaluate::meta::Meta::is_flush
@ret r
@spec
    ensures r == (self is Flush),
@@ fn evaluate::meta::Meta::is_full_house
@ret r
@spec
    ensures r == (self is FullHouse),
@@ fn evaluate::meta::Meta::is_four_of_a_kind
@ret r
@spec
    ensures r == (self is FourOfAKind),
@@ fn evaluate::meta::Meta::is_straight_flush
@ret r
@spec
    ensures r == (self is StraightFlush),
@@ fn evaluate::meta::Meta::is_royal_flush
@ret r
@spec
    ensures r == (self is StraightFlush && self.hr() == 1),
@@ const evaluate::meta::Meta::BEST
    ensures Self::BEST == (Meta::StraightFlush { hand_rank: PokerHandRank(1), high_rank: Rank::Ace }),
@@ const evaluate::meta::Meta::WORST
    ensures Self::WORST == (Meta::HighCard { hand_rank: PokerHandRank(7462), high_rank: Rank::Seven }),
@@ fn evaluate::meta::<Meta as PartialEq>::eq
@@ fn evaluate::meta::<Meta as PartialOrd>::partial_cmp
@@ fn evaluate::meta::<Meta as Ord>::cmp
@@ impl evaluate::meta::<Meta as Hash>
    open spec fn feed(&self) -> Seq<int> { PokerHandRank(self.hr() as i16).feed() }
@@ fn evaluate::meta::<Meta as Hash>::hash
@@ impl evaluate::meta::<Meta as Display>
    open spec fn text(&self) -> Seq<char> { crate::vxtext::class_text(self.cl()) }
@@ fn evaluate::meta::<Meta as Display>::fmt

@@ const evaluate::hand_rank::PokerHandRank::BEST
@open
@@ const evaluate::hand_rank::PokerHandRank::WORST
@open
@@ fn evaluate::hand_rank::PokerHandRank::is_better_than
@ret r
@spec
    ensures r == (self.0 < other.0),
@@ fn evaluate::hand_rank::PokerHandRank::is_worse_than
@ret r
@spec
    ensures r == (self.0 > other.0),

@@ impl evaluate::eval::<Eval as Display>
    open spec fn text(&self) -> Seq<char> { crate::vxtext::class_text(self.0.cl()) }
@@ fn evaluate::eval::<Eval as Display>::fmt
@@ const evaluate::eval::Eval::BEST
    ensures Self::BEST.0 == (Meta::StraightFlush { hand_rank: PokerHandRank(1), high_rank: crate::card::Rank::Ace }),
@@ const evaluate::eval::Eval::WORST
    ensures Self::WORST.0 == (Meta::HighCard { hand_rank: PokerHandRank(7462), high_rank: crate::card::Rank::Seven }),
@@ fn evaluate::eval::Eval::hand_rank
@ret r
@spec
    ensures r.0 == self.0.hr(),
@@ fn evaluate::eval::Eval::class
@ret r
@spec
    ensures r == self.0.cl(),
@@ fn evaluate::eval::Eval::is_better_than
@ret r
@spec
    ensures r == (self.0.hr() < other.0.hr()),
@@ fn evaluate::eval::Eval::is_worse_than
@ret r
@spec
    ensures r == (self.0.hr() > other.0.hr()),
@@ fn evaluate::eval::Eval::is_equal_to
@ret r
@spec
    ensures r == (self.0.hr() == other.0.hr()),
@@ fn evaluate::eval::Eval::is_high_card
@ret r
@spec
    ensures r == (self.0 is HighCard),
@@ fn evaluate::eval::Eval::is_pair
@ret r
@spec
    ensures r == (self.0 is Pair),
@@ fn evaluate::eval::Eval::is_two_pair
@ret r
@spec
    ensures r == (self.0 is TwoPair),
@@ fn evaluate::eval::Eval::is_three_of_a_kind
@ret r
@spec
    ensures r == (self.0 is ThreeOfAKind),
@@ fn evaluate::eval::Eval::is_straight
@ret r
@spec
    ensures r == (self.0 is Straight),
@@ fn evaluate::eval::Eval::is_flush
@ret r
@spec
    ensures r == (self.0 is Flush),
@@ fn evaluate::eval::Eval::is_full_house
@ret r
@spec
    ensures r == (self.0 is FullHouse),
@@ fn evaluate::eval::Eval::is_four_of_a_kind
@ret r
@spec
    ensures r == (self.0 is FourOfAKind),
@@ fn evaluate::eval::Eval::is_straight_flush
@ret r
@spec
    ensures r == (self.0 is StraightFlush),
@@ fn evaluate::eval::Eval::is_royal_flush
@ret r
@spec
    ensures r == (self.0 is StraightFlush && self.0.hr() == 1),
