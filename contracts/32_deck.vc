@@ top
pub mod vxdeck {
use vstd::prelude::*;
use crate::vxspec::*;
use crate::card::{Card, Rank, Suit};
pub open spec fn rs(c: Card, r: Rank, s: Suit) -> bool { c.rk() == r && c.st() == s && c.wf() }
/// suit in declaration order
pub open spec fn suit_nth(n: int) -> Suit { if n == 0 { Suit::Clubs } else if n == 1 { Suit::Hearts } else if n == 2 { Suit::Spades } else { Suit::Diamonds } }
pub open spec fn suit_ix(s: Suit) -> int { match s { Suit::Clubs => 0, Suit::Hearts => 1, Suit::Spades => 2, Suit::Diamonds => 3 } }
/// deuce of clubs first, then by rank and suit
pub open spec fn is_deck(d: Seq<Card>) -> bool {
    d.len() == 52 && forall|i: int| 0 <= i < 52 ==> rs(#[trigger] d[i], rank_at(i / 4), suit_nth(i % 4))
}
pub open spec fn has(d: Seq<Card>, r: Rank, s: Suit) -> bool { exists|i: int| 0 <= i < d.len() && rs(#[trigger] d[i], r, s) }
/// every rank and suit combination exactly once
pub open spec fn full_deck(d: Seq<Card>) -> bool {
    d.len() == 52
    && (forall|i: int| 0 <= i < 52 ==> (#[trigger] d[i]).wf())
    && (forall|i: int, j: int| 0 <= i < j < 52 ==> (#[trigger] d[i]).rk() != (#[trigger] d[j]).rk() || d[i].st() != d[j].st())
    && (forall|r: Rank, s: Suit| #[trigger] has(d, r, s))
}
pub proof fn lemma_deck(d: Seq<Card>)
    requires is_deck(d),
    ensures full_deck(d), d.no_duplicates(),
{
    assert forall|i: int, j: int| 0 <= i < j < 52 implies (#[trigger] d[i]).rk() != (#[trigger] d[j]).rk() || d[i].st() != d[j].st() by {
        assert(rs(d[i], rank_at(i / 4), suit_nth(i % 4)) && rs(d[j], rank_at(j / 4), suit_nth(j % 4)));
        if rank_at(i / 4) == rank_at(j / 4) && suit_nth(i % 4) == suit_nth(j % 4) { assert(i / 4 == j / 4 && i % 4 == j % 4); }
    }
    assert forall|r: Rank, s: Suit| #[trigger] has(d, r, s) by {
        let i = rn(r) * 4 + suit_ix(s);
        assert(i / 4 == rn(r) && i % 4 == suit_ix(s));
        assert(rs(d[i], r, s));
    }
}
/// the deck is one sequence
pub proof fn lemma_deck_unique(d: Seq<Card>, e: Seq<Card>)
    requires is_deck(d), is_deck(e),
    ensures d =~= e,
{
    assert forall|i: int| 0 <= i < 52 implies d[i] == e[i] by {
        assert(rs(d[i], rank_at(i / 4), suit_nth(i % 4)) && rs(e[i], rank_at(i / 4), suit_nth(i % 4)));
        crate::card::lemma_card_eq(d[i], e[i]);
    }
}
/// a rearrangement of a deck is still the 52 cards, each once
pub proof fn lemma_deck_perm(d: Seq<Card>, p: Seq<Card>)
    requires full_deck(d), d.to_multiset() == p.to_multiset(),
    ensures full_deck(p),
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(p.len() == 52) by { d.to_multiset_ensures(); p.to_multiset_ensures(); }
    assert forall|i: int| 0 <= i < 52 implies (#[trigger] p[i]).wf() by {
        assert(p.contains(p[i]));
        assert(d.to_multiset().count(p[i]) > 0);
        assert(d.contains(p[i]));
        let k = d.index_of(p[i]);
        assert(d[k].wf());
    }
    assert(d.no_duplicates());
    d.lemma_multiset_has_no_duplicates();
    p.lemma_multiset_has_no_duplicates_conv();
    assert(p.no_duplicates());
    assert forall|i: int, j: int| 0 <= i < j < 52 implies (#[trigger] p[i]).rk() != (#[trigger] p[j]).rk() || p[i].st() != p[j].st() by {
        crate::card::lemma_card_eq(p[i], p[j]);
    }
    assert forall|r: Rank, s: Suit| #[trigger] has(p, r, s) by {
        assert(has(d, r, s));
        let k = choose|k: int| 0 <= k < d.len() && rs(#[trigger] d[k], r, s);
        assert(d.contains(d[k]));
        assert(p.to_multiset().count(d[k]) > 0);
        assert(p.contains(d[k]));
        let i = p.index_of(d[k]);
        assert(rs(p[i], r, s));
    }
}
}
@@ mod deck
use crate::vxdeck::*;
@@ fn deck::generate
@ret r
@spec
    ensures
        r.obeys_prophetic_iter_laws(), r.will_return_none() ==> is_deck(r.remaining()),
@closure 0 |p: (&Rank, &Suit)| -> (c: Card)
    ensures rs(c, *p.0, *p.1),
@tail
    proof {
        let rv = seq![Rank::Two, Rank::Three, Rank::Four, Rank::Five, Rank::Six, Rank::Seven, Rank::Eight, Rank::Nine, Rank::Ten, Rank::Jack, Rank::Queen, Rank::King, Rank::Ace];
        let sv = seq![Suit::Clubs, Suit::Hearts, Suit::Spades, Suit::Diamonds];
        assert forall|i: int| 0 <= i < 13 implies (#[trigger] rv[i]) == rank_at(i) by {}
        assert forall|i: int| 0 <= i < 4 implies (#[trigger] sv[i]) == suit_nth(i) by {}
        assert forall|a: Seq<&Rank>, b: Seq<&Suit>| a.len() == 13 && b.len() == 4 implies (#[trigger] crate::vxdeps::itertools::product_seq(a, b)).len() == 52 by {}
        assert(vx_r.will_return_none() ==> vx_r.remaining().len() == 52);
        assert forall|i: int| vx_r.will_return_none() && 0 <= i < 52 implies rs(#[trigger] vx_r.remaining()[i], rank_at(i / 4), suit_nth(i % 4)) by {
            assert(0 <= i / 4 < 13 && 0 <= i % 4 < 4);
            assert(rv[i / 4] == rank_at(i / 4));
            assert(sv[i % 4] == suit_nth(i % 4));
        }
    }
@@ fn deck::shuffled
@ret r
@spec
    ensures full_deck(r@),
@@ fn deck::shuffled_with
@ret r
@spec
    ensures full_deck(r@), exists|d: Seq<Card>| is_deck(d) && r@ == #[trigger] crate::vxdeps::rand::shuffled_seq(d, &*old(rng)),
@tail
    proof {
        let d = choose|d: Seq<Card>| is_deck(d) && vx_r@ == #[trigger] crate::vxdeps::rand::shuffled_seq(d, &*old(rng)) && vx_r@.to_multiset() == d.to_multiset();
        lemma_deck(d);
        lemma_deck_perm(d, vx_r@);
    }
