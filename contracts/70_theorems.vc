@@ top
// The properties, as theorems over the contracts: what follows for a user from `evaluated` (the contract of evaluate) and from the
// contracts of the comparisons, questions and classes.
pub mod vxthm {
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use core::cmp::Ordering;
use crate::vxspec::*;
use crate::vxrules::*;
use crate::vxorder::*;
use crate::vxtab::*;
use crate::vxbits::*;
use crate::vxcombos::*;
use crate::vxhand::*;
use crate::vxtext::*;
use crate::card::{Card, Rank, Suit};
use crate::error::EvalError;
use crate::evaluate::class::EvalClass;
use crate::evaluate::eval::Eval;
use crate::evaluate::meta::Meta;
use crate::evaluate::hand_rank::PokerHandRank;
use crate::evaluate::evaluation::{evaluated, worst_group, lemma_worst};
use crate::evaluate::utils::{distinct_cards, hand_ranks};

/// an evaluation that belongs to a possible hand; evaluate returns nothing else (evaluated_possible), and so are BEST and WORST
pub open spec fn possible(e: Eval) -> bool { exists|g: G| #[trigger] wfg(g) && e.0 == meta_of(g) }
pub proof fn of(e: Eval) -> (g: G)
    requires possible(e),
    ensures wfg(g), e.0 == meta_of(g), e.0.hr() == standing(g), e.0.cl() == class_of(g), 1 <= standing(g) <= 7462,
{
    let g = choose|g: G| #[trigger] wfg(g) && e.0 == meta_of(g);
    lemma_meta_of(g);
    lemma_standing_range(g);
    g
}
pub proof fn lemma_is_best(s: Seq<Card>)
    requires legal(s),
    ensures is_best(s, value(s)), wfg(value(s)), meta_of(value(s)).hr() == standing(value(s)), meta_of(value(s)).cl() == class_of(value(s)),
{
    lemma_exists_best(s);
    let g = choose|g: G| is_best(s, g);
    lemma_best(s, g);
    let c = choose|c: Seq<int>| sel(c, s.len() as int) && value5(#[trigger] pick(s, c)) == g;
    lemma_pick(s, c);
    lemma_meta_of(g);
}
/// among finitely many selections one is best
pub open spec fn best_upto(s: Seq<Card>, k: int, g: G) -> bool {
    &&& exists|c: Seq<int>| sel(c, s.len() as int) && value5(#[trigger] pick(s, c)) == g
    &&& forall|i: int| 0 <= i < k ==> standing(g) <= standing(value5(pick(s, #[trigger] unrank(i, 5, 0, s.len() as int))))
}
pub proof fn lemma_best_upto(s: Seq<Card>, k: int) -> (g: G)
    requires legal(s), 1 <= k <= nc(s.len() as int, 5),
    ensures best_upto(s, k, g),
    decreases k
{
    let n = s.len() as int;
    let c = unrank(k - 1, 5, 0, n);
    lemma_unrank(k - 1, 5, 0, n);
    let h = value5(pick(s, c));
    if k == 1 { h } else {
        let g = lemma_best_upto(s, k - 1);
        if standing(g) <= standing(h) { g } else { h }
    }
}
pub proof fn lemma_exists_best(s: Seq<Card>)
    requires legal(s),
    ensures exists|g: G| is_best(s, g),
{
    let n = s.len() as int;
    lemma_nc_pos(n, 5);
    let g = lemma_best_upto(s, nc(n, 5));
    assert forall|c: Seq<int>| sel(c, n) implies standing(g) <= standing(value5(#[trigger] pick(s, c))) by {
        lemma_unrank_pos(c, 0, n);
        lemma_pos_bounds(c, 0, n);
        assert(unrank(pos(c, 0, n), 5, 0, n) == c);
    }
    assert(is_best(s, g));
}
pub proof fn lemma_possible(s: Seq<Card>, r: Result<Eval, EvalError>)
    requires evaluated(s, r), r is Ok,
    ensures legal(s), possible(r->Ok_0), r->Ok_0.0.hr() == standing(value(s)), r->Ok_0.0.cl() == class_of(value(s)), wfg(value(s)),
{ lemma_is_best(s); }

// -------------------- C12, C22: a set within another, up to the names of the suits
/// m sends every card of s to a card of t: the same rank, and suits agree exactly where they agreed
pub open spec fn embeds(s: Seq<Card>, t: Seq<Card>, m: spec_fn(int) -> int) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> 0 <= #[trigger] m(i) < t.len() && t[m(i)].rk() == s[i].rk()
    &&& forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() ==> (t[#[trigger] m(i)].st() == t[#[trigger] m(j)].st() <==> s[i].st() == s[j].st())
}
pub proof fn lemma_map_perm(a: Seq<int>, b: Seq<int>, f: spec_fn(int) -> int)
    requires a.to_multiset() == b.to_multiset(),
    ensures a.map_values(f).to_multiset() == b.map_values(f).to_multiset(),
    decreases a.len()
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(a.len() == a.to_multiset().len() && b.len() == b.to_multiset().len());
    if a.len() == 0 { assert(a.map_values(f) =~= b.map_values(f)); } else {
        let x = a[0];
        assert(a.contains(x));
        assert(b.to_multiset().count(x) > 0);
        let k = choose|k: int| 0 <= k < b.len() && b[k] == x;
        let (a1, b1) = (a.remove(0), b.remove(k));
        assert(a1.to_multiset() =~= a.to_multiset().remove(x));
        assert(b1.to_multiset() =~= b.to_multiset().remove(x));
        lemma_map_perm(a1, b1, f);
        let (fa, fb) = (a.map_values(f), b.map_values(f));
        assert(fa.remove(0) =~= a1.map_values(f));
        assert(fb.remove(k) =~= b1.map_values(f));
        assert(fa.remove(0).to_multiset() =~= fa.to_multiset().remove(f(x)));
        assert(fb.remove(k).to_multiset() =~= fb.to_multiset().remove(f(x)));
        assert(fa.contains(fa[0]) && fb.contains(fb[k]));
        assert(fa.to_multiset() =~= fa.to_multiset().remove(f(x)).insert(f(x)));
        assert(fb.to_multiset() =~= fb.to_multiset().remove(f(x)).insert(f(x)));
    }
}
pub proof fn lemma_embed(s: Seq<Card>, t: Seq<Card>, m: spec_fn(int) -> int)
    requires legal(s), legal(t), embeds(s, t, m),
    ensures standing(value(t)) <= standing(value(s)),
{
    lemma_is_best(s);
    lemma_is_best(t);
    let n = s.len() as int;
    let c = choose|c: Seq<int>| sel(c, n) && value5(#[trigger] pick(s, c)) == value(s);
    let h = pick(s, c);
    lemma_pick(s, c);
    // the indices in t, and in ascending order
    let e = c.map_values(m);
    let leq = |a: int, b: int| a <= b;
    let d = e.sort_by(leq);
    e.lemma_sort_by_ensures(leq);
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(d.len() == 5) by { assert(d.to_multiset() == e.to_multiset()); assert(d.len() == d.to_multiset().len()); }
    assert forall|i: int, j: int| 0 <= i < j < 5 implies e[i] != e[j] by {
        let (x, y) = (c[i], c[j]);
        assert(x < y && 0 <= x && y < n);
        assert(s[x].rk() != s[y].rk() || s[x].st() != s[y].st());
        assert(m(x) == e[i] && m(y) == e[j]);
    }
    e.lemma_multiset_has_no_duplicates();
    d.lemma_multiset_has_no_duplicates_conv();
    assert forall|i: int| 0 <= i < 5 implies 0 <= #[trigger] d[i] < t.len() && e.contains(d[i]) by {
        assert(d.contains(d[i]));
        assert(e.to_multiset().count(d[i]) > 0);
        let j = choose|j: int| 0 <= j < 5 && e[j] == d[i];
        assert(0 <= c[j] < n && m(c[j]) == e[j]);
    }
    assert forall|i: int, j: int| 0 <= i < j < 5 implies #[trigger] d[i] < #[trigger] d[j] by { assert(leq(d[i], d[j])); assert(d[i] != d[j]); }
    assert(sel(d, t.len() as int));
    let q = pick(t, d);
    lemma_pick(t, d);
    // the ranks are the same
    let f = |i: int| rn(t[i].rk());
    lemma_map_perm(e, d, f);
    assert(hand_ranks(h) =~= e.map_values(f)) by { assert forall|i: int| 0 <= i < 5 implies hand_ranks(h)[i] == e.map_values(f)[i] by { assert(0 <= c[i] < n && m(c[i]) == e[i]); } }
    assert(hand_ranks(q) =~= d.map_values(f));
    lemma_sorted_perm(hand_ranks(h), hand_ranks(q));
    // and so is whether the suits agree
    assert(same_suit(h) == same_suit(q)) by {
        assert forall|i: int| 0 <= i < 5 implies e.contains(#[trigger] d[i]) by { }
        let j0 = choose|j: int| 0 <= j < 5 && e[j] == d[0];
        assert(0 <= c[0] < n && m(c[0]) == e[0] && 0 <= c[j0] < n && m(c[j0]) == e[j0]);
        if same_suit(h) {
            assert forall|i: int| 0 <= i < 5 implies (#[trigger] q[i]).st() == q[0].st() by {
                assert(e.contains(d[i]));
                let j = choose|j: int| 0 <= j < 5 && e[j] == d[i];
                assert(0 <= c[j] < n && m(c[j]) == e[j]);
                assert(h[j].st() == h[0].st() && h[j0].st() == h[0].st());
            }
        }
        if same_suit(q) {
            assert forall|i: int| 0 <= i < 5 implies (#[trigger] h[i]).st() == h[0].st() by {
                assert(e.contains(e[i]) && e.contains(e[0]));
                assert(d.to_multiset().count(e[i]) > 0 && d.to_multiset().count(e[0]) > 0);
                let j = choose|j: int| 0 <= j < 5 && d[j] == e[i];
                let k = choose|k: int| 0 <= k < 5 && d[k] == e[0];
                assert(0 <= c[i] < n && m(c[i]) == e[i]);
                assert(q[j].st() == q[0].st() && q[k].st() == q[0].st());
            }
        }
    }
    assert(value5(q) == value5(h));
}
}
// C08
pub mod vxc08 {
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use core::cmp::Ordering;
use crate::vxspec::*;
use crate::vxrules::*;
use crate::vxorder::*;
use crate::vxtab::*;
use crate::vxbits::*;
use crate::vxcombos::*;
use crate::vxhand::*;
use crate::vxtext::*;
use crate::card::{Card, Rank, Suit};
use crate::error::EvalError;
use crate::evaluate::class::EvalClass;
use crate::evaluate::eval::Eval;
use crate::evaluate::meta::Meta;
use crate::evaluate::hand_rank::PokerHandRank;
use crate::evaluate::evaluation::{evaluated, worst_group, lemma_worst};
use crate::evaluate::utils::{distinct_cards, hand_ranks};
use crate::vxthm::*;
pub proof fn c08_results(s: Seq<Card>, r: Result<Eval, EvalError>)
    requires evaluated(s, r),
    ensures
        !distinct_cards(s) <==> r is Err && r->Err_0 is CardsNotUnique,
        !distinct_cards(s) ==> r->Err_0->CardsNotUnique_0@ == s,
        distinct_cards(s) && s.len() < 5 ==> r is Err && r->Err_0 is InvalidHandSize && r->Err_0->InvalidHandSize_0 == s.len(),
        r is Ok <==> legal(s),
{ }
}
// C09
pub mod vxc09 {
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use core::cmp::Ordering;
use crate::vxspec::*;
use crate::vxrules::*;
use crate::vxorder::*;
use crate::vxtab::*;
use crate::vxbits::*;
use crate::vxcombos::*;
use crate::vxhand::*;
use crate::vxtext::*;
use crate::card::{Card, Rank, Suit};
use crate::error::EvalError;
use crate::evaluate::class::EvalClass;
use crate::evaluate::eval::Eval;
use crate::evaluate::meta::Meta;
use crate::evaluate::hand_rank::PokerHandRank;
use crate::evaluate::evaluation::{evaluated, worst_group, lemma_worst};
use crate::evaluate::utils::{distinct_cards, hand_ranks};
use crate::vxthm::*;
pub proof fn c09_class(s: Seq<Card>, r: Result<Eval, EvalError>)
    requires evaluated(s, r), s.len() == 5, distinct_cards(s),
    ensures r is Ok, r->Ok_0.0.cl() == class_of(value5(s)),
{ lemma_best5(s); lemma_is_best(s); }
}
// C10
pub mod vxc10 {
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use core::cmp::Ordering;
use crate::vxspec::*;
use crate::vxrules::*;
use crate::vxorder::*;
use crate::vxtab::*;
use crate::vxbits::*;
use crate::vxcombos::*;
use crate::vxhand::*;
use crate::vxtext::*;
use crate::card::{Card, Rank, Suit};
use crate::error::EvalError;
use crate::evaluate::class::EvalClass;
use crate::evaluate::eval::Eval;
use crate::evaluate::meta::Meta;
use crate::evaluate::hand_rank::PokerHandRank;
use crate::evaluate::evaluation::{evaluated, worst_group, lemma_worst};
use crate::evaluate::utils::{distinct_cards, hand_ranks};
use crate::vxthm::*;
pub proof fn c10_compare(s: Seq<Card>, t: Seq<Card>, a: Result<Eval, EvalError>, b: Result<Eval, EvalError>)
    requires evaluated(s, a), evaluated(t, b), s.len() == 5, t.len() == 5, distinct_cards(s), distinct_cards(t),
    ensures
        a is Ok, b is Ok,
        // better (the contract of is_better_than) exactly when the rules say so
        a->Ok_0.0.hr() < b->Ok_0.0.hr() <==> key(value5(s)) > key(value5(t)),
        a->Ok_0.0.hr() > b->Ok_0.0.hr() <==> key(value5(s)) < key(value5(t)),
        a->Ok_0.0.hr() == b->Ok_0.0.hr() <==> value5(s).cat == value5(t).cat && top5(s) == top5(t),
{
    lemma_best5(s); lemma_is_best(s);
    lemma_best5(t); lemma_is_best(t);
    lemma_order(value5(s), value5(t));
    lemma_order(value5(t), value5(s));
    lemma_value5(s);
    lemma_value5(t);
    if value5(s).cat == value5(t).cat && top5(s) == top5(t) { assert(same_suit(s) == same_suit(t)); }
}
}
// C11
pub mod vxc11 {
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use core::cmp::Ordering;
use crate::vxspec::*;
use crate::vxrules::*;
use crate::vxorder::*;
use crate::vxtab::*;
use crate::vxbits::*;
use crate::vxcombos::*;
use crate::vxhand::*;
use crate::vxtext::*;
use crate::card::{Card, Rank, Suit};
use crate::error::EvalError;
use crate::evaluate::class::EvalClass;
use crate::evaluate::eval::Eval;
use crate::evaluate::meta::Meta;
use crate::evaluate::hand_rank::PokerHandRank;
use crate::evaluate::evaluation::{evaluated, worst_group, lemma_worst};
use crate::evaluate::utils::{distinct_cards, hand_ranks};
use crate::vxthm::*;
pub proof fn c11_best(s: Seq<Card>, r: Result<Eval, EvalError>)
    requires evaluated(s, r), legal(s),
    ensures
        r is Ok,
        // the evaluation of some five of the cards ...
        exists|c: Seq<int>| sel(c, s.len() as int) && evaluated(#[trigger] pick(s, c), r),
        // ... and none evaluates better
        forall|c: Seq<int>, q: Result<Eval, EvalError>| sel(c, s.len() as int) && #[trigger] evaluated(pick(s, c), q) ==> q is Ok && q->Ok_0.0.hr() >= r->Ok_0.0.hr(),
{
    lemma_is_best(s);
    let n = s.len() as int;
    let c = choose|c: Seq<int>| sel(c, n) && value5(#[trigger] pick(s, c)) == value(s);
    lemma_pick(s, c);
    lemma_best5(pick(s, c));
    assert(evaluated(pick(s, c), r));
    assert forall|c: Seq<int>, q: Result<Eval, EvalError>| sel(c, n) && #[trigger] evaluated(pick(s, c), q) implies q is Ok && q->Ok_0.0.hr() >= r->Ok_0.0.hr() by {
        lemma_pick(s, c);
        lemma_best5(pick(s, c));
        lemma_is_best(pick(s, c));
    }
}
}
// C12
pub mod vxc12 {
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use core::cmp::Ordering;
use crate::vxspec::*;
use crate::vxrules::*;
use crate::vxorder::*;
use crate::vxtab::*;
use crate::vxbits::*;
use crate::vxcombos::*;
use crate::vxhand::*;
use crate::vxtext::*;
use crate::card::{Card, Rank, Suit};
use crate::error::EvalError;
use crate::evaluate::class::EvalClass;
use crate::evaluate::eval::Eval;
use crate::evaluate::meta::Meta;
use crate::evaluate::hand_rank::PokerHandRank;
use crate::evaluate::evaluation::{evaluated, worst_group, lemma_worst};
use crate::evaluate::utils::{distinct_cards, hand_ranks};
use crate::vxthm::*;
/// the same cards in another order
pub proof fn c12_order(s: Seq<Card>, t: Seq<Card>, a: Result<Eval, EvalError>, b: Result<Eval, EvalError>)
    requires legal(s), s.to_multiset() == t.to_multiset(), evaluated(s, a), evaluated(t, b),
    ensures a is Ok, b is Ok, a->Ok_0 == b->Ok_0, a->Ok_0.0.hr() == b->Ok_0.0.hr(), a->Ok_0.0.cl() == b->Ok_0.0.cl(),
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(t.len() == t.to_multiset().len() && s.len() == s.to_multiset().len());
    assert(s.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j implies s[i] != s[j] by { if i < j { assert(s[i].rk() != s[j].rk() || s[i].st() != s[j].st()); } else { assert(s[j].rk() != s[i].rk() || s[j].st() != s[i].st()); } } }
    s.lemma_multiset_has_no_duplicates();
    t.lemma_multiset_has_no_duplicates_conv();
    let m = |i: int| choose|j: int| 0 <= j < t.len() && t[j] == s[i];
    let w = |i: int| choose|j: int| 0 <= j < s.len() && s[j] == t[i];
    assert forall|i: int| 0 <= i < s.len() implies 0 <= #[trigger] m(i) < t.len() && t[m(i)] == s[i] by { assert(s.contains(s[i])); assert(t.to_multiset().count(s[i]) > 0); assert(t.contains(s[i])); }
    assert forall|i: int| 0 <= i < t.len() implies 0 <= #[trigger] w(i) < s.len() && s[w(i)] == t[i] by { assert(t.contains(t[i])); assert(s.to_multiset().count(t[i]) > 0); assert(s.contains(t[i])); }
    assert(distinct_cards(t)) by {
        assert forall|i: int, j: int| 0 <= i < j < t.len() implies (#[trigger] t[i]).rk() != (#[trigger] t[j]).rk() || t[i].st() != t[j].st() by {
            let (x, y) = (w(i), w(j));
            assert(t[i] != t[j]);
            if x < y { assert(s[x].rk() != s[y].rk() || s[x].st() != s[y].st()); } else { assert(s[y].rk() != s[x].rk() || s[y].st() != s[x].st()); }
        }
    }
    lemma_embed(s, t, m);
    lemma_embed(t, s, w);
    lemma_is_best(s);
    lemma_is_best(t);
    lemma_order(value(s), value(t));
}
/// the suits renamed
pub proof fn c12_suits(s: Seq<Card>, t: Seq<Card>, name: spec_fn(Suit) -> Suit, a: Result<Eval, EvalError>, b: Result<Eval, EvalError>)
    requires
        legal(s), s.len() == t.len(), forall|x: Suit, y: Suit| #[trigger] name(x) == #[trigger] name(y) ==> x == y,
        forall|i: int| 0 <= i < s.len() ==> (#[trigger] t[i]).rk() == s[i].rk() && t[i].st() == name(s[i].st()),
        evaluated(s, a), evaluated(t, b),
    ensures a is Ok, b is Ok, a->Ok_0 == b->Ok_0, a->Ok_0.0.hr() == b->Ok_0.0.hr(), a->Ok_0.0.cl() == b->Ok_0.0.cl(),
{
    let m = |i: int| i;
    assert(distinct_cards(t)) by {
        assert forall|i: int, j: int| 0 <= i < j < t.len() implies (#[trigger] t[i]).rk() != (#[trigger] t[j]).rk() || t[i].st() != t[j].st() by {
            assert(s[i].rk() != s[j].rk() || s[i].st() != s[j].st());
            assert(t[i].st() == name(s[i].st()) && t[j].st() == name(s[j].st()));
        }
    }
    assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() implies (t[#[trigger] m(i)].st() == t[#[trigger] m(j)].st() <==> s[i].st() == s[j].st()) by {
        assert(t[i].st() == name(s[i].st()) && t[j].st() == name(s[j].st()));
    }
    assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() implies (s[#[trigger] m(i)].st() == s[#[trigger] m(j)].st() <==> t[i].st() == t[j].st()) by {
        assert(t[i].st() == name(s[i].st()) && t[j].st() == name(s[j].st()));
    }
    lemma_embed(s, t, m);
    lemma_embed(t, s, m);
    lemma_is_best(s);
    lemma_is_best(t);
    lemma_order(value(s), value(t));
}
}
// C22
pub mod vxc22 {
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use core::cmp::Ordering;
use crate::vxspec::*;
use crate::vxrules::*;
use crate::vxorder::*;
use crate::vxtab::*;
use crate::vxbits::*;
use crate::vxcombos::*;
use crate::vxhand::*;
use crate::vxtext::*;
use crate::card::{Card, Rank, Suit};
use crate::error::EvalError;
use crate::evaluate::class::EvalClass;
use crate::evaluate::eval::Eval;
use crate::evaluate::meta::Meta;
use crate::evaluate::hand_rank::PokerHandRank;
use crate::evaluate::evaluation::{evaluated, worst_group, lemma_worst};
use crate::evaluate::utils::{distinct_cards, hand_ranks};
use crate::vxthm::*;
pub proof fn c22_more(s: Seq<Card>, t: Seq<Card>, a: Result<Eval, EvalError>, b: Result<Eval, EvalError>)
    requires legal(s), legal(t), forall|i: int| 0 <= i < s.len() ==> t.contains(#[trigger] s[i]), evaluated(s, a), evaluated(t, b),
    ensures a is Ok, b is Ok, b->Ok_0.0.hr() <= a->Ok_0.0.hr(),
{
    let m = |i: int| choose|j: int| 0 <= j < t.len() && t[j] == s[i];
    assert forall|i: int| 0 <= i < s.len() implies 0 <= #[trigger] m(i) < t.len() && t[m(i)] == s[i] by { assert(t.contains(s[i])); }
    lemma_embed(s, t, m);
    lemma_is_best(s);
    lemma_is_best(t);
}
}
// C13, as a client of the comparisons
pub mod vxc13 {
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use core::cmp::Ordering;
use crate::vxspec::*;
use crate::vxrules::*;
use crate::vxorder::*;
use crate::vxtab::*;
use crate::vxbits::*;
use crate::vxcombos::*;
use crate::vxhand::*;
use crate::vxtext::*;
use crate::card::{Card, Rank, Suit};
use crate::error::EvalError;
use crate::evaluate::class::EvalClass;
use crate::evaluate::eval::Eval;
use crate::evaluate::meta::Meta;
use crate::evaluate::hand_rank::PokerHandRank;
use crate::evaluate::evaluation::{evaluated, worst_group, lemma_worst};
use crate::evaluate::utils::{distinct_cards, hand_ranks};
use crate::vxthm::*;
pub fn c13_compare(a: Eval, b: Eval)
{
    let (better, worse, tied) = (a.is_better_than(b), a.is_worse_than(b), a.is_equal_to(b));
    assert(better || worse || tied);
    assert(!(better && worse) && !(better && tied) && !(worse && tied));
    let (lt, le, gt, ge, eq, ne) = (a < b, a <= b, a > b, a >= b, a == b, a != b);
    assert(gt == better && lt == worse && eq == tied);
    assert(le == (worse || tied) && ge == (better || tied) && ne == !tied);
    let c = a.cmp(&b);
    assert(c == (if better { Ordering::Greater } else if worse { Ordering::Less } else { Ordering::Equal }));
    let p = a.partial_cmp(&b);
    assert(p == Some(c));
}
pub fn c13_transitive(a: Eval, b: Eval, c: Eval)
{
    let (x, y, z) = (a >= b, b >= c, a >= c);
    assert(x && y ==> z);
    let (x, y, z) = (a == b, b == c, a == c);
    assert(x && y ==> z);
    let r = a == a;
    assert(r);
}
pub proof fn c13_equal(a: Eval, b: Eval)
    requires possible(a), possible(b), PartialEqSpec::eq_spec(&a, &b),
    ensures a.0.cl() == b.0.cl(), crate::vxdeps::hash::Hash::feed(&a) == crate::vxdeps::hash::Hash::feed(&b), a == b,
{
    let (g, h) = (of(a), of(b));
    lemma_order(g, h);
}
}
// C14
pub mod vxc14 {
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use core::cmp::Ordering;
use crate::vxspec::*;
use crate::vxrules::*;
use crate::vxorder::*;
use crate::vxtab::*;
use crate::vxbits::*;
use crate::vxcombos::*;
use crate::vxhand::*;
use crate::vxtext::*;
use crate::card::{Card, Rank, Suit};
use crate::error::EvalError;
use crate::evaluate::class::EvalClass;
use crate::evaluate::eval::Eval;
use crate::evaluate::meta::Meta;
use crate::evaluate::hand_rank::PokerHandRank;
use crate::evaluate::evaluation::{evaluated, worst_group, lemma_worst};
use crate::evaluate::utils::{distinct_cards, hand_ranks};
use crate::vxthm::*;
pub open spec fn n(b: bool) -> int { if b { 1 } else { 0 } }
pub fn c14_questions(e: Eval)
    requires possible(e),
{
    let (q0, q1, q2, q3, q4) = (e.is_high_card(), e.is_pair(), e.is_two_pair(), e.is_three_of_a_kind(), e.is_straight());
    let (q5, q6, q7, q8, royal) = (e.is_flush(), e.is_full_house(), e.is_four_of_a_kind(), e.is_straight_flush(), e.is_royal_flush());
    assert(n(q0) + n(q1) + n(q2) + n(q3) + n(q4) + n(q5) + n(q6) + n(q7) + n(q8) == 1);
    let c = e.class();
    assert(q0 == (c is HighCard) && q1 == (c is Pair) && q2 == (c is TwoPair) && q3 == (c is ThreeOfAKind) && q4 == (c is Straight) && q5 == (c is Flush)
        && q6 == (c is FullHouse) && q7 == (c is FourOfAKind) && q8 == (c is StraightFlush));
    proof { let g = of(e); lemma_one(g); lemma_best_const(); }
    assert(royal == (c matches EvalClass::StraightFlush { high_rank } && high_rank == Rank::Ace));
    let same = e == Eval::BEST;
    assert(same == royal);
}
pub proof fn lemma_one(g: G)
    requires wfg(g),
    ensures standing(g) == 1 <==> g.cat == 8 && g.g1 == 12, g.cat == 8 ==> (rank_at(g.g1) == Rank::Ace <==> g.g1 == 12),
{ lemma_standing_range(g); }
pub proof fn lemma_best_const()
    ensures meta_of(grp(8, 12, 0, 0, 0, 0)) == (Meta::StraightFlush { hand_rank: PokerHandRank(1), high_rank: Rank::Ace }),
{ }
}
// C15
pub mod vxc15 {
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use core::cmp::Ordering;
use crate::vxspec::*;
use crate::vxrules::*;
use crate::vxorder::*;
use crate::vxtab::*;
use crate::vxbits::*;
use crate::vxcombos::*;
use crate::vxhand::*;
use crate::vxtext::*;
use crate::card::{Card, Rank, Suit};
use crate::error::EvalError;
use crate::evaluate::class::EvalClass;
use crate::evaluate::eval::Eval;
use crate::evaluate::meta::Meta;
use crate::evaluate::hand_rank::PokerHandRank;
use crate::evaluate::evaluation::{evaluated, worst_group, lemma_worst};
use crate::evaluate::utils::{distinct_cards, hand_ranks};
use crate::vxthm::*;
pub open spec fn royal(h: Seq<Card>) -> bool { h.len() == 5 && same_suit(h) && top5(h) == seq![12int, 11, 10, 9, 8] }
pub open spec fn seven_five(h: Seq<Card>) -> bool { h.len() == 5 && !same_suit(h) && top5(h) == seq![5int, 3, 2, 1, 0] }
pub open spec fn best_group() -> G { grp(8, 12, 0, 0, 0, 0) }
pub proof fn lemma_royal(h: Seq<Card>)
    requires h.len() == 5, distinct_cards(h),
    ensures value5(h) == best_group() <==> royal(h), value5(h) == worst_group() <==> seven_five(h), standing(value5(h)) == 1 <==> royal(h), standing(value5(h)) == 7462 <==> seven_five(h),
{
    lemma_value5(h);
    lemma_worst();
    lemma_order(value5(h), best_group());
    lemma_order(value5(h), worst_group());
    assert(ranks(best_group()) =~= seq![12int, 11, 10, 9, 8]);
    assert(ranks(worst_group()) =~= seq![5int, 3, 2, 1, 0]);
}
pub fn c15_bounds(e: Eval)
    requires possible(e),
{
    let (b, w) = (Eval::BEST, Eval::WORST);
    proof { let g = of(e); lemma_worst(); }
    let (x, y) = (e <= b, e >= w);
    assert(x && y);
}
pub fn c15_possible() -> (r: (Eval, Eval))
    ensures possible(r.0), possible(r.1), r.0.0.hr() == 1, r.1.0.hr() == 7462, r.0.0 == meta_of(best_group()), r.1.0 == meta_of(worst_group()),
{
    proof { lemma_worst(); assert(wfg(best_group())); assert(wfg(worst_group())); }
    (Eval::BEST, Eval::WORST)
}
/// the best: exactly the sets with a royal flush among them
pub proof fn c15_best(s: Seq<Card>, r: Result<Eval, EvalError>)
    requires legal(s), evaluated(s, r),
    ensures
        r is Ok,
        r->Ok_0.0.hr() == 1 <==> exists|c: Seq<int>| sel(c, s.len() as int) && royal(#[trigger] pick(s, c)),
        r->Ok_0.0.hr() == 1 ==> r->Ok_0.0 == meta_of(best_group()),
{
    lemma_is_best(s);
    let k = s.len() as int;
    assert forall|c: Seq<int>| sel(c, k) implies (royal(#[trigger] pick(s, c)) <==> standing(value5(pick(s, c))) == 1) && 1 <= standing(value5(pick(s, c))) by { lemma_pick(s, c); lemma_royal(pick(s, c)); lemma_standing_range(value5(pick(s, c))); }
    lemma_standing_range(value(s));
    lemma_order(value(s), best_group());
}
/// the worst: exactly the five cards seven-five-four-three-deuce off suit
pub proof fn c15_worst(s: Seq<Card>, r: Result<Eval, EvalError>)
    requires legal(s), evaluated(s, r),
    ensures
        r is Ok,
        r->Ok_0.0.hr() == 7462 <==> seven_five(s),
        r->Ok_0.0.hr() == 7462 ==> r->Ok_0.0 == meta_of(worst_group()),
{
    lemma_is_best(s);
    let k = s.len() as int;
    lemma_standing_range(value(s));
    lemma_worst();
    lemma_order(value(s), worst_group());
    if k == 5 { lemma_best5(s); lemma_royal(s); }
    else if standing(value(s)) == 7462 {
        let (c, d, e) = (seq![0int, 1, 2, 3, 4], seq![0int, 1, 2, 3, 5], seq![1int, 2, 3, 4, 5]);
        assert(sel(c, k) && sel(d, k) && sel(e, k));
        lemma_worst_sum(s, c); lemma_worst_sum(s, d); lemma_worst_sum(s, e);
        assert(pick(s, e)[3] == s[4] && pick(s, e)[4] == s[5]);
        assert(hand_ranks(pick(s, e))[3] == hand_ranks(pick(s, e))[4]);
        assert(false);
    }
}
pub open spec fn sum(r: Seq<int>) -> int
    decreases r.len()
{ if r.len() == 0 { 0 } else { r[0] + sum(r.drop_first()) } }
pub proof fn lemma_ins_sum(x: int, s: Seq<int>)
    ensures sum(ins(x, s)) == x + sum(s),
    decreases s.len()
{
    if s.len() == 0 { assert(seq![x].drop_first() =~= s); }
    else if x >= s[0] { assert((seq![x] + s).drop_first() =~= s); }
    else { lemma_ins_sum(x, s.drop_first()); assert((seq![s[0]] + ins(x, s.drop_first())).drop_first() =~= ins(x, s.drop_first())); }
}
pub proof fn lemma_sorted_sum(s: Seq<int>)
    ensures sum(sorted(s)) == sum(s),
    decreases s.len()
{ if s.len() > 0 { lemma_sorted_sum(s.drop_first()); lemma_ins_sum(s[0], sorted(s.drop_first())); } }
pub proof fn lemma_sum5(r: Seq<int>)
    requires r.len() == 5,
    ensures sum(r) == r[0] + r[1] + r[2] + r[3] + r[4],
{ reveal_with_fuel(sum, 6); }
pub proof fn lemma_worst_sum(s: Seq<Card>, c: Seq<int>)
    requires legal(s), sel(c, s.len() as int), standing(value(s)) == 7462,
    ensures
        rn(s[c[0]].rk()) + rn(s[c[1]].rk()) + rn(s[c[2]].rk()) + rn(s[c[3]].rk()) + rn(s[c[4]].rk()) == 11,
        hand_ranks(pick(s, c)).no_duplicates(),
{
    lemma_is_best(s);
    let h = pick(s, c);
    lemma_pick(s, c);
    lemma_standing_range(value5(h));
    lemma_royal(h);
    let t = hand_ranks(h);
    lemma_sorted_sum(t);
    lemma_sum5(t);
    lemma_sum5(seq![5int, 3, 2, 1, 0]);
    lemma_sorted(t);
    assert(sorted(t).no_duplicates());
    sorted(t).lemma_multiset_has_no_duplicates();
    t.lemma_multiset_has_no_duplicates_conv();
}
}
// C16
pub mod vxc16 {
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use core::cmp::Ordering;
use crate::vxspec::*;
use crate::vxrules::*;
use crate::vxorder::*;
use crate::vxtab::*;
use crate::vxbits::*;
use crate::vxcombos::*;
use crate::vxhand::*;
use crate::vxtext::*;
use crate::card::{Card, Rank, Suit};
use crate::error::EvalError;
use crate::evaluate::class::EvalClass;
use crate::evaluate::eval::Eval;
use crate::evaluate::meta::Meta;
use crate::evaluate::hand_rank::PokerHandRank;
use crate::evaluate::evaluation::{evaluated, worst_group, lemma_worst};
use crate::evaluate::utils::{distinct_cards, hand_ranks};
use crate::vxthm::*;
/// the documented order of the classes: category, then the ranks they carry in the order they are listed
pub open spec fn class_cat(c: EvalClass) -> int {
    match c {
        EvalClass::HighCard { .. } => 0, EvalClass::Pair { .. } => 1, EvalClass::TwoPair { .. } => 2, EvalClass::ThreeOfAKind { .. } => 3, EvalClass::Straight { .. } => 4,
        EvalClass::Flush { .. } => 5, EvalClass::FullHouse { .. } => 6, EvalClass::FourOfAKind { .. } => 7, EvalClass::StraightFlush { .. } => 8,
    }
}
pub open spec fn class_first(c: EvalClass) -> Rank {
    match c {
        EvalClass::HighCard { high_rank } => high_rank,
        EvalClass::Pair { pair } => pair,
        EvalClass::TwoPair { first_pair, second_pair } => first_pair,
        EvalClass::ThreeOfAKind { trips } => trips,
        EvalClass::Straight { high_rank } => high_rank,
        EvalClass::Flush { high_rank } => high_rank,
        EvalClass::FullHouse { trips, pair } => trips,
        EvalClass::FourOfAKind { quads } => quads,
        EvalClass::StraightFlush { high_rank } => high_rank,
    }
}
/// (where there is only one rank: a fixed one)
pub open spec fn class_second(c: EvalClass) -> Rank {
    match c {
        EvalClass::TwoPair { first_pair, second_pair } => second_pair,
        EvalClass::FullHouse { trips, pair } => pair,
        _ => Rank::Two,
    }
}
pub open spec fn class_key(c: EvalClass) -> int { class_cat(c) * 169 + rn(class_first(c)) * 13 + rn(class_second(c)) }
pub open spec fn class_gt(a: EvalClass, b: EvalClass) -> bool {
    class_cat(a) > class_cat(b) || (class_cat(a) == class_cat(b) && (rn(class_first(a)) > rn(class_first(b)) || (rn(class_first(a)) == rn(class_first(b)) && rn(class_second(a)) > rn(class_second(b)))))
}
pub proof fn lemma_class_gt(a: EvalClass, b: EvalClass)
    ensures class_gt(a, b) <==> class_key(a) > class_key(b),
{
    lemma_rn_inj(class_first(a), class_first(b));
    lemma_rn_inj(class_second(a), class_second(b));
}
pub proof fn lemma_class_eq(a: EvalClass, b: EvalClass)
    ensures class_key(a) == class_key(b) <==> a == b, a == b <==> !class_gt(a, b) && !class_gt(b, a), !(class_gt(a, b) && class_gt(b, a)),
{
    hide(rn);
    lemma_class_gt(a, b);
    lemma_class_gt(b, a);
    lemma_rn_inj(class_first(a), class_first(b));
    lemma_rn_inj(class_second(a), class_second(b));
    assert(class_cat(a) == class_cat(b) && class_first(a) == class_first(b) && class_second(a) == class_second(b) ==> a == b);
}
pub broadcast proof fn lemma_rank_cmp(a: Rank, b: Rank)
    ensures #[trigger] PartialOrdSpec::partial_cmp_spec(&a, &b) == Some(icmp(rn(a), rn(b))), OrdSpec::cmp_spec(&a, &b) == icmp(rn(a), rn(b)), PartialEqSpec::eq_spec(&a, &b) <==> a == b,
{ crate::card::rank::lemma_discr(a); crate::card::rank::lemma_discr(b); lemma_rn_inj(a, b); }
pub broadcast proof fn lemma_rank_ord(a: Rank, b: Rank)
    ensures #[trigger] OrdSpec::cmp_spec(&a, &b) == icmp(rn(a), rn(b)),
{ lemma_rank_cmp(a, b); }
pub broadcast proof fn lemma_rank_eq(a: Rank, b: Rank)
    ensures #[trigger] PartialEqSpec::eq_spec(&a, &b) <==> a == b,
{ lemma_rank_cmp(a, b); }
pub proof fn lemma_class_cmp(a: EvalClass, b: EvalClass)
    ensures
        PartialOrdSpec::partial_cmp_spec(&a, &b) == Some(icmp(class_key(a), class_key(b))),
        OrdSpec::cmp_spec(&a, &b) == icmp(class_key(a), class_key(b)),
        PartialEqSpec::eq_spec(&a, &b) <==> a == b,
{
    hide(rn);
    hide(class_key);
    broadcast use {lemma_rank_cmp, lemma_rank_ord, lemma_rank_eq};
    lemma_class_gt(a, b);
    lemma_class_gt(b, a);
    lemma_class_eq(a, b);
}
pub fn c16_classes(a: EvalClass, b: EvalClass)
{
    hide(class_key);
    proof { lemma_class_cmp(a, b); lemma_class_eq(a, b); }
    let (lt, le, gt, ge, eq, ne) = (a < b, a <= b, a > b, a >= b, a == b, a != b);
    assert(lt == (class_key(a) < class_key(b)));
    assert(le == (class_key(a) <= class_key(b)));
    assert(gt == (class_key(a) > class_key(b)));
    assert(ge == (class_key(a) >= class_key(b)));
    assert(eq == (class_key(a) == class_key(b)));
    assert(ne == (class_key(a) != class_key(b)));
    assert(eq <==> a == b);
    let c = a.cmp(&b);
    assert(c == icmp(class_key(a), class_key(b)));
    let p = a.partial_cmp(&b);
    assert(p == Some(c));
}
pub fn c16_agree(a: Eval, b: Eval)
    requires possible(a), possible(b),
{
    hide(class_key);
    let (ca, cb) = (a.class(), b.class());
    proof { lemma_class_cmp(ca, cb); lemma_class_eq(ca, cb); lemma_class_vs(a, b); }
    let gt = ca > cb;
    let better = a.is_better_than(b);
    assert(gt ==> better);
    let tied = a.is_equal_to(b);
    let same = ca == cb;
    assert(tied ==> same);
}
pub proof fn lemma_class_vs(a: Eval, b: Eval)
    requires possible(a), possible(b),
    ensures class_key(a.0.cl()) > class_key(b.0.cl()) ==> a.0.hr() < b.0.hr(), a.0.hr() == b.0.hr() ==> a.0.cl() == b.0.cl(),
{
    let (g, h) = (of(a), of(b));
    lemma_order(g, h);
    lemma_class_of(g);
    lemma_class_of(h);
    lemma_class_gt(a.0.cl(), b.0.cl());
    lemma_key_gt(g, h);
}
pub proof fn lemma_class_of(g: G)
    requires wfg(g),
    ensures class_cat(class_of(g)) == g.cat, rn(class_first(class_of(g))) == g.g1, rn(class_second(class_of(g))) == (if g.cat == 2 || g.cat == 6 { g.g2 } else { 0 }),
{ lemma_rank_at(g.g1); lemma_rank_at(g.g2); }
pub proof fn lemma_rank_at(n: int)
    requires 0 <= n <= 12,
    ensures rn(rank_at(n)) == n,
{ }
}
@@ mod card::rank
pub proof fn lemma_discr(a: Rank)
    ensures a.vx_discr() == rn(a),
{ }
