@@ top
// What a set of cards is worth by the rules: five cards, and the best five of more.
pub mod vxhand {
use vstd::prelude::*;
use vstd::multiset::Multiset;
use crate::vxspec::*;
use crate::vxrules::*;
use crate::vxorder::*;
use crate::vxtab::*;
use crate::vxcombos::*;
use crate::card::Card;
use crate::card::Rank;
use crate::card::Suit;
use crate::evaluate::utils::distinct_cards;
use crate::evaluate::utils::hand_ranks;

// ---------------------------------------------------------------- sorting ranks, the highest first
pub open spec fn ins(x: int, s: Seq<int>) -> Seq<int>
    decreases s.len()
{
    if s.len() == 0 { seq![x] } else if x >= s[0] { seq![x] + s } else { seq![s[0]] + ins(x, s.drop_first()) }
}
pub open spec fn sorted(s: Seq<int>) -> Seq<int>
    decreases s.len()
{
    if s.len() == 0 { seq![] } else { ins(s[0], sorted(s.drop_first())) }
}
proof fn lemma_cons(x: int, s: Seq<int>)
    ensures
        (seq![x] + s).drop_first() =~= s,
        (seq![x] + s).to_multiset() =~= s.to_multiset().insert(x),
        prod(seq![x] + s) == prime(x) * prod(s),
        dsc(s) && (s.len() == 0 || x >= s[0]) ==> dsc(seq![x] + s),
        (seq![x] + s).len() == s.len() + 1,
{
    let t = seq![x] + s;
    assert(t.drop_first() =~= s);
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    vstd::seq_lib::lemma_multiset_commutative(seq![x], s);
    assert(seq![x].to_multiset() =~= Multiset::singleton(x)) by {
        assert(seq![x] =~= Seq::empty().push(x));
    }
    assert(s.to_multiset().insert(x) =~= s.to_multiset().add(Multiset::singleton(x)));
    if dsc(s) && (s.len() == 0 || x >= s[0]) {
        assert forall|i: int, j: int| 0 <= i <= j < t.len() implies #[trigger] t[i] >= #[trigger] t[j] by {
            if i > 0 { assert(s[i - 1] >= s[j - 1]); } else if j > 0 { assert(s[0] >= s[j - 1]); }
        }
    }
}
proof fn lemma_ins(x: int, s: Seq<int>)
    requires dsc(s),
    ensures
        dsc(ins(x, s)), ins(x, s).len() == s.len() + 1, ins(x, s).to_multiset() =~= s.to_multiset().insert(x),
        prod(ins(x, s)) == prime(x) * prod(s),
        ins(x, s)[0] == x || (s.len() > 0 && ins(x, s)[0] == s[0]),
    decreases s.len()
{
    if s.len() == 0 {
        lemma_cons(x, s);
        assert(seq![x] + s =~= seq![x]);
    } else if x >= s[0] {
        lemma_cons(x, s);
    } else {
        let t = s.drop_first();
        assert(dsc(t)) by { assert forall|i: int, j: int| 0 <= i <= j < t.len() implies #[trigger] t[i] >= #[trigger] t[j] by { assert(s[i + 1] >= s[j + 1]); } }
        lemma_ins(x, t);
        lemma_cons(s[0], ins(x, t));
        lemma_cons(s[0], t);
        assert(seq![s[0]] + t =~= s);
        assert(t.len() > 0 ==> s[0] >= s[1]);
        assert(prime(s[0]) * (prime(x) * prod(t)) == prime(x) * (prime(s[0]) * prod(t))) by(nonlinear_arith);
    }
}
pub proof fn lemma_sorted(s: Seq<int>)
    ensures dsc(sorted(s)), sorted(s).len() == s.len(), sorted(s).to_multiset() =~= s.to_multiset(), prod(sorted(s)) == prod(s),
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_first();
        lemma_sorted(t);
        lemma_ins(s[0], sorted(t));
        lemma_cons(s[0], t);
        assert(seq![s[0]] + t =~= s);
    } else {
        assert(s =~= seq![]);
    }
}
pub proof fn lemma_in_sorted(s: Seq<int>, v: int)
    ensures sorted(s).contains(v) <==> s.contains(v),
{
    lemma_sorted(s);
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(s.to_multiset().count(v) > 0 <==> s.contains(v));
    assert(sorted(s).to_multiset().count(v) > 0 <==> sorted(s).contains(v));
}
pub proof fn lemma_sorted_distinct(s: Seq<int>)
    requires s.no_duplicates(),
    ensures forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] sorted(s)[i] > #[trigger] sorted(s)[j],
{
    lemma_sorted(s);
    let t = sorted(s);
    s.lemma_multiset_has_no_duplicates();
    t.lemma_multiset_has_no_duplicates_conv();
    assert forall|i: int, j: int| 0 <= i < j < s.len() implies #[trigger] t[i] > #[trigger] t[j] by { assert(t[i] >= t[j]); assert(t[i] != t[j]); }
}
pub proof fn lemma_sorted_perm(s: Seq<int>, t: Seq<int>)
    requires s.to_multiset() == t.to_multiset(),
    ensures sorted(s) == sorted(t),
{
    lemma_sorted(s);
    lemma_sorted(t);
    let leq = |a: int, b: int| a >= b;
    assert(vstd::relations::sorted_by(sorted(s), leq)) by { assert forall|i: int, j: int| 0 <= i < j < sorted(s).len() implies #[trigger] leq(sorted(s)[i], sorted(s)[j]) by { } }
    assert(vstd::relations::sorted_by(sorted(t), leq)) by { assert forall|i: int, j: int| 0 <= i < j < sorted(t).len() implies #[trigger] leq(sorted(t)[i], sorted(t)[j]) by { } }
    vstd::seq_lib::lemma_sorted_unique(sorted(s), sorted(t), leq);
}
// ---------------------------------------------------------------- five cards
pub open spec fn same_suit(h: Seq<Card>) -> bool { forall|i: int| 0 <= i < h.len() ==> (#[trigger] h[i]).st() == h[0].st() }
/// category and deciding ranks of five cards, by the rules
pub open spec fn value5(h: Seq<Card>) -> G { groups(sorted(hand_ranks(h)), same_suit(h)) }
pub open spec fn top5(h: Seq<Card>) -> Seq<int> { sorted(hand_ranks(h)) }

pub proof fn lemma_value5(h: Seq<Card>)
    requires h.len() == 5, distinct_cards(h),
    ensures
        desc5(top5(h)), same_suit(h) ==> distinct5(top5(h)),
        prod(top5(h)) == prod(hand_ranks(h)), tg(value5(h), same_suit(h)), gprod(value5(h)) == prod(top5(h)), 0 < prod(top5(h)) <= 115_856_201,
        1 <= standing(value5(h)) <= 7462, wfg(value5(h)), ranks(value5(h)) == top5(h),
        tab(same_suit(h), 1, 7463).dom().contains(prod(top5(h)) as i32),
        tab(same_suit(h), 1, 7463)[prod(top5(h)) as i32] == crate::vxtext::meta_of(value5(h)),
{
    let s = hand_ranks(h);
    let r = sorted(s);
    lemma_sorted(s);
    assert forall|v: int| r.contains(v) implies 0 <= v <= 12 by { lemma_in_sorted(s, v); }
    assert(forall|i: int| 0 <= i < 5 ==> r.contains(#[trigger] r[i]));
    if r[0] == r[4] {
        assert forall|i: int| 0 <= i < 5 implies s[i] == r[0] by {
            assert(s.contains(s[i]));
            lemma_in_sorted(s, s[i]);
            let j = choose|j: int| 0 <= j < 5 && r[j] == s[i];
            assert(r[0] >= r[j] && r[j] >= r[4]);
        }
        assert forall|i: int, j: int| 0 <= i < j < 5 implies (#[trigger] h[i]).st() != (#[trigger] h[j]).st() by { lemma_rn_inj(h[i].rk(), h[j].rk()); assert(s[i] == s[j]); }
        assert(h[0].st() != h[1].st() && h[0].st() != h[2].st() && h[0].st() != h[3].st() && h[0].st() != h[4].st() && h[1].st() != h[2].st() && h[1].st() != h[3].st()
            && h[1].st() != h[4].st() && h[2].st() != h[3].st() && h[2].st() != h[4].st() && h[3].st() != h[4].st());
        assert(false);
    }
    assert(r[0] >= r[1] && r[1] >= r[2] && r[2] >= r[3] && r[3] >= r[4]);
    if same_suit(h) {
        assert forall|i: int, j: int| 0 <= i < j < 5 implies s[i] != s[j] by { lemma_rn_inj(h[i].rk(), h[j].rk()); assert(h[i].st() == h[0].st() && h[j].st() == h[0].st()); }
        lemma_sorted_distinct(s);
        assert(r[0] > r[1] && r[1] > r[2] && r[2] > r[3] && r[3] > r[4]);
    }
    lemma_key_of(r, same_suit(h));
    lemma_ranks(value5(h));
    lemma_standing_range(value5(h));
    lemma_tab_get(same_suit(h), 1, 7463, value5(h));
}
pub proof fn lemma_rn_inj(a: Rank, b: Rank)
    ensures rn(a) == rn(b) <==> a == b, 0 <= rn(a) <= 12,
{ }
// ---------------------------------------------------------------- the best five of any number
pub open spec fn sel(c: Seq<int>, n: int) -> bool { c.len() == 5 && inc(c, 0, n) }
pub open spec fn is_best(s: Seq<Card>, g: G) -> bool {
    &&& exists|c: Seq<int>| sel(c, s.len() as int) && value5(#[trigger] pick(s, c)) == g
    &&& forall|c: Seq<int>| sel(c, s.len() as int) ==> standing(g) <= standing(value5(#[trigger] pick(s, c)))
}
pub open spec fn value(s: Seq<Card>) -> G { choose|g: G| is_best(s, g) }
pub open spec fn legal(s: Seq<Card>) -> bool { s.len() >= 5 && distinct_cards(s) }
pub proof fn lemma_pick(s: Seq<Card>, c: Seq<int>)
    requires distinct_cards(s), sel(c, s.len() as int),
    ensures pick(s, c).len() == 5, distinct_cards(pick(s, c)), wfg(value5(pick(s, c))),
{
    let h = pick(s, c);
    assert forall|i: int, j: int| 0 <= i < j < 5 implies (#[trigger] h[i]).rk() != (#[trigger] h[j]).rk() || h[i].st() != h[j].st() by { assert(c[i] < c[j]); assert(0 <= c[i] && c[j] < s.len()); assert(s[c[i]].rk() != s[c[j]].rk() || s[c[i]].st() != s[c[j]].st()); }
    lemma_value5(h);
}
pub proof fn lemma_best(s: Seq<Card>, g: G)
    requires distinct_cards(s), is_best(s, g),
    ensures value(s) == g,
{
    let v = value(s);
    assert(is_best(s, v));
    let c = choose|c: Seq<int>| sel(c, s.len() as int) && value5(#[trigger] pick(s, c)) == g;
    let d = choose|d: Seq<int>| sel(d, s.len() as int) && value5(#[trigger] pick(s, d)) == v;
    lemma_pick(s, c);
    lemma_pick(s, d);
    lemma_order(v, g);
}
pub proof fn lemma_best5(s: Seq<Card>)
    requires s.len() == 5, distinct_cards(s),
    ensures is_best(s, value5(s)), value(s) == value5(s),
{
    assert forall|c: Seq<int>| sel(c, 5) implies pick(s, c) =~= s by {
        assert(c[0] < c[1] && c[1] < c[2] && c[2] < c[3] && c[3] < c[4]);
        assert(c =~= seq![0int, 1, 2, 3, 4]);
    }
    let c = seq![0int, 1, 2, 3, 4];
    assert(sel(c, 5));
    assert(pick(s, c) =~= s);
    lemma_best(s, value5(s));
}
}
