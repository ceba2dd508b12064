@@ top
// One step of filling the tables, for each way in which a hand can repeat ranks.
pub mod vxfill {
use vstd::prelude::*;
use vstd::arithmetic::power::*;
use crate::vxspec::*;
use crate::vxrules::*;
use crate::vxorder::*;
use crate::vxtab::*;
use crate::vxcombos::*;
use crate::vxtext::meta_of;
use crate::evaluate::meta::Meta;

/// `u` with the entries of `t`
pub open spec fn plus(u: IMap<i32, Meta>, t: IMap<i32, Meta>) -> IMap<i32, Meta> {
    IMap::new(|k: i32| u.dom().contains(k) || t.dom().contains(k), |k: i32| if t.dom().contains(k) { t[k] } else { u[k] })
}
pub proof fn lemma_plus_none(u: IMap<i32, Meta>, flush: bool, lo: int)
    ensures plus(u, tab(flush, lo, lo)) =~= u,
{ }
pub proof fn lemma_plus_insert(u: IMap<i32, Meta>, flush: bool, lo: int, g: G)
    requires tg(g, flush), lo <= standing(g),
    ensures plus(u, tab(flush, lo, standing(g))).insert(gprod(g) as i32, meta_of(g)) =~= plus(u, tab(flush, lo, standing(g) + 1)),
{
    lemma_tab_insert(flush, lo, g);
}
pub proof fn lemma_plus_join(u: IMap<i32, Meta>, flush: bool, a: int, b: int, c: int)
    requires a <= b <= c,
    ensures plus(plus(u, tab(flush, a, b)), tab(flush, b, c)) =~= plus(u, tab(flush, a, c)),
{
    let (x, y, z) = (tab(flush, a, b), tab(flush, b, c), tab(flush, a, c));
    assert forall|k: i32| (#[trigger] z.dom().contains(k) <==> x.dom().contains(k) || y.dom().contains(k)) && (x.dom().contains(k) ==> x[k] == z[k]) && (y.dom().contains(k) ==> y[k] == z[k]) by {
        if z.dom().contains(k) {
            let h = choose|h: G| #[trigger] in_tab(h, flush, a, c, k);
            assert(in_tab(h, flush, a, b, k) || in_tab(h, flush, b, c, k));
        }
        if x.dom().contains(k) {
            let h = choose|h: G| #[trigger] in_tab(h, flush, a, b, k);
            assert(in_tab(h, flush, a, c, k));
            lemma_tab_get(flush, a, b, h);
            lemma_tab_get(flush, a, c, h);
        }
        if y.dom().contains(k) {
            let h = choose|h: G| #[trigger] in_tab(h, flush, b, c, k);
            assert(in_tab(h, flush, a, c, k));
            lemma_tab_get(flush, b, c, h);
            lemma_tab_get(flush, a, c, h);
        }
    }
}
// ---------------------------------------------------------------- the ranks but one or two, from the ace down
pub open spec fn sk1(i: int, x: int) -> int { if 12 - i > x { 12 - i } else { 11 - i } }
pub open spec fn sk2(i: int, x: int, y: int) -> int { if 12 - i > x { 12 - i } else if 11 - i > y { 11 - i } else { 10 - i } }
pub open spec fn skips1(m: int, x: int) -> Seq<i16> { Seq::new((m - (if 12 - x < m { 1int } else { 0int })) as nat, |i: int| sk1(i, x) as i16) }
pub open spec fn skips2(m: int, x: int, y: int) -> Seq<i16> { Seq::new((m - (if 12 - x < m { 1int } else { 0int }) - (if 12 - y < m { 1int } else { 0int })) as nat, |i: int| sk2(i, x, y) as i16) }
pub open spec fn downs(s: Seq<i16>) -> bool { s.len() <= 13 && forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == 12 - i }
proof fn lemma_skips1_at(s: Seq<i16>, pred: spec_fn(int) -> bool, x: int)
    requires downs(s), 0 <= x <= 12, forall|j: int| 0 <= j < s.len() ==> (#[trigger] pred(j) <==> 12 - j != x),
    ensures s.filter_index(pred) =~= skips1(s.len() as int, x),
    decreases s.len()
{
    reveal(Seq::filter_index);
    if s.len() > 0 {
        lemma_skips1_at(s.drop_last(), pred, x);
        assert(pred(s.len() - 1) <==> 12 - (s.len() - 1) != x);
        assert(s.last() == 12 - (s.len() - 1));
    }
}
proof fn lemma_skips2_at(s: Seq<i16>, pred: spec_fn(int) -> bool, x: int, y: int)
    requires downs(s), 0 <= y < x <= 12, forall|j: int| 0 <= j < s.len() ==> (#[trigger] pred(j) <==> 12 - j != x && 12 - j != y),
    ensures s.filter_index(pred) =~= skips2(s.len() as int, x, y),
    decreases s.len()
{
    reveal(Seq::filter_index);
    if s.len() > 0 {
        lemma_skips2_at(s.drop_last(), pred, x, y);
        assert(pred(s.len() - 1) <==> 12 - (s.len() - 1) != x && 12 - (s.len() - 1) != y);
        assert(s.last() == 12 - (s.len() - 1));
    }
}
pub proof fn lemma_skips1(x: int)
    requires 0 <= x <= 12,
    ensures forall|s: Seq<i16>, pred: spec_fn(int) -> bool| downs(s) && (forall|j: int| 0 <= j < s.len() ==> (#[trigger] pred(j) <==> 12 - j != x)) ==> #[trigger] s.filter_index(pred) == skips1(s.len() as int, x),
{
    assert forall|s: Seq<i16>, pred: spec_fn(int) -> bool| downs(s) && (forall|j: int| 0 <= j < s.len() ==> (#[trigger] pred(j) <==> 12 - j != x)) implies #[trigger] s.filter_index(pred) == skips1(s.len() as int, x) by { lemma_skips1_at(s, pred, x); }
}
pub proof fn lemma_skips2(x: int, y: int)
    requires 0 <= y < x <= 12,
    ensures forall|s: Seq<i16>, pred: spec_fn(int) -> bool| downs(s) && (forall|j: int| 0 <= j < s.len() ==> (#[trigger] pred(j) <==> 12 - j != x && 12 - j != y)) ==> #[trigger] s.filter_index(pred) == skips2(s.len() as int, x, y),
{
    assert forall|s: Seq<i16>, pred: spec_fn(int) -> bool| downs(s) && (forall|j: int| 0 <= j < s.len() ==> (#[trigger] pred(j) <==> 12 - j != x && 12 - j != y)) implies #[trigger] s.filter_index(pred) == skips2(s.len() as int, x, y) by { lemma_skips2_at(s, pred, x, y); }
}
// ---------------------------------------------------------------- keys of hands with repeated ranks
proof fn lemma_pows(p: int)
    ensures pow(p, 2) == p * p, pow(p, 3) == p * p * p, pow(p, 4) == p * p * p * p,
{
    reveal_with_fuel(pow, 5);
    assert(p * (p * (p * (p * 1))) == p * p * p * p) by(nonlinear_arith);
    assert(p * (p * (p * 1)) == p * p * p) by(nonlinear_arith);
}
proof fn lemma_pow_bounds(n: int)
    requires 0 <= n <= 12,
    ensures 0 < pow(prime(n), 2) <= 1681, 0 < pow(prime(n), 3) <= 68921, 0 < pow(prime(n), 4) <= 2825761,
{
    let p = prime(n);
    lemma_pows(p);
    lemma_bound5(p, p, p, p, p);
}
proof fn lemma_perm7(p: int, q: int)
    ensures q * p * p * p * p == p * p * p * p * q,
{ assert(q * p * p * p * p == p * p * p * p * q) by(nonlinear_arith); }
proof fn lemma_perm6(p: int, q: int)
    ensures q * q * p * p * p == p * p * p * (q * q), p * p * p * q * q == p * p * p * (q * q),
{
    assert(q * q * p * p * p == p * p * p * (q * q)) by(nonlinear_arith);
    assert(p * p * p * q * q == p * p * p * (q * q)) by(nonlinear_arith);
}
proof fn lemma_perm3(p: int, q: int, r: int)
    ensures q * p * p * p * r == p * p * p * q * r, q * r * p * p * p == p * p * p * q * r,
{
    assert(q * p * p * p * r == p * p * p * q * r) by(nonlinear_arith);
    assert(q * r * p * p * p == p * p * p * q * r) by(nonlinear_arith);
}
proof fn lemma_perm2(p: int, q: int, r: int)
    ensures p * p * q * q * r == p * p * (q * q) * r, p * p * r * q * q == p * p * (q * q) * r, r * p * p * q * q == p * p * (q * q) * r,
{
    assert(p * p * q * q * r == p * p * (q * q) * r) by(nonlinear_arith);
    assert(p * p * r * q * q == p * p * (q * q) * r) by(nonlinear_arith);
    assert(r * p * p * q * q == p * p * (q * q) * r) by(nonlinear_arith);
}
proof fn lemma_perm1(p: int, q: int, r: int, t: int)
    ensures q * p * p * r * t == p * p * q * r * t, q * r * p * p * t == p * p * q * r * t, q * r * t * p * p == p * p * q * r * t,
{
    assert(q * p * p * r * t == p * p * q * r * t) by(nonlinear_arith);
    assert(q * r * p * p * t == p * p * q * r * t) by(nonlinear_arith);
    assert(q * r * t * p * p == p * p * q * r * t) by(nonlinear_arith);
}
proof fn lemma_key5(g: G)
    requires wfg(g),
    ensures ({ let r = ranks(g); gprod(g) == prime(r[0]) * prime(r[1]) * prime(r[2]) * prime(r[3]) * prime(r[4]) }),
{
    lemma_ranks(g);
    let r = ranks(g);
    assert(r =~= seq![r[0], r[1], r[2], r[3], r[4]]);
    lemma_prod5(r[0], r[1], r[2], r[3], r[4]);
}
// ---------------------------------------------------------------- steps
pub proof fn lemma_quads(x: int, i: int)
    requires 0 <= x <= 12, 0 <= i < 12,
    ensures ({
        let k = sk1(i, x);
        let g = grp(7, x, k, 0, 0, 0);
        &&& 0 <= k <= 12 && k != x && tg(g, false) && standing(g) == 11 + (12 - x) * 12 + i
        &&& 0 < pow(prime(x), 4) <= 2825761 && gprod(g) == pow(prime(x), 4) * prime(k) && 0 < gprod(g) <= 115_856_201
    }),
{
    let k = sk1(i, x);
    let g = grp(7, x, k, 0, 0, 0);
    lemma_pow_bounds(x);
    lemma_pows(prime(x));
    lemma_ranks(g);
    lemma_key5(g);
    lemma_perm7(prime(x), prime(k));
}
pub proof fn lemma_full(x: int, i: int)
    requires 0 <= x <= 12, 0 <= i < 12,
    ensures ({
        let k = sk1(i, x);
        let g = grp(6, x, k, 0, 0, 0);
        &&& 0 <= k <= 12 && k != x && tg(g, false) && standing(g) == 167 + (12 - x) * 12 + i
        &&& 0 < pow(prime(x), 3) <= 68921 && 0 < pow(prime(k), 2) <= 1681 && gprod(g) == pow(prime(x), 3) * pow(prime(k), 2) && 0 < gprod(g) <= 115_856_201
    }),
{
    let k = sk1(i, x);
    let g = grp(6, x, k, 0, 0, 0);
    lemma_pow_bounds(x);
    lemma_pow_bounds(k);
    lemma_pows(prime(x));
    lemma_pows(prime(k));
    lemma_ranks(g);
    lemma_key5(g);
    lemma_perm6(prime(x), prime(k));
}
/// indices among the kickers and the kickers themselves
proof fn lemma_sk1(x: int, i: int, j: int)
    requires 0 <= x <= 12, 0 <= i < j < 12,
    ensures 0 <= sk1(j, x) < sk1(i, x) <= 12, sk1(i, x) != x, sk1(j, x) != x, ix1(sk1(i, x), x) == i, ix1(sk1(j, x), x) == j,
{ }
proof fn lemma_pr(n: int)
    requires 0 <= n <= 12,
    ensures 0 < prime(n) <= 41,
{ }
pub open spec fn trips_g(x: int, j: int) -> G { let c = unrank(j, 2, 0, 12); grp(3, x, sk1(c[0], x), sk1(c[1], x), 0, 0) }
proof fn lemma_trips_g(x: int, j: int)
    requires 0 <= x <= 12, 0 <= j < 66,
    ensures tg(trips_g(x, j), false), standing(trips_g(x, j)) == 1610 + (12 - x) * 66 + j, 0 <= unrank(j, 2, 0, 12)[0] < unrank(j, 2, 0, 12)[1] < 12, unrank(j, 2, 0, 12).len() == 2,
{
    hide(sk1);
    hide(ix1);
    lemma_nc_values();
    lemma_unrank(j, 2, 0, 12);
    let c = unrank(j, 2, 0, 12);
    assert(0 <= c[0] < c[1] < 12);
    lemma_sk1(x, c[0], c[1]);
    let (k, l) = (sk1(c[0], x), sk1(c[1], x));
    assert(c =~= seq![ix1(k, x), ix1(l, x)]);
}
proof fn lemma_key3(g: G)
    requires wfg(g), g.cat == 3,
    ensures ({
        let (p, q, r) = (prime(g.g1), prime(g.g2), prime(g.g3));
        0 < pow(p, 3) <= 68921 && 0 < pow(p, 3) * q <= 2825761 && gprod(g) == pow(p, 3) * q * r && 0 < gprod(g) <= 115_856_201
    }),
{
    hide(prime);
    let (p, q, r) = (prime(g.g1), prime(g.g2), prime(g.g3));
    lemma_pr(g.g1);
    lemma_pr(g.g2);
    lemma_pr(g.g3);
    lemma_pows(p);
    lemma_bound5(p, p, p, q, r);
    lemma_ranks(g);
    lemma_key5(g);
    lemma_perm3(p, q, r);
}
pub proof fn lemma_trips(x: int, j: int)
    requires 0 <= x <= 12, 0 <= j < 66,
    ensures ({
        let c = unrank(j, 2, 0, 12);
        let (k, l) = (sk1(c[0], x), sk1(c[1], x));
        let g = grp(3, x, k, l, 0, 0);
        let s = pick(skips1(13, x), c);
        &&& 0 <= l < k <= 12 && k != x && l != x && tg(g, false) && standing(g) == 1610 + (12 - x) * 66 + j
        &&& 0 < pow(prime(x), 3) <= 68921 && 0 < pow(prime(x), 3) * prime(k) <= 2825761 && gprod(g) == pow(prime(x), 3) * prime(k) * prime(l) && 0 < gprod(g) <= 115_856_201
        &&& arr_of::<i16, 2>(s)@ == s && s.len() == 2 && s[0] == k && s[1] == l
    }),
{
    hide(prime);
    hide(standing);
    hide(unrank);
    hide(ranks);
    lemma_trips_g(x, j);
    let c = unrank(j, 2, 0, 12);
    lemma_sk1(x, c[0], c[1]);
    lemma_arr_of2(pick(skips1(13, x), c));
    lemma_key3(trips_g(x, j));
}
pub proof fn lemma_two_pair(j: int)
    requires 0 <= j < 78,
    ensures ({
        let c = unrank(j, 2, 0, 13);
        let s = pick(Seq::new(13, |i: int| (12 - i) as i16), c);
        &&& 0 <= c[0] < c[1] <= 12 && pos(seq![c[0], c[1]], 0, 13) == j
        &&& arr_of::<i16, 2>(s)@ == s && s.len() == 2 && s[0] == 12 - c[0] && s[1] == 12 - c[1]
    }),
{
    lemma_nc_values();
    lemma_unrank(j, 2, 0, 13);
    let c = unrank(j, 2, 0, 13);
    assert(0 <= c[0] < c[1] < 13);
    assert(c =~= seq![c[0], c[1]]);
    lemma_arr_of2(pick(Seq::new(13, |i: int| (12 - i) as i16), c));
}
pub proof fn lemma_two_pair_kicker(x: int, y: int, i: int)
    requires 0 <= y < x <= 12, 0 <= i < 11,
    ensures ({
        let k = sk2(i, x, y);
        let g = grp(2, x, y, k, 0, 0);
        &&& 0 <= k <= 12 && k != x && k != y && tg(g, false) && standing(g) == 2468 + pos(seq![12 - x, 12 - y], 0, 13) * 11 + i
        &&& 0 < pow(prime(x), 2) <= 1681 && 0 < pow(prime(y), 2) <= 1681 && 0 < pow(prime(x), 2) * pow(prime(y), 2) <= 2825761
        &&& gprod(g) == pow(prime(x), 2) * pow(prime(y), 2) * prime(k) && 0 < gprod(g) <= 115_856_201
    }),
{
    let k = sk2(i, x, y);
    let g = grp(2, x, y, k, 0, 0);
    let (p, q, r) = (prime(x), prime(y), prime(k));
    lemma_pow_bounds(x);
    lemma_pow_bounds(y);
    lemma_pows(p);
    lemma_pows(q);
    lemma_bound5(p, p, q, q, r);
    assert(p * p * q * q == p * p * (q * q)) by(nonlinear_arith);
    lemma_ranks(g);
    lemma_key5(g);
    lemma_perm2(p, q, r);
}
pub open spec fn pair_g(x: int, j: int) -> G { let c = unrank(j, 3, 0, 12); grp(1, x, sk1(c[0], x), sk1(c[1], x), sk1(c[2], x), 0) }
proof fn lemma_pair_g(x: int, j: int)
    requires 0 <= x <= 12, 0 <= j < 220,
    ensures tg(pair_g(x, j), false), standing(pair_g(x, j)) == 3326 + (12 - x) * 220 + j,
        0 <= unrank(j, 3, 0, 12)[0] < unrank(j, 3, 0, 12)[1], unrank(j, 3, 0, 12)[1] < unrank(j, 3, 0, 12)[2] < 12, unrank(j, 3, 0, 12).len() == 3,
{
    hide(sk1);
    hide(ix1);
    lemma_nc_values();
    lemma_unrank(j, 3, 0, 12);
    let c = unrank(j, 3, 0, 12);
    assert(0 <= c[0] < c[1] && c[1] < c[2] < 12);
    lemma_sk1(x, c[0], c[1]);
    lemma_sk1(x, c[1], c[2]);
    let (k, l, m) = (sk1(c[0], x), sk1(c[1], x), sk1(c[2], x));
    assert(c =~= seq![ix1(k, x), ix1(l, x), ix1(m, x)]);
}
proof fn lemma_key1(g: G)
    requires wfg(g), g.cat == 1,
    ensures ({
        let (p, q, r, t) = (prime(g.g1), prime(g.g2), prime(g.g3), prime(g.g4));
        0 < pow(p, 2) <= 1681 && 0 < pow(p, 2) * q <= 68921 && 0 < pow(p, 2) * q * r <= 2825761 && gprod(g) == pow(p, 2) * q * r * t && 0 < gprod(g) <= 115_856_201
    }),
{
    hide(prime);
    let (p, q, r, t) = (prime(g.g1), prime(g.g2), prime(g.g3), prime(g.g4));
    lemma_pr(g.g1);
    lemma_pr(g.g2);
    lemma_pr(g.g3);
    lemma_pr(g.g4);
    lemma_pows(p);
    lemma_bound5(p, p, q, r, t);
    lemma_ranks(g);
    lemma_key5(g);
    lemma_perm1(p, q, r, t);
}
pub proof fn lemma_pair(x: int, j: int)
    requires 0 <= x <= 12, 0 <= j < 220,
    ensures ({
        let c = unrank(j, 3, 0, 12);
        let (k, l, m) = (sk1(c[0], x), sk1(c[1], x), sk1(c[2], x));
        let g = grp(1, x, k, l, m, 0);
        let s = pick(skips1(13, x), c);
        &&& 0 <= m < l < k <= 12 && k != x && l != x && m != x && tg(g, false) && standing(g) == 3326 + (12 - x) * 220 + j
        &&& 0 < pow(prime(x), 2) <= 1681 && 0 < pow(prime(x), 2) * prime(k) <= 68921 && 0 < pow(prime(x), 2) * prime(k) * prime(l) <= 2825761
        &&& gprod(g) == pow(prime(x), 2) * prime(k) * prime(l) * prime(m) && 0 < gprod(g) <= 115_856_201
        &&& arr_of::<i16, 3>(s)@ == s && s.len() == 3 && s[0] == k && s[1] == l && s[2] == m
    }),
{
    hide(prime);
    hide(standing);
    hide(unrank);
    hide(ranks);
    lemma_pair_g(x, j);
    let c = unrank(j, 3, 0, 12);
    lemma_sk1(x, c[0], c[1]);
    lemma_sk1(x, c[1], c[2]);
    lemma_arr_of3(pick(skips1(13, x), c));
    lemma_key1(pair_g(x, j));
}
}
