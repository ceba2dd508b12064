@@ top
// The lookup tables as a specification: products of primes identify hands (unique factorisation), and `tab` is the table that
// holds every hand whose standing lies in a range.
pub mod vxtab {
use vstd::prelude::*;
use vstd::arithmetic::power::*;
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;
use crate::vxspec::*;
use crate::vxrules::*;
use crate::vxorder::*;
use crate::vxtext::meta_of;
use crate::evaluate::meta::Meta;

// ---------------------------------------------------------------- products of primes
pub open spec fn prod(r: Seq<int>) -> int
    decreases r.len()
{
    if r.len() == 0 { 1 } else { prime(r[0]) * prod(r.drop_first()) }
}
pub open spec fn inr(r: Seq<int>) -> bool { forall|i: int| 0 <= i < r.len() ==> 0 <= #[trigger] r[i] <= 12 }
pub open spec fn dsc(r: Seq<int>) -> bool { forall|i: int, j: int| 0 <= i <= j < r.len() ==> #[trigger] r[i] >= #[trigger] r[j] }

spec fn chk_y(p: int, x: int, y: int) -> bool decreases y { if y <= 0 { true } else { (x * y) % p != 0 && chk_y(p, x, y - 1) } }
spec fn chk(p: int, x: int) -> bool decreases x { if x <= 0 { true } else { chk_y(p, x, p - 1) && chk(p, x - 1) } }
proof fn use_y(p: int, x: int, m: int, y: int) requires chk_y(p, x, m), 0 < y <= m ensures (x * y) % p != 0 decreases m { if y < m { use_y(p, x, m - 1, y); } }
proof fn use_x(p: int, m: int, x: int) requires chk(p, m), 0 < x <= m ensures chk_y(p, x, p - 1) decreases m { if x < m { use_x(p, m - 1, x); } }
/// Euclid's lemma for the thirteen primes
proof fn lemma_euclid(n: int, a: int, b: int)
    requires 0 <= n <= 12, (a * b) % prime(n) == 0,
    ensures a % prime(n) == 0 || b % prime(n) == 0,
{
    let p = prime(n);
    let (x, y) = (a % p, b % p);
    assert(chk(2, 1)) by(compute);
    assert(chk(3, 2)) by(compute);
    assert(chk(5, 4)) by(compute);
    assert(chk(7, 6)) by(compute);
    assert(chk(11, 10)) by(compute);
    assert(chk(13, 12)) by(compute);
    assert(chk(17, 16)) by(compute);
    assert(chk(19, 18)) by(compute);
    assert(chk(23, 22)) by(compute);
    assert(chk(29, 28)) by(compute);
    assert(chk(31, 30)) by(compute);
    assert(chk(37, 36)) by(compute);
    assert(chk(41, 40)) by(compute);
    assert(chk(p, p - 1));
    lemma_mul_mod_noop(a, b, p);
    lemma_mod_bound(a, p);
    lemma_mod_bound(b, p);
    if x > 0 && y > 0 {
        use_x(p, p - 1, x);
        use_y(p, x, p - 1, y);
    }
}
spec fn pdiv(a: int, b: int) -> bool { prime(a) % prime(b) != 0 || a == b }
spec fn pdiv_b(a: int, b: int) -> bool decreases b + 1 { if b < 0 { true } else { pdiv(a, b) && pdiv_b(a, b - 1) } }
spec fn pdiv_a(a: int) -> bool decreases a + 1 { if a < 0 { true } else { pdiv_b(a, 12) && pdiv_a(a - 1) } }
proof fn use_pb(a: int, m: int, b: int) requires pdiv_b(a, m), 0 <= b <= m ensures pdiv(a, b) decreases m { if b < m { use_pb(a, m - 1, b); } }
proof fn use_pa(m: int, a: int) requires pdiv_a(m), 0 <= a <= m ensures pdiv_b(a, 12) decreases m { if a < m { use_pa(m - 1, a); } }
proof fn lemma_primes(a: int, b: int)
    requires 0 <= a <= 12, 0 <= b <= 12, prime(a) % prime(b) == 0,
    ensures a == b,
{
    assert(pdiv_a(12)) by(compute);
    use_pa(12, a);
    use_pb(a, 12, b);
}
proof fn lemma_factor(n: int, r: Seq<int>) -> (i: int)
    requires inr(r), 0 <= n <= 12, prod(r) % prime(n) == 0,
    ensures 0 <= i < r.len(), r[i] == n,
    decreases r.len()
{
    if r.len() == 0 {
        assert(1int % prime(n) == 1) by { lemma_small_mod(1, prime(n) as nat); }
        0
    } else {
        let t = r.drop_first();
        lemma_euclid(n, prime(r[0]), prod(t));
        if prime(r[0]) % prime(n) == 0 { lemma_primes(r[0], n); 0 }
        else {
            assert forall|i: int| 0 <= i < t.len() implies 0 <= #[trigger] t[i] <= 12 by { assert(t[i] == r[i + 1]); }
            let j = lemma_factor(n, t);
            assert(t[j] == r[j + 1]);
            j + 1
        }
    }
}
pub proof fn lemma_prod_inj(r: Seq<int>, s: Seq<int>)
    requires inr(r), inr(s), dsc(r), dsc(s), r.len() == s.len(), prod(r) == prod(s),
    ensures r =~= s,
    decreases r.len()
{
    if r.len() > 0 {
        let (p, q) = (prime(r[0]), prime(s[0]));
        let (t, u) = (r.drop_first(), s.drop_first());
        assert(prod(r) % p == 0) by { lemma_mod_multiples_basic(prod(t), p); lemma_mul_is_commutative(p, prod(t)); }
        assert(prod(s) % q == 0) by { lemma_mod_multiples_basic(prod(u), q); lemma_mul_is_commutative(q, prod(u)); }
        let i = lemma_factor(r[0], s);
        let j = lemma_factor(s[0], r);
        assert(r[0] >= r[j] && s[0] >= s[i]);
        assert(r[0] == s[0]);
        assert(prod(t) == prod(u)) by(nonlinear_arith) requires p * prod(t) == p * prod(u), p > 0;
        assert forall|i: int| 0 <= i < t.len() implies 0 <= #[trigger] t[i] <= 12 by { assert(t[i] == r[i + 1]); }
        assert forall|i: int| 0 <= i < u.len() implies 0 <= #[trigger] u[i] <= 12 by { assert(u[i] == s[i + 1]); }
        assert forall|i: int, j: int| 0 <= i <= j < t.len() implies #[trigger] t[i] >= #[trigger] t[j] by { assert(r[i + 1] >= r[j + 1]); }
        assert forall|i: int, j: int| 0 <= i <= j < u.len() implies #[trigger] u[i] >= #[trigger] u[j] by { assert(s[i + 1] >= s[j + 1]); }
        lemma_prod_inj(t, u);
        assert forall|k: int| 0 <= k < r.len() implies r[k] == s[k] by { if k > 0 { assert(t[k - 1] == u[k - 1]); } }
    }
}
pub proof fn lemma_prod5(a: int, b: int, c: int, d: int, e: int)
    requires 0 <= a <= 12, 0 <= b <= 12, 0 <= c <= 12, 0 <= d <= 12, 0 <= e <= 12,
    ensures
        prod(seq![a, b, c, d, e]) == prime(a) * prime(b) * prime(c) * prime(d) * prime(e),
        prod(seq![a, b, c, d, e]) == prime(e) * prime(d) * prime(c) * prime(b) * prime(a),
        0 < prod(seq![a, b, c, d, e]) <= 115_856_201,
{
    let s = seq![a, b, c, d, e];
    let s1 = s.drop_first();
    let s2 = s1.drop_first();
    let s3 = s2.drop_first();
    let s4 = s3.drop_first();
    assert(s1[0] == b && s2[0] == c && s3[0] == d && s4[0] == e);
    let (p, q, r, t, u) = (prime(a), prime(b), prime(c), prime(d), prime(e));
    reveal_with_fuel(prod, 6);
    assert(prod(s4.drop_first()) == 1);
    assert(prod(s) == p * (q * (r * (t * (u * 1)))));
    lemma_assoc5(p, q, r, t, u);
    lemma_assoc5(u, t, r, q, p);
    assert(p * q * r * t * u == u * t * r * q * p) by(nonlinear_arith);
    lemma_bound5(p, q, r, t, u);
}
proof fn lemma_assoc5(p: int, q: int, r: int, t: int, u: int)
    ensures p * (q * (r * (t * (u * 1)))) == p * q * r * t * u,
{
    assert(p * (q * (r * (t * (u * 1)))) == p * q * r * t * u) by(nonlinear_arith);
}
pub proof fn lemma_bound2(x: int, p: int, m: int)
    requires 0 < x <= m, 0 < p <= 41,
    ensures 0 < x * p <= m * 41,
{
    assert(0 < x * p <= m * 41) by(nonlinear_arith) requires 0 < x <= m, 0 < p <= 41;
}
pub proof fn lemma_bound5(p: int, q: int, r: int, t: int, u: int)
    requires 0 < p <= 41, 0 < q <= 41, 0 < r <= 41, 0 < t <= 41, 0 < u <= 41,
    ensures 0 < p * q <= 1681, 0 < p * q * r <= 68921, 0 < p * q * r * t <= 2825761, 0 < p * q * r * t * u <= 115_856_201,
{
    lemma_bound2(p, q, 41);
    lemma_bound2(p * q, r, 1681);
    lemma_bound2(p * q * r, t, 68921);
    lemma_bound2(p * q * r * t, u, 2825761);
}

// ---------------------------------------------------------------- hands by their groups
/// the five ranks, highest first
pub open spec fn ranks(g: G) -> Seq<int> {
    let (a, b, c, d) = (g.g1, g.g2, g.g3, g.g4);
    if g.cat == 8 || g.cat == 4 { if a == 3 { seq![12, 3, 2, 1, 0] } else { seq![a, a - 1, a - 2, a - 3, a - 4] } }
    else if g.cat == 5 || g.cat == 0 { gseq(g) }
    else if g.cat == 7 { if a > b { seq![a, a, a, a, b] } else { seq![b, a, a, a, a] } }
    else if g.cat == 6 { if a > b { seq![a, a, a, b, b] } else { seq![b, b, a, a, a] } }
    else if g.cat == 3 { if a > b { seq![a, a, a, b, c] } else if a > c { seq![b, a, a, a, c] } else { seq![b, c, a, a, a] } }
    else if g.cat == 2 { if c > a { seq![c, a, a, b, b] } else if c > b { seq![a, a, c, b, b] } else { seq![a, a, b, b, c] } }
    else { if a > b { seq![a, a, b, c, d] } else if a > c { seq![b, a, a, c, d] } else if a > d { seq![b, c, a, a, d] } else { seq![b, c, d, a, a] } }
}
pub open spec fn suited(g: G) -> bool { g.cat == 8 || g.cat == 5 }
/// a possible hand, to be found in the table for suited (flush) or for other hands
pub open spec fn tg(g: G, flush: bool) -> bool { wfg(g) && (suited(g) <==> flush) }
pub open spec fn gprod(g: G) -> int { prod(ranks(g)) }

pub proof fn lemma_ranks(g: G)
    requires wfg(g),
    ensures desc5(ranks(g)), suited(g) ==> distinct5(ranks(g)), groups(ranks(g), suited(g)) == g, inr(ranks(g)), dsc(ranks(g)),
        0 < gprod(g) <= 115_856_201,
{
    let r = ranks(g);
    assert(r[0] >= r[1] && r[1] >= r[2] && r[2] >= r[3] && r[3] >= r[4]);
    assert(r =~= seq![r[0], r[1], r[2], r[3], r[4]]);
    if g.cat == 5 || g.cat == 0 { assert(gseq(g) == seq![g.g1, g.g2, g.g3, g.g4, g.g5]); }
    lemma_prod5(r[0], r[1], r[2], r[3], r[4]);
}
pub proof fn lemma_gprod_inj(g: G, h: G, flush: bool)
    requires tg(g, flush), tg(h, flush), gprod(g) == gprod(h),
    ensures g == h,
{
    lemma_ranks(g);
    lemma_ranks(h);
    lemma_prod_inj(ranks(g), ranks(h));
}
/// what a hand's table key is
pub proof fn lemma_key_of(r: Seq<int>, flush: bool)
    requires desc5(r), flush ==> distinct5(r),
    ensures tg(groups(r, flush), flush), gprod(groups(r, flush)) == prod(r), ranks(groups(r, flush)) =~= r,
{
    let g = groups(r, flush);
    lemma_groups_wf(r, flush);
    lemma_ranks(g);
    assert(suited(g) <==> flush);
    lemma_groups_inj(r, ranks(g), flush);
}

// ---------------------------------------------------------------- the tables
/// the table of the hands whose standing is at least `lo` and below `hi`
pub open spec fn tab(flush: bool, lo: int, hi: int) -> IMap<i32, Meta> {
    IMap::new(|k: i32| exists|g: G| #[trigger] in_tab(g, flush, lo, hi, k), |k: i32| meta_of(choose|g: G| #[trigger] in_tab(g, flush, lo, hi, k)))
}
pub open spec fn in_tab(g: G, flush: bool, lo: int, hi: int, k: i32) -> bool { tg(g, flush) && lo <= standing(g) < hi && gprod(g) == k }

pub proof fn lemma_tab_get(flush: bool, lo: int, hi: int, g: G)
    requires tg(g, flush), lo <= standing(g) < hi,
    ensures 0 < gprod(g) <= 115_856_201, tab(flush, lo, hi).dom().contains(gprod(g) as i32), tab(flush, lo, hi)[gprod(g) as i32] == meta_of(g),
{
    lemma_ranks(g);
    let k = gprod(g) as i32;
    assert(in_tab(g, flush, lo, hi, k));
    let h = choose|h: G| #[trigger] in_tab(h, flush, lo, hi, k);
    lemma_gprod_inj(g, h, flush);
}
pub proof fn lemma_tab_empty(flush: bool, lo: int)
    ensures tab(flush, lo, lo) =~= IMap::<i32, Meta>::empty(),
{ }
pub proof fn lemma_tab_insert(flush: bool, lo: int, g: G)
    requires tg(g, flush), lo <= standing(g),
    ensures tab(flush, lo, standing(g) + 1) =~= tab(flush, lo, standing(g)).insert(gprod(g) as i32, meta_of(g)),
{
    let n = standing(g);
    lemma_tab_get(flush, lo, n + 1, g);
    let (x, y) = (tab(flush, lo, n), tab(flush, lo, n + 1));
    assert forall|k: i32| k != gprod(g) implies (#[trigger] y.dom().contains(k) <==> x.dom().contains(k)) && (y.dom().contains(k) ==> x[k] == y[k]) by {
        if y.dom().contains(k) {
            let h = choose|h: G| #[trigger] in_tab(h, flush, lo, n + 1, k);
            if standing(h) == n { lemma_order(g, h); }
            assert(in_tab(h, flush, lo, n, k));
            lemma_tab_get(flush, lo, n, h);
            lemma_tab_get(flush, lo, n + 1, h);
        }
        if x.dom().contains(k) {
            let h = choose|h: G| #[trigger] in_tab(h, flush, lo, n, k);
            assert(in_tab(h, flush, lo, n + 1, k));
        }
    }
}
}
