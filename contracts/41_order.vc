@@ top
// Lemmas: the standing is exactly the order of the rules.
pub mod vxorder {
use vstd::prelude::*;
use crate::vxspec::*;
use crate::vxrules::*;

// ---------------------------------------------------------------- finite facts, by evaluation
pub open spec fn fact5(a: int, b: int, c: int, d: int, e: int) -> bool {
    let v = p2(a) + p2(b) + p2(c) + p2(d) + p2(e);
    ones(v) == 5 && (straight_bits(v) <==> (a - e == 4 || (a == 12 && b == 3 && c == 2 && d == 1 && e == 0)))
}
pub open spec fn fact_e(a: int, b: int, c: int, d: int, e: int) -> bool decreases e + 1 { if e < 0 { true } else { fact5(a, b, c, d, e) && fact_e(a, b, c, d, e - 1) } }
pub open spec fn fact_d(a: int, b: int, c: int, d: int) -> bool decreases d + 1 { if d < 0 { true } else { fact_e(a, b, c, d, d - 1) && fact_d(a, b, c, d - 1) } }
pub open spec fn fact_c(a: int, b: int, c: int) -> bool decreases c + 1 { if c < 0 { true } else { fact_d(a, b, c, c - 1) && fact_c(a, b, c - 1) } }
pub open spec fn fact_b(a: int, b: int) -> bool decreases b + 1 { if b < 0 { true } else { fact_c(a, b, b - 1) && fact_b(a, b - 1) } }
pub open spec fn fact_a(a: int) -> bool decreases a + 1 { if a < 0 { true } else { fact_b(a, a - 1) && fact_a(a - 1) } }
proof fn use_a(m: int, a: int) requires fact_a(m), 0 <= a <= m ensures fact_b(a, a - 1) decreases m { if a < m { use_a(m - 1, a); } }
proof fn use_b(a: int, m: int, b: int) requires fact_b(a, m), 0 <= b <= m ensures fact_c(a, b, b - 1) decreases m { if b < m { use_b(a, m - 1, b); } }
proof fn use_c(a: int, b: int, m: int, c: int) requires fact_c(a, b, m), 0 <= c <= m ensures fact_d(a, b, c, c - 1) decreases m { if c < m { use_c(a, b, m - 1, c); } }
proof fn use_d(a: int, b: int, c: int, m: int, d: int) requires fact_d(a, b, c, m), 0 <= d <= m ensures fact_e(a, b, c, d, d - 1) decreases m { if d < m { use_d(a, b, c, m - 1, d); } }
proof fn use_e(a: int, b: int, c: int, d: int, m: int, e: int) requires fact_e(a, b, c, d, m), 0 <= e <= m ensures fact5(a, b, c, d, e) decreases m { if e < m { use_e(a, b, c, d, m - 1, e); } }
pub proof fn lemma_fact5(r: Seq<int>)
    requires distinct5(r),
    ensures ones(set5(r)) == 5, straight_bits(set5(r)) <==> straight5(r), loose_bits(set5(r)) <==> !straight5(r),
{
    assert(fact_a(12)) by(compute);
    use_a(12, r[0]);
    use_b(r[0], r[0] - 1, r[1]);
    use_c(r[0], r[1], r[1] - 1, r[2]);
    use_d(r[0], r[1], r[2], r[2] - 1, r[3]);
    use_e(r[0], r[1], r[2], r[3], r[3] - 1, r[4]);
}
pub open spec fn cnt_range(lo: int, len: int) -> int
    decreases len
{
    if len <= 0 { 0 } else if len == 1 { if loose_bits(lo) { 1 } else { 0 } } else { cnt_range(lo, len / 2) + cnt_range(lo + len / 2, len - len / 2) }
}
pub proof fn lemma_cnt_range(lo: int, len: int)
    requires 0 <= len, 0 <= lo, lo + len <= 8192,
    ensures cnt_above(lo - 1) == cnt_above(lo + len - 1) + cnt_range(lo, len),
    decreases len
{
    if len >= 2 {
        lemma_cnt_range(lo, len / 2);
        lemma_cnt_range(lo + len / 2, len - len / 2);
    }
}
pub proof fn lemma_cnt_total()
    ensures cnt_above(0) == 1277, cnt_above(-1) == 1277,
{
    lemma_cnt_range(0, 8192);
    lemma_cnt_range(1, 8191);
    assert(cnt_range(0, 8192) == 1277) by(compute);
    assert(cnt_range(1, 8191) == 1277) by(compute);
}
pub proof fn lemma_cnt_mono(v: int, w: int)
    requires v < w <= 8191,
    ensures cnt_above(v) >= cnt_above(w), loose_bits(w) ==> cnt_above(v) > cnt_above(w),
    decreases w - v
{
    if v + 1 < w { lemma_cnt_mono(v + 1, w); }
}
pub proof fn lemma_cnt_bounds(v: int)
    requires 0 <= v <= 8191,
    ensures 0 <= cnt_above(v) <= 1277, v > 0 && loose_bits(v) ==> cnt_above(v) <= 1276,
{
    lemma_cnt_total();
    lemma_cnt_nonneg(v);
    if v > 0 { lemma_cnt_mono(0, v); }
}
proof fn lemma_cnt_nonneg(v: int)
    ensures cnt_above(v) >= 0,
    decreases 8192 - v
{
    if v < 8191 { lemma_cnt_nonneg(v + 1); }
}

// ---------------------------------------------------------------- bit sets of ranks order as the ranks do
pub proof fn lemma_p2_double(x: int, y: int)
    requires 0 <= x < y <= 12,
    ensures 2 * p2(x) <= p2(y), p2(x) >= 1,
{ }
pub proof fn lemma_set5_bounds(r: Seq<int>)
    requires distinct5(r),
    ensures 31 <= set5(r) <= 7936,
{
}
/// a set of ranks is worth less than twice its highest
proof fn lemma_tail(r: Seq<int>)
    requires distinct5(r),
    ensures
        p2(r[4]) >= 1,
        p2(r[3]) >= 2 * p2(r[4]),
        p2(r[2]) >= 2 * p2(r[3]),
        p2(r[1]) >= 2 * p2(r[2]),
        p2(r[0]) >= 2 * p2(r[1]),
{
    lemma_p2_double(r[4], r[3]);
    lemma_p2_double(r[3], r[2]);
    lemma_p2_double(r[2], r[1]);
    lemma_p2_double(r[1], r[0]);
}
pub open spec fn lexgt5(r: Seq<int>, s: Seq<int>) -> bool {
    r[0] > s[0] || (r[0] == s[0] && (r[1] > s[1] || (r[1] == s[1] && (r[2] > s[2] || (r[2] == s[2] && (r[3] > s[3] || (r[3] == s[3] && r[4] > s[4])))))))
}
pub proof fn lemma_set5_lex(r: Seq<int>, s: Seq<int>)
    requires distinct5(r), distinct5(s), lexgt5(r, s),
    ensures set5(r) > set5(s),
{
    lemma_tail(r);
    lemma_tail(s);
    if r[0] > s[0] { lemma_p2_double(s[0], r[0]); }
    else if r[1] > s[1] { lemma_p2_double(s[1], r[1]); }
    else if r[2] > s[2] { lemma_p2_double(s[2], r[2]); }
    else if r[3] > s[3] { lemma_p2_double(s[3], r[3]); }
    else { lemma_p2_double(s[4], r[4]); }
}
pub proof fn lemma_set5_inj(r: Seq<int>, s: Seq<int>)
    requires distinct5(r), distinct5(s), set5(r) == set5(s),
    ensures r =~= s,
{
    if lexgt5(r, s) { lemma_set5_lex(r, s); }
    else if lexgt5(s, r) { lemma_set5_lex(s, r); }
}

// ---------------------------------------------------------------- positions of kickers
pub proof fn lemma_pos1(i: int, n: int)
    requires 0 <= i < n,
    ensures pos(seq![i], 0, n) == i,
{
    lemma_pos1_from(i, 0, n);
}
proof fn lemma_pos1_from(i: int, lo: int, n: int)
    requires lo <= i < n,
    ensures pos(seq![i], lo, n) == i - lo,
    decreases n - lo
{
    let c = seq![i];
    if i == lo { assert(c.drop_first() =~= Seq::<int>::empty()); assert(c[0] == lo); assert(pos(c.drop_first(), lo + 1, n) == 0); assert(pos(c, lo, n) == 0); }
    else { lemma_pos1_from(i, lo + 1, n); assert(nc(n - lo - 1, 0) == 1); assert(c[0] != lo && c.len() == 1); assert(pos(c, lo, n) == nc(n - lo - 1, c.len() - 1) + pos(c, lo + 1, n)); }
}
pub proof fn lemma_pos2(i: int, j: int, n: int)
    requires 0 <= i < j < n,
    ensures 0 <= pos(seq![i, j], 0, n) < nc(n, 2),
{
    let c = seq![i, j];
    assert(inc(c, 0, n));
    lemma_pos_bounds(c, 0, n);
}
pub proof fn lemma_pos2_lex(i: int, j: int, x: int, y: int, n: int)
    requires 0 <= i < j < n, 0 <= x < y < n, i < x || (i == x && j < y),
    ensures pos(seq![i, j], 0, n) < pos(seq![x, y], 0, n),
{
    let a = seq![i, j];
    let b = seq![x, y];
    reveal_with_fuel(lex, 3);
    assert(a.drop_first()[0] == j && b.drop_first()[0] == y);
    assert(inc(a, 0, n) && inc(b, 0, n));
    lemma_pos_lex(a, b, 0, n);
}
pub proof fn lemma_pos3(i: int, j: int, k: int, n: int)
    requires 0 <= i < j < k < n,
    ensures 0 <= pos(seq![i, j, k], 0, n) < nc(n, 3),
{
    let c = seq![i, j, k];
    assert(inc(c, 0, n));
    lemma_pos_bounds(c, 0, n);
}
pub proof fn lemma_pos3_lex(i: int, j: int, k: int, x: int, y: int, z: int, n: int)
    requires 0 <= i < j < k < n, 0 <= x < y < z < n, i < x || (i == x && (j < y || (j == y && k < z))),
    ensures pos(seq![i, j, k], 0, n) < pos(seq![x, y, z], 0, n),
{
    let a = seq![i, j, k];
    let b = seq![x, y, z];
    reveal_with_fuel(lex, 4);
    assert(a.drop_first()[0] == j && b.drop_first()[0] == y);
    assert(a.drop_first().drop_first()[0] == k && b.drop_first().drop_first()[0] == z);
    assert(inc(a, 0, n) && inc(b, 0, n));
    lemma_pos_lex(a, b, 0, n);
}

// ---------------------------------------------------------------- the standing
pub open spec fn gseq(g: G) -> Seq<int> { seq![g.g1, g.g2, g.g3, g.g4, g.g5] }

pub proof fn lemma_standing_range(g: G)
    requires wfg(g),
    ensures best_of_cat(g.cat) <= standing(g) <= worst_of_cat(g.cat), 1 <= standing(g) <= 7462,
{
    lemma_nc_values();
    if g.cat == 5 || g.cat == 0 {
        lemma_set5_bounds(gseq(g));
        lemma_fact5(gseq(g));
        lemma_cnt_bounds(set5(gseq(g)));
    } else if g.cat == 3 {
        lemma_pos2(ix1(g.g2, g.g1), ix1(g.g3, g.g1), 12);
    } else if g.cat == 2 {
        lemma_pos2(ix(g.g1), ix(g.g2), 13);
    } else if g.cat == 1 {
        lemma_pos3(ix1(g.g2, g.g1), ix1(g.g3, g.g1), ix1(g.g4, g.g1), 12);
    }
}
pub open spec fn gt(x: G, y: G) -> bool {
    x.cat > y.cat || (x.cat == y.cat && lexgt5(gseq(x), gseq(y)))
}
pub proof fn lemma_key_gt(x: G, y: G)
    requires wfg(x), wfg(y),
    ensures key(x) > key(y) <==> gt(x, y), key(x) == key(y) <==> x == y,
{
}
pub proof fn lemma_gt_standing(x: G, y: G)
    requires wfg(x), wfg(y), gt(x, y),
    ensures standing(x) < standing(y),
{
    lemma_standing_range(x);
    lemma_standing_range(y);
    lemma_nc_values();
    if x.cat == y.cat {
        if x.cat == 5 || x.cat == 0 {
            lemma_set5_lex(gseq(x), gseq(y));
            lemma_set5_bounds(gseq(x));
            lemma_fact5(gseq(x));
            lemma_cnt_mono(set5(gseq(y)), set5(gseq(x)));
        } else if x.cat == 3 {
            let (i, j) = (ix1(x.g2, x.g1), ix1(x.g3, x.g1));
            let (k, l) = (ix1(y.g2, y.g1), ix1(y.g3, y.g1));
            lemma_pos2(i, j, 12);
            lemma_pos2(k, l, 12);
            if x.g1 == y.g1 { lemma_pos2_lex(i, j, k, l, 12); }
        } else if x.cat == 2 {
            lemma_pos2(ix(x.g1), ix(x.g2), 13);
            lemma_pos2(ix(y.g1), ix(y.g2), 13);
            if x.g1 != y.g1 || x.g2 != y.g2 { lemma_pos2_lex(ix(x.g1), ix(x.g2), ix(y.g1), ix(y.g2), 13); }
        } else if x.cat == 1 {
            lemma_pos3(ix1(x.g2, x.g1), ix1(x.g3, x.g1), ix1(x.g4, x.g1), 12);
            lemma_pos3(ix1(y.g2, y.g1), ix1(y.g3, y.g1), ix1(y.g4, y.g1), 12);
            if x.g1 == y.g1 { lemma_pos3_lex(ix1(x.g2, x.g1), ix1(x.g3, x.g1), ix1(x.g4, x.g1), ix1(y.g2, y.g1), ix1(y.g3, y.g1), ix1(y.g4, y.g1), 12); }
        }
    }
}
/// better by the rules is exactly: lower standing; and nothing but the same groups has the same standing
pub proof fn lemma_order(x: G, y: G)
    requires wfg(x), wfg(y),
    ensures
        key(x) > key(y) <==> standing(x) < standing(y),
        key(x) == key(y) <==> standing(x) == standing(y),
        standing(x) == standing(y) <==> x == y,
{
    lemma_key_gt(x, y);
    lemma_key_gt(y, x);
    if gt(x, y) { lemma_gt_standing(x, y); }
    if gt(y, x) { lemma_gt_standing(y, x); }
}
pub proof fn lemma_groups_wf(r: Seq<int>, flush: bool)
    requires desc5(r), flush ==> distinct5(r),
    ensures wfg(groups(r, flush)),
{
    if distinct5(r) { assert(seq![r[0], r[1], r[2], r[3], r[4]] =~= r); }
}
/// the ranks can be read back from the groups
pub proof fn lemma_groups_inj(r: Seq<int>, s: Seq<int>, flush: bool)
    requires desc5(r), desc5(s), flush ==> distinct5(r) && distinct5(s), groups(r, flush) == groups(s, flush),
    ensures r =~= s,
{
}
}
