@@ top
// Bit sets of ranks.
pub mod vxbits {
use vstd::prelude::*;
use crate::vxspec::*;
use crate::vxrules::*;
use crate::vxorder::*;
use crate::vxtab::*;

pub proof fn lemma_bit_test(v: i16, i: i16)
    requires 0 <= v, 0 <= i <= 12,
    ensures (v & (1i16 << i)) != 0 <==> bit(v as int, i as int) == 1, bit(v as int, i as int) == 0 || bit(v as int, i as int) == 1,
{
    let u = v as u16;
    assert((v & (1i16 << 0i16)) != 0 <==> u % 2 == 1) by(bit_vector) requires u == v, 0 <= v;
    assert((v & (1i16 << 1i16)) != 0 <==> (u / 2) % 2 == 1) by(bit_vector) requires u == v, 0 <= v;
    assert((v & (1i16 << 2i16)) != 0 <==> (u / 4) % 2 == 1) by(bit_vector) requires u == v, 0 <= v;
    assert((v & (1i16 << 3i16)) != 0 <==> (u / 8) % 2 == 1) by(bit_vector) requires u == v, 0 <= v;
    assert((v & (1i16 << 4i16)) != 0 <==> (u / 16) % 2 == 1) by(bit_vector) requires u == v, 0 <= v;
    assert((v & (1i16 << 5i16)) != 0 <==> (u / 32) % 2 == 1) by(bit_vector) requires u == v, 0 <= v;
    assert((v & (1i16 << 6i16)) != 0 <==> (u / 64) % 2 == 1) by(bit_vector) requires u == v, 0 <= v;
    assert((v & (1i16 << 7i16)) != 0 <==> (u / 128) % 2 == 1) by(bit_vector) requires u == v, 0 <= v;
    assert((v & (1i16 << 8i16)) != 0 <==> (u / 256) % 2 == 1) by(bit_vector) requires u == v, 0 <= v;
    assert((v & (1i16 << 9i16)) != 0 <==> (u / 512) % 2 == 1) by(bit_vector) requires u == v, 0 <= v;
    assert((v & (1i16 << 10i16)) != 0 <==> (u / 1024) % 2 == 1) by(bit_vector) requires u == v, 0 <= v;
    assert((v & (1i16 << 11i16)) != 0 <==> (u / 2048) % 2 == 1) by(bit_vector) requires u == v, 0 <= v;
    assert((v & (1i16 << 12i16)) != 0 <==> (u / 4096) % 2 == 1) by(bit_vector) requires u == v, 0 <= v;
}
/// the i-th bit of a set of ranks says whether the rank is in it
pub proof fn lemma_bits_of(r: Seq<int>, i: int)
    requires distinct5(r), 0 <= i <= 12,
    ensures bit(set5(r), i) == (if r[0] == i || r[1] == i || r[2] == i || r[3] == i || r[4] == i { 1int } else { 0int }),
{
    assert(bfact_a(12)) by(compute);
    buse_a(12, r[0]);
    buse_b(r[0], r[0] - 1, r[1]);
    buse_c(r[0], r[1], r[1] - 1, r[2]);
    buse_d(r[0], r[1], r[2], r[2] - 1, r[3]);
    buse_e(r[0], r[1], r[2], r[3], r[3] - 1, r[4]);
    assert(bf(r[0], r[1], r[2], r[3], r[4], i));
    lemma_bf(r[0], r[1], r[2], r[3], r[4], i);
}
proof fn lemma_bf(a: int, b: int, c: int, d: int, e: int, i: int)
    requires bf(a, b, c, d, e, i),
    ensures bit(p2(a) + p2(b) + p2(c) + p2(d) + p2(e), i) == (if a == i || b == i || c == i || d == i || e == i { 1int } else { 0int }),
{ reveal(bf); }
#[verifier::opaque]
spec fn bf(a: int, b: int, c: int, d: int, e: int, i: int) -> bool { bit(p2(a) + p2(b) + p2(c) + p2(d) + p2(e), i) == (if a == i || b == i || c == i || d == i || e == i { 1int } else { 0int }) }
spec fn bfact5(a: int, b: int, c: int, d: int, e: int) -> bool {
    bf(a, b, c, d, e, 0) && bf(a, b, c, d, e, 1) && bf(a, b, c, d, e, 2) && bf(a, b, c, d, e, 3) && bf(a, b, c, d, e, 4) && bf(a, b, c, d, e, 5) && bf(a, b, c, d, e, 6)
    && bf(a, b, c, d, e, 7) && bf(a, b, c, d, e, 8) && bf(a, b, c, d, e, 9) && bf(a, b, c, d, e, 10) && bf(a, b, c, d, e, 11) && bf(a, b, c, d, e, 12)
}
spec fn bfact_e(a: int, b: int, c: int, d: int, e: int) -> bool decreases e + 1 { if e < 0 { true } else { bfact5(a, b, c, d, e) && bfact_e(a, b, c, d, e - 1) } }
spec fn bfact_d(a: int, b: int, c: int, d: int) -> bool decreases d + 1 { if d < 0 { true } else { bfact_e(a, b, c, d, d - 1) && bfact_d(a, b, c, d - 1) } }
spec fn bfact_c(a: int, b: int, c: int) -> bool decreases c + 1 { if c < 0 { true } else { bfact_d(a, b, c, c - 1) && bfact_c(a, b, c - 1) } }
spec fn bfact_b(a: int, b: int) -> bool decreases b + 1 { if b < 0 { true } else { bfact_c(a, b, b - 1) && bfact_b(a, b - 1) } }
spec fn bfact_a(a: int) -> bool decreases a + 1 { if a < 0 { true } else { bfact_b(a, a - 1) && bfact_a(a - 1) } }
proof fn buse_a(m: int, a: int) requires bfact_a(m), 0 <= a <= m ensures bfact_b(a, a - 1) decreases m { if a < m { buse_a(m - 1, a); } }
proof fn buse_b(a: int, m: int, b: int) requires bfact_b(a, m), 0 <= b <= m ensures bfact_c(a, b, b - 1) decreases m { if b < m { buse_b(a, m - 1, b); } }
proof fn buse_c(a: int, b: int, m: int, c: int) requires bfact_c(a, b, m), 0 <= c <= m ensures bfact_d(a, b, c, c - 1) decreases m { if c < m { buse_c(a, b, m - 1, c); } }
proof fn buse_d(a: int, b: int, c: int, m: int, d: int) requires bfact_d(a, b, c, m), 0 <= d <= m ensures bfact_e(a, b, c, d, d - 1) decreases m { if d < m { buse_d(a, b, c, m - 1, d); } }
proof fn buse_e(a: int, b: int, c: int, d: int, m: int, e: int) requires bfact_e(a, b, c, d, m), 0 <= e <= m ensures bfact5(a, b, c, d, e) decreases m { if e < m { buse_e(a, b, c, d, m - 1, e); } }

/// product of the primes of the ranks below i
pub closed spec fn bp(r: Seq<int>, i: int) -> int {
    if i <= r[4] { 1 } else if i <= r[3] { prime(r[4]) } else if i <= r[2] { prime(r[4]) * prime(r[3]) } else if i <= r[1] { prime(r[4]) * prime(r[3]) * prime(r[2]) }
    else if i <= r[0] { prime(r[4]) * prime(r[3]) * prime(r[2]) * prime(r[1]) } else { prime(r[4]) * prime(r[3]) * prime(r[2]) * prime(r[1]) * prime(r[0]) }
}
pub proof fn lemma_bp_step(r: Seq<int>, i: int)
    requires distinct5(r), 0 <= i <= 12,
    ensures
        0 < bp(r, i) <= 115_856_201, bp(r, 0) == 1,
        bp(r, i + 1) == (if bit(set5(r), i) == 1 { bp(r, i) * prime(i) } else { bp(r, i) }),
        0 < bp(r, i + 1) <= 115_856_201,
        bp(r, 13) == prod(r),
{
    lemma_bits_of(r, i);
    let (p, q, s, t, u) = (prime(r[4]), prime(r[3]), prime(r[2]), prime(r[1]), prime(r[0]));
    lemma_bound5(p, q, s, t, u);
    lemma_prod5(r[0], r[1], r[2], r[3], r[4]);
    assert(r =~= seq![r[0], r[1], r[2], r[3], r[4]]);
}
pub proof fn lemma_bp_ends(v: int)
    ensures
        forall|s: Seq<int>| distinct5(s) && #[trigger] set5(s) == v ==> bp(s, 0) == 1,
        forall|s: Seq<int>| distinct5(s) && #[trigger] set5(s) == v ==> bp(s, 13) == prod(s),
{
    assert forall|s: Seq<int>| distinct5(s) && #[trigger] set5(s) == v implies bp(s, 0) == 1 && bp(s, 13) == prod(s) by { lemma_bp_step(s, 0); }
}
pub proof fn lemma_below(v: i16, i: i16)
    requires 0 <= i <= 12, 0 <= v < 1i16 << add(i, 1), (v & (1i16 << i)) == 0,
    ensures v < 1i16 << i,
{
    let u = i as u16;
    let w = (i + 1) as u16;
    assert((1i16 << i) == (1i16 << u) && (1i16 << add(i, 1)) == (1i16 << w));
    assert(v < 1i16 << u) by(bit_vector) requires 0 <= u <= 12, w == add(u, 1), 0 <= v < 1i16 << w, (v & (1i16 << u)) == 0;
}
/// the rank that names a straight, flush or high-card hand
pub proof fn lemma_high(v: i16, s: Seq<int>, f: bool)
    requires distinct5(s), set5(s) == v,
    ensures v == 4111 ==> groups(s, f).g1 == 3, v != 4111 ==> groups(s, f).g1 == s[0],
{
    lemma_fact5(s);
    if v == 4111 && !wheel5(s) {
        let e = s[4];
        assert(s[0] == e + 4 && s[1] == e + 3 && s[2] == e + 2 && s[3] == e + 1);
        assert(e == 0 || e == 1 || e == 2 || e == 3 || e == 4 || e == 5 || e == 6 || e == 7 || e == 8);
    }
}
pub proof fn lemma_top(v: i16, i: i16, s: Seq<int>)
    requires distinct5(s), set5(s) == v, 0 <= i <= 12, 0 <= v < 1i16 << add(i, 1), (v & (1i16 << i)) != 0,
    ensures i == s[0],
{
    lemma_bit_test(v, i);
    lemma_bits_of(s, i as int);
    let j = s[0] as i16;
    lemma_bits_of(s, j as int);
    lemma_bit_test(v, j);
    if i < j {
        let w = (i + 1) as u16;
        let x = j as u16;
        assert((1i16 << j) == (1i16 << x) && (1i16 << add(i, 1)) == (1i16 << w));
        assert((v & (1i16 << x)) == 0) by(bit_vector) requires 1 <= w <= x <= 12, 0 <= v < 1i16 << w;
    }
}
// ---- from a bit set to its ranks
pub open spec fn low(v: int, n: int) -> Seq<int>
    decreases n
{
    if n <= 0 { Seq::empty() } else if bit(v, n - 1) == 1 { seq![n - 1] + low(v, n - 1) } else { low(v, n - 1) }
}
pub open spec fn sum2(r: Seq<int>) -> int
    decreases r.len()
{
    if r.len() == 0 { 0 } else { p2(r[0]) + sum2(r.drop_first()) }
}
pub open spec fn nbits(v: int, n: int) -> int
    decreases n
{
    if n <= 0 { 0 } else { bit(v, n - 1) + nbits(v, n - 1) }
}
proof fn lemma_mod_step(v: int, m: int)
    requires 0 <= v, 0 <= m <= 12,
    ensures v % (2 * p2(m)) == v % p2(m) + (if bit(v, m) == 1 { p2(m) } else { 0 }), bit(v, m) == 0 || bit(v, m) == 1,
{
    let p = p2(m);
    assert(p > 0);
    let q = v / p;
    let b = q % 2;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(v, p);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(q, 2);
    let x = b * p + v % p;
    assert(v == (q / 2) * (2 * p) + x) by(nonlinear_arith) requires v == p * q + v % p, q == 2 * (q / 2) + b, x == b * p + v % p;
    assert(0 <= x < 2 * p) by(nonlinear_arith) requires x == b * p + v % p, 0 <= b <= 1, 0 <= v % p < p;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(v, 2 * p, q / 2, x);
    assert(b == 1 ==> b * p == p) by(nonlinear_arith);
    assert(b == 0 ==> b * p == 0) by(nonlinear_arith);
}
proof fn lemma_p2_next(m: int)
    requires 0 <= m <= 11,
    ensures p2(m + 1) == 2 * p2(m),
{ }
/// 2^n, n <= 13
spec fn pw(n: int) -> int { if n == 13 { 8192 } else { p2(n) } }
proof fn lemma_low(v: int, n: int)
    requires 0 <= v, 0 <= n <= 13,
    ensures
        low(v, n).len() == nbits(v, n),
        sum2(low(v, n)) == v % pw(n),
        forall|i: int| 0 <= i < low(v, n).len() ==> 0 <= #[trigger] low(v, n)[i] < n,
        forall|i: int, j: int| 0 <= i < j < low(v, n).len() ==> #[trigger] low(v, n)[i] > #[trigger] low(v, n)[j],
    decreases n
{
    if n == 0 {
        assert(v % 1 == 0);
    } else {
        let (m, k) = (n - 1, low(v, n - 1));
        lemma_low(v, m);
        lemma_mod_step(v, m);
        if m < 12 { lemma_p2_next(m); }
        assert(pw(n) == 2 * p2(m));
        if bit(v, m) == 1 {
            let l = low(v, n);
            assert(l =~= seq![m] + k);
            assert(l.drop_first() =~= k);
            assert(sum2(l) == p2(m) + sum2(k));
            assert forall|i: int| 0 <= i < l.len() implies 0 <= #[trigger] l[i] < n by { if i > 0 { assert(l[i] == k[i - 1]); } }
            assert forall|i: int, j: int| 0 <= i < j < l.len() implies #[trigger] l[i] > #[trigger] l[j] by { assert(l[j] == k[j - 1]); if i > 0 { assert(l[i] == k[i - 1]); } }
        }
    }
}
proof fn lemma_nbits_ones(v: int)
    ensures nbits(v, 13) == ones(v),
{
    assert(nbits(v, 0) == 0);
    assert(nbits(v, 1) == (v / 1) % 2 + nbits(v, 0));
    assert(nbits(v, 2) == (v / 2) % 2 + nbits(v, 1));
    assert(nbits(v, 3) == (v / 4) % 2 + nbits(v, 2));
    assert(nbits(v, 4) == (v / 8) % 2 + nbits(v, 3));
    assert(nbits(v, 5) == (v / 16) % 2 + nbits(v, 4));
    assert(nbits(v, 6) == (v / 32) % 2 + nbits(v, 5));
    assert(nbits(v, 7) == (v / 64) % 2 + nbits(v, 6));
    assert(nbits(v, 8) == (v / 128) % 2 + nbits(v, 7));
    assert(nbits(v, 9) == (v / 256) % 2 + nbits(v, 8));
    assert(nbits(v, 10) == (v / 512) % 2 + nbits(v, 9));
    assert(nbits(v, 11) == (v / 1024) % 2 + nbits(v, 10));
    assert(nbits(v, 12) == (v / 2048) % 2 + nbits(v, 11));
    assert(nbits(v, 13) == (v / 4096) % 2 + nbits(v, 12));
}
pub proof fn lemma_sum2_5(r: Seq<int>)
    requires r.len() == 5,
    ensures sum2(r) == set5(r),
{
    reveal_with_fuel(sum2, 6);
    let r1 = r.drop_first();
    let r2 = r1.drop_first();
    let r3 = r2.drop_first();
    let r4 = r3.drop_first();
    assert(r1[0] == r[1] && r2[0] == r[2] && r3[0] == r[3] && r4[0] == r[4]);
    assert(sum2(r4.drop_first()) == 0);
}
/// every bit set of five ranks is the set of five distinct ranks
pub proof fn lemma_decode(v: int) -> (r: Seq<int>)
    requires 0 <= v < 8192, ones(v) == 5,
    ensures distinct5(r), set5(r) == v,
{
    hide(p2);
    hide(ones);
    hide(low);
    hide(nbits);
    hide(sum2);
    lemma_low(v, 13);
    let r = low(v, 13);
    lemma_nbits_ones(v);
    assert(r.len() == 5);
    assert(r[0] > r[1] && r[1] > r[2] && r[2] > r[3] && r[3] > r[4]);
    lemma_sum2_5(r);
    assert(v % 8192 == v);
    r
}
pub proof fn lemma_ones_bits(v: i16)
    requires 0 <= v,
    ensures ones(v as int) == (v & 1i16) + ((v >> 1i16) & 1i16) + ((v >> 2i16) & 1i16) + ((v >> 3i16) & 1i16) + ((v >> 4i16) & 1i16) + ((v >> 5i16) & 1i16) + ((v >> 6i16) & 1i16) + ((v >> 7i16) & 1i16)
        + ((v >> 8i16) & 1i16) + ((v >> 9i16) & 1i16) + ((v >> 10i16) & 1i16) + ((v >> 11i16) & 1i16) + ((v >> 12i16) & 1i16),
{
    let u = v as u16;
    assert((v & 1i16) == u % 2) by(bit_vector) requires u == v, 0 <= v;
    assert(((v >> 1i16) & 1i16) == (u / 2) % 2) by(bit_vector) requires u == v, 0 <= v;
    assert(((v >> 2i16) & 1i16) == (u / 4) % 2) by(bit_vector) requires u == v, 0 <= v;
    assert(((v >> 3i16) & 1i16) == (u / 8) % 2) by(bit_vector) requires u == v, 0 <= v;
    assert(((v >> 4i16) & 1i16) == (u / 16) % 2) by(bit_vector) requires u == v, 0 <= v;
    assert(((v >> 5i16) & 1i16) == (u / 32) % 2) by(bit_vector) requires u == v, 0 <= v;
    assert(((v >> 6i16) & 1i16) == (u / 64) % 2) by(bit_vector) requires u == v, 0 <= v;
    assert(((v >> 7i16) & 1i16) == (u / 128) % 2) by(bit_vector) requires u == v, 0 <= v;
    assert(((v >> 8i16) & 1i16) == (u / 256) % 2) by(bit_vector) requires u == v, 0 <= v;
    assert(((v >> 9i16) & 1i16) == (u / 512) % 2) by(bit_vector) requires u == v, 0 <= v;
    assert(((v >> 10i16) & 1i16) == (u / 1024) % 2) by(bit_vector) requires u == v, 0 <= v;
    assert(((v >> 11i16) & 1i16) == (u / 2048) % 2) by(bit_vector) requires u == v, 0 <= v;
    assert(((v >> 12i16) & 1i16) == (u / 4096) % 2) by(bit_vector) requires u == v, 0 <= v;
}
/// the next larger number with as many bits
pub proof fn lemma_next_bits(x: i16, t: i16, y: i16, n: i16, z: u32)
    requires
        0 < x < 7936, ones(x as int) == 5, z < 16, (x >> z) & 1 == 1, forall|j: u32| j < z ==> #[trigger] ((x >> j) & 1) == 0,
        t == x | sub(x, 1),
        y == sub(!t & sub(0, !t), 1),
        n == add(t, 1) | (y >> add(z, 1)),
    ensures z <= 12, x < n < 8192, ones(n as int) == 5, forall|v: int| x < v < n ==> ones(v) != 5,
{
    assert(x << sub(16, z) == 0) by(bit_vector) requires z < 16, forall|j: u32| j < z ==> (x >> j) & 1 == 0;
    assert(z <= 12) by(bit_vector) requires 0 < x < 7936, z < 16, (x >> z) & 1 == 1;
    lemma_ones_bits(x);
    assert(x < n < 8192 && ((n & 1i16) + ((n >> 1i16) & 1i16) + ((n >> 2i16) & 1i16) + ((n >> 3i16) & 1i16) + ((n >> 4i16) & 1i16) + ((n >> 5i16) & 1i16) + ((n >> 6i16) & 1i16) + ((n >> 7i16) & 1i16) + ((n >> 8i16) & 1i16) + ((n >> 9i16) & 1i16) + ((n >> 10i16) & 1i16) + ((n >> 11i16) & 1i16) + ((n >> 12i16) & 1i16)) == 5) by(bit_vector)
        requires 0 < x < 7936, z < 16, (x >> z) & 1 == 1, x << sub(16, z) == 0, ((x & 1i16) + ((x >> 1i16) & 1i16) + ((x >> 2i16) & 1i16) + ((x >> 3i16) & 1i16) + ((x >> 4i16) & 1i16) + ((x >> 5i16) & 1i16) + ((x >> 6i16) & 1i16) + ((x >> 7i16) & 1i16) + ((x >> 8i16) & 1i16) + ((x >> 9i16) & 1i16) + ((x >> 10i16) & 1i16) + ((x >> 11i16) & 1i16) + ((x >> 12i16) & 1i16)) == 5, t == x | sub(x, 1), y == sub(!t & sub(0, !t), 1), n == add(t, 1) | (y >> add(z, 1));
    lemma_ones_bits(n);
    assert forall|w: int| x < w < n implies ones(w) != 5 by {
        let v = w as i16;
        lemma_ones_bits(v);
        assert(((v & 1i16) + ((v >> 1i16) & 1i16) + ((v >> 2i16) & 1i16) + ((v >> 3i16) & 1i16) + ((v >> 4i16) & 1i16) + ((v >> 5i16) & 1i16) + ((v >> 6i16) & 1i16) + ((v >> 7i16) & 1i16) + ((v >> 8i16) & 1i16) + ((v >> 9i16) & 1i16) + ((v >> 10i16) & 1i16) + ((v >> 11i16) & 1i16) + ((v >> 12i16) & 1i16)) != 5) by(bit_vector)
            requires x < v < n, 0 < x < 7936, z < 16, (x >> z) & 1 == 1, x << sub(16, z) == 0, ((x & 1i16) + ((x >> 1i16) & 1i16) + ((x >> 2i16) & 1i16) + ((x >> 3i16) & 1i16) + ((x >> 4i16) & 1i16) + ((x >> 5i16) & 1i16) + ((x >> 6i16) & 1i16) + ((x >> 7i16) & 1i16) + ((x >> 8i16) & 1i16) + ((x >> 9i16) & 1i16) + ((x >> 10i16) & 1i16) + ((x >> 11i16) & 1i16) + ((x >> 12i16) & 1i16)) == 5, t == x | sub(x, 1), y == sub(!t & sub(0, !t), 1), n == add(t, 1) | (y >> add(z, 1));
    }
}
}
