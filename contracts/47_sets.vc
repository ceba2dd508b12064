@@ top
// Sets of five ranks in the order in which the generator visits them, and what each one adds to the tables.
pub mod vxsets {
use vstd::prelude::*;
use crate::vxspec::*;
use crate::vxrules::*;
use crate::vxorder::*;
use crate::vxtab::*;
use crate::vxfill::*;
use crate::vxtext::meta_of;
use crate::evaluate::meta::Meta;

pub open spec fn st(i: int) -> int {
    if i == 0 { 7936 } else if i == 1 { 3968 } else if i == 2 { 1984 } else if i == 3 { 992 } else if i == 4 { 496 }
    else if i == 5 { 248 } else if i == 6 { 124 } else if i == 7 { 62 } else if i == 8 { 31 } else { 4111 }
}
spec fn b(v: int, w: int) -> int { if w > v { 1 } else { 0 } }
/// how many straights there are above v
pub closed spec fn sabove(v: int) -> int {
    b(v, 7936) + b(v, 3968) + b(v, 1984) + b(v, 992) + b(v, 496) + b(v, 248) + b(v, 124) + b(v, 62) + b(v, 31) + b(v, 4111)
}
proof fn lemma_straight_ones(v: int)
    requires straight_bits(v),
    ensures ones(v) == 5,
{
    assert(ones(7936) == 5 && ones(3968) == 5 && ones(1984) == 5 && ones(992) == 5 && ones(496) == 5 && ones(248) == 5 && ones(124) == 5 && ones(62) == 5 && ones(31) == 5 && ones(4111) == 5) by(compute);
}
proof fn lemma_gap(v: int, w: int)
    requires v <= w <= 8191, forall|u: int| v < u <= w ==> ones(u) != 5,
    ensures cnt_above(v) == cnt_above(w),
    decreases w - v
{
    if v < w { assert(ones(v + 1) != 5); lemma_gap(v + 1, w); }
}
/// one step of the generator
pub proof fn lemma_next(v: int, w: int)
    requires 0 < v < w < 8192, ones(w) == 5, forall|u: int| v < u < w ==> #[trigger] ones(u) != 5,
    ensures
        cnt_above(v) == cnt_above(w) + (if straight_bits(w) { 0int } else { 1int }),
        sabove(v) == sabove(w) + (if straight_bits(w) { 1int } else { 0int }),
{
    lemma_gap(v, w - 1);
    assert forall|u: int| v < u < w implies !straight_bits(u) by { if straight_bits(u) { lemma_straight_ones(u); } }
    assert(straight_bits(7936) && straight_bits(3968) && straight_bits(1984) && straight_bits(992) && straight_bits(496) && straight_bits(248) && straight_bits(124) && straight_bits(62) && straight_bits(31) && straight_bits(4111));
}
pub proof fn lemma_steps_left(v: int)
    requires 0 < v < 8192,
    ensures
        sabove(v) >= 0, cnt_above(v) >= 0,
        v >= 7936 ==> sabove(v) == 0 && cnt_above(v) == 0,
        cnt_above(31) == 1277, sabove(31) == 9,
{
    lemma_cnt_bounds(v);
    if v >= 7936 {
        assert(cnt_above(7936) == 0) by { lemma_top_cnt(); }
        if v > 7936 { lemma_cnt_mono(7936, v); }
    }
    lemma_cnt_total();
    assert forall|u: int| 0 < u <= 31 implies !loose_bits(u) by {
        if u < 31 { lemma_small(u); } else { assert(straight_bits(31)); }
    }
    lemma_gap_loose(0, 31);
}
proof fn lemma_gap_loose(v: int, w: int)
    requires v <= w <= 8191, forall|u: int| v < u <= w ==> !loose_bits(u),
    ensures cnt_above(v) == cnt_above(w),
    decreases w - v
{
    if v < w { assert(!loose_bits(v + 1)); lemma_gap_loose(v + 1, w); }
}
proof fn lemma_small(u: int)
    requires 0 < u < 31,
    ensures ones(u) != 5,
{ }
proof fn lemma_high(u: int)
    requires 7936 < u < 8192,
    ensures ones(u) != 5,
{ }
proof fn lemma_top_cnt()
    ensures cnt_above(7936) == 0,
{
    assert forall|u: int| 7936 < u <= 8191 implies ones(u) != 5 by { lemma_high(u); }
    lemma_gap(7936, 8191);
}
// ---------------------------------------------------------------- the ranks in a set
// (v - 2^m) / 2^i = v / 2^i - 2^(m-i), bit by bit
proof fn lemma_tb0(v: int) requires 1 <= v < 2 ensures ones(v - 1) == ones(v) - 1 {
    assert((v) % 2 == 1 && (v - 1) % 2 == 0) by { assert(v == 1); }
    assert((v) / 2 == 0 && (v - 1) / 2 == 0);
    assert((v) / 4 == 0 && (v - 1) / 4 == 0);
    assert((v) / 8 == 0 && (v - 1) / 8 == 0);
    assert((v) / 16 == 0 && (v - 1) / 16 == 0);
    assert((v) / 32 == 0 && (v - 1) / 32 == 0);
    assert((v) / 64 == 0 && (v - 1) / 64 == 0);
    assert((v) / 128 == 0 && (v - 1) / 128 == 0);
    assert((v) / 256 == 0 && (v - 1) / 256 == 0);
    assert((v) / 512 == 0 && (v - 1) / 512 == 0);
    assert((v) / 1024 == 0 && (v - 1) / 1024 == 0);
    assert((v) / 2048 == 0 && (v - 1) / 2048 == 0);
    assert((v) / 4096 == 0 && (v - 1) / 4096 == 0);
}
proof fn lemma_tb1(v: int) requires 2 <= v < 4 ensures ones(v - 2) == ones(v) - 1 {
    assert((v - 2) % 2 == (v) % 2) by { assert(v - 2 == v - 2); }
    assert(((v) / 2) % 2 == 1 && ((v - 2) / 2) % 2 == 0) by { assert((v) / 2 == 1); }
    assert((v) / 4 == 0 && (v - 2) / 4 == 0);
    assert((v) / 8 == 0 && (v - 2) / 8 == 0);
    assert((v) / 16 == 0 && (v - 2) / 16 == 0);
    assert((v) / 32 == 0 && (v - 2) / 32 == 0);
    assert((v) / 64 == 0 && (v - 2) / 64 == 0);
    assert((v) / 128 == 0 && (v - 2) / 128 == 0);
    assert((v) / 256 == 0 && (v - 2) / 256 == 0);
    assert((v) / 512 == 0 && (v - 2) / 512 == 0);
    assert((v) / 1024 == 0 && (v - 2) / 1024 == 0);
    assert((v) / 2048 == 0 && (v - 2) / 2048 == 0);
    assert((v) / 4096 == 0 && (v - 2) / 4096 == 0);
}
proof fn lemma_tb2(v: int) requires 4 <= v < 8 ensures ones(v - 4) == ones(v) - 1 {
    assert((v - 4) % 2 == (v) % 2) by { assert(v - 4 == v - 4); }
    assert(((v - 4) / 2) % 2 == ((v) / 2) % 2) by { assert((v - 4) / 2 == (v) / 2 - 2); }
    assert(((v) / 4) % 2 == 1 && ((v - 4) / 4) % 2 == 0) by { assert((v) / 4 == 1); }
    assert((v) / 8 == 0 && (v - 4) / 8 == 0);
    assert((v) / 16 == 0 && (v - 4) / 16 == 0);
    assert((v) / 32 == 0 && (v - 4) / 32 == 0);
    assert((v) / 64 == 0 && (v - 4) / 64 == 0);
    assert((v) / 128 == 0 && (v - 4) / 128 == 0);
    assert((v) / 256 == 0 && (v - 4) / 256 == 0);
    assert((v) / 512 == 0 && (v - 4) / 512 == 0);
    assert((v) / 1024 == 0 && (v - 4) / 1024 == 0);
    assert((v) / 2048 == 0 && (v - 4) / 2048 == 0);
    assert((v) / 4096 == 0 && (v - 4) / 4096 == 0);
}
proof fn lemma_tb3(v: int) requires 8 <= v < 16 ensures ones(v - 8) == ones(v) - 1 {
    assert((v - 8) % 2 == (v) % 2) by { assert(v - 8 == v - 8); }
    assert(((v - 8) / 2) % 2 == ((v) / 2) % 2) by { assert((v - 8) / 2 == (v) / 2 - 4); }
    assert(((v - 8) / 4) % 2 == ((v) / 4) % 2) by { assert((v - 8) / 4 == (v) / 4 - 2); }
    assert(((v) / 8) % 2 == 1 && ((v - 8) / 8) % 2 == 0) by { assert((v) / 8 == 1); }
    assert((v) / 16 == 0 && (v - 8) / 16 == 0);
    assert((v) / 32 == 0 && (v - 8) / 32 == 0);
    assert((v) / 64 == 0 && (v - 8) / 64 == 0);
    assert((v) / 128 == 0 && (v - 8) / 128 == 0);
    assert((v) / 256 == 0 && (v - 8) / 256 == 0);
    assert((v) / 512 == 0 && (v - 8) / 512 == 0);
    assert((v) / 1024 == 0 && (v - 8) / 1024 == 0);
    assert((v) / 2048 == 0 && (v - 8) / 2048 == 0);
    assert((v) / 4096 == 0 && (v - 8) / 4096 == 0);
}
proof fn lemma_tb4(v: int) requires 16 <= v < 32 ensures ones(v - 16) == ones(v) - 1 {
    assert((v - 16) % 2 == (v) % 2) by { assert(v - 16 == v - 16); }
    assert(((v - 16) / 2) % 2 == ((v) / 2) % 2) by { assert((v - 16) / 2 == (v) / 2 - 8); }
    assert(((v - 16) / 4) % 2 == ((v) / 4) % 2) by { assert((v - 16) / 4 == (v) / 4 - 4); }
    assert(((v - 16) / 8) % 2 == ((v) / 8) % 2) by { assert((v - 16) / 8 == (v) / 8 - 2); }
    assert(((v) / 16) % 2 == 1 && ((v - 16) / 16) % 2 == 0) by { assert((v) / 16 == 1); }
    assert((v) / 32 == 0 && (v - 16) / 32 == 0);
    assert((v) / 64 == 0 && (v - 16) / 64 == 0);
    assert((v) / 128 == 0 && (v - 16) / 128 == 0);
    assert((v) / 256 == 0 && (v - 16) / 256 == 0);
    assert((v) / 512 == 0 && (v - 16) / 512 == 0);
    assert((v) / 1024 == 0 && (v - 16) / 1024 == 0);
    assert((v) / 2048 == 0 && (v - 16) / 2048 == 0);
    assert((v) / 4096 == 0 && (v - 16) / 4096 == 0);
}
proof fn lemma_tb5(v: int) requires 32 <= v < 64 ensures ones(v - 32) == ones(v) - 1 {
    assert((v - 32) % 2 == (v) % 2) by { assert(v - 32 == v - 32); }
    assert(((v - 32) / 2) % 2 == ((v) / 2) % 2) by { assert((v - 32) / 2 == (v) / 2 - 16); }
    assert(((v - 32) / 4) % 2 == ((v) / 4) % 2) by { assert((v - 32) / 4 == (v) / 4 - 8); }
    assert(((v - 32) / 8) % 2 == ((v) / 8) % 2) by { assert((v - 32) / 8 == (v) / 8 - 4); }
    assert(((v - 32) / 16) % 2 == ((v) / 16) % 2) by { assert((v - 32) / 16 == (v) / 16 - 2); }
    assert(((v) / 32) % 2 == 1 && ((v - 32) / 32) % 2 == 0) by { assert((v) / 32 == 1); }
    assert((v) / 64 == 0 && (v - 32) / 64 == 0);
    assert((v) / 128 == 0 && (v - 32) / 128 == 0);
    assert((v) / 256 == 0 && (v - 32) / 256 == 0);
    assert((v) / 512 == 0 && (v - 32) / 512 == 0);
    assert((v) / 1024 == 0 && (v - 32) / 1024 == 0);
    assert((v) / 2048 == 0 && (v - 32) / 2048 == 0);
    assert((v) / 4096 == 0 && (v - 32) / 4096 == 0);
}
proof fn lemma_tb6(v: int) requires 64 <= v < 128 ensures ones(v - 64) == ones(v) - 1 {
    assert((v - 64) % 2 == (v) % 2) by { assert(v - 64 == v - 64); }
    assert(((v - 64) / 2) % 2 == ((v) / 2) % 2) by { assert((v - 64) / 2 == (v) / 2 - 32); }
    assert(((v - 64) / 4) % 2 == ((v) / 4) % 2) by { assert((v - 64) / 4 == (v) / 4 - 16); }
    assert(((v - 64) / 8) % 2 == ((v) / 8) % 2) by { assert((v - 64) / 8 == (v) / 8 - 8); }
    assert(((v - 64) / 16) % 2 == ((v) / 16) % 2) by { assert((v - 64) / 16 == (v) / 16 - 4); }
    assert(((v - 64) / 32) % 2 == ((v) / 32) % 2) by { assert((v - 64) / 32 == (v) / 32 - 2); }
    assert(((v) / 64) % 2 == 1 && ((v - 64) / 64) % 2 == 0) by { assert((v) / 64 == 1); }
    assert((v) / 128 == 0 && (v - 64) / 128 == 0);
    assert((v) / 256 == 0 && (v - 64) / 256 == 0);
    assert((v) / 512 == 0 && (v - 64) / 512 == 0);
    assert((v) / 1024 == 0 && (v - 64) / 1024 == 0);
    assert((v) / 2048 == 0 && (v - 64) / 2048 == 0);
    assert((v) / 4096 == 0 && (v - 64) / 4096 == 0);
}
proof fn lemma_tb7(v: int) requires 128 <= v < 256 ensures ones(v - 128) == ones(v) - 1 {
    assert((v - 128) % 2 == (v) % 2) by { assert(v - 128 == v - 128); }
    assert(((v - 128) / 2) % 2 == ((v) / 2) % 2) by { assert((v - 128) / 2 == (v) / 2 - 64); }
    assert(((v - 128) / 4) % 2 == ((v) / 4) % 2) by { assert((v - 128) / 4 == (v) / 4 - 32); }
    assert(((v - 128) / 8) % 2 == ((v) / 8) % 2) by { assert((v - 128) / 8 == (v) / 8 - 16); }
    assert(((v - 128) / 16) % 2 == ((v) / 16) % 2) by { assert((v - 128) / 16 == (v) / 16 - 8); }
    assert(((v - 128) / 32) % 2 == ((v) / 32) % 2) by { assert((v - 128) / 32 == (v) / 32 - 4); }
    assert(((v - 128) / 64) % 2 == ((v) / 64) % 2) by { assert((v - 128) / 64 == (v) / 64 - 2); }
    assert(((v) / 128) % 2 == 1 && ((v - 128) / 128) % 2 == 0) by { assert((v) / 128 == 1); }
    assert((v) / 256 == 0 && (v - 128) / 256 == 0);
    assert((v) / 512 == 0 && (v - 128) / 512 == 0);
    assert((v) / 1024 == 0 && (v - 128) / 1024 == 0);
    assert((v) / 2048 == 0 && (v - 128) / 2048 == 0);
    assert((v) / 4096 == 0 && (v - 128) / 4096 == 0);
}
proof fn lemma_tb8(v: int) requires 256 <= v < 512 ensures ones(v - 256) == ones(v) - 1 {
    assert((v - 256) % 2 == (v) % 2) by { assert(v - 256 == v - 256); }
    assert(((v - 256) / 2) % 2 == ((v) / 2) % 2) by { assert((v - 256) / 2 == (v) / 2 - 128); }
    assert(((v - 256) / 4) % 2 == ((v) / 4) % 2) by { assert((v - 256) / 4 == (v) / 4 - 64); }
    assert(((v - 256) / 8) % 2 == ((v) / 8) % 2) by { assert((v - 256) / 8 == (v) / 8 - 32); }
    assert(((v - 256) / 16) % 2 == ((v) / 16) % 2) by { assert((v - 256) / 16 == (v) / 16 - 16); }
    assert(((v - 256) / 32) % 2 == ((v) / 32) % 2) by { assert((v - 256) / 32 == (v) / 32 - 8); }
    assert(((v - 256) / 64) % 2 == ((v) / 64) % 2) by { assert((v - 256) / 64 == (v) / 64 - 4); }
    assert(((v - 256) / 128) % 2 == ((v) / 128) % 2) by { assert((v - 256) / 128 == (v) / 128 - 2); }
    assert(((v) / 256) % 2 == 1 && ((v - 256) / 256) % 2 == 0) by { assert((v) / 256 == 1); }
    assert((v) / 512 == 0 && (v - 256) / 512 == 0);
    assert((v) / 1024 == 0 && (v - 256) / 1024 == 0);
    assert((v) / 2048 == 0 && (v - 256) / 2048 == 0);
    assert((v) / 4096 == 0 && (v - 256) / 4096 == 0);
}
proof fn lemma_tb9(v: int) requires 512 <= v < 1024 ensures ones(v - 512) == ones(v) - 1 {
    assert((v - 512) % 2 == (v) % 2) by { assert(v - 512 == v - 512); }
    assert(((v - 512) / 2) % 2 == ((v) / 2) % 2) by { assert((v - 512) / 2 == (v) / 2 - 256); }
    assert(((v - 512) / 4) % 2 == ((v) / 4) % 2) by { assert((v - 512) / 4 == (v) / 4 - 128); }
    assert(((v - 512) / 8) % 2 == ((v) / 8) % 2) by { assert((v - 512) / 8 == (v) / 8 - 64); }
    assert(((v - 512) / 16) % 2 == ((v) / 16) % 2) by { assert((v - 512) / 16 == (v) / 16 - 32); }
    assert(((v - 512) / 32) % 2 == ((v) / 32) % 2) by { assert((v - 512) / 32 == (v) / 32 - 16); }
    assert(((v - 512) / 64) % 2 == ((v) / 64) % 2) by { assert((v - 512) / 64 == (v) / 64 - 8); }
    assert(((v - 512) / 128) % 2 == ((v) / 128) % 2) by { assert((v - 512) / 128 == (v) / 128 - 4); }
    assert(((v - 512) / 256) % 2 == ((v) / 256) % 2) by { assert((v - 512) / 256 == (v) / 256 - 2); }
    assert(((v) / 512) % 2 == 1 && ((v - 512) / 512) % 2 == 0) by { assert((v) / 512 == 1); }
    assert((v) / 1024 == 0 && (v - 512) / 1024 == 0);
    assert((v) / 2048 == 0 && (v - 512) / 2048 == 0);
    assert((v) / 4096 == 0 && (v - 512) / 4096 == 0);
}
proof fn lemma_tb10(v: int) requires 1024 <= v < 2048 ensures ones(v - 1024) == ones(v) - 1 {
    assert((v - 1024) % 2 == (v) % 2) by { assert(v - 1024 == v - 1024); }
    assert(((v - 1024) / 2) % 2 == ((v) / 2) % 2) by { assert((v - 1024) / 2 == (v) / 2 - 512); }
    assert(((v - 1024) / 4) % 2 == ((v) / 4) % 2) by { assert((v - 1024) / 4 == (v) / 4 - 256); }
    assert(((v - 1024) / 8) % 2 == ((v) / 8) % 2) by { assert((v - 1024) / 8 == (v) / 8 - 128); }
    assert(((v - 1024) / 16) % 2 == ((v) / 16) % 2) by { assert((v - 1024) / 16 == (v) / 16 - 64); }
    assert(((v - 1024) / 32) % 2 == ((v) / 32) % 2) by { assert((v - 1024) / 32 == (v) / 32 - 32); }
    assert(((v - 1024) / 64) % 2 == ((v) / 64) % 2) by { assert((v - 1024) / 64 == (v) / 64 - 16); }
    assert(((v - 1024) / 128) % 2 == ((v) / 128) % 2) by { assert((v - 1024) / 128 == (v) / 128 - 8); }
    assert(((v - 1024) / 256) % 2 == ((v) / 256) % 2) by { assert((v - 1024) / 256 == (v) / 256 - 4); }
    assert(((v - 1024) / 512) % 2 == ((v) / 512) % 2) by { assert((v - 1024) / 512 == (v) / 512 - 2); }
    assert(((v) / 1024) % 2 == 1 && ((v - 1024) / 1024) % 2 == 0) by { assert((v) / 1024 == 1); }
    assert((v) / 2048 == 0 && (v - 1024) / 2048 == 0);
    assert((v) / 4096 == 0 && (v - 1024) / 4096 == 0);
}
proof fn lemma_tb11(v: int) requires 2048 <= v < 4096 ensures ones(v - 2048) == ones(v) - 1 {
    assert((v - 2048) % 2 == (v) % 2) by { assert(v - 2048 == v - 2048); }
    assert(((v - 2048) / 2) % 2 == ((v) / 2) % 2) by { assert((v - 2048) / 2 == (v) / 2 - 1024); }
    assert(((v - 2048) / 4) % 2 == ((v) / 4) % 2) by { assert((v - 2048) / 4 == (v) / 4 - 512); }
    assert(((v - 2048) / 8) % 2 == ((v) / 8) % 2) by { assert((v - 2048) / 8 == (v) / 8 - 256); }
    assert(((v - 2048) / 16) % 2 == ((v) / 16) % 2) by { assert((v - 2048) / 16 == (v) / 16 - 128); }
    assert(((v - 2048) / 32) % 2 == ((v) / 32) % 2) by { assert((v - 2048) / 32 == (v) / 32 - 64); }
    assert(((v - 2048) / 64) % 2 == ((v) / 64) % 2) by { assert((v - 2048) / 64 == (v) / 64 - 32); }
    assert(((v - 2048) / 128) % 2 == ((v) / 128) % 2) by { assert((v - 2048) / 128 == (v) / 128 - 16); }
    assert(((v - 2048) / 256) % 2 == ((v) / 256) % 2) by { assert((v - 2048) / 256 == (v) / 256 - 8); }
    assert(((v - 2048) / 512) % 2 == ((v) / 512) % 2) by { assert((v - 2048) / 512 == (v) / 512 - 4); }
    assert(((v - 2048) / 1024) % 2 == ((v) / 1024) % 2) by { assert((v - 2048) / 1024 == (v) / 1024 - 2); }
    assert(((v) / 2048) % 2 == 1 && ((v - 2048) / 2048) % 2 == 0) by { assert((v) / 2048 == 1); }
    assert((v) / 4096 == 0 && (v - 2048) / 4096 == 0);
}
#[verifier::spinoff_prover] #[verifier::rlimit(60)]
proof fn lemma_tb12(v: int) requires 4096 <= v < 8192 ensures ones(v - 4096) == ones(v) - 1 {
    assert((v - 4096) % 2 == (v) % 2) by { assert(v - 4096 == v - 4096); }
    assert(((v - 4096) / 2) % 2 == ((v) / 2) % 2) by { assert((v - 4096) / 2 == (v) / 2 - 2048); }
    assert(((v - 4096) / 4) % 2 == ((v) / 4) % 2) by { assert((v - 4096) / 4 == (v) / 4 - 1024); }
    assert(((v - 4096) / 8) % 2 == ((v) / 8) % 2) by { assert((v - 4096) / 8 == (v) / 8 - 512); }
    assert(((v - 4096) / 16) % 2 == ((v) / 16) % 2) by { assert((v - 4096) / 16 == (v) / 16 - 256); }
    assert(((v - 4096) / 32) % 2 == ((v) / 32) % 2) by { assert((v - 4096) / 32 == (v) / 32 - 128); }
    assert(((v - 4096) / 64) % 2 == ((v) / 64) % 2) by { assert((v - 4096) / 64 == (v) / 64 - 64); }
    assert(((v - 4096) / 128) % 2 == ((v) / 128) % 2) by { assert((v - 4096) / 128 == (v) / 128 - 32); }
    assert(((v - 4096) / 256) % 2 == ((v) / 256) % 2) by { assert((v - 4096) / 256 == (v) / 256 - 16); }
    assert(((v - 4096) / 512) % 2 == ((v) / 512) % 2) by { assert((v - 4096) / 512 == (v) / 512 - 8); }
    assert(((v - 4096) / 1024) % 2 == ((v) / 1024) % 2) by { assert((v - 4096) / 1024 == (v) / 1024 - 4); }
    assert(((v - 4096) / 2048) % 2 == ((v) / 2048) % 2) by { assert((v - 4096) / 2048 == (v) / 2048 - 2); }
    assert(((v) / 4096) % 2 == 1 && ((v - 4096) / 4096) % 2 == 0) by { assert((v) / 4096 == 1); }
}
proof fn lemma_topbit(v: int) -> (m: int)
    requires 0 < v < 8192,
    ensures 0 <= m <= 12, p2(m) <= v < 2 * p2(m), ones(v - p2(m)) == ones(v) - 1,
{
    hide(ones);
    if v >= 4096 { lemma_tb12(v); 12 } else if v >= 2048 { lemma_tb11(v); 11 } else if v >= 1024 { lemma_tb10(v); 10 } else if v >= 512 { lemma_tb9(v); 9 } else if v >= 256 { lemma_tb8(v); 8 } else if v >= 128 { lemma_tb7(v); 7 } else if v >= 64 { lemma_tb6(v); 6 } else if v >= 32 { lemma_tb5(v); 5 } else if v >= 16 { lemma_tb4(v); 4 } else if v >= 8 { lemma_tb3(v); 3 } else if v >= 4 { lemma_tb2(v); 2 } else if v >= 2 { lemma_tb1(v); 1 } else { lemma_tb0(v); 0 }
}
proof fn lemma_ones_zero(v: int)
    requires 0 <= v < 8192,
    ensures ones(v) >= 0, ones(v) == 0 <==> v == 0,
{
    if v > 0 { let m = lemma_topbit(v); lemma_ones_nn(v - p2(m)); }
}
proof fn lemma_ones_nn(v: int) ensures ones(v) >= 0 { }
proof fn lemma_p2_mono(m: int, n: int)
    requires 0 <= m <= 12, 0 <= n <= 12, p2(m) < 2 * p2(n),
    ensures m <= n,
{ if m > n { lemma_p2_double(n, m); } }
pub proof fn lemma_members(v: int) -> (s: Seq<int>)
    requires 0 <= v < 8192, ones(v) == 5,
    ensures distinct5(s), set5(s) == v,
{
    hide(ones);
    hide(p2);
    lemma_ones_zero(v);
    let a = lemma_topbit(v);
    let v1 = v - p2(a);
    lemma_ones_zero(v1);
    let b = lemma_topbit(v1);
    let v2 = v1 - p2(b);
    lemma_ones_zero(v2);
    let c = lemma_topbit(v2);
    let v3 = v2 - p2(c);
    lemma_ones_zero(v3);
    let d = lemma_topbit(v3);
    let v4 = v3 - p2(d);
    lemma_ones_zero(v4);
    let e = lemma_topbit(v4);
    lemma_ones_zero(v4 - p2(e));
    lemma_below(v1, a, b);
    lemma_below(v2, b, c);
    lemma_below(v3, c, d);
    lemma_below(v4, d, e);
    seq![a, b, c, d, e]
}
proof fn lemma_below(v: int, a: int, b: int)
    requires 0 <= a <= 12, 0 <= b <= 12, v < p2(a), p2(b) <= v,
    ensures b < a,
{ if b > a { lemma_p2_double(a, b); lemma_p2_double(a, b); } }
// ---------------------------------------------------------------- what a set adds to the tables
/// ranks of the i-th straight
pub open spec fn st_ranks(i: int) -> Seq<int> {
    if i < 9 { seq![12 - i, 11 - i, 10 - i, 9 - i, 8 - i] } else { seq![12, 3, 2, 1, 0] }
}
pub open spec fn as_straight(i: int, flush: bool) -> G { grp(if flush { 8 } else { 4 }, 12 - i, 0, 0, 0, 0) }
pub proof fn lemma_straight(i: int)
    requires 0 <= i < 10,
    ensures
        distinct5(st_ranks(i)), set5(st_ranks(i)) == st(i), ones(st(i)) == 5,
        groups(st_ranks(i), true) == as_straight(i, true), groups(st_ranks(i), false) == as_straight(i, false),
        tg(as_straight(i, true), true), tg(as_straight(i, false), false),
        gprod(as_straight(i, true)) == prod(st_ranks(i)), gprod(as_straight(i, false)) == prod(st_ranks(i)),
        0 < prod(st_ranks(i)) <= 115_856_201,
        standing(as_straight(i, true)) == 1 + i, standing(as_straight(i, false)) == 1600 + i,
{
    let s = st_ranks(i);
    lemma_straight_ones(st(i));
    lemma_key_of(s, true);
    lemma_key_of(s, false);
    lemma_ranks(as_straight(i, true));
}
pub proof fn lemma_loose(v: int) -> (s: Seq<int>)
    requires 0 <= v < 8192, loose_bits(v),
    ensures
        distinct5(s), set5(s) == v,
        tg(groups(s, true), true), tg(groups(s, false), false),
        groups(s, true) == grp(5, s[0], s[1], s[2], s[3], s[4]), groups(s, false) == grp(0, s[0], s[1], s[2], s[3], s[4]),
        gprod(groups(s, true)) == prod(s), gprod(groups(s, false)) == prod(s), 0 < prod(s) <= 115_856_201,
        standing(groups(s, true)) == 323 + cnt_above(v), standing(groups(s, false)) == 6186 + cnt_above(v),
{
    let s = lemma_members(v);
    lemma_fact5(s);
    lemma_key_of(s, true);
    lemma_key_of(s, false);
    lemma_ranks(groups(s, true));
    assert(s =~= seq![s[0], s[1], s[2], s[3], s[4]]);
    s
}
// ---------------------------------------------------------------- the whole tables
pub proof fn lemma_whole_suited()
    ensures plus(plus(IMap::<i32, Meta>::empty(), tab(true, 1, 11)), tab(true, 323, 1600)) =~= tab(true, 1, 7463),
{
    let (x, y, z) = (tab(true, 1, 11), tab(true, 323, 1600), tab(true, 1, 7463));
    assert forall|k: i32| (#[trigger] z.dom().contains(k) <==> x.dom().contains(k) || y.dom().contains(k)) && (x.dom().contains(k) ==> x[k] == z[k]) && (y.dom().contains(k) ==> y[k] == z[k]) by {
        lemma_part(true, 1, 11, k);
        lemma_part(true, 323, 1600, k);
        if z.dom().contains(k) {
            let h = choose|h: G| #[trigger] in_tab(h, true, 1, 7463, k);
            lemma_standing_range(h);
            assert(in_tab(h, true, 1, 11, k) || in_tab(h, true, 323, 1600, k));
        }
    }
}
proof fn lemma_part(flush: bool, a: int, b: int, k: i32)
    requires 1 <= a <= b <= 7463,
    ensures tab(flush, a, b).dom().contains(k) ==> tab(flush, 1, 7463).dom().contains(k) && tab(flush, a, b)[k] == tab(flush, 1, 7463)[k],
{
    if tab(flush, a, b).dom().contains(k) {
        let h = choose|h: G| #[trigger] in_tab(h, flush, a, b, k);
        lemma_tab_get(flush, a, b, h);
        lemma_tab_get(flush, 1, 7463, h);
    }
}
pub proof fn lemma_whole_unsuited()
    ensures
        plus(plus(plus(plus(IMap::<i32, Meta>::empty(), tab(false, 1600, 1610)), tab(false, 6186, 7463)), tab(false, 11, 323)), tab(false, 1610, 6186)) =~= tab(false, 1, 7463),
{
    let (w, x, y, z) = (tab(false, 1600, 1610), tab(false, 6186, 7463), tab(false, 11, 323), tab(false, 1610, 6186));
    let t = tab(false, 1, 7463);
    assert forall|k: i32| (#[trigger] t.dom().contains(k) <==> w.dom().contains(k) || x.dom().contains(k) || y.dom().contains(k) || z.dom().contains(k))
        && (w.dom().contains(k) ==> w[k] == t[k]) && (x.dom().contains(k) ==> x[k] == t[k]) && (y.dom().contains(k) ==> y[k] == t[k]) && (z.dom().contains(k) ==> z[k] == t[k]) by {
        lemma_part(false, 1600, 1610, k);
        lemma_part(false, 6186, 7463, k);
        lemma_part(false, 11, 323, k);
        lemma_part(false, 1610, 6186, k);
        if t.dom().contains(k) {
            let h = choose|h: G| #[trigger] in_tab(h, false, 1, 7463, k);
            lemma_standing_range(h);
            assert(in_tab(h, false, 1600, 1610, k) || in_tab(h, false, 6186, 7463, k) || in_tab(h, false, 11, 323, k) || in_tab(h, false, 1610, 6186, k));
        }
    }
}
}
