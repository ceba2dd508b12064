@@ mod evaluate::lookup_table
use crate::vxspec::*;
use crate::vxrules::*;
use crate::vxorder::*;
use crate::vxtab::*;
use crate::vxfill::*;
use crate::vxcombos::*;
use crate::vxsets::*;
use crate::vxtext::meta_of;
use vstd::arithmetic::power::pow;
pub proof fn lemma_prime_const()
    ensures PRIMES@.len() == 13, forall|i: int| 0 <= i < 13 ==> #[trigger] PRIMES@[i] == prime(i),
{ }
pub proof fn lemma_straights_const()
    ensures STRAIGHTS@.len() == 10, forall|i: int| 0 <= i < 10 ==> #[trigger] STRAIGHTS@[i] == st(i),
{ }
pub proof fn lemma_xor_zero(a: i16, b: i16)
    ensures (a ^ b) == 0 <==> a == b,
{ assert((a ^ b) == 0 <==> a == b) by(bit_vector); }
@@ fn evaluate::lookup_table::LookupTable::flushes_straights_high_cards
@spec
    ensures
        final(self).flush_lookup@ =~= plus(plus(old(self).flush_lookup@, tab(true, 1, 11)), tab(true, 323, 1600)),
        final(self).unsuited_lookup@ =~= plus(plus(old(self).unsuited_lookup@, tab(false, 1600, 1610)), tab(false, 6186, 7463)),
@start
    hide(ones);
    hide(cnt_above);
    hide(standing);
    hide(ranks);
    hide(prime);
    let ghost u0 = self.unsuited_lookup@;
    let ghost f0 = self.flush_lookup@;
    proof {
        lemma_plus_none(f0, true, 1);
        lemma_plus_none(u0, false, 1600);
        lemma_steps_left(31);
        lemma_straight(8);
    }
@loop 0 iter=it
        invariant
            it.seq().len() == 1286,
            self.flush_lookup@ == f0, self.unsuited_lookup@ == u0,
            31 <= gen.cur() < 8192, ones(gen.cur()) == 5,
            cnt_above(gen.cur()) == 1277 - not_straights@.len(),
            cnt_above(gen.cur()) + sabove(gen.cur()) == 1286 - it.index(),
            forall|j: int| 0 <= j < not_straights@.len() ==> loose_bits(#[trigger] not_straights@[j] as int) && 31 < not_straights@[j] < 8192 && cnt_above(not_straights@[j] as int) == 1276 - j,
@loop-start 0
            let ghost v = gen.cur();
            let ghost ns0 = not_straights@;
            proof { lemma_steps_left(v); lemma_straights_const(); }
@loop-end 0
            proof { lemma_next(v, bits as int); }
@loop-after 0
        proof { lemma_steps_left(gen.cur()); assert(not_straights@.len() == 1277); }
@loop 1 iter=kt arr
                invariant_except_break
                    not_straight, forall|k: int| 0 <= k < kt.index() ==> bits != st(k),
                invariant
                    kt.seq().len() == 10, forall|k: int| 0 <= k < 10 ==> #[trigger] kt.seq()[k] == st(k),
                ensures
                    not_straight <==> !straight_bits(bits as int),
@loop-start 1
                proof { lemma_xor_zero(bits, straight); assert(straight == st(kt.index() as int)); }
@loop 2 iter=it arr
        invariant
            it.seq().len() == 10, forall|k: int| 0 <= k < 10 ==> #[trigger] it.seq()[k] == st(k),
            rank_suited == 1 + it.index(), rank_unsuited == 1600 + it.index(),
            self.flush_lookup@ == plus(f0, tab(true, 1, rank_suited as int)),
            self.unsuited_lookup@ == plus(u0, tab(false, 1600, rank_unsuited as int)),
@loop-start 2
            proof {
                let i = it.index() as int;
                lemma_straight(i);
                assert(set5(st_ranks(i)) == straight);
                lemma_plus_insert(f0, true, 1, as_straight(i, true));
                lemma_plus_insert(u0, false, 1600, as_straight(i, false));
                assert(groups(st_ranks(i), true).g1 == 12 - i);
            }
@loop-after 2
        let ghost f1 = self.flush_lookup@;
        let ghost u1 = self.unsuited_lookup@;
        let ghost ns = not_straights@;
        proof {
            lemma_plus_none(f1, true, 323);
            lemma_plus_none(u1, false, 6186);
        }
@loop 3 iter=it
        invariant
            ns.len() == 1277,
            forall|j: int| 0 <= j < ns.len() ==> loose_bits(#[trigger] ns[j] as int) && 31 < ns[j] < 8192 && cnt_above(ns[j] as int) == 1276 - j,
            it.seq().len() == 1277, forall|k: int| 0 <= k < 1277 ==> #[trigger] it.seq()[k] == ns[1276 - k],
            rank_suited == 323 + it.index(), rank_unsuited == 6186 + it.index(),
            self.flush_lookup@ == plus(f1, tab(true, 323, rank_suited as int)),
            self.unsuited_lookup@ == plus(u1, tab(false, 6186, rank_unsuited as int)),
@loop-start 3
            proof {
                let i = it.index() as int;
                assert(0 <= i < 1277);
                assert(bits == ns[1276 - i]);
                assert(31 < ns[1276 - i] && loose_bits(ns[1276 - i] as int) && cnt_above(ns[1276 - i] as int) == i);
                let s = lemma_loose(bits as int);
                assert(set5(s) == bits);
                lemma_plus_insert(f1, true, 323, groups(s, true));
                lemma_plus_insert(u1, false, 6186, groups(s, false));
                assert(groups(s, true).g1 == s[0]);
            }
@@ fn evaluate::lookup_table::LookupTable::new
@ret r
@spec
    ensures
        r.flush_lookup@ =~= tab(true, 1, 7463),
        r.unsuited_lookup@ =~= tab(false, 1, 7463),
@start
    proof { lemma_whole_suited(); lemma_whole_unsuited(); }
@@ fn evaluate::lookup_table::LookupTable::multiples
@spec
    ensures
        final(self).flush_lookup@ == old(self).flush_lookup@,
        final(self).unsuited_lookup@ =~= plus(plus(old(self).unsuited_lookup@, tab(false, 11, 323)), tab(false, 1610, 6186)),
@start
    hide(prime);
    hide(standing);
    hide(ranks);
    hide(wfg);
    hide(unrank);
    hide(nc);
    let ghost u0 = self.unsuited_lookup@;
    let ghost f0 = self.flush_lookup@;
    proof { lemma_nc_values(); lemma_plus_none(u0, false, 11); }
@closure 0 |kicker: &i16| -> (b: bool)
    ensures b == (*kicker != quad),
@closure 1 |pr: &i16| -> (b: bool)
    ensures b == (*pr != trips),
@closure 2 |kicker: &i16| -> (b: bool)
    ensures b == (*kicker != trips),
@closure 3 |kicker: &i16| -> (b: bool)
    ensures b == (*kicker != pair1 && *kicker != pair2),
@closure 4 |kicker: &i16| -> (b: bool)
    ensures b == (*kicker != pair_rank),
@loop 0 iter=it
        invariant
            it.seq().len() == 13, forall|i: int| 0 <= i < 13 ==> #[trigger] it.seq()[i] == 12 - i,
            self.flush_lookup@ == f0, rank == 11 + 12 * it.index(), self.unsuited_lookup@ == plus(u0, tab(false, 11, rank as int)),
@loop-start 0
        proof { lemma_skips1(quad as int); }
@loop 1 iter=kt
            invariant
                quad == 12 - it.index(), it.seq().len() == 13, 0 <= quad <= 12, kt.seq().len() <= 12,
                forall|i: int| 0 <= i < kt.seq().len() ==> #[trigger] kt.seq()[i] == sk1(i, quad as int),
                self.flush_lookup@ == f0, rank == 11 + 12 * (12 - quad) + kt.index(), self.unsuited_lookup@ == plus(u0, tab(false, 11, rank as int)),
@loop-start 1
            proof {
                lemma_prime_const();
                let g = grp(7, quad as int, k as int, 0, 0, 0);
                lemma_quads(quad as int, kt.index() as int);
                lemma_plus_insert(u0, false, 11, g);
            }
@loop-end 1
            assert(product == gprod(grp(7, quad as int, k as int, 0, 0, 0)));
            assert(rank == standing(grp(7, quad as int, k as int, 0, 0, 0)) + 1);
@loop 2 iter=it
        invariant
            it.seq().len() == 13, forall|i: int| 0 <= i < 13 ==> #[trigger] it.seq()[i] == 12 - i,
            self.flush_lookup@ == f0, rank == 167 + 12 * it.index(), self.unsuited_lookup@ == plus(u0, tab(false, 11, rank as int)),
@loop-start 2
        proof { lemma_skips1(trips as int); }
@loop 3 iter=kt
            invariant
                trips == 12 - it.index(), it.seq().len() == 13, 0 <= trips <= 12, kt.seq().len() <= 12,
                forall|i: int| 0 <= i < kt.seq().len() ==> #[trigger] kt.seq()[i] == sk1(i, trips as int),
                self.flush_lookup@ == f0, rank == 167 + 12 * (12 - trips) + kt.index(), self.unsuited_lookup@ == plus(u0, tab(false, 11, rank as int)),
@loop-start 3
            proof {
                lemma_prime_const();
                let g = grp(6, trips as int, pr as int, 0, 0, 0);
                lemma_full(trips as int, kt.index() as int);
                lemma_plus_insert(u0, false, 11, g);
            }
@loop-after 2
    let ghost u1 = self.unsuited_lookup@;
    proof { lemma_plus_none(u1, false, 1610); }
@loop 4 iter=it
        invariant
            it.seq().len() == 13, forall|i: int| 0 <= i < 13 ==> #[trigger] it.seq()[i] == 12 - i, nc(12, 2) == 66,
            self.flush_lookup@ == f0, rank == 1610 + 66 * it.index(), self.unsuited_lookup@ == plus(u1, tab(false, 1610, rank as int)),
@loop-start 4
        proof { lemma_skips1(trips as int); }
@loop-before 5
            assert(kickers@ == skips1(13, trips as int));
            assert(gen.remaining() == combos_from::<i16, 2>(kickers@, 0));
            assert(gen.remaining().len() == nc(12, 2));
            assert(gen.remaining().len() == 66);
@loop 5 iter=kt
            invariant
                trips == 12 - it.index(), it.seq().len() == 13, 0 <= trips <= 12, kt.iter.obeys_prophetic_iter_laws(), kt.seq() == combos_from::<i16, 2>(skips1(13, trips as int), 0), kt.seq().len() == 66, nc(12, 2) == 66,
                self.flush_lookup@ == f0, rank == 1610 + 66 * (12 - trips) + kt.index(), self.unsuited_lookup@ == plus(u1, tab(false, 1610, rank as int)),
@loop-start 5
            proof {
                lemma_prime_const();
                let g = grp(3, trips as int, k@[0] as int, k@[1] as int, 0, 0);
                lemma_trips(trips as int, kt.index() as int);
                lemma_plus_insert(u1, false, 1610, g);
            }
@loop-before 6
            assert(bw@ =~= Seq::new(13, |i: int| (12 - i) as i16));
            assert(two_pairs_combos.remaining() == combos_from::<i16, 2>(bw@, 0));
            assert(two_pairs_combos.remaining().len() == nc(13, 2));
@loop 6 iter=it
        invariant
            it.iter.obeys_prophetic_iter_laws(), it.seq() == combos_from::<i16, 2>(Seq::new(13, |i: int| (12 - i) as i16), 0), it.seq().len() == 78, nc(13, 2) == 78,
            self.flush_lookup@ == f0, rank == 2468 + 11 * it.index(), self.unsuited_lookup@ == plus(u1, tab(false, 1610, rank as int)),
@loop-start 6
        proof {
            lemma_two_pair(it.index() as int);
            assert(vx_p1@[0] == pair1 && vx_p1@[1] == pair2);
            lemma_skips2(pair1 as int, pair2 as int);
        }
@loop 7 iter=kt
            invariant
                0 <= it.index() < 78, it.seq().len() == 78, 0 <= pair2 < pair1 <= 12, pos(seq![12 - pair1, 12 - pair2], 0, 13) == it.index(), kt.seq().len() <= 11,
                forall|i: int| 0 <= i < kt.seq().len() ==> #[trigger] kt.seq()[i] == sk2(i, pair1 as int, pair2 as int),
                self.flush_lookup@ == f0, rank == 2468 + 11 * it.index() + kt.index(), self.unsuited_lookup@ == plus(u1, tab(false, 1610, rank as int)),
@loop-start 7
            proof {
                lemma_prime_const();
                let g = grp(2, pair1 as int, pair2 as int, kicker as int, 0, 0);
                lemma_two_pair_kicker(pair1 as int, pair2 as int, kt.index() as int);
                lemma_plus_insert(u1, false, 1610, g);
            }
@loop 8 iter=it
        invariant
            it.seq().len() == 13, forall|i: int| 0 <= i < 13 ==> #[trigger] it.seq()[i] == 12 - i, nc(12, 3) == 220,
            self.flush_lookup@ == f0, rank == 3326 + 220 * it.index(), self.unsuited_lookup@ == plus(u1, tab(false, 1610, rank as int)),
@loop-start 8
        proof { lemma_skips1(pair_rank as int); }
@loop-before 9
            assert(kickers@ == skips1(13, pair_rank as int));
            assert(kicker_combos.remaining() == combos_from::<i16, 3>(kickers@, 0));
            assert(kicker_combos.remaining().len() == nc(12, 3));
@loop 9 iter=kt
            invariant
                pair_rank == 12 - it.index(), it.seq().len() == 13, 0 <= pair_rank <= 12, kt.iter.obeys_prophetic_iter_laws(), kt.seq() == combos_from::<i16, 3>(skips1(13, pair_rank as int), 0), kt.seq().len() == 220, nc(12, 3) == 220,
                self.flush_lookup@ == f0, rank == 3326 + 220 * (12 - pair_rank) + kt.index(), self.unsuited_lookup@ == plus(u1, tab(false, 1610, rank as int)),
@loop-start 9
            proof {
                lemma_prime_const();
                let g = grp(1, pair_rank as int, kicker_combo@[0] as int, kicker_combo@[1] as int, kicker_combo@[2] as int, 0);
                lemma_pair(pair_rank as int, kt.index() as int);
                lemma_plus_insert(u1, false, 1610, g);
            }
