@@ dep rand src/seq/mod.rs vxdep_rand
gen_index
<[T] as SliceRandom>::shuffle
@@ mod vxdep_rand
// The text of rand's own shuffle, in the version Cargo.lock names.
use crate::vxdeps::rand::*;
use crate::vxdeps::rand::prelude::*;
@@ fn vxdep_rand::gen_index
@ret k
@spec
    requires 0 < ubound,
    ensures k < ubound, k == index(state(old(rng)), ubound as int), state(final(rng)) == index_after(state(old(rng)), ubound as int),
@@ impl vxdep_rand::<[T] as SliceRandom>
    open spec fn items(&self) -> Seq<T> { self@ }
@@ fn vxdep_rand::<[T] as SliceRandom>::shuffle
@start
    let ghost s0 = self@;
    let ghost g0 = state(rng);
@loop 0 iter=it
    invariant
        self@.len() == s0.len(), self@.to_multiset() == s0.to_multiset(), s0.len() <= usize::MAX,
        s0.len() >= 1 ==> it.seq().len() == s0.len() - 1, s0.len() == 0 ==> it.seq().len() == 0,
        forall|k: int| 0 <= k < it.seq().len() ==> #[trigger] it.seq()[k] == s0.len() - 1 - k,
        drawn(self@, state(rng), s0.len() - it.index()) == drawn(s0, g0, s0.len() as int),
        drawn_state(state(rng), s0.len() - it.index()) == drawn_state(g0, s0.len() as int),
@loop-start 0
    proof { let k = index(state(rng), i + 1); if 0 <= k < self@.len() { lemma_swap_multiset(self@, i as int, k); } }
