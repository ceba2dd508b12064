@@ top
pub mod vxerr {
use vstd::prelude::*;
use crate::vxspec::*;
use crate::card::Card;
use crate::vxdeps::more::*;
pub open spec fn no_dup(s: Seq<Card>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] s[i] != #[trigger] s[j] }
/// d names the cards that occur more than once in s, each once, in some order
pub open spec fn names_dups(s: Seq<Card>, d: Seq<Card>) -> bool {
    no_dup(d) && (forall|c: Card| #[trigger] d.contains(c) <==> s.to_multiset().count(c) > 1)
}
pub open spec fn names(d: Seq<Card>) -> Seq<Seq<char>> { Seq::new(d.len(), |i: int| card_name(d[i])) }
pub open spec fn dup_text(d: Seq<Card>) -> Seq<char> {
    "Cannot evaluate a poker hand with a set of cards that are not unique. Cards duplicated at least once: "@ + joined(names(d), " "@)
}

// ---- from the counted map to the duplicates
/// position of the Some values
pub proof fn lemma_somes_back(items: Seq<(&Card, usize)>, o: Seq<Option<String>>) -> (d: Seq<Card>)
    requires
        o.len() == items.len(),
        forall|i: int| 0 <= i < o.len() ==> ((#[trigger] items[i]).1 > 1 <==> o[i] is Some),
        forall|i: int| 0 <= i < o.len() ==> (#[trigger] o[i] matches Some(s) ==> s@ == card_name(*items[i].0)),
        forall|i: int, j: int| 0 <= i < j < items.len() ==> *(#[trigger] items[i]).0 != *(#[trigger] items[j]).0,
    ensures
        d.len() == somes(o).len(),
        forall|k: int| 0 <= k < d.len() ==> (#[trigger] somes(o)[k])@ == card_name(d[k]),
        no_dup(d),
        forall|k: int| 0 <= k < d.len() ==> exists|i: int| 0 <= i < items.len() && items[i].1 > 1 && *(#[trigger] items[i]).0 == #[trigger] d[k],
        forall|i: int| 0 <= i < items.len() && items[i].1 > 1 ==> d.contains(*(#[trigger] items[i]).0),
    decreases items.len()
{
    if o.len() == 0 { Seq::empty() } else {
        let (i2, o2) = (items.drop_last(), o.drop_last());
        let n = o.len() - 1;
        assert forall|i: int| 0 <= i < o2.len() implies ((#[trigger] i2[i]).1 > 1 <==> o2[i] is Some) by { assert(i2[i] == items[i]); }
        assert forall|i: int| 0 <= i < o2.len() implies (#[trigger] o2[i] matches Some(s) ==> s@ == card_name(*i2[i].0)) by { assert(o2[i] == o[i]); }
        assert forall|i: int, j: int| 0 <= i < j < i2.len() implies *(#[trigger] i2[i]).0 != *(#[trigger] i2[j]).0 by { assert(i2[i] == items[i] && i2[j] == items[j]); }
        let d2 = lemma_somes_back(i2, o2);
        assert(items[n].1 > 1 <==> o[n] is Some);
        assert forall|i: int| 0 <= i < i2.len() && i2[i].1 > 1 implies d2.contains(*(#[trigger] items[i]).0) by { assert(i2[i] == items[i]); }
        if o[n] is Some {
            let d = d2.push(*items[n].0);
            assert forall|k: int| 0 <= k < d2.len() implies d2[k] != *items[n].0 by {
                let i = choose|i: int| 0 <= i < i2.len() && i2[i].1 > 1 && *(#[trigger] i2[i]).0 == d2[k];
                assert(i2[i] == items[i]);
            }
            assert(d.contains(*items[n].0)) by { assert(d[d.len() - 1] == *items[n].0); }
            assert forall|i: int| 0 <= i < items.len() && items[i].1 > 1 implies d.contains(*(#[trigger] items[i]).0) by {
                if i < n { let k = d2.index_of(*items[i].0); assert(d2.contains(*items[i].0)); assert(d[k] == *items[i].0); }
            }
            assert forall|k: int| 0 <= k < d.len() implies exists|i: int| 0 <= i < items.len() && items[i].1 > 1 && *(#[trigger] items[i]).0 == #[trigger] d[k] by {
                if k < d2.len() {
                    let i = choose|i: int| 0 <= i < i2.len() && i2[i].1 > 1 && *(#[trigger] i2[i]).0 == d2[k];
                    assert(i2[i] == items[i]);
                    assert(*items[i].0 == d[k]);
                } else { assert(*items[n].0 == d[k]); }
            }
            assert forall|k: int| 0 <= k < d.len() implies (#[trigger] somes(o)[k])@ == card_name(d[k]) by {
                if k < d2.len() { assert(somes(o)[k] == somes(o2)[k]); }
            }
            d
        } else {
            assert forall|k: int| 0 <= k < d2.len() implies exists|i: int| 0 <= i < items.len() && items[i].1 > 1 && *(#[trigger] items[i]).0 == #[trigger] d2[k] by {
                let i = choose|i: int| 0 <= i < i2.len() && i2[i].1 > 1 && *(#[trigger] i2[i]).0 == d2[k];
                assert(i2[i] == items[i]);
                assert(*items[i].0 == d2[k]);
            }
            d2
        }
    }
}
pub open spec fn derefs(src: Seq<&Card>) -> Seq<Card> { Seq::new(src.len(), |i: int| *src[i]) }
pub open spec fn opts_ok(items: Seq<(&Card, usize)>, o: Seq<Option<String>>) -> bool {
    o.len() == items.len()
    && (forall|i: int| 0 <= i < o.len() ==> ((#[trigger] items[i]).1 > 1 <==> o[i] is Some))
    && (forall|i: int| 0 <= i < o.len() ==> (#[trigger] o[i] matches Some(s) ==> s@ == card_name(*items[i].0)))
}
pub broadcast proof fn lemma_dups(items: Seq<(&Card, usize)>, src: Seq<&Card>, o: Seq<Option<String>>)
    requires #[trigger] crate::vxdeps::itertools::counted(items, src), #[trigger] opts_ok(items, o),
    ensures exists|d: Seq<Card>| #[trigger] names_dups(derefs(src), d) && names(d) =~= Seq::new(somes(o).len(), |i: int| somes(o)[i]@),
{
    let d = lemma_somes_back(items, o);
    let s = derefs(src);
    assert forall|c: Card| src.to_multiset().count(&c) == s.to_multiset().count(c) by { lemma_deref_count(src, c); }
    assert forall|c: Card| #[trigger] d.contains(c) <==> s.to_multiset().count(c) > 1 by {
        if d.contains(c) {
            let k = d.index_of(c);
            assert(d[k] == c);
            let i = choose|i: int| 0 <= i < items.len() && items[i].1 > 1 && *(#[trigger] items[i]).0 == d[k];
            assert(items[i].1 == src.to_multiset().count(items[i].0));
        }
        if s.to_multiset().count(c) > 1 {
            assert(src.to_multiset().count(&c) > 1);
            src.to_multiset_ensures();
            assert(src.contains(&c));
            let i = choose|i: int| 0 <= i < items.len() && (#[trigger] items[i]).0 == &c;
            assert(d.contains(*items[i].0));
        }
    }
    assert(names(d) =~= Seq::new(somes(o).len(), |i: int| somes(o)[i]@));
    assert(names_dups(s, d));
}
proof fn lemma_deref_count(src: Seq<&Card>, c: Card)
    ensures src.to_multiset().count(&c) == derefs(src).to_multiset().count(c),
    decreases src.len()
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    if src.len() > 0 {
        lemma_deref_count(src.drop_last(), c);
        assert(src =~= src.drop_last().push(src.last()));
        assert(derefs(src) =~= derefs(src.drop_last()).push(*src.last()));
    } else {
        assert(derefs(src).len() == 0);
        assert(derefs(src) =~= Seq::empty());
        assert(src =~= Seq::empty());
    }
}
}
@@ mod error
use crate::vxerr::*;
use crate::vxdeps::more::*;
@@ impl error::<ParseCardError as Display>
    open spec fn text(&self) -> Seq<char> {
        match *self {
            ParseCardError::InvalidLength { original_input } => "Error parsing input '"@ + original_input@ + "' as a Card: Found input of length "@ + crate::vxdeps::fmt::decimal(original_input@.len()) + ", expected 2"@,
            ParseCardError::InvalidRank { original_input, incorrect_char } => "Error parsing input '"@ + original_input@ + "' as a Card: Invalid rank character '"@ + seq![incorrect_char] + "', expected one of [23456789TJQKA]"@,
            ParseCardError::InvalidSuit { original_input, incorrect_char } => "Error parsing input '"@ + original_input@ + "' as a Card: Invalid suit character '"@ + seq![incorrect_char] + "', expected one of [chsd]"@,
        }
    }
@@ fn error::<ParseCardError as Display>::fmt
@start
        broadcast use crate::vxspec::group_cat;
        proof { reveal_strlit("Error parsing input '"); reveal_strlit("' as a Card: Found input of length "); reveal_strlit(", expected 2"); reveal_strlit("' as a Card: Invalid rank character '"); reveal_strlit("', expected one of [23456789TJQKA]"); reveal_strlit("' as a Card: Invalid suit character '"); reveal_strlit("', expected one of [chsd]"); }
@@ impl error::<EvalError as Display>
    open spec fn text(&self) -> Seq<char> {
        match *self {
            EvalError::InvalidHandSize(n) => "Cannot evaluate a poker hand with a set of less than 5 cards. Number of cards received: "@ + crate::vxdeps::fmt::decimal(n as nat),
            _ => seq![],
        }
    }
    open spec fn det(&self) -> bool { self is InvalidHandSize }
@@ fn error::<EvalError as Display>::fmt
@ret r
@spec
    ensures
        r is Ok ==> (self matches EvalError::CardsNotUnique(v) ==> exists|d: Seq<Card>| #[trigger] crate::vxerr::names_dups(v@, d) && final(f).out() =~= old(f).out() + crate::vxerr::dup_text(d)),
@closure 0 wrap |p: (&Card, usize)| -> (o: Option<String>)
    ensures p.1 > 1 <==> o is Some, o matches Some(s) ==> s@ == card_name(*p.0),
@start
        broadcast use crate::vxspec::group_cat;
        proof { reveal_strlit("Cannot evaluate a poker hand with a set of less than 5 cards. Number of cards received: "); reveal_strlit("Cannot evaluate a poker hand with a set of cards that are not unique. Cards duplicated at least once: "); reveal_strlit(" "); }
@after let dups
                proof {
                    assert(exists|items: Seq<(&Card, usize)>, src: Seq<&Card>, o: Seq<Option<String>>, w: Vec<String>|
                        #[trigger] crate::vxdeps::itertools::counted(items, src) && opts_ok(items, o) && derefs(src) =~= cards@ && #[trigger] somes(o) =~= w@ && dups@ == joined(#[trigger] w.parts(), " "@));
                    let (items, src, o, w) = choose|items: Seq<(&Card, usize)>, src: Seq<&Card>, o: Seq<Option<String>>, w: Vec<String>|
                        #[trigger] crate::vxdeps::itertools::counted(items, src) && opts_ok(items, o) && derefs(src) =~= cards@ && #[trigger] somes(o) =~= w@ && dups@ == joined(#[trigger] w.parts(), " "@);
                    lemma_dups(items, src, o);
                    let d = choose|d: Seq<Card>| #[trigger] names_dups(derefs(src), d) && names(d) =~= Seq::new(somes(o).len(), |i: int| somes(o)[i]@);
                    assert(names(d) =~= w.parts());
                    assert(derefs(src) == cards@);
                }
