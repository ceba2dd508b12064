@@ top
// C21: the macros of macros.rs, expanded by the compiler in the functions below.
pub mod vxc21 {
use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
use crate::vxspec::*;
use crate::vxstd2::{collected, pieces, VxIter, VxIter2, axiom_collect_box};
use crate::card::{Card, Rank, Suit};
use crate::error::ParseCardError;
use crate::{card, cards, box_cards};

pub open spec fn is(c: Card, r: Rank, s: Suit) -> bool { c.rk() == r && c.st() == s }

pub fn c21_card_two() {
    let c = card!(Two, Clubs); assert(is(c, Rank::Two, Suit::Clubs));
    let c = card!(Two of Clubs); assert(is(c, Rank::Two, Suit::Clubs));
    let c = card!(Two, Hearts); assert(is(c, Rank::Two, Suit::Hearts));
    let c = card!(Two of Hearts); assert(is(c, Rank::Two, Suit::Hearts));
    let c = card!(Two, Spades); assert(is(c, Rank::Two, Suit::Spades));
    let c = card!(Two of Spades); assert(is(c, Rank::Two, Suit::Spades));
    let c = card!(Two, Diamonds); assert(is(c, Rank::Two, Suit::Diamonds));
    let c = card!(Two of Diamonds); assert(is(c, Rank::Two, Suit::Diamonds));
}
pub fn c21_card_three() {
    let c = card!(Three, Clubs); assert(is(c, Rank::Three, Suit::Clubs));
    let c = card!(Three of Clubs); assert(is(c, Rank::Three, Suit::Clubs));
    let c = card!(Three, Hearts); assert(is(c, Rank::Three, Suit::Hearts));
    let c = card!(Three of Hearts); assert(is(c, Rank::Three, Suit::Hearts));
    let c = card!(Three, Spades); assert(is(c, Rank::Three, Suit::Spades));
    let c = card!(Three of Spades); assert(is(c, Rank::Three, Suit::Spades));
    let c = card!(Three, Diamonds); assert(is(c, Rank::Three, Suit::Diamonds));
    let c = card!(Three of Diamonds); assert(is(c, Rank::Three, Suit::Diamonds));
}
pub fn c21_card_four() {
    let c = card!(Four, Clubs); assert(is(c, Rank::Four, Suit::Clubs));
    let c = card!(Four of Clubs); assert(is(c, Rank::Four, Suit::Clubs));
    let c = card!(Four, Hearts); assert(is(c, Rank::Four, Suit::Hearts));
    let c = card!(Four of Hearts); assert(is(c, Rank::Four, Suit::Hearts));
    let c = card!(Four, Spades); assert(is(c, Rank::Four, Suit::Spades));
    let c = card!(Four of Spades); assert(is(c, Rank::Four, Suit::Spades));
    let c = card!(Four, Diamonds); assert(is(c, Rank::Four, Suit::Diamonds));
    let c = card!(Four of Diamonds); assert(is(c, Rank::Four, Suit::Diamonds));
}
pub fn c21_card_five() {
    let c = card!(Five, Clubs); assert(is(c, Rank::Five, Suit::Clubs));
    let c = card!(Five of Clubs); assert(is(c, Rank::Five, Suit::Clubs));
    let c = card!(Five, Hearts); assert(is(c, Rank::Five, Suit::Hearts));
    let c = card!(Five of Hearts); assert(is(c, Rank::Five, Suit::Hearts));
    let c = card!(Five, Spades); assert(is(c, Rank::Five, Suit::Spades));
    let c = card!(Five of Spades); assert(is(c, Rank::Five, Suit::Spades));
    let c = card!(Five, Diamonds); assert(is(c, Rank::Five, Suit::Diamonds));
    let c = card!(Five of Diamonds); assert(is(c, Rank::Five, Suit::Diamonds));
}
pub fn c21_card_six() {
    let c = card!(Six, Clubs); assert(is(c, Rank::Six, Suit::Clubs));
    let c = card!(Six of Clubs); assert(is(c, Rank::Six, Suit::Clubs));
    let c = card!(Six, Hearts); assert(is(c, Rank::Six, Suit::Hearts));
    let c = card!(Six of Hearts); assert(is(c, Rank::Six, Suit::Hearts));
    let c = card!(Six, Spades); assert(is(c, Rank::Six, Suit::Spades));
    let c = card!(Six of Spades); assert(is(c, Rank::Six, Suit::Spades));
    let c = card!(Six, Diamonds); assert(is(c, Rank::Six, Suit::Diamonds));
    let c = card!(Six of Diamonds); assert(is(c, Rank::Six, Suit::Diamonds));
}
pub fn c21_card_seven() {
    let c = card!(Seven, Clubs); assert(is(c, Rank::Seven, Suit::Clubs));
    let c = card!(Seven of Clubs); assert(is(c, Rank::Seven, Suit::Clubs));
    let c = card!(Seven, Hearts); assert(is(c, Rank::Seven, Suit::Hearts));
    let c = card!(Seven of Hearts); assert(is(c, Rank::Seven, Suit::Hearts));
    let c = card!(Seven, Spades); assert(is(c, Rank::Seven, Suit::Spades));
    let c = card!(Seven of Spades); assert(is(c, Rank::Seven, Suit::Spades));
    let c = card!(Seven, Diamonds); assert(is(c, Rank::Seven, Suit::Diamonds));
    let c = card!(Seven of Diamonds); assert(is(c, Rank::Seven, Suit::Diamonds));
}
pub fn c21_card_eight() {
    let c = card!(Eight, Clubs); assert(is(c, Rank::Eight, Suit::Clubs));
    let c = card!(Eight of Clubs); assert(is(c, Rank::Eight, Suit::Clubs));
    let c = card!(Eight, Hearts); assert(is(c, Rank::Eight, Suit::Hearts));
    let c = card!(Eight of Hearts); assert(is(c, Rank::Eight, Suit::Hearts));
    let c = card!(Eight, Spades); assert(is(c, Rank::Eight, Suit::Spades));
    let c = card!(Eight of Spades); assert(is(c, Rank::Eight, Suit::Spades));
    let c = card!(Eight, Diamonds); assert(is(c, Rank::Eight, Suit::Diamonds));
    let c = card!(Eight of Diamonds); assert(is(c, Rank::Eight, Suit::Diamonds));
}
pub fn c21_card_nine() {
    let c = card!(Nine, Clubs); assert(is(c, Rank::Nine, Suit::Clubs));
    let c = card!(Nine of Clubs); assert(is(c, Rank::Nine, Suit::Clubs));
    let c = card!(Nine, Hearts); assert(is(c, Rank::Nine, Suit::Hearts));
    let c = card!(Nine of Hearts); assert(is(c, Rank::Nine, Suit::Hearts));
    let c = card!(Nine, Spades); assert(is(c, Rank::Nine, Suit::Spades));
    let c = card!(Nine of Spades); assert(is(c, Rank::Nine, Suit::Spades));
    let c = card!(Nine, Diamonds); assert(is(c, Rank::Nine, Suit::Diamonds));
    let c = card!(Nine of Diamonds); assert(is(c, Rank::Nine, Suit::Diamonds));
}
pub fn c21_card_ten() {
    let c = card!(Ten, Clubs); assert(is(c, Rank::Ten, Suit::Clubs));
    let c = card!(Ten of Clubs); assert(is(c, Rank::Ten, Suit::Clubs));
    let c = card!(Ten, Hearts); assert(is(c, Rank::Ten, Suit::Hearts));
    let c = card!(Ten of Hearts); assert(is(c, Rank::Ten, Suit::Hearts));
    let c = card!(Ten, Spades); assert(is(c, Rank::Ten, Suit::Spades));
    let c = card!(Ten of Spades); assert(is(c, Rank::Ten, Suit::Spades));
    let c = card!(Ten, Diamonds); assert(is(c, Rank::Ten, Suit::Diamonds));
    let c = card!(Ten of Diamonds); assert(is(c, Rank::Ten, Suit::Diamonds));
}
pub fn c21_card_jack() {
    let c = card!(Jack, Clubs); assert(is(c, Rank::Jack, Suit::Clubs));
    let c = card!(Jack of Clubs); assert(is(c, Rank::Jack, Suit::Clubs));
    let c = card!(Jack, Hearts); assert(is(c, Rank::Jack, Suit::Hearts));
    let c = card!(Jack of Hearts); assert(is(c, Rank::Jack, Suit::Hearts));
    let c = card!(Jack, Spades); assert(is(c, Rank::Jack, Suit::Spades));
    let c = card!(Jack of Spades); assert(is(c, Rank::Jack, Suit::Spades));
    let c = card!(Jack, Diamonds); assert(is(c, Rank::Jack, Suit::Diamonds));
    let c = card!(Jack of Diamonds); assert(is(c, Rank::Jack, Suit::Diamonds));
}
pub fn c21_card_queen() {
    let c = card!(Queen, Clubs); assert(is(c, Rank::Queen, Suit::Clubs));
    let c = card!(Queen of Clubs); assert(is(c, Rank::Queen, Suit::Clubs));
    let c = card!(Queen, Hearts); assert(is(c, Rank::Queen, Suit::Hearts));
    let c = card!(Queen of Hearts); assert(is(c, Rank::Queen, Suit::Hearts));
    let c = card!(Queen, Spades); assert(is(c, Rank::Queen, Suit::Spades));
    let c = card!(Queen of Spades); assert(is(c, Rank::Queen, Suit::Spades));
    let c = card!(Queen, Diamonds); assert(is(c, Rank::Queen, Suit::Diamonds));
    let c = card!(Queen of Diamonds); assert(is(c, Rank::Queen, Suit::Diamonds));
}
pub fn c21_card_king() {
    let c = card!(King, Clubs); assert(is(c, Rank::King, Suit::Clubs));
    let c = card!(King of Clubs); assert(is(c, Rank::King, Suit::Clubs));
    let c = card!(King, Hearts); assert(is(c, Rank::King, Suit::Hearts));
    let c = card!(King of Hearts); assert(is(c, Rank::King, Suit::Hearts));
    let c = card!(King, Spades); assert(is(c, Rank::King, Suit::Spades));
    let c = card!(King of Spades); assert(is(c, Rank::King, Suit::Spades));
    let c = card!(King, Diamonds); assert(is(c, Rank::King, Suit::Diamonds));
    let c = card!(King of Diamonds); assert(is(c, Rank::King, Suit::Diamonds));
}
pub fn c21_card_ace() {
    let c = card!(Ace, Clubs); assert(is(c, Rank::Ace, Suit::Clubs));
    let c = card!(Ace of Clubs); assert(is(c, Rank::Ace, Suit::Clubs));
    let c = card!(Ace, Hearts); assert(is(c, Rank::Ace, Suit::Hearts));
    let c = card!(Ace of Hearts); assert(is(c, Rank::Ace, Suit::Hearts));
    let c = card!(Ace, Spades); assert(is(c, Rank::Ace, Suit::Spades));
    let c = card!(Ace of Spades); assert(is(c, Rank::Ace, Suit::Spades));
    let c = card!(Ace, Diamonds); assert(is(c, Rank::Ace, Suit::Diamonds));
    let c = card!(Ace of Diamonds); assert(is(c, Rank::Ace, Suit::Diamonds));
}
pub fn c21_cards_two_pairs() {
    let v = cards!(Two, Clubs; Two, Hearts; Two, Spades; Two, Diamonds);
    assert(v@.len() == 4);
    assert(is(v@[0], Rank::Two, Suit::Clubs));
    assert(is(v@[1], Rank::Two, Suit::Hearts));
    assert(is(v@[2], Rank::Two, Suit::Spades));
    assert(is(v@[3], Rank::Two, Suit::Diamonds));
}
pub fn c21_cards_two_pairs_trailing() {
    let v = cards!(Two, Clubs; Two, Hearts; Two, Spades; Two, Diamonds;);
    assert(v@.len() == 4);
    assert(is(v@[0], Rank::Two, Suit::Clubs));
    assert(is(v@[1], Rank::Two, Suit::Hearts));
    assert(is(v@[2], Rank::Two, Suit::Spades));
    assert(is(v@[3], Rank::Two, Suit::Diamonds));
}
pub fn c21_cards_two_of() {
    let v = cards!(Two of Clubs, Two of Hearts, Two of Spades, Two of Diamonds);
    assert(v@.len() == 4);
    assert(is(v@[0], Rank::Two, Suit::Clubs));
    assert(is(v@[1], Rank::Two, Suit::Hearts));
    assert(is(v@[2], Rank::Two, Suit::Spades));
    assert(is(v@[3], Rank::Two, Suit::Diamonds));
}
pub fn c21_cards_two_of_trailing() {
    let v = cards!(Two of Clubs, Two of Hearts, Two of Spades, Two of Diamonds,);
    assert(v@.len() == 4);
    assert(is(v@[0], Rank::Two, Suit::Clubs));
    assert(is(v@[1], Rank::Two, Suit::Hearts));
    assert(is(v@[2], Rank::Two, Suit::Spades));
    assert(is(v@[3], Rank::Two, Suit::Diamonds));
}
pub fn c21_cards_three_pairs() {
    let v = cards!(Three, Clubs; Three, Hearts; Three, Spades; Three, Diamonds);
    assert(v@.len() == 4);
    assert(is(v@[0], Rank::Three, Suit::Clubs));
    assert(is(v@[1], Rank::Three, Suit::Hearts));
    assert(is(v@[2], Rank::Three, Suit::Spades));
    assert(is(v@[3], Rank::Three, Suit::Diamonds));
}
pub fn c21_cards_three_pairs_trailing() {
    let v = cards!(Three, Clubs; Three, Hearts; Three, Spades; Three, Diamonds;);
    assert(v@.len() == 4);
    assert(is(v@[0], Rank::Three, Suit::Clubs));
    assert(is(v@[1], Rank::Three, Suit::Hearts));
    assert(is(v@[2], Rank::Three, Suit::Spades));
    assert(is(v@[3], Rank::Three, Suit::Diamonds));
}
pub fn c21_cards_three_of() {
    let v = cards!(Three of Clubs, Three of Hearts, Three of Spades, Three of Diamonds);
    assert(v@.len() == 4);
    assert(is(v@[0], Rank::Three, Suit::Clubs));
    assert(is(v@[1], Rank::Three, Suit::Hearts));
    assert(is(v@[2], Rank::Three, Suit::Spades));
    assert(is(v@[3], Rank::Three, Suit::Diamonds));
}
pub fn c21_cards_three_of_trailing() {
    let v = cards!(Three of Clubs, Three of Hearts, Three of Spades, Three of Diamonds,);
    assert(v@.len() == 4);
    assert(is(v@[0], Rank::Three, Suit::Clubs));
    assert(is(v@[1], Rank::Three, Suit::Hearts));
    assert(is(v@[2], Rank::Three, Suit::Spades));
    assert(is(v@[3], Rank::Three, Suit::Diamonds));
}
pub fn c21_cards_four_pairs() {
    let v = cards!(Four, Clubs; Four, Hearts; Four, Spades; Four, Diamonds);
    assert(v@.len() == 4);
    assert(is(v@[0], Rank::Four, Suit::Clubs));
    assert(is(v@[1], Rank::Four, Suit::Hearts));
    assert(is(v@[2], Rank::Four, Suit::Spades));
    assert(is(v@[3], Rank::Four, Suit::Diamonds));
}
pub fn c21_cards_four_pairs_trailing() {
    let v = cards!(Four, Clubs; Four, Hearts; Four, Spades; Four, Diamonds;);
    assert(v@.len() == 4);
    assert(is(v@[0], Rank::Four, Suit::Clubs));
    assert(is(v@[1], Rank::Four, Suit::Hearts));
    assert(is(v@[2], Rank::Four, Suit::Spades));
    assert(is(v@[3], Rank::Four, Suit::Diamonds));
}
pub fn c21_cards_four_of() {
    let v = cards!(Four of Clubs, Four of Hearts, Four of Spades, Four of Diamonds);
    assert(v@.len() == 4);
    assert(is(v@[0], Rank::Four, Suit::Clubs));
    assert(is(v@[1], Rank::Four, Suit::Hearts));
    assert(is(v@[2], Rank::Four, Suit::Spades));
    assert(is(v@[3], Rank::Four, Suit::Diamonds));
}
pub fn c21_cards_four_of_trailing() {
    let v = cards!(Four of Clubs, Four of Hearts, Four of Spades, Four of Diamonds,);
    assert(v@.len() == 4);
    assert(is(v@[0], Rank::Four, Suit::Clubs));
    assert(is(v@[1], Rank::Four, Suit::Hearts));
    assert(is(v@[2], Rank::Four, Suit::Spades));
    assert(is(v@[3], Rank::Four, Suit::Diamonds));
}
pub fn c21_cards_five_pairs() {
    let v = cards!(Five, Clubs; Five, Hearts; Five, Spades; Five, Diamonds);
    assert(v@.len() == 4);
    assert(is(v@[0], Rank::Five, Suit::Clubs));
    assert(is(v@[1], Rank::Five, Suit::Hearts));
    assert(is(v@[2], Rank::Five, Suit::Spades));
    assert(is(v@[3], Rank::Five, Suit::Diamonds));
}
pub fn c21_cards_five_pairs_trailing() {
    let v = cards!(Five, Clubs; Five, Hearts; Five, Spades; Five, Diamonds;);
    assert(v@.len() == 4);
    assert(is(v@[0], Rank::Five, Suit::Clubs));
    assert(is(v@[1], Rank::Five, Suit::Hearts));
    assert(is(v@[2], Rank::Five, Suit::Spades));
    assert(is(v@[3], Rank::Five, Suit::Diamonds));
}
pub fn c21_cards_five_of() {
    let v = cards!(Five of Clubs, Five of Hearts, Five of Spades, Five of Diamonds);
    assert(v@.len() == 4);
    assert(is(v@[0], Rank::Five, Suit::Clubs));
    assert(is(v@[1], Rank::Five, Suit::Hearts));
    assert(is(v@[2], Rank::Five, Suit::Spades));
    assert(is(v@[3], Rank::Five, Suit::Diamonds));
}
pub fn c21_cards_five_of_trailing() {
    let v = cards!(Five of Clubs, Five of Hearts, Five of Spades, Five of Diamonds,);
    assert(v@.len() == 4);
    assert(is(v@[0], Rank::Five, Suit::Clubs));
    assert(is(v@[1], Rank::Five, Suit::Hearts));
    assert(is(v@[2], Rank::Five, Suit::Spades));
    assert(is(v@[3], Rank::Five, Suit::Diamonds));
}
pub fn c21_cards_six_pairs() {
    let v = cards!(Six, Clubs; Six, Hearts; Six, Spades; Six, Diamonds);
    assert(v@.len() == 4);
    assert(is(v@[0], Rank::Six, Suit::Clubs));
    assert(is(v@[1], Rank::Six, Suit::Hearts));
    assert(is(v@[2], Rank::Six, Suit::Spades));
    assert(is(v@[3], Rank::Six, Suit::Diamonds));
}
pub fn c21_cards_six_pairs_trailing() {
    let v = cards!(Six, Clubs; Six, Hearts; Six, Spades; Six, Diamonds;);
    assert(v@.len() == 4);
    assert(is(v@[0], Rank::Six, Suit::Clubs));
    assert(is(v@[1], Rank::Six, Suit::Hearts));
    assert(is(v@[2], Rank::Six, Suit::Spades));
    assert(is(v@[3], Rank::Six, Suit::Diamonds));
}
pub fn c21_cards_six_of() {
    let v = cards!(Six of Clubs, Six of Hearts, Six of Spades, Six of Diamonds);
    assert(v@.len() == 4);
    assert(is(v@[0], Rank::Six, Suit::Clubs));
    assert(is(v@[1], Rank::Six, Suit::Hearts));
    assert(is(v@[2], Rank::Six, Suit::Spades));
    assert(is(v@[3], Rank::Six, Suit::Diamonds));
}
pub fn c21_cards_six_of_trailing() {
    let v = cards!(Six of Clubs, Six of Hearts, Six of Spades, Six of Diamonds,);
    assert(v@.len() == 4);
    assert(is(v@[0], Rank::Six, Suit::Clubs));
    assert(is(v@[1], Rank::Six, Suit::Hearts));
    assert(is(v@[2], Rank::Six, Suit::Spades));
    assert(is(v@[3], Rank::Six, Suit::Diamonds));
}
pub fn c21_cards_seven_pairs() {
    let v = cards!(Seven, Clubs; Seven, Hearts; Seven, Spades; Seven, Diamonds);
    assert(v@.len() == 4);
    assert(is(v@[0], Rank::Seven, Suit::Clubs));
    assert(is(v@[1], Rank::Seven, Suit::Hearts));
    assert(is(v@[2], Rank::Seven, Suit::Spades));
    assert(is(v@[3], Rank::Seven, Suit::Diamonds));
}
pub fn c21_cards_seven_pairs_trailing() {
    let v = cards!(Seven, Clubs; Seven, Hearts; Seven, Spades; Seven, Diamonds;);
    assert(v@.len() == 4);
    assert(is(v@[0], Rank::Seven, Suit::Clubs));
    assert(is(v@[1], Rank::Seven, Suit::Hearts));
    assert(is(v@[2], Rank::Seven, Suit::Spades));
    assert(is(v@[3], Rank::Seven, Suit::Diamonds));
}
pub fn c21_cards_seven_of() {
    let v = cards!(Seven of Clubs, Seven of Hearts, Seven of Spades, Seven of Diamonds);
    assert(v@.len() == 4);
    assert(is(v@[0], Rank::Seven, Suit::Clubs));
    assert(is(v@[1], Rank::Seven, Suit::Hearts));
    assert(is(v@[2], Rank::Seven, Suit::Spades));
    assert(is(v@[3], Rank::Seven, Suit::Diamonds));
}
pub fn c21_cards_seven_of_trailing() {
    let v = cards!(Seven of Clubs, Seven of Hearts, Seven of Spades, Seven of Diamonds,);
    assert(v@.len() == 4);
    assert(is(v@[0], Rank::Seven, Suit::Clubs));
    assert(is(v@[1], Rank::Seven, Suit::Hearts));
    assert(is(v@[2], Rank::Seven, Suit::Spades));
    assert(is(v@[3], Rank::Seven, Suit::Diamonds));
}
pub fn c21_cards_eight_pairs() {
    let v = cards!(Eight, Clubs; Eight, Hearts; Eight, Spades; Eight, Diamonds);
    assert(v@.len() == 4);
    assert(is(v@[0], Rank::Eight, Suit::Clubs));
    assert(is(v@[1], Rank::Eight, Suit::Hearts));
    assert(is(v@[2], Rank::Eight, Suit::Spades));
    assert(is(v@[3], Rank::Eight, Suit::Diamonds));
}
pub fn c21_cards_eight_pairs_trailing() {
    let v = cards!(Eight, Clubs; Eight, Hearts; Eight, Spades; Eight, Diamonds;);
    assert(v@.len() == 4);
    assert(is(v@[0], Rank::Eight, Suit::Clubs));
    assert(is(v@[1], Rank::Eight, Suit::Hearts));
    assert(is(v@[2], Rank::Eight, Suit::Spades));
    assert(is(v@[3], Rank::Eight, Suit::Diamonds));
}
pub fn c21_cards_eight_of() {
    let v = cards!(Eight of Clubs, Eight of Hearts, Eight of Spades, Eight of Diamonds);
    assert(v@.len() == 4);
    assert(is(v@[0], Rank::Eight, Suit::Clubs));
    assert(is(v@[1], Rank::Eight, Suit::Hearts));
    assert(is(v@[2], Rank::Eight, Suit::Spades));
    assert(is(v@[3], Rank::Eight, Suit::Diamonds));
}
pub fn c21_cards_eight_of_trailing() {
    let v = cards!(Eight of Clubs, Eight of Hearts, Eight of Spades, Eight of Diamonds,);
    assert(v@.len() == 4);
    assert(is(v@[0], Rank::Eight, Suit::Clubs));
    assert(is(v@[1], Rank::Eight, Suit::Hearts));
    assert(is(v@[2], Rank::Eight, Suit::Spades));
    assert(is(v@[3], Rank::Eight, Suit::Diamonds));
}
pub fn c21_cards_nine_pairs() {
    let v = cards!(Nine, Clubs; Nine, Hearts; Nine, Spades; Nine, Diamonds);
    assert(v@.len() == 4);
    assert(is(v@[0], Rank::Nine, Suit::Clubs));
    assert(is(v@[1], Rank::Nine, Suit::Hearts));
    assert(is(v@[2], Rank::Nine, Suit::Spades));
    assert(is(v@[3], Rank::Nine, Suit::Diamonds));
}
pub fn c21_cards_nine_pairs_trailing() {
    let v = cards!(Nine, Clubs; Nine, Hearts; Nine, Spades; Nine, Diamonds;);
    assert(v@.len() == 4);
    assert(is(v@[0], Rank::Nine, Suit::Clubs));
    assert(is(v@[1], Rank::Nine, Suit::Hearts));
    assert(is(v@[2], Rank::Nine, Suit::Spades));
    assert(is(v@[3], Rank::Nine, Suit::Diamonds));
}
pub fn c21_cards_nine_of() {
    let v = cards!(Nine of Clubs, Nine of Hearts, Nine of Spades, Nine of Diamonds);
    assert(v@.len() == 4);
    assert(is(v@[0], Rank::Nine, Suit::Clubs));
    assert(is(v@[1], Rank::Nine, Suit::Hearts));
    assert(is(v@[2], Rank::Nine, Suit::Spades));
    assert(is(v@[3], Rank::Nine, Suit::Diamonds));
}
pub fn c21_cards_nine_of_trailing() {
    let v = cards!(Nine of Clubs, Nine of Hearts, Nine of Spades, Nine of Diamonds,);
    assert(v@.len() == 4);
    assert(is(v@[0], Rank::Nine, Suit::Clubs));
    assert(is(v@[1], Rank::Nine, Suit::Hearts));
    assert(is(v@[2], Rank::Nine, Suit::Spades));
    assert(is(v@[3], Rank::Nine, Suit::Diamonds));
}
pub fn c21_cards_ten_pairs() {
    let v = cards!(Ten, Clubs; Ten, Hearts; Ten, Spades; Ten, Diamonds);
    assert(v@.len() == 4);
    assert(is(v@[0], Rank::Ten, Suit::Clubs));
    assert(is(v@[1], Rank::Ten, Suit::Hearts));
    assert(is(v@[2], Rank::Ten, Suit::Spades));
    assert(is(v@[3], Rank::Ten, Suit::Diamonds));
}
pub fn c21_cards_ten_pairs_trailing() {
    let v = cards!(Ten, Clubs; Ten, Hearts; Ten, Spades; Ten, Diamonds;);
    assert(v@.len() == 4);
    assert(is(v@[0], Rank::Ten, Suit::Clubs));
    assert(is(v@[1], Rank::Ten, Suit::Hearts));
    assert(is(v@[2], Rank::Ten, Suit::Spades));
    assert(is(v@[3], Rank::Ten, Suit::Diamonds));
}
pub fn c21_cards_ten_of() {
    let v = cards!(Ten of Clubs, Ten of Hearts, Ten of Spades, Ten of Diamonds);
    assert(v@.len() == 4);
    assert(is(v@[0], Rank::Ten, Suit::Clubs));
    assert(is(v@[1], Rank::Ten, Suit::Hearts));
    assert(is(v@[2], Rank::Ten, Suit::Spades));
    assert(is(v@[3], Rank::Ten, Suit::Diamonds));
}
pub fn c21_cards_ten_of_trailing() {
    let v = cards!(Ten of Clubs, Ten of Hearts, Ten of Spades, Ten of Diamonds,);
    assert(v@.len() == 4);
    assert(is(v@[0], Rank::Ten, Suit::Clubs));
    assert(is(v@[1], Rank::Ten, Suit::Hearts));
    assert(is(v@[2], Rank::Ten, Suit::Spades));
    assert(is(v@[3], Rank::Ten, Suit::Diamonds));
}
pub fn c21_cards_jack_pairs() {
    let v = cards!(Jack, Clubs; Jack, Hearts; Jack, Spades; Jack, Diamonds);
    assert(v@.len() == 4);
    assert(is(v@[0], Rank::Jack, Suit::Clubs));
    assert(is(v@[1], Rank::Jack, Suit::Hearts));
    assert(is(v@[2], Rank::Jack, Suit::Spades));
    assert(is(v@[3], Rank::Jack, Suit::Diamonds));
}
pub fn c21_cards_jack_pairs_trailing() {
    let v = cards!(Jack, Clubs; Jack, Hearts; Jack, Spades; Jack, Diamonds;);
    assert(v@.len() == 4);
    assert(is(v@[0], Rank::Jack, Suit::Clubs));
    assert(is(v@[1], Rank::Jack, Suit::Hearts));
    assert(is(v@[2], Rank::Jack, Suit::Spades));
    assert(is(v@[3], Rank::Jack, Suit::Diamonds));
}
pub fn c21_cards_jack_of() {
    let v = cards!(Jack of Clubs, Jack of Hearts, Jack of Spades, Jack of Diamonds);
    assert(v@.len() == 4);
    assert(is(v@[0], Rank::Jack, Suit::Clubs));
    assert(is(v@[1], Rank::Jack, Suit::Hearts));
    assert(is(v@[2], Rank::Jack, Suit::Spades));
    assert(is(v@[3], Rank::Jack, Suit::Diamonds));
}
pub fn c21_cards_jack_of_trailing() {
    let v = cards!(Jack of Clubs, Jack of Hearts, Jack of Spades, Jack of Diamonds,);
    assert(v@.len() == 4);
    assert(is(v@[0], Rank::Jack, Suit::Clubs));
    assert(is(v@[1], Rank::Jack, Suit::Hearts));
    assert(is(v@[2], Rank::Jack, Suit::Spades));
    assert(is(v@[3], Rank::Jack, Suit::Diamonds));
}
pub fn c21_cards_queen_pairs() {
    let v = cards!(Queen, Clubs; Queen, Hearts; Queen, Spades; Queen, Diamonds);
    assert(v@.len() == 4);
    assert(is(v@[0], Rank::Queen, Suit::Clubs));
    assert(is(v@[1], Rank::Queen, Suit::Hearts));
    assert(is(v@[2], Rank::Queen, Suit::Spades));
    assert(is(v@[3], Rank::Queen, Suit::Diamonds));
}
pub fn c21_cards_queen_pairs_trailing() {
    let v = cards!(Queen, Clubs; Queen, Hearts; Queen, Spades; Queen, Diamonds;);
    assert(v@.len() == 4);
    assert(is(v@[0], Rank::Queen, Suit::Clubs));
    assert(is(v@[1], Rank::Queen, Suit::Hearts));
    assert(is(v@[2], Rank::Queen, Suit::Spades));
    assert(is(v@[3], Rank::Queen, Suit::Diamonds));
}
pub fn c21_cards_queen_of() {
    let v = cards!(Queen of Clubs, Queen of Hearts, Queen of Spades, Queen of Diamonds);
    assert(v@.len() == 4);
    assert(is(v@[0], Rank::Queen, Suit::Clubs));
    assert(is(v@[1], Rank::Queen, Suit::Hearts));
    assert(is(v@[2], Rank::Queen, Suit::Spades));
    assert(is(v@[3], Rank::Queen, Suit::Diamonds));
}
pub fn c21_cards_queen_of_trailing() {
    let v = cards!(Queen of Clubs, Queen of Hearts, Queen of Spades, Queen of Diamonds,);
    assert(v@.len() == 4);
    assert(is(v@[0], Rank::Queen, Suit::Clubs));
    assert(is(v@[1], Rank::Queen, Suit::Hearts));
    assert(is(v@[2], Rank::Queen, Suit::Spades));
    assert(is(v@[3], Rank::Queen, Suit::Diamonds));
}
pub fn c21_cards_king_pairs() {
    let v = cards!(King, Clubs; King, Hearts; King, Spades; King, Diamonds);
    assert(v@.len() == 4);
    assert(is(v@[0], Rank::King, Suit::Clubs));
    assert(is(v@[1], Rank::King, Suit::Hearts));
    assert(is(v@[2], Rank::King, Suit::Spades));
    assert(is(v@[3], Rank::King, Suit::Diamonds));
}
pub fn c21_cards_king_pairs_trailing() {
    let v = cards!(King, Clubs; King, Hearts; King, Spades; King, Diamonds;);
    assert(v@.len() == 4);
    assert(is(v@[0], Rank::King, Suit::Clubs));
    assert(is(v@[1], Rank::King, Suit::Hearts));
    assert(is(v@[2], Rank::King, Suit::Spades));
    assert(is(v@[3], Rank::King, Suit::Diamonds));
}
pub fn c21_cards_king_of() {
    let v = cards!(King of Clubs, King of Hearts, King of Spades, King of Diamonds);
    assert(v@.len() == 4);
    assert(is(v@[0], Rank::King, Suit::Clubs));
    assert(is(v@[1], Rank::King, Suit::Hearts));
    assert(is(v@[2], Rank::King, Suit::Spades));
    assert(is(v@[3], Rank::King, Suit::Diamonds));
}
pub fn c21_cards_king_of_trailing() {
    let v = cards!(King of Clubs, King of Hearts, King of Spades, King of Diamonds,);
    assert(v@.len() == 4);
    assert(is(v@[0], Rank::King, Suit::Clubs));
    assert(is(v@[1], Rank::King, Suit::Hearts));
    assert(is(v@[2], Rank::King, Suit::Spades));
    assert(is(v@[3], Rank::King, Suit::Diamonds));
}
pub fn c21_cards_ace_pairs() {
    let v = cards!(Ace, Clubs; Ace, Hearts; Ace, Spades; Ace, Diamonds);
    assert(v@.len() == 4);
    assert(is(v@[0], Rank::Ace, Suit::Clubs));
    assert(is(v@[1], Rank::Ace, Suit::Hearts));
    assert(is(v@[2], Rank::Ace, Suit::Spades));
    assert(is(v@[3], Rank::Ace, Suit::Diamonds));
}
pub fn c21_cards_ace_pairs_trailing() {
    let v = cards!(Ace, Clubs; Ace, Hearts; Ace, Spades; Ace, Diamonds;);
    assert(v@.len() == 4);
    assert(is(v@[0], Rank::Ace, Suit::Clubs));
    assert(is(v@[1], Rank::Ace, Suit::Hearts));
    assert(is(v@[2], Rank::Ace, Suit::Spades));
    assert(is(v@[3], Rank::Ace, Suit::Diamonds));
}
pub fn c21_cards_ace_of() {
    let v = cards!(Ace of Clubs, Ace of Hearts, Ace of Spades, Ace of Diamonds);
    assert(v@.len() == 4);
    assert(is(v@[0], Rank::Ace, Suit::Clubs));
    assert(is(v@[1], Rank::Ace, Suit::Hearts));
    assert(is(v@[2], Rank::Ace, Suit::Spades));
    assert(is(v@[3], Rank::Ace, Suit::Diamonds));
}
pub fn c21_cards_ace_of_trailing() {
    let v = cards!(Ace of Clubs, Ace of Hearts, Ace of Spades, Ace of Diamonds,);
    assert(v@.len() == 4);
    assert(is(v@[0], Rank::Ace, Suit::Clubs));
    assert(is(v@[1], Rank::Ace, Suit::Hearts));
    assert(is(v@[2], Rank::Ace, Suit::Spades));
    assert(is(v@[3], Rank::Ace, Suit::Diamonds));
}
pub fn c21_cards_k1_pairs() {
    let v = cards!(Ace, Spades);
    assert(v@.len() == 1);
    assert(is(v@[0], Rank::Ace, Suit::Spades));
}
pub fn c21_cards_k1_pairs_trailing() {
    let v = cards!(Ace, Spades;);
    assert(v@.len() == 1);
    assert(is(v@[0], Rank::Ace, Suit::Spades));
}
pub fn c21_cards_k1_of() {
    let v = cards!(Ace of Spades);
    assert(v@.len() == 1);
    assert(is(v@[0], Rank::Ace, Suit::Spades));
}
pub fn c21_cards_k1_of_trailing() {
    let v = cards!(Ace of Spades,);
    assert(v@.len() == 1);
    assert(is(v@[0], Rank::Ace, Suit::Spades));
}
pub fn c21_cards_k2_pairs() {
    let v = cards!(King, Hearts; Queen, Hearts);
    assert(v@.len() == 2);
    assert(is(v@[0], Rank::King, Suit::Hearts));
    assert(is(v@[1], Rank::Queen, Suit::Hearts));
}
pub fn c21_cards_k2_pairs_trailing() {
    let v = cards!(King, Hearts; Queen, Hearts;);
    assert(v@.len() == 2);
    assert(is(v@[0], Rank::King, Suit::Hearts));
    assert(is(v@[1], Rank::Queen, Suit::Hearts));
}
pub fn c21_cards_k2_of() {
    let v = cards!(King of Hearts, Queen of Hearts);
    assert(v@.len() == 2);
    assert(is(v@[0], Rank::King, Suit::Hearts));
    assert(is(v@[1], Rank::Queen, Suit::Hearts));
}
pub fn c21_cards_k2_of_trailing() {
    let v = cards!(King of Hearts, Queen of Hearts,);
    assert(v@.len() == 2);
    assert(is(v@[0], Rank::King, Suit::Hearts));
    assert(is(v@[1], Rank::Queen, Suit::Hearts));
}
pub fn c21_cards_k7_pairs() {
    let v = cards!(Five, Hearts; Nine, Clubs; Two, Diamonds; Six, Diamonds; Nine, Hearts; Eight, Spades; Ace, Diamonds);
    assert(v@.len() == 7);
    assert(is(v@[0], Rank::Five, Suit::Hearts));
    assert(is(v@[1], Rank::Nine, Suit::Clubs));
    assert(is(v@[2], Rank::Two, Suit::Diamonds));
    assert(is(v@[3], Rank::Six, Suit::Diamonds));
    assert(is(v@[4], Rank::Nine, Suit::Hearts));
    assert(is(v@[5], Rank::Eight, Suit::Spades));
    assert(is(v@[6], Rank::Ace, Suit::Diamonds));
}
pub fn c21_cards_k7_pairs_trailing() {
    let v = cards!(Five, Hearts; Nine, Clubs; Two, Diamonds; Six, Diamonds; Nine, Hearts; Eight, Spades; Ace, Diamonds;);
    assert(v@.len() == 7);
    assert(is(v@[0], Rank::Five, Suit::Hearts));
    assert(is(v@[1], Rank::Nine, Suit::Clubs));
    assert(is(v@[2], Rank::Two, Suit::Diamonds));
    assert(is(v@[3], Rank::Six, Suit::Diamonds));
    assert(is(v@[4], Rank::Nine, Suit::Hearts));
    assert(is(v@[5], Rank::Eight, Suit::Spades));
    assert(is(v@[6], Rank::Ace, Suit::Diamonds));
}
pub fn c21_cards_k7_of() {
    let v = cards!(Five of Hearts, Nine of Clubs, Two of Diamonds, Six of Diamonds, Nine of Hearts, Eight of Spades, Ace of Diamonds);
    assert(v@.len() == 7);
    assert(is(v@[0], Rank::Five, Suit::Hearts));
    assert(is(v@[1], Rank::Nine, Suit::Clubs));
    assert(is(v@[2], Rank::Two, Suit::Diamonds));
    assert(is(v@[3], Rank::Six, Suit::Diamonds));
    assert(is(v@[4], Rank::Nine, Suit::Hearts));
    assert(is(v@[5], Rank::Eight, Suit::Spades));
    assert(is(v@[6], Rank::Ace, Suit::Diamonds));
}
pub fn c21_cards_k7_of_trailing() {
    let v = cards!(Five of Hearts, Nine of Clubs, Two of Diamonds, Six of Diamonds, Nine of Hearts, Eight of Spades, Ace of Diamonds,);
    assert(v@.len() == 7);
    assert(is(v@[0], Rank::Five, Suit::Hearts));
    assert(is(v@[1], Rank::Nine, Suit::Clubs));
    assert(is(v@[2], Rank::Two, Suit::Diamonds));
    assert(is(v@[3], Rank::Six, Suit::Diamonds));
    assert(is(v@[4], Rank::Nine, Suit::Hearts));
    assert(is(v@[5], Rank::Eight, Suit::Spades));
    assert(is(v@[6], Rank::Ace, Suit::Diamonds));
}
pub fn c21_cards_all_pairs() {
    let v = cards!(Five, Hearts; Nine, Clubs; Two, Diamonds; Six, Diamonds; Nine, Hearts; Eight, Spades; Ace, Diamonds; Seven, Spades; Jack, Clubs; Four, Spades; Ten, Clubs; Three, Spades; Four, Diamonds; Six, Hearts; Ten, Hearts; Ace, Clubs; Eight, Clubs; Nine, Diamonds; Two, Hearts; Six, Spades; Three, Hearts; Two, Spades; Seven, Hearts; King, Clubs; King, Diamonds; Queen, Diamonds; Queen, Hearts; Eight, Diamonds; Queen, Spades; Seven, Clubs; Three, Diamonds; Four, Hearts; Eight, Hearts; Ace, Hearts; Jack, Diamonds; Five, Clubs; Five, Spades; Ten, Diamonds; Six, Clubs; King, Hearts; Two, Clubs; King, Spades; Three, Clubs; Ace, Spades; Queen, Clubs; Nine, Spades; Jack, Spades; Seven, Diamonds; Four, Clubs; Ten, Spades; Jack, Hearts; Five, Diamonds);
    assert(v@.len() == 52);
    assert(is(v@[0], Rank::Five, Suit::Hearts));
    assert(is(v@[1], Rank::Nine, Suit::Clubs));
    assert(is(v@[2], Rank::Two, Suit::Diamonds));
    assert(is(v@[3], Rank::Six, Suit::Diamonds));
    assert(is(v@[4], Rank::Nine, Suit::Hearts));
    assert(is(v@[5], Rank::Eight, Suit::Spades));
    assert(is(v@[6], Rank::Ace, Suit::Diamonds));
    assert(is(v@[7], Rank::Seven, Suit::Spades));
    assert(is(v@[8], Rank::Jack, Suit::Clubs));
    assert(is(v@[9], Rank::Four, Suit::Spades));
    assert(is(v@[10], Rank::Ten, Suit::Clubs));
    assert(is(v@[11], Rank::Three, Suit::Spades));
    assert(is(v@[12], Rank::Four, Suit::Diamonds));
    assert(is(v@[13], Rank::Six, Suit::Hearts));
    assert(is(v@[14], Rank::Ten, Suit::Hearts));
    assert(is(v@[15], Rank::Ace, Suit::Clubs));
    assert(is(v@[16], Rank::Eight, Suit::Clubs));
    assert(is(v@[17], Rank::Nine, Suit::Diamonds));
    assert(is(v@[18], Rank::Two, Suit::Hearts));
    assert(is(v@[19], Rank::Six, Suit::Spades));
    assert(is(v@[20], Rank::Three, Suit::Hearts));
    assert(is(v@[21], Rank::Two, Suit::Spades));
    assert(is(v@[22], Rank::Seven, Suit::Hearts));
    assert(is(v@[23], Rank::King, Suit::Clubs));
    assert(is(v@[24], Rank::King, Suit::Diamonds));
    assert(is(v@[25], Rank::Queen, Suit::Diamonds));
    assert(is(v@[26], Rank::Queen, Suit::Hearts));
    assert(is(v@[27], Rank::Eight, Suit::Diamonds));
    assert(is(v@[28], Rank::Queen, Suit::Spades));
    assert(is(v@[29], Rank::Seven, Suit::Clubs));
    assert(is(v@[30], Rank::Three, Suit::Diamonds));
    assert(is(v@[31], Rank::Four, Suit::Hearts));
    assert(is(v@[32], Rank::Eight, Suit::Hearts));
    assert(is(v@[33], Rank::Ace, Suit::Hearts));
    assert(is(v@[34], Rank::Jack, Suit::Diamonds));
    assert(is(v@[35], Rank::Five, Suit::Clubs));
    assert(is(v@[36], Rank::Five, Suit::Spades));
    assert(is(v@[37], Rank::Ten, Suit::Diamonds));
    assert(is(v@[38], Rank::Six, Suit::Clubs));
    assert(is(v@[39], Rank::King, Suit::Hearts));
    assert(is(v@[40], Rank::Two, Suit::Clubs));
    assert(is(v@[41], Rank::King, Suit::Spades));
    assert(is(v@[42], Rank::Three, Suit::Clubs));
    assert(is(v@[43], Rank::Ace, Suit::Spades));
    assert(is(v@[44], Rank::Queen, Suit::Clubs));
    assert(is(v@[45], Rank::Nine, Suit::Spades));
    assert(is(v@[46], Rank::Jack, Suit::Spades));
    assert(is(v@[47], Rank::Seven, Suit::Diamonds));
    assert(is(v@[48], Rank::Four, Suit::Clubs));
    assert(is(v@[49], Rank::Ten, Suit::Spades));
    assert(is(v@[50], Rank::Jack, Suit::Hearts));
    assert(is(v@[51], Rank::Five, Suit::Diamonds));
}
pub fn c21_cards_all_pairs_trailing() {
    let v = cards!(Five, Hearts; Nine, Clubs; Two, Diamonds; Six, Diamonds; Nine, Hearts; Eight, Spades; Ace, Diamonds; Seven, Spades; Jack, Clubs; Four, Spades; Ten, Clubs; Three, Spades; Four, Diamonds; Six, Hearts; Ten, Hearts; Ace, Clubs; Eight, Clubs; Nine, Diamonds; Two, Hearts; Six, Spades; Three, Hearts; Two, Spades; Seven, Hearts; King, Clubs; King, Diamonds; Queen, Diamonds; Queen, Hearts; Eight, Diamonds; Queen, Spades; Seven, Clubs; Three, Diamonds; Four, Hearts; Eight, Hearts; Ace, Hearts; Jack, Diamonds; Five, Clubs; Five, Spades; Ten, Diamonds; Six, Clubs; King, Hearts; Two, Clubs; King, Spades; Three, Clubs; Ace, Spades; Queen, Clubs; Nine, Spades; Jack, Spades; Seven, Diamonds; Four, Clubs; Ten, Spades; Jack, Hearts; Five, Diamonds;);
    assert(v@.len() == 52);
    assert(is(v@[0], Rank::Five, Suit::Hearts));
    assert(is(v@[1], Rank::Nine, Suit::Clubs));
    assert(is(v@[2], Rank::Two, Suit::Diamonds));
    assert(is(v@[3], Rank::Six, Suit::Diamonds));
    assert(is(v@[4], Rank::Nine, Suit::Hearts));
    assert(is(v@[5], Rank::Eight, Suit::Spades));
    assert(is(v@[6], Rank::Ace, Suit::Diamonds));
    assert(is(v@[7], Rank::Seven, Suit::Spades));
    assert(is(v@[8], Rank::Jack, Suit::Clubs));
    assert(is(v@[9], Rank::Four, Suit::Spades));
    assert(is(v@[10], Rank::Ten, Suit::Clubs));
    assert(is(v@[11], Rank::Three, Suit::Spades));
    assert(is(v@[12], Rank::Four, Suit::Diamonds));
    assert(is(v@[13], Rank::Six, Suit::Hearts));
    assert(is(v@[14], Rank::Ten, Suit::Hearts));
    assert(is(v@[15], Rank::Ace, Suit::Clubs));
    assert(is(v@[16], Rank::Eight, Suit::Clubs));
    assert(is(v@[17], Rank::Nine, Suit::Diamonds));
    assert(is(v@[18], Rank::Two, Suit::Hearts));
    assert(is(v@[19], Rank::Six, Suit::Spades));
    assert(is(v@[20], Rank::Three, Suit::Hearts));
    assert(is(v@[21], Rank::Two, Suit::Spades));
    assert(is(v@[22], Rank::Seven, Suit::Hearts));
    assert(is(v@[23], Rank::King, Suit::Clubs));
    assert(is(v@[24], Rank::King, Suit::Diamonds));
    assert(is(v@[25], Rank::Queen, Suit::Diamonds));
    assert(is(v@[26], Rank::Queen, Suit::Hearts));
    assert(is(v@[27], Rank::Eight, Suit::Diamonds));
    assert(is(v@[28], Rank::Queen, Suit::Spades));
    assert(is(v@[29], Rank::Seven, Suit::Clubs));
    assert(is(v@[30], Rank::Three, Suit::Diamonds));
    assert(is(v@[31], Rank::Four, Suit::Hearts));
    assert(is(v@[32], Rank::Eight, Suit::Hearts));
    assert(is(v@[33], Rank::Ace, Suit::Hearts));
    assert(is(v@[34], Rank::Jack, Suit::Diamonds));
    assert(is(v@[35], Rank::Five, Suit::Clubs));
    assert(is(v@[36], Rank::Five, Suit::Spades));
    assert(is(v@[37], Rank::Ten, Suit::Diamonds));
    assert(is(v@[38], Rank::Six, Suit::Clubs));
    assert(is(v@[39], Rank::King, Suit::Hearts));
    assert(is(v@[40], Rank::Two, Suit::Clubs));
    assert(is(v@[41], Rank::King, Suit::Spades));
    assert(is(v@[42], Rank::Three, Suit::Clubs));
    assert(is(v@[43], Rank::Ace, Suit::Spades));
    assert(is(v@[44], Rank::Queen, Suit::Clubs));
    assert(is(v@[45], Rank::Nine, Suit::Spades));
    assert(is(v@[46], Rank::Jack, Suit::Spades));
    assert(is(v@[47], Rank::Seven, Suit::Diamonds));
    assert(is(v@[48], Rank::Four, Suit::Clubs));
    assert(is(v@[49], Rank::Ten, Suit::Spades));
    assert(is(v@[50], Rank::Jack, Suit::Hearts));
    assert(is(v@[51], Rank::Five, Suit::Diamonds));
}
pub fn c21_cards_all_of() {
    let v = cards!(Five of Hearts, Nine of Clubs, Two of Diamonds, Six of Diamonds, Nine of Hearts, Eight of Spades, Ace of Diamonds, Seven of Spades, Jack of Clubs, Four of Spades, Ten of Clubs, Three of Spades, Four of Diamonds, Six of Hearts, Ten of Hearts, Ace of Clubs, Eight of Clubs, Nine of Diamonds, Two of Hearts, Six of Spades, Three of Hearts, Two of Spades, Seven of Hearts, King of Clubs, King of Diamonds, Queen of Diamonds, Queen of Hearts, Eight of Diamonds, Queen of Spades, Seven of Clubs, Three of Diamonds, Four of Hearts, Eight of Hearts, Ace of Hearts, Jack of Diamonds, Five of Clubs, Five of Spades, Ten of Diamonds, Six of Clubs, King of Hearts, Two of Clubs, King of Spades, Three of Clubs, Ace of Spades, Queen of Clubs, Nine of Spades, Jack of Spades, Seven of Diamonds, Four of Clubs, Ten of Spades, Jack of Hearts, Five of Diamonds);
    assert(v@.len() == 52);
    assert(is(v@[0], Rank::Five, Suit::Hearts));
    assert(is(v@[1], Rank::Nine, Suit::Clubs));
    assert(is(v@[2], Rank::Two, Suit::Diamonds));
    assert(is(v@[3], Rank::Six, Suit::Diamonds));
    assert(is(v@[4], Rank::Nine, Suit::Hearts));
    assert(is(v@[5], Rank::Eight, Suit::Spades));
    assert(is(v@[6], Rank::Ace, Suit::Diamonds));
    assert(is(v@[7], Rank::Seven, Suit::Spades));
    assert(is(v@[8], Rank::Jack, Suit::Clubs));
    assert(is(v@[9], Rank::Four, Suit::Spades));
    assert(is(v@[10], Rank::Ten, Suit::Clubs));
    assert(is(v@[11], Rank::Three, Suit::Spades));
    assert(is(v@[12], Rank::Four, Suit::Diamonds));
    assert(is(v@[13], Rank::Six, Suit::Hearts));
    assert(is(v@[14], Rank::Ten, Suit::Hearts));
    assert(is(v@[15], Rank::Ace, Suit::Clubs));
    assert(is(v@[16], Rank::Eight, Suit::Clubs));
    assert(is(v@[17], Rank::Nine, Suit::Diamonds));
    assert(is(v@[18], Rank::Two, Suit::Hearts));
    assert(is(v@[19], Rank::Six, Suit::Spades));
    assert(is(v@[20], Rank::Three, Suit::Hearts));
    assert(is(v@[21], Rank::Two, Suit::Spades));
    assert(is(v@[22], Rank::Seven, Suit::Hearts));
    assert(is(v@[23], Rank::King, Suit::Clubs));
    assert(is(v@[24], Rank::King, Suit::Diamonds));
    assert(is(v@[25], Rank::Queen, Suit::Diamonds));
    assert(is(v@[26], Rank::Queen, Suit::Hearts));
    assert(is(v@[27], Rank::Eight, Suit::Diamonds));
    assert(is(v@[28], Rank::Queen, Suit::Spades));
    assert(is(v@[29], Rank::Seven, Suit::Clubs));
    assert(is(v@[30], Rank::Three, Suit::Diamonds));
    assert(is(v@[31], Rank::Four, Suit::Hearts));
    assert(is(v@[32], Rank::Eight, Suit::Hearts));
    assert(is(v@[33], Rank::Ace, Suit::Hearts));
    assert(is(v@[34], Rank::Jack, Suit::Diamonds));
    assert(is(v@[35], Rank::Five, Suit::Clubs));
    assert(is(v@[36], Rank::Five, Suit::Spades));
    assert(is(v@[37], Rank::Ten, Suit::Diamonds));
    assert(is(v@[38], Rank::Six, Suit::Clubs));
    assert(is(v@[39], Rank::King, Suit::Hearts));
    assert(is(v@[40], Rank::Two, Suit::Clubs));
    assert(is(v@[41], Rank::King, Suit::Spades));
    assert(is(v@[42], Rank::Three, Suit::Clubs));
    assert(is(v@[43], Rank::Ace, Suit::Spades));
    assert(is(v@[44], Rank::Queen, Suit::Clubs));
    assert(is(v@[45], Rank::Nine, Suit::Spades));
    assert(is(v@[46], Rank::Jack, Suit::Spades));
    assert(is(v@[47], Rank::Seven, Suit::Diamonds));
    assert(is(v@[48], Rank::Four, Suit::Clubs));
    assert(is(v@[49], Rank::Ten, Suit::Spades));
    assert(is(v@[50], Rank::Jack, Suit::Hearts));
    assert(is(v@[51], Rank::Five, Suit::Diamonds));
}
pub fn c21_cards_all_of_trailing() {
    let v = cards!(Five of Hearts, Nine of Clubs, Two of Diamonds, Six of Diamonds, Nine of Hearts, Eight of Spades, Ace of Diamonds, Seven of Spades, Jack of Clubs, Four of Spades, Ten of Clubs, Three of Spades, Four of Diamonds, Six of Hearts, Ten of Hearts, Ace of Clubs, Eight of Clubs, Nine of Diamonds, Two of Hearts, Six of Spades, Three of Hearts, Two of Spades, Seven of Hearts, King of Clubs, King of Diamonds, Queen of Diamonds, Queen of Hearts, Eight of Diamonds, Queen of Spades, Seven of Clubs, Three of Diamonds, Four of Hearts, Eight of Hearts, Ace of Hearts, Jack of Diamonds, Five of Clubs, Five of Spades, Ten of Diamonds, Six of Clubs, King of Hearts, Two of Clubs, King of Spades, Three of Clubs, Ace of Spades, Queen of Clubs, Nine of Spades, Jack of Spades, Seven of Diamonds, Four of Clubs, Ten of Spades, Jack of Hearts, Five of Diamonds,);
    assert(v@.len() == 52);
    assert(is(v@[0], Rank::Five, Suit::Hearts));
    assert(is(v@[1], Rank::Nine, Suit::Clubs));
    assert(is(v@[2], Rank::Two, Suit::Diamonds));
    assert(is(v@[3], Rank::Six, Suit::Diamonds));
    assert(is(v@[4], Rank::Nine, Suit::Hearts));
    assert(is(v@[5], Rank::Eight, Suit::Spades));
    assert(is(v@[6], Rank::Ace, Suit::Diamonds));
    assert(is(v@[7], Rank::Seven, Suit::Spades));
    assert(is(v@[8], Rank::Jack, Suit::Clubs));
    assert(is(v@[9], Rank::Four, Suit::Spades));
    assert(is(v@[10], Rank::Ten, Suit::Clubs));
    assert(is(v@[11], Rank::Three, Suit::Spades));
    assert(is(v@[12], Rank::Four, Suit::Diamonds));
    assert(is(v@[13], Rank::Six, Suit::Hearts));
    assert(is(v@[14], Rank::Ten, Suit::Hearts));
    assert(is(v@[15], Rank::Ace, Suit::Clubs));
    assert(is(v@[16], Rank::Eight, Suit::Clubs));
    assert(is(v@[17], Rank::Nine, Suit::Diamonds));
    assert(is(v@[18], Rank::Two, Suit::Hearts));
    assert(is(v@[19], Rank::Six, Suit::Spades));
    assert(is(v@[20], Rank::Three, Suit::Hearts));
    assert(is(v@[21], Rank::Two, Suit::Spades));
    assert(is(v@[22], Rank::Seven, Suit::Hearts));
    assert(is(v@[23], Rank::King, Suit::Clubs));
    assert(is(v@[24], Rank::King, Suit::Diamonds));
    assert(is(v@[25], Rank::Queen, Suit::Diamonds));
    assert(is(v@[26], Rank::Queen, Suit::Hearts));
    assert(is(v@[27], Rank::Eight, Suit::Diamonds));
    assert(is(v@[28], Rank::Queen, Suit::Spades));
    assert(is(v@[29], Rank::Seven, Suit::Clubs));
    assert(is(v@[30], Rank::Three, Suit::Diamonds));
    assert(is(v@[31], Rank::Four, Suit::Hearts));
    assert(is(v@[32], Rank::Eight, Suit::Hearts));
    assert(is(v@[33], Rank::Ace, Suit::Hearts));
    assert(is(v@[34], Rank::Jack, Suit::Diamonds));
    assert(is(v@[35], Rank::Five, Suit::Clubs));
    assert(is(v@[36], Rank::Five, Suit::Spades));
    assert(is(v@[37], Rank::Ten, Suit::Diamonds));
    assert(is(v@[38], Rank::Six, Suit::Clubs));
    assert(is(v@[39], Rank::King, Suit::Hearts));
    assert(is(v@[40], Rank::Two, Suit::Clubs));
    assert(is(v@[41], Rank::King, Suit::Spades));
    assert(is(v@[42], Rank::Three, Suit::Clubs));
    assert(is(v@[43], Rank::Ace, Suit::Spades));
    assert(is(v@[44], Rank::Queen, Suit::Clubs));
    assert(is(v@[45], Rank::Nine, Suit::Spades));
    assert(is(v@[46], Rank::Jack, Suit::Spades));
    assert(is(v@[47], Rank::Seven, Suit::Diamonds));
    assert(is(v@[48], Rank::Four, Suit::Clubs));
    assert(is(v@[49], Rank::Ten, Suit::Spades));
    assert(is(v@[50], Rank::Jack, Suit::Hearts));
    assert(is(v@[51], Rank::Five, Suit::Diamonds));
}
pub exec const ONE: Card ensures is(ONE, Rank::Ace, Suit::Spades) { card!(Ace, Spades) }
pub exec const ONE_OF: Card ensures is(ONE_OF, Rank::Ten, Suit::Hearts) { card!(Ten of Hearts) }
pub exec const SOME: [Card; 2] ensures is(SOME@[0], Rank::King, Suit::Hearts), is(SOME@[1], Rank::Queen, Suit::Clubs) { cards!(King, Hearts; Queen, Clubs) }
pub exec const SOME_OF: [Card; 3] ensures is(SOME_OF@[0], Rank::King, Suit::Hearts), is(SOME_OF@[1], Rank::Two, Suit::Diamonds), is(SOME_OF@[2], Rank::Queen, Suit::Clubs) { cards!(King of Hearts, Two of Diamonds, Queen of Clubs) }

pub fn c21_text(s: &str) -> (r: Result<Card, ParseCardError>)
    ensures parsed(s@, r),
{ card!(s) }
pub fn c21_string(s: String) -> (r: Result<Card, ParseCardError>)
    ensures parsed(s@, r),
{ card!(s) }
/// the pieces of one text
pub fn c21_pieces(s: &str) -> (r: Result<Vec<Card>, ParseCardError>)
    ensures exists|all: Seq<Result<Card, ParseCardError>>| #[trigger] collected(all, r) && all.len() == pieces(s@).len() && forall|i: int| 0 <= i < all.len() ==> parsed(pieces(s@)[i], #[trigger] all[i]),
{ cards!(s).try_collect() }

pub fn c21_texts2(a: &str, b: &str) -> (r: Result<Vec<Card>, ParseCardError>)
    ensures exists|all: Seq<Result<Card, ParseCardError>>| #[trigger] collected(all, r) && all.len() == 2 && parsed(a@, all[0]) && parsed(b@, all[1]),
{ cards!((a), (b)).try_collect() }
pub fn c21_texts2_trailing(a: &str, b: &str) -> (r: Result<Vec<Card>, ParseCardError>)
    ensures exists|all: Seq<Result<Card, ParseCardError>>| #[trigger] collected(all, r) && all.len() == 2 && parsed(a@, all[0]) && parsed(b@, all[1]),
{ cards!((a), (b),).try_collect() }
pub fn c21_box2(a: &[Card], b: &[Card]) -> (r: Box<[Card]>)
    ensures (*r)@ == a@ + b@,
{ broadcast use axiom_collect_box; let r = box_cards!(a, b); assert((*r)@ =~= a@ + b@); r }
pub fn c21_box2_trailing(a: &[Card], b: &[Card]) -> (r: Box<[Card]>)
    ensures (*r)@ == a@ + b@,
{ broadcast use axiom_collect_box; let r = box_cards!(a, b,); assert((*r)@ =~= a@ + b@); r }
pub fn c21_texts3(a: &str, b: &str, c: &str) -> (r: Result<Vec<Card>, ParseCardError>)
    ensures exists|all: Seq<Result<Card, ParseCardError>>| #[trigger] collected(all, r) && all.len() == 3 && parsed(a@, all[0]) && parsed(b@, all[1]) && parsed(c@, all[2]),
{ cards!((a), (b), (c)).try_collect() }
pub fn c21_texts3_trailing(a: &str, b: &str, c: &str) -> (r: Result<Vec<Card>, ParseCardError>)
    ensures exists|all: Seq<Result<Card, ParseCardError>>| #[trigger] collected(all, r) && all.len() == 3 && parsed(a@, all[0]) && parsed(b@, all[1]) && parsed(c@, all[2]),
{ cards!((a), (b), (c),).try_collect() }
pub fn c21_box3(a: &[Card], b: &[Card], c: &[Card]) -> (r: Box<[Card]>)
    ensures (*r)@ == a@ + b@ + c@,
{ broadcast use axiom_collect_box; let r = box_cards!(a, b, c); assert((*r)@ =~= a@ + b@ + c@); r }
pub fn c21_box3_trailing(a: &[Card], b: &[Card], c: &[Card]) -> (r: Box<[Card]>)
    ensures (*r)@ == a@ + b@ + c@,
{ broadcast use axiom_collect_box; let r = box_cards!(a, b, c,); assert((*r)@ =~= a@ + b@ + c@); r }
pub fn c21_texts4(a: &str, b: &str, c: &str, d: &str) -> (r: Result<Vec<Card>, ParseCardError>)
    ensures exists|all: Seq<Result<Card, ParseCardError>>| #[trigger] collected(all, r) && all.len() == 4 && parsed(a@, all[0]) && parsed(b@, all[1]) && parsed(c@, all[2]) && parsed(d@, all[3]),
{ cards!((a), (b), (c), (d)).try_collect() }
pub fn c21_texts4_trailing(a: &str, b: &str, c: &str, d: &str) -> (r: Result<Vec<Card>, ParseCardError>)
    ensures exists|all: Seq<Result<Card, ParseCardError>>| #[trigger] collected(all, r) && all.len() == 4 && parsed(a@, all[0]) && parsed(b@, all[1]) && parsed(c@, all[2]) && parsed(d@, all[3]),
{ cards!((a), (b), (c), (d),).try_collect() }
pub fn c21_box4(a: &[Card], b: &[Card], c: &[Card], d: &[Card]) -> (r: Box<[Card]>)
    ensures (*r)@ == a@ + b@ + c@ + d@,
{ broadcast use axiom_collect_box; let r = box_cards!(a, b, c, d); assert((*r)@ =~= a@ + b@ + c@ + d@); r }
pub fn c21_box4_trailing(a: &[Card], b: &[Card], c: &[Card], d: &[Card]) -> (r: Box<[Card]>)
    ensures (*r)@ == a@ + b@ + c@ + d@,
{ broadcast use axiom_collect_box; let r = box_cards!(a, b, c, d,); assert((*r)@ =~= a@ + b@ + c@ + d@); r }
pub fn c21_texts5(a: &str, b: &str, c: &str, d: &str, e: &str) -> (r: Result<Vec<Card>, ParseCardError>)
    ensures exists|all: Seq<Result<Card, ParseCardError>>| #[trigger] collected(all, r) && all.len() == 5 && parsed(a@, all[0]) && parsed(b@, all[1]) && parsed(c@, all[2]) && parsed(d@, all[3]) && parsed(e@, all[4]),
{ cards!((a), (b), (c), (d), (e)).try_collect() }
pub fn c21_texts5_trailing(a: &str, b: &str, c: &str, d: &str, e: &str) -> (r: Result<Vec<Card>, ParseCardError>)
    ensures exists|all: Seq<Result<Card, ParseCardError>>| #[trigger] collected(all, r) && all.len() == 5 && parsed(a@, all[0]) && parsed(b@, all[1]) && parsed(c@, all[2]) && parsed(d@, all[3]) && parsed(e@, all[4]),
{ cards!((a), (b), (c), (d), (e),).try_collect() }
pub fn c21_box5(a: &[Card], b: &[Card], c: &[Card], d: &[Card], e: &[Card]) -> (r: Box<[Card]>)
    ensures (*r)@ == a@ + b@ + c@ + d@ + e@,
{ broadcast use axiom_collect_box; let r = box_cards!(a, b, c, d, e); assert((*r)@ =~= a@ + b@ + c@ + d@ + e@); r }
pub fn c21_box5_trailing(a: &[Card], b: &[Card], c: &[Card], d: &[Card], e: &[Card]) -> (r: Box<[Card]>)
    ensures (*r)@ == a@ + b@ + c@ + d@ + e@,
{ broadcast use axiom_collect_box; let r = box_cards!(a, b, c, d, e,); assert((*r)@ =~= a@ + b@ + c@ + d@ + e@); r }
pub fn c21_texts6(a: &str, b: &str, c: &str, d: &str, e: &str, f: &str) -> (r: Result<Vec<Card>, ParseCardError>)
    ensures exists|all: Seq<Result<Card, ParseCardError>>| #[trigger] collected(all, r) && all.len() == 6 && parsed(a@, all[0]) && parsed(b@, all[1]) && parsed(c@, all[2]) && parsed(d@, all[3]) && parsed(e@, all[4]) && parsed(f@, all[5]),
{ cards!((a), (b), (c), (d), (e), (f)).try_collect() }
pub fn c21_texts6_trailing(a: &str, b: &str, c: &str, d: &str, e: &str, f: &str) -> (r: Result<Vec<Card>, ParseCardError>)
    ensures exists|all: Seq<Result<Card, ParseCardError>>| #[trigger] collected(all, r) && all.len() == 6 && parsed(a@, all[0]) && parsed(b@, all[1]) && parsed(c@, all[2]) && parsed(d@, all[3]) && parsed(e@, all[4]) && parsed(f@, all[5]),
{ cards!((a), (b), (c), (d), (e), (f),).try_collect() }
pub fn c21_box6(a: &[Card], b: &[Card], c: &[Card], d: &[Card], e: &[Card], f: &[Card]) -> (r: Box<[Card]>)
    ensures (*r)@ == a@ + b@ + c@ + d@ + e@ + f@,
{ broadcast use axiom_collect_box; let r = box_cards!(a, b, c, d, e, f); assert((*r)@ =~= a@ + b@ + c@ + d@ + e@ + f@); r }
pub fn c21_box6_trailing(a: &[Card], b: &[Card], c: &[Card], d: &[Card], e: &[Card], f: &[Card]) -> (r: Box<[Card]>)
    ensures (*r)@ == a@ + b@ + c@ + d@ + e@ + f@,
{ broadcast use axiom_collect_box; let r = box_cards!(a, b, c, d, e, f,); assert((*r)@ =~= a@ + b@ + c@ + d@ + e@ + f@); r }
pub fn c21_texts7(a: &str, b: &str, c: &str, d: &str, e: &str, f: &str, g: &str) -> (r: Result<Vec<Card>, ParseCardError>)
    ensures exists|all: Seq<Result<Card, ParseCardError>>| #[trigger] collected(all, r) && all.len() == 7 && parsed(a@, all[0]) && parsed(b@, all[1]) && parsed(c@, all[2]) && parsed(d@, all[3]) && parsed(e@, all[4]) && parsed(f@, all[5]) && parsed(g@, all[6]),
{ cards!((a), (b), (c), (d), (e), (f), (g)).try_collect() }
pub fn c21_texts7_trailing(a: &str, b: &str, c: &str, d: &str, e: &str, f: &str, g: &str) -> (r: Result<Vec<Card>, ParseCardError>)
    ensures exists|all: Seq<Result<Card, ParseCardError>>| #[trigger] collected(all, r) && all.len() == 7 && parsed(a@, all[0]) && parsed(b@, all[1]) && parsed(c@, all[2]) && parsed(d@, all[3]) && parsed(e@, all[4]) && parsed(f@, all[5]) && parsed(g@, all[6]),
{ cards!((a), (b), (c), (d), (e), (f), (g),).try_collect() }
pub fn c21_box7(a: &[Card], b: &[Card], c: &[Card], d: &[Card], e: &[Card], f: &[Card], g: &[Card]) -> (r: Box<[Card]>)
    ensures (*r)@ == a@ + b@ + c@ + d@ + e@ + f@ + g@,
{ broadcast use axiom_collect_box; let r = box_cards!(a, b, c, d, e, f, g); assert((*r)@ =~= a@ + b@ + c@ + d@ + e@ + f@ + g@); r }
pub fn c21_box7_trailing(a: &[Card], b: &[Card], c: &[Card], d: &[Card], e: &[Card], f: &[Card], g: &[Card]) -> (r: Box<[Card]>)
    ensures (*r)@ == a@ + b@ + c@ + d@ + e@ + f@ + g@,
{ broadcast use axiom_collect_box; let r = box_cards!(a, b, c, d, e, f, g,); assert((*r)@ =~= a@ + b@ + c@ + d@ + e@ + f@ + g@); r }

// each argument is evaluated once, in the order written
pub fn pull<'a>(v: &Vec<&'a str>, i: &mut usize) -> (r: &'a str)
    requires *old(i) < v@.len(),
    ensures *final(i) == *old(i) + 1, r == v@[*old(i) as int],
{ let _n = v.len(); let r = v[*i]; *i += 1; r }
pub fn deal<'a>(v: &Vec<&'a [Card]>, i: &mut usize) -> (r: &'a [Card])
    requires *old(i) < v@.len(),
    ensures *final(i) == *old(i) + 1, r == v@[*old(i) as int],
{ let _n = v.len(); let r = v[*i]; *i += 1; r }
pub fn c21_text_once<'a>(v: &Vec<&'a str>, i: &mut usize) -> (r: Result<Card, ParseCardError>)
    requires *old(i) == 0, v@.len() > 1,
    ensures parsed(v@[0]@, r), *final(i) == 1,
{ card!(pull(v, i)) }
pub fn c21_pieces_once<'a>(v: &Vec<&'a str>, i: &mut usize) -> (r: Result<Vec<Card>, ParseCardError>)
    requires *old(i) == 0, v@.len() > 1,
    ensures *final(i) == 1, exists|all: Seq<Result<Card, ParseCardError>>| #[trigger] collected(all, r) && all.len() == pieces(v@[0]@).len() && forall|i: int| 0 <= i < all.len() ==> parsed(pieces(v@[0]@)[i], #[trigger] all[i]),
{ cards!(pull(v, i)).try_collect() }
pub fn c21_texts2_once<'a>(v: &Vec<&'a str>, i: &mut usize) -> (r: Result<Vec<Card>, ParseCardError>)
    requires *old(i) == 0, v@.len() > 2,
    ensures *final(i) == 2, exists|all: Seq<Result<Card, ParseCardError>>| #[trigger] collected(all, r) && all.len() == 2 && parsed(v@[0]@, all[0]) && parsed(v@[1]@, all[1]),
{ cards!(pull(v, i), pull(v, i)).try_collect() }
pub fn c21_box2_once<'a>(v: &Vec<&'a [Card]>, i: &mut usize) -> (r: Box<[Card]>)
    requires *old(i) == 0, v@.len() > 2,
    ensures *final(i) == 2, (*r)@ == v@[0]@ + v@[1]@,
{ broadcast use axiom_collect_box; let r = box_cards!(deal(v, i), deal(v, i)); assert((*r)@ =~= v@[0]@ + v@[1]@); r }
pub fn c21_texts3_once<'a>(v: &Vec<&'a str>, i: &mut usize) -> (r: Result<Vec<Card>, ParseCardError>)
    requires *old(i) == 0, v@.len() > 3,
    ensures *final(i) == 3, exists|all: Seq<Result<Card, ParseCardError>>| #[trigger] collected(all, r) && all.len() == 3 && parsed(v@[0]@, all[0]) && parsed(v@[1]@, all[1]) && parsed(v@[2]@, all[2]),
{ cards!(pull(v, i), pull(v, i), pull(v, i)).try_collect() }
pub fn c21_box3_once<'a>(v: &Vec<&'a [Card]>, i: &mut usize) -> (r: Box<[Card]>)
    requires *old(i) == 0, v@.len() > 3,
    ensures *final(i) == 3, (*r)@ == v@[0]@ + v@[1]@ + v@[2]@,
{ broadcast use axiom_collect_box; let r = box_cards!(deal(v, i), deal(v, i), deal(v, i)); assert((*r)@ =~= v@[0]@ + v@[1]@ + v@[2]@); r }
pub fn c21_texts5_once<'a>(v: &Vec<&'a str>, i: &mut usize) -> (r: Result<Vec<Card>, ParseCardError>)
    requires *old(i) == 0, v@.len() > 5,
    ensures *final(i) == 5, exists|all: Seq<Result<Card, ParseCardError>>| #[trigger] collected(all, r) && all.len() == 5 && parsed(v@[0]@, all[0]) && parsed(v@[1]@, all[1]) && parsed(v@[2]@, all[2]) && parsed(v@[3]@, all[3]) && parsed(v@[4]@, all[4]),
{ cards!(pull(v, i), pull(v, i), pull(v, i), pull(v, i), pull(v, i)).try_collect() }
pub fn c21_box5_once<'a>(v: &Vec<&'a [Card]>, i: &mut usize) -> (r: Box<[Card]>)
    requires *old(i) == 0, v@.len() > 5,
    ensures *final(i) == 5, (*r)@ == v@[0]@ + v@[1]@ + v@[2]@ + v@[3]@ + v@[4]@,
{ broadcast use axiom_collect_box; let r = box_cards!(deal(v, i), deal(v, i), deal(v, i), deal(v, i), deal(v, i)); assert((*r)@ =~= v@[0]@ + v@[1]@ + v@[2]@ + v@[3]@ + v@[4]@); r }
}
