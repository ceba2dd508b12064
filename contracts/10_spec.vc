@@ top
// The specification: cards, the rules of poker, texts.  Nothing here refers to how the crate computes them.
pub mod vxspec {
use vstd::prelude::*;
use core::cmp::Ordering;
use crate::card::{Card, Rank, Suit};
use crate::error::ParseCardError;

// ---------------------------------------------------------------- ranks and suits
/// deuce = 0 ... ace = 12
pub open spec fn rn(r: Rank) -> int {
    match r {
        Rank::Two => 0, Rank::Three => 1, Rank::Four => 2, Rank::Five => 3, Rank::Six => 4, Rank::Seven => 5, Rank::Eight => 6,
        Rank::Nine => 7, Rank::Ten => 8, Rank::Jack => 9, Rank::Queen => 10, Rank::King => 11, Rank::Ace => 12,
    }
}
pub open spec fn rank_at(n: int) -> Rank {
    if n == 0 { Rank::Two } else if n == 1 { Rank::Three } else if n == 2 { Rank::Four } else if n == 3 { Rank::Five } else if n == 4 { Rank::Six }
    else if n == 5 { Rank::Seven } else if n == 6 { Rank::Eight } else if n == 7 { Rank::Nine } else if n == 8 { Rank::Ten } else if n == 9 { Rank::Jack }
    else if n == 10 { Rank::Queen } else if n == 11 { Rank::King } else { Rank::Ace }
}
/// suit flag: spades 1, hearts 2, diamonds 4, clubs 8
pub open spec fn sf(s: Suit) -> int {
    match s { Suit::Spades => 1, Suit::Hearts => 2, Suit::Diamonds => 4, Suit::Clubs => 8 }
}
pub open spec fn suit_at(n: int) -> Suit {
    if n == 8 { Suit::Clubs } else if n == 4 { Suit::Diamonds } else if n == 2 { Suit::Hearts } else { Suit::Spades }
}
/// the first thirteen primes
pub open spec fn prime(n: int) -> int {
    if n == 0 { 2 } else if n == 1 { 3 } else if n == 2 { 5 } else if n == 3 { 7 } else if n == 4 { 11 } else if n == 5 { 13 } else if n == 6 { 17 }
    else if n == 7 { 19 } else if n == 8 { 23 } else if n == 9 { 29 } else if n == 10 { 31 } else if n == 11 { 37 } else { 41 }
}
/// 2^n, n <= 12
pub open spec fn p2(n: int) -> int {
    if n == 0 { 1 } else if n == 1 { 2 } else if n == 2 { 4 } else if n == 3 { 8 } else if n == 4 { 16 } else if n == 5 { 32 } else if n == 6 { 64 }
    else if n == 7 { 128 } else if n == 8 { 256 } else if n == 9 { 512 } else if n == 10 { 1024 } else if n == 11 { 2048 } else { 4096 }
}
/// the documented 32-bit layout
pub open spec fn enc(r: Rank, s: Suit) -> int {
    p2(rn(r)) * 65536 + sf(s) * 4096 + rn(r) * 256 + prime(rn(r))
}
pub open spec fn rank_char(r: Rank) -> char {
    match r {
        Rank::Two => '2', Rank::Three => '3', Rank::Four => '4', Rank::Five => '5', Rank::Six => '6', Rank::Seven => '7', Rank::Eight => '8',
        Rank::Nine => '9', Rank::Ten => 'T', Rank::Jack => 'J', Rank::Queen => 'Q', Rank::King => 'K', Rank::Ace => 'A',
    }
}
pub open spec fn suit_char(s: Suit) -> char {
    match s { Suit::Clubs => 'c', Suit::Hearts => 'h', Suit::Spades => 's', Suit::Diamonds => 'd' }
}
pub open spec fn suit_symbol(s: Suit) -> char {
    match s { Suit::Clubs => '\u{2663}', Suit::Hearts => '\u{2665}', Suit::Spades => '\u{2660}', Suit::Diamonds => '\u{2666}' }
}
pub open spec fn char_rank(c: char) -> Option<Rank> {
    if c == '2' { Some(Rank::Two) } else if c == '3' { Some(Rank::Three) } else if c == '4' { Some(Rank::Four) } else if c == '5' { Some(Rank::Five) }
    else if c == '6' { Some(Rank::Six) } else if c == '7' { Some(Rank::Seven) } else if c == '8' { Some(Rank::Eight) } else if c == '9' { Some(Rank::Nine) }
    else if c == 'T' { Some(Rank::Ten) } else if c == 'J' { Some(Rank::Jack) } else if c == 'Q' { Some(Rank::Queen) } else if c == 'K' { Some(Rank::King) }
    else if c == 'A' { Some(Rank::Ace) } else { None }
}
pub open spec fn char_suit(c: char) -> Option<Suit> {
    if c == 'c' { Some(Suit::Clubs) } else if c == 'h' { Some(Suit::Hearts) } else if c == 's' { Some(Suit::Spades) } else if c == 'd' { Some(Suit::Diamonds) } else { None }
}
pub open spec fn rank_word(r: Rank) -> Seq<char> {
    match r {
        Rank::Two => "two"@, Rank::Three => "three"@, Rank::Four => "four"@, Rank::Five => "five"@, Rank::Six => "six"@, Rank::Seven => "seven"@, Rank::Eight => "eight"@,
        Rank::Nine => "nine"@, Rank::Ten => "ten"@, Rank::Jack => "jack"@, Rank::Queen => "queen"@, Rank::King => "king"@, Rank::Ace => "ace"@,
    }
}
pub open spec fn rank_words(r: Rank) -> Seq<char> {
    match r {
        Rank::Two => "twos"@, Rank::Three => "threes"@, Rank::Four => "fours"@, Rank::Five => "fives"@, Rank::Six => "sixes"@, Rank::Seven => "sevens"@, Rank::Eight => "eights"@,
        Rank::Nine => "nines"@, Rank::Ten => "tens"@, Rank::Jack => "jacks"@, Rank::Queen => "queens"@, Rank::King => "kings"@, Rank::Ace => "aces"@,
    }
}
pub open spec fn icmp(a: int, b: int) -> Ordering {
    if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater }
}

// ---------------------------------------------------------------- concatenation of texts
pub broadcast proof fn lemma_cat_assoc(a: Seq<char>, b: Seq<char>, c: Seq<char>)
    ensures #[trigger] (a + (b + c)) == (a + b) + c,
{ assert(a + (b + c) =~= (a + b) + c); }
pub broadcast proof fn lemma_cat_empty(a: Seq<char>)
    ensures #[trigger] (a + ""@) == a,
{ reveal_strlit(""); assert(a + ""@ =~= a); }
pub broadcast group group_cat { lemma_cat_assoc, lemma_cat_empty }

// ---------------------------------------------------------------- parsing
/// `r` is what parsing the text `s` as a card must give
pub open spec fn parsed(s: Seq<char>, r: Result<Card, ParseCardError>) -> bool {
    if s.len() != 2 {
        r matches Err(ParseCardError::InvalidLength { original_input }) && original_input@ == s
    } else if char_rank(s[0]) is None {
        r matches Err(ParseCardError::InvalidRank { original_input, incorrect_char }) && original_input@ == s && incorrect_char == s[0]
    } else if char_suit(s[1]) is None {
        r matches Err(ParseCardError::InvalidSuit { original_input, incorrect_char }) && original_input@ == s && incorrect_char == s[1]
    } else {
        r matches Ok(c) && c.rk() == char_rank(s[0])->0 && c.st() == char_suit(s[1])->0
    }
}
/// the text of a card, as accepted by the parser
pub open spec fn card_name(c: Card) -> Seq<char> { seq![rank_char(c.rk()), suit_char(c.st())] }
/// elementwise parsing of a sequence of texts
pub open spec fn parsed_all<X: AsRef<str>>(a: Seq<X>, b: Seq<Result<Card, ParseCardError>>) -> bool {
    a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> parsed_one(a[i], #[trigger] b[i])
}
/// the results given so far
pub open spec fn parsed_from<X: AsRef<str>>(a: Seq<X>, b: Seq<Result<Card, ParseCardError>>) -> bool {
    b.len() <= a.len() && forall|i: int| 0 <= i < b.len() ==> parsed_one(a[i], #[trigger] b[i])
}
pub open spec fn parsed_one<X: AsRef<str>>(x: X, r: Result<Card, ParseCardError>) -> bool {
    exists|t: &str| call_ensures(<X as AsRef<str>>::as_ref, (&x,), t) && #[trigger] parsed(t@, r)
}
}
