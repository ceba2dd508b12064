//! The card macros in constants (C21).  If this does not compile although the crate does, they are not usable there.
use poker::{card, cards, Card, Rank, Suit};
macro_rules! all {
    ($m:ident) => {
        $m!(Two Three Four Five Six Seven Eight Nine Ten Jack Queen King Ace);
    };
}
macro_rules! table {
    ($($r:ident)*) => {
        const A: [(Card, Rank, Suit); 52] = [$(
            (card!($r, Clubs), Rank::$r, Suit::Clubs),
            (card!($r, Hearts), Rank::$r, Suit::Hearts),
            (card!($r of Spades), Rank::$r, Suit::Spades),
            (card!($r of Diamonds), Rank::$r, Suit::Diamonds),
        )*];
        const B: &[([Card; 4], Rank)] = &[$((cards!($r, Clubs; $r, Hearts; $r, Spades; $r, Diamonds), Rank::$r),)*];
        const C: &[([Card; 4], Rank)] = &[$((cards!($r of Clubs, $r of Hearts, $r of Spades, $r of Diamonds), Rank::$r),)*];
    };
}
all!(table);
const RK: Rank = A[17].0.rank();
const ST: Suit = A[17].0.suit();
const UI: i32 = A[17].0.unique_integer();
static D: [Card; 2] = cards!(Ace, Spades; Two, Clubs);
fn main() {
    let suits = [Suit::Clubs, Suit::Hearts, Suit::Spades, Suit::Diamonds];
    let mut bad = 0;
    for (c, r, s) in A {
        if c != Card::new(r, s) { println!("card! gives {c} for {r:?} {s:?}"); bad += 1; }
    }
    for t in [B, C] {
        for (cs, r) in t {
            for (c, s) in cs.iter().zip(suits) {
                if *c != Card::new(*r, s) { println!("cards! gives {c} for {r:?} {s:?}"); bad += 1; }
            }
        }
    }
    if RK != A[17].1 || ST != A[17].2 || UI != A[17].0.unique_integer() { println!("accessors in constants differ"); bad += 1; }
    if D != [Card::new(Rank::Ace, Suit::Spades), Card::new(Rank::Two, Suit::Clubs)] { println!("static cards! differ"); bad += 1; }
    std::process::exit(if bad > 0 { 1 } else { 0 });
}
