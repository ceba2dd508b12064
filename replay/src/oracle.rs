//! The rules, written independently of the crate: ranks 0 (deuce) .. 12 (ace), suits 0..4.
use poker::{Card, Eval, EvalClass, Rank, Suit};

pub const RANKS: [Rank; 13] = [
    Rank::Two, Rank::Three, Rank::Four, Rank::Five, Rank::Six, Rank::Seven, Rank::Eight, Rank::Nine, Rank::Ten, Rank::Jack, Rank::Queen, Rank::King, Rank::Ace,
];
pub const SUITS: [Suit; 4] = [Suit::Spades, Suit::Hearts, Suit::Diamonds, Suit::Clubs];
pub const RANK_CHARS: [char; 13] = ['2', '3', '4', '5', '6', '7', '8', '9', 'T', 'J', 'Q', 'K', 'A'];
pub const SUIT_CHARS: [char; 4] = ['s', 'h', 'd', 'c'];
pub const SUIT_SYMBOLS: [char; 4] = ['\u{2660}', '\u{2665}', '\u{2666}', '\u{2663}'];
pub const WORDS: [&str; 13] = ["two", "three", "four", "five", "six", "seven", "eight", "nine", "ten", "jack", "queen", "king", "ace"];
pub const PLURALS: [&str; 13] = ["twos", "threes", "fours", "fives", "sixes", "sevens", "eights", "nines", "tens", "jacks", "queens", "kings", "aces"];
pub const PRIMES: [i32; 13] = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41];

/// card number: rank * 4 + suit
pub type C = u8;
pub fn card(c: C) -> Card { Card::new(RANKS[(c / 4) as usize], SUITS[(c % 4) as usize]) }
pub fn cards(cs: &[C]) -> Vec<Card> { cs.iter().map(|&c| card(c)).collect() }
pub fn name(c: C) -> String { format!("{}{}", RANK_CHARS[(c / 4) as usize], SUIT_CHARS[(c % 4) as usize]) }
pub fn names(cs: &[C]) -> String { cs.iter().map(|&c| name(c)).collect::<Vec<_>>().join(" ") }

/// category (0 high card .. 8 straight flush) and the deciding ranks, most significant first, packed in base 16
pub fn key5(cs: &[C; 5]) -> u32 {
    let flush = cs.iter().all(|c| c % 4 == cs[0] % 4);
    let mut r = [cs[0] / 4, cs[1] / 4, cs[2] / 4, cs[3] / 4, cs[4] / 4];
    r.sort_unstable_by(|a, b| b.cmp(a));
    ranks_key(&r, flush)
}
pub fn ranks_key(r: &[u8; 5], flush: bool) -> u32 {
    let mut count = [0u8; 13];
    for &x in r { count[x as usize] += 1; }
    // groups: by size, then by rank, from the highest down
    let mut g: Vec<(u8, u8)> = (0..13u8).filter(|&x| count[x as usize] > 0).map(|x| (count[x as usize], x)).collect();
    g.sort_unstable_by(|a, b| b.cmp(a));
    let shape: Vec<u8> = g.iter().map(|x| x.0).collect();
    let ranks: Vec<u8> = g.iter().map(|x| x.1).collect();
    let straight = if shape.len() == 5 {
        if ranks[0] - ranks[4] == 4 { Some(ranks[0]) } else if ranks == [12, 3, 2, 1, 0] { Some(3) } else { None }
    } else { None };
    let (cat, deciding): (u32, Vec<u8>) = match (shape.as_slice(), straight, flush) {
        (_, Some(h), true) => (8, vec![h]),
        ([4, 1], ..) => (7, ranks),
        ([3, 2], ..) => (6, ranks),
        (_, None, true) => (5, ranks),
        (_, Some(h), false) => (4, vec![h]),
        ([3, 1, 1], ..) => (3, ranks),
        ([2, 2, 1], ..) => (2, ranks),
        ([2, 1, 1, 1], ..) => (1, ranks),
        _ => (0, ranks),
    };
    let mut k = cat;
    for i in 0..5 { k = k * 16 + deciding.get(i).copied().unwrap_or(0) as u32; }
    k
}
pub fn cat(k: u32) -> u32 { k >> 20 }
pub fn nth(k: u32, i: u32) -> usize { ((k >> (16 - 4 * i)) & 15) as usize }

pub fn class(k: u32) -> EvalClass {
    let r = |i| RANKS[nth(k, i)];
    match cat(k) {
        0 => EvalClass::HighCard { high_rank: r(0) },
        1 => EvalClass::Pair { pair: r(0) },
        2 => EvalClass::TwoPair { first_pair: r(0), second_pair: r(1) },
        3 => EvalClass::ThreeOfAKind { trips: r(0) },
        4 => EvalClass::Straight { high_rank: r(0) },
        5 => EvalClass::Flush { high_rank: r(0) },
        6 => EvalClass::FullHouse { trips: r(0), pair: r(1) },
        7 => EvalClass::FourOfAKind { quads: r(0) },
        _ => EvalClass::StraightFlush { high_rank: r(0) },
    }
}
pub fn class_parts(c: EvalClass) -> (u32, usize, usize) {
    let n = |r: Rank| RANKS.iter().position(|&x| x == r).unwrap();
    match c {
        EvalClass::HighCard { high_rank } => (0, n(high_rank), 0),
        EvalClass::Pair { pair } => (1, n(pair), 0),
        EvalClass::TwoPair { first_pair, second_pair } => (2, n(first_pair), n(second_pair)),
        EvalClass::ThreeOfAKind { trips } => (3, n(trips), 0),
        EvalClass::Straight { high_rank } => (4, n(high_rank), 0),
        EvalClass::Flush { high_rank } => (5, n(high_rank), 0),
        EvalClass::FullHouse { trips, pair } => (6, n(trips), n(pair)),
        EvalClass::FourOfAKind { quads } => (7, n(quads), 0),
        EvalClass::StraightFlush { high_rank } => (8, n(high_rank), 0),
    }
}
/// every value of the class type
pub fn all_classes() -> Vec<EvalClass> {
    let mut v = Vec::new();
    for &r in &RANKS {
        v.push(EvalClass::HighCard { high_rank: r });
        v.push(EvalClass::Pair { pair: r });
        v.push(EvalClass::ThreeOfAKind { trips: r });
        v.push(EvalClass::Straight { high_rank: r });
        v.push(EvalClass::Flush { high_rank: r });
        v.push(EvalClass::FourOfAKind { quads: r });
        v.push(EvalClass::StraightFlush { high_rank: r });
        for &s in &RANKS {
            v.push(EvalClass::TwoPair { first_pair: r, second_pair: s });
            v.push(EvalClass::FullHouse { trips: r, pair: s });
        }
    }
    v
}
pub fn class_text(c: EvalClass) -> String {
    let (k, a, b) = class_parts(c);
    let (w, p, q) = (WORDS[a], PLURALS[a], PLURALS[b]);
    match k {
        0 => format!("High card, {w}"),
        1 => format!("Pair, {p}"),
        2 => format!("Two pair, {p} and {q}"),
        3 => format!("Three of a kind, {p}"),
        4 => format!("Straight, {w}-high"),
        5 => format!("Flush, {w}-high"),
        6 => format!("Full house, {p} over {q}"),
        7 => format!("Four of a kind, {p}"),
        _ => if a == 12 { "Royal flush".into() } else { format!("Straight flush, {w}-high") },
    }
}
/// the nine questions and royal flush, asked of an evaluation
pub fn questions(e: Eval) -> [bool; 10] {
    [
        e.is_high_card(), e.is_pair(), e.is_two_pair(), e.is_three_of_a_kind(), e.is_straight(), e.is_flush(), e.is_full_house(), e.is_four_of_a_kind(), e.is_straight_flush(),
        e.is_royal_flush(),
    ]
}
pub fn parse(s: &str) -> Result<Card, poker::ParseCardError> {
    use poker::ParseCardError::*;
    let ch: Vec<char> = s.chars().collect();
    if ch.len() != 2 { return Err(InvalidLength { original_input: s.into() }); }
    let Some(r) = RANK_CHARS.iter().position(|&c| c == ch[0]) else { return Err(InvalidRank { original_input: s.into(), incorrect_char: ch[0] }) };
    let Some(t) = SUIT_CHARS.iter().position(|&c| c == ch[1]) else { return Err(InvalidSuit { original_input: s.into(), incorrect_char: ch[1] }) };
    Ok(Card::new(RANKS[r], SUITS[t]))
}
