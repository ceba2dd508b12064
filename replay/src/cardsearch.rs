use crate::oracle::*;
use crate::run::*;
use poker::{deck, Card, EvalError, ParseCardError, Rank, Suit};
use rand::{rngs::StdRng, seq::SliceRandom, Error as RandError, Rng, RngCore, SeedableRng};
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, BTreeSet};
use std::convert::TryFrom;
use std::hash::{Hash, Hasher};

pub fn hash<T: Hash>(t: &T) -> u64 { let mut h = DefaultHasher::new(); t.hash(&mut h); h.finish() }
/// what a value feeds to a hasher
#[derive(Default)]
pub struct Log(pub Vec<u8>);
impl Hasher for Log {
    fn finish(&self) -> u64 { 0 }
    fn write(&mut self, b: &[u8]) { self.0.extend_from_slice(b); }
}
pub fn fed<T: Hash>(t: &T) -> Vec<u8> { let mut l = Log::default(); t.hash(&mut l); l.0 }

pub fn c01(cx: &Cx) {
    let mut seen = BTreeMap::new();
    // twice, in two orders: a card's identity must not depend on what was made before
    for round in 0..2 {
        for i in 0..52u8 {
            let c = if round == 0 { i } else { ((i as u32 * 31 + 7) % 52) as u8 };
            let (r, s) = ((c / 4) as usize, (c % 4) as usize);
            let k = card(c);
            cx.check(k.rank() == RANKS[r] && k.suit() == SUITS[s], || format!("Card::new({:?}, {:?}) reports {:?} and {:?}", RANKS[r], SUITS[s], k.rank(), k.suit()));
            let want = (1i32 << (16 + r)) | (1 << (12 + s)) | ((r as i32) << 8) | PRIMES[r];
            cx.check(k.unique_integer() == want, || format!("Card::new({:?}, {:?}).unique_integer() is {:#x}, not {:#x}", RANKS[r], SUITS[s], k.unique_integer(), want));
            if round == 0 {
                if let Some(o) = seen.insert(k.unique_integer(), c) { cx.fail(format!("{} and {} share the encoding {:#x}", name(o), name(c), k.unique_integer())); }
                if c % 9 == 0 { cx.sample(|| format!("{} = {:#x}", name(c), k.unique_integer())); }
            }
        }
    }
    cx.part("every rank and suit", 104, 52, true);
}

pub fn c02(cx: &Cx) {
    use std::cmp::Ordering;
    for a in 0..13usize {
        for b in 0..13usize {
            let (x, y) = (RANKS[a], RANKS[b]);
            let o = a.cmp(&b);
            let ok = x.cmp(&y) == o && x.partial_cmp(&y) == Some(o) && (x < y) == (a < b) && (x <= y) == (a <= b) && (x > y) == (a > b) && (x >= y) == (a >= b)
                && (x == y) == (a == b) && (x != y) == (a != b) && x.max(y) == RANKS[a.max(b)] && x.min(y) == RANKS[a.min(b)] && (a != b || fed(&x) == fed(&y));
            cx.check(ok, || format!("{x:?} against {y:?}: cmp {:?}, partial_cmp {:?}, < {}, <= {}, > {}, >= {}, == {}", x.cmp(&y), x.partial_cmp(&y), x < y, x <= y, x > y, x >= y, x == y));
            if a < 3 && b < 3 { cx.sample(|| format!("{x:?} {:?} {y:?}", o)); }
        }
    }
    for s in 0..4 { for t in 0..4 {
        cx.check((SUITS[s] == SUITS[t]) == (s == t) && (s != t || fed(&SUITS[s]) == fed(&SUITS[t])), || format!("suits {:?} and {:?}: == says {}", SUITS[s], SUITS[t], SUITS[s] == SUITS[t]));
    } }
    for i in 0..52u8 {
        for j in 0..52u8 {
            let (x, y) = (card(i), card(j));
            let (a, b) = (i / 4, j / 4);
            let o = a.cmp(&b);
            let mx = std::cmp::max(x, y);
            let mn = std::cmp::min(x, y);
            let ok = x.cmp(&y) == o && x.partial_cmp(&y) == Some(o) && (x < y) == (a < b) && (x <= y) == (a <= b) && (x > y) == (a > b) && (x >= y) == (a >= b)
                && (x == y) == (i == j) && (x != y) == (i != j)
                && mx.unique_integer() == if o == Ordering::Greater { x } else { y }.unique_integer() && mn.unique_integer() == if o == Ordering::Greater { y } else { x }.unique_integer()
                && (i != j || (fed(&x) == fed(&y) && hash(&x) == hash(&y))) && (i == j || fed(&x) != fed(&y))
                && (a == b || (x.clamp(mn, mx) == x && y.clamp(mn, mx) == y));
            cx.check(ok, || format!("{} against {}: cmp {:?}, partial_cmp {:?}, < {}, <= {}, > {}, >= {}, == {}, max {mx}, min {mn}", name(i), name(j), x.cmp(&y), x.partial_cmp(&y), x < y, x <= y, x > y, x >= y, x == y));
        }
    }
    // clamping to every pair of bounds
    for a in 0..52u8 { for b in 0..52u8 { if a / 4 > b / 4 { continue; } for c in 0..52u8 {
        let want = if c / 4 < a / 4 { a } else if c / 4 > b / 4 { b } else { c };
        let got = card(c).clamp(card(a), card(b));
        cx.check(got.unique_integer() == card(want).unique_integer(), || format!("{} clamped to {} and {} is {got}", name(c), name(a), name(b)));
    } } }
    for a in 0..13usize { for b in a..13 { for c in 0..13 {
        let got = RANKS[c].clamp(RANKS[a], RANKS[b]);
        cx.check(got == RANKS[c.max(a).min(b)], || format!("{:?} clamped to {:?} and {:?} is {got:?}", RANKS[c], RANKS[a], RANKS[b]));
    } } }
    // stable sorting keeps equal ranks in place
    let mut rng = cx.rng(2);
    for _ in 0..200 {
        let n = rng.gen_range(0..60);
        let v: Vec<C> = (0..n).map(|_| rng.gen_range(0..52)).collect();
        let mut got = cards(&v);
        got.sort();
        let mut want = v.clone();
        want.sort_by_key(|c| c / 4);
        cx.check(got == cards(&want), || format!("sorting {} gives {:?}", names(&v), got));
    }
    cx.part("every pair of ranks, of suits and of cards", 169 + 16 + 2704, 169 + 16 + 2704, true);
}

pub fn interesting_chars() -> Vec<char> {
    let mut v: Vec<char> = (0..256u32).filter_map(char::from_u32).collect();
    for &c in RANK_CHARS.iter().chain(&SUIT_CHARS).chain(&SUIT_SYMBOLS) {
        v.push(c);
        for d in [0x100u32, 0x200, 0x2000, 0xFEE0, 0x10000, 0x100000, 0x1D000, 0x20000] { v.extend(char::from_u32(c as u32 + d)); }
        v.extend(c.to_uppercase());
        v.extend(c.to_lowercase());
    }
    v.extend("\u{301}\u{200d}\u{feff}\u{fe0f}２Ａｓ♠♥♦♣♤♡♢♧🂡🂮Ⅹ٣𝟚𝟗\u{d7ff}\u{e000}\u{10ffff}\u{0}\u{85}\u{2028}ßſKıİ".chars());
    v.sort_unstable();
    v.dedup();
    v
}
fn same(a: &Result<Card, ParseCardError>, b: &Result<Card, ParseCardError>) -> bool { a == b }
fn parse_all(s: &str) -> Result<Vec<Result<Card, ParseCardError>>, String> {
    guard(|| vec![s.parse::<Card>(), <Card as std::str::FromStr>::from_str(s)])
}
fn check_str(cx: &Cx, s: &str, accept_only: bool) {
    beat();
    let want = parse(s);
    match parse_all(s) {
        Err(p) => cx.fail(format!("parsing {s:?} panics: {p}")),
        Ok(v) => for g in v {
            let ok = if accept_only { g.as_ref().ok() == want.as_ref().ok() } else { same(&g, &want) };
            cx.check(ok, || format!("parsing {s:?} gives {g:?}, not {want:?}"));
        },
    }
}
fn chars_want(a: char, b: char) -> Result<Card, ParseCardError> {
    let Some(r) = RANK_CHARS.iter().position(|&c| c == a) else { return Err(ParseCardError::InvalidRank { original_input: a.to_string(), incorrect_char: a }) };
    let Some(t) = SUIT_CHARS.iter().position(|&c| c == b) else { return Err(ParseCardError::InvalidSuit { original_input: b.to_string(), incorrect_char: b }) };
    Ok(Card::new(RANKS[r], SUITS[t]))
}
fn check_chars(cx: &Cx, a: char, b: char, accept_only: bool) {
    let want = chars_want(a, b);
    match guard(|| Card::try_from_chars(a, b)) {
        Err(p) => cx.fail(format!("Card::try_from_chars({a:?}, {b:?}) panics: {p}")),
        Ok(g) => {
            let ok = if accept_only { g.as_ref().ok() == want.as_ref().ok() } else { same(&g, &want) };
            cx.check(ok, || format!("Card::try_from_chars({a:?}, {b:?}) gives {g:?}, not {want:?}"));
        }
    }
}
pub fn random_string(rng: &mut StdRng, pool: &[char]) -> String {
    let n = match rng.gen_range(0..20) { 0 => 0, 1 => 1, 2..=9 => 2, 10..=13 => 3, 14..=17 => rng.gen_range(4..12), _ => rng.gen_range(12..200) };
    let mut s = String::new();
    for i in 0..n {
        let c = match rng.gen_range(0..6) {
            0 => char::from_u32(rng.gen_range(0..0x110000)).unwrap_or('x'),
            1 | 2 => if i == 0 { *RANK_CHARS.choose(rng).unwrap() } else { *SUIT_CHARS.choose(rng).unwrap() },
            3 => *RANK_CHARS.choose(rng).unwrap(),
            _ => *pool.choose(rng).unwrap(),
        };
        s.push(c);
    }
    s
}
fn strings(cx: &Cx, accept_only: bool) {
    let pool = interesting_chars();
    let all: Vec<char> = (0..0x110000u32).filter_map(char::from_u32).collect();
    // every character against every rank, and every suit, alone and in a pair
    let chunks: Vec<&[char]> = all.chunks(20_000).collect();
    par(cx, chunks.len(), |i| {
        for &c in chunks[i] {
            if cx.failed() { return; }
            let r = RANK_CHARS.iter().position(|&x| x == c);
            let t = SUIT_CHARS.iter().position(|&x| x == c);
            match guard(|| (Rank::try_from(c), Suit::try_from(c))) {
                Err(p) => cx.fail(format!("converting {c:?} panics: {p}")),
                Ok((a, b)) => {
                    cx.check(a == r.map(|i| RANKS[i]).ok_or(c), || format!("Rank::try_from({c:?}) gives {a:?}"));
                    cx.check(b == t.map(|i| SUITS[i]).ok_or(c), || format!("Suit::try_from({c:?}) gives {b:?}"));
                }
            }
            check_str(cx, &c.to_string(), accept_only);
            for k in 0..13 { check_str(cx, &format!("{}{c}", RANK_CHARS[k]), accept_only); check_chars(cx, RANK_CHARS[k], c, accept_only); }
            for k in 0..4 { check_str(cx, &format!("{c}{}", SUIT_CHARS[k]), accept_only); check_chars(cx, c, SUIT_CHARS[k], accept_only); }
            check_str(cx, &format!("{c}Ks"), accept_only);
            check_str(cx, &format!("Ks{c}"), accept_only);
            check_str(cx, &format!("K{c}s"), accept_only);
            check_str(cx, &format!("{c}{c}"), accept_only);
            check_chars(cx, c, c, accept_only);
        }
    });
    let n = all.len() as u64;
    cx.part("every Unicode character as a rank, as a suit and as either half of a name", n * 40, n * 39, true);
    par(cx, pool.len(), |i| {
        for &b in &pool { check_str(cx, &[pool[i], b].iter().collect::<String>(), accept_only); check_chars(cx, pool[i], b, accept_only); }
    });
    let p = pool.len() as u64;
    cx.part("every pair of interesting characters", 2 * p * p, 2 * p * p, true);
    let names: Vec<String> = (0..52).map(name).collect();
    let mut n3 = 0u64;
    for s in names.iter() {
        for t in names.iter() { check_str(cx, &format!("{s}{t}"), accept_only); n3 += 1; }
        for &c in &pool { check_str(cx, &format!("{c}{s}"), accept_only); check_str(cx, &format!("{s}{c}"), accept_only); n3 += 2; }
        for ws in [" ", "\t", "\n", "\u{a0}", "  "] { for x in [format!("{ws}{s}"), format!("{s}{ws}"), format!("{ws}{s}{ws}")] { check_str(cx, &x, accept_only); n3 += 1; } }
    }
    for s in ["", "10s", "10h", "1s", "0s", "as", "AS", "aS", "A", "s", "sA", "TT", "ss", "♠A", "A♠", "Ａs", "é", "éé", "A\u{301}s"] { check_str(cx, s, accept_only); n3 += 1; }
    // every string of three ASCII characters; other ways of naming a card
    par(cx, 128, |a| for b in 0..128u8 { for c in 0..128u8 {
        if cx.failed() { return; }
        check_str(cx, std::str::from_utf8(&[a as u8, b, c]).unwrap(), accept_only);
    } });
    n3 += 128 * 128 * 128;
    let ranks = ["two", "three", "four", "five", "six", "seven", "eight", "nine", "ten", "jack", "queen", "king", "ace"];
    let suits = ["club", "heart", "spade", "diamond"];
    let title = |s: &str| format!("{}{}", s[..1].to_uppercase(), &s[1..]);
    for r in 0..13 { for s in 0..4 {
        let mut rs: Vec<String> = vec![ranks[r].into(), title(ranks[r]), ranks[r].to_uppercase(), RANK_CHARS[r].into(), RANK_CHARS[r].to_lowercase().to_string(), format!("{}", r + 2), format!("{}", r + 1), format!("0{}", r + 2)];
        if r == 12 { rs.push("1".into()); rs.push("14".into()); }
        let mut ss: Vec<String> = vec![SUIT_CHARS[s].into(), SUIT_CHARS[s].to_uppercase().to_string(), SUIT_SYMBOLS[s].into(), format!("{}\u{fe0f}", SUIT_SYMBOLS[s]), format!("{}\u{fe0e}", SUIT_SYMBOLS[s])];
        for x in [suits[s].to_string(), title(suits[s]), suits[s].to_uppercase()] { ss.push(x.clone() + "s"); ss.push(x.clone() + "S"); ss.push(x); }
        for x in &rs { for y in &ss { for m in ["", " ", " of ", " OF ", "-", "/", ",", "_", "\u{200d}"] { for (p, q) in [("", ""), ("[", "]"), ("[ ", " ]"), ("(", ")"), ("\"", "\"")] {
            check_str(cx, &format!("{p}{x}{m}{y}{q}"), accept_only);
            check_str(cx, &format!("{p}{y}{m}{x}{q}"), accept_only);
            n3 += 2;
        } } } }
    } }
    // long inputs, of every length up to 300 and around powers of two
    for n in (0..300).chain([511, 512, 513, 1023, 1024, 1025, 65535, 65536, 65537, 65538]) {
        for c in ['s', 'K', 'é', '♠', '🂡', ' '] {
            let s: String = std::iter::repeat(c).take(n).collect();
            check_str(cx, &s, accept_only);
            check_str(cx, &format!("Ks{s}"), accept_only);
            check_str(cx, &format!("{s}Ks"), accept_only);
            n3 += 3;
        }
    }
    cx.part("names with additions, names joined, long inputs", n3, n3, false);
    let m = if cx.thorough { 40_000_000 } else { 1_500_000 };
    par(cx, 64, |i| {
        let mut rng = cx.rng(300 + i as u64);
        for _ in 0..m / 64 { if cx.failed() { return; } let s = random_string(&mut rng, &pool); check_str(cx, &s, accept_only); }
    });
    let mut rng = cx.rng(300);
    for _ in 0..8 { let s = random_string(&mut rng, &pool); cx.sample(|| format!("{s:?} -> {:?}", s.parse::<Card>())); }
    cx.part("random strings", m, m, false);
}
pub fn c03(cx: &Cx) {
    for c in 0..52u8 {
        let (r, s) = ((c / 4) as usize, (c % 4) as usize);
        let t = card(c).rank_suit_string();
        cx.check(t == name(c), || format!("the text of {} is {t:?}", name(c)));
        cx.check(t.parse() == Ok(card(c)), || format!("{t:?} parses to {:?}", t.parse::<Card>()));
        cx.check(RANKS[r].as_char() == RANK_CHARS[r] && Rank::try_from(RANK_CHARS[r]) == Ok(RANKS[r]), || format!("rank {:?} and its character {:?} do not convert", RANKS[r], RANK_CHARS[r]));
        cx.check(SUITS[s].as_char() == SUIT_CHARS[s] && Suit::try_from(SUIT_CHARS[s]) == Ok(SUITS[s]), || format!("suit {:?} and its character {:?} do not convert", SUITS[s], SUIT_CHARS[s]));
    }
    cx.part("text of every card and back", 52 * 4, 52, true);
    strings(cx, true);
}
pub fn c04(cx: &Cx) { strings(cx, false); }

pub fn c05(cx: &Cx) {
    let pool = interesting_chars();
    let m = if cx.thorough { 1_000_000usize } else { 60_000 };
    par(cx, 64, |i| {
        let mut rng = cx.rng(500 + i as u64);
        for round in 0..m / 64 {
            if cx.failed() { return; }
            beat();
            let n = match rng.gen_range(0..40) { 0 => rng.gen_range(40..300), 1..=8 => rng.gen_range(8..60), _ => rng.gen_range(0..8) };
            let valid = rng.gen_range(0..4);
            let v: Vec<String> = (0..n).map(|_| if valid == 0 || rng.gen_range(0..10) < 3 * valid { name(rng.gen_range(0..52)) } else { random_string(&mut rng, &pool) }).collect();
            batch(cx, &v);
            if i == 0 && round < 4 { cx.sample(|| format!("{v:?}")); }
        }
    });
    // every position of one bad string in lists of every length up to 40
    let mut k = 0;
    for n in 1..=40usize { for p in 0..n { for bad in ["", "Xs", "Kx", "Kss"] {
        let mut v: Vec<String> = (0..n).map(|j| name(((j * 17 + p) % 52) as u8)).collect();
        v[p] = bad.into();
        batch(cx, &v);
        k += 1;
    } } }
    for n in [1000usize, 4096, 70_000] { let v: Vec<String> = (0..n).map(|j| name((j % 52) as u8)).collect(); batch(cx, &v); k += 1; }
    cx.part("one bad string at every position", k, k, false);
    cx.part("random lists, valid and invalid strings mixed, through every iterator method", m as u64 * 370, m as u64, false);
}
fn batch(cx: &Cx, v: &[String]) {
    let want: Vec<Result<Card, ParseCardError>> = v.iter().map(|s| parse(s)).collect();
    let n = v.len();
    let say = |what: &str| format!("parse_to_iter({v:?}): {what}");
    let g = guard(|| {
        // one by one, with the size hint before every step
        let mut it = Card::parse_to_iter(v);
        let mut got = vec![];
        loop {
            let h = it.size_hint();
            let left = n - got.len().min(n);
            if h.0 > left || h.1.map_or(false, |u| u < left) { return Err(say(&format!("size hint {h:?} with {left} results to come"))); }
            match it.next() { Some(x) => got.push(x), None => break }
            if got.len() > n { break; }
        }
        if got != want { return Err(say(&format!("next gives {got:?}"))); }
        if it.next().is_some() || it.next().is_some() { return Err(say("something comes after the end")); }
        let got: Vec<_> = Card::parse_to_iter(v.iter().map(|s| s.as_str())).collect();
        if got != want { return Err(say(&format!("collect gives {got:?}"))); }
        let got = Card::parse_to_iter(v.to_vec()).fold(vec![], |mut a, x| { a.push(x); a });
        if got != want { return Err(say(&format!("fold gives {got:?}"))); }
        let mut got = vec![];
        for x in Card::parse_to_iter(v.iter()) { got.push(x); }
        if got != want { return Err(say(&format!("a for loop gives {got:?}"))); }
        if Card::parse_to_iter(v).count() != n { return Err(say("count")); }
        if Card::parse_to_iter(v).last() != want.last().cloned() { return Err(say("last")); }
        for k in [0, n / 2, n.saturating_sub(1), n] { if Card::parse_to_iter(v).nth(k) != want.get(k).cloned() { return Err(say(&format!("nth({k})"))); } }
        // an iterator that does not know its length
        let odd = v.iter().filter(|_| true);
        let it = Card::parse_to_iter(odd);
        let h = it.size_hint();
        if h.0 > n || h.1.map_or(false, |u| u < n) { return Err(say(&format!("size hint {h:?} over an iterator of unknown length"))); }
        if it.collect::<Vec<_>>() != want { return Err(say("over an iterator of unknown length")); }
        // partly used, then folded
        if n > 1 {
            let mut it = Card::parse_to_iter(v);
            let f = it.next();
            let rest = it.fold(vec![f.unwrap()], |mut a, x| { a.push(x); a });
            if rest != want { return Err(say("next, then fold")); }
        }
        let all: Result<Vec<Card>, ParseCardError> = want.iter().cloned().collect();
        let c: Result<Vec<Card>, _> = Card::parse_to_iter(v).try_collect();
        if c != all { return Err(say(&format!("try_collect gives {c:?}"))); }
        let c: Result<Box<[Card]>, _> = Card::parse_to_iter(v).try_collect();
        if c.map(|b| b.to_vec()) != all { return Err(say("try_collect into a box")); }
        // sources that know their length, know it in part, or not at all, in every way of using the results
        let half = n / 2;
        through("a slice", &want, || v.iter().map(|s| s.clone())).map_err(|m| say(&m))?;
        through("a filter", &want, || v.iter().filter(|_| true).map(|s| s.as_str())).map_err(|m| say(&m))?;
        through("a chain", &want, || v[..half].iter().chain(v[half..].iter().filter(|_| true))).map_err(|m| say(&m))?;
        through("a chain the other way", &want, || v[..half].iter().filter(|_| true).chain(v[half..].iter())).map_err(|m| say(&m))?;
        through("flat_map", &want, || v.chunks(2).flat_map(|c| c.iter())).map_err(|m| say(&m))?;
        through("from_fn", &want, || { let mut i = 0; std::iter::from_fn(move || { i += 1; v.get(i - 1).map(|s| s.clone().into_boxed_str()) }) }).map_err(|m| say(&m))?;
        through("take_while", &want, || v.iter().take_while(|_| true)).map_err(|m| say(&m))?;
        through("skip", &want[half..], || v.iter().skip(half)).map_err(|m| say(&m))?;
        through("rev", &want.iter().rev().cloned().collect::<Vec<_>>(), || v.iter().rev()).map_err(|m| say(&m))?;
        // partly used, then collected: the rest
        if n > 1 {
            let mut it = Card::parse_to_iter(v);
            let _ = it.next();
            let c: Result<Vec<Card>, _> = it.try_collect();
            let rest: Result<Vec<Card>, ParseCardError> = want[1..].iter().cloned().collect();
            if c != rest { return Err(say("next, then try_collect")); }
        }
        Ok(())
    });
    match g { Ok(Ok(())) => {} Ok(Err(m)) => cx.fail(m), Err(p) => cx.fail(say(&format!("panics: {p}"))) }
}

fn through<S: AsRef<str>, I: Iterator<Item = S>>(what: &str, want: &[Result<Card, ParseCardError>], src: impl Fn() -> I) -> Result<(), String> {
    let n = want.len();
    for k in [0, 1, n / 2, n] {
        let k = k.min(n);
        let start = || { let mut it = Card::parse_to_iter(src()); let mut a = vec![]; for _ in 0..k { a.extend(it.next()); } (it, a) };
        let err = |m: &str, got: &dyn std::fmt::Debug| Err(format!("over {what}, after {k} results, {m} gives {got:?}"));
        let (it, a) = start();
        if a != want[..k] { return err("next", &a); }
        let h = it.size_hint();
        if h.0 > n - k || h.1.map_or(false, |u| u < n - k) { return err("size_hint", &h); }
        let g = it.fold(a, |mut a, x| { a.push(x); a });
        if g != want { return err("fold", &g); }
        let (it, mut a) = start();
        it.for_each(|x| a.push(x));
        if a != want { return err("for_each", &a); }
        let (it, mut a) = start();
        a.extend(it);
        if a != want { return err("extend", &a); }
        let (it, _) = start();
        let c = it.count();
        if c != n - k { return err("count", &c); }
        let (it, _) = start();
        let l = it.last();
        if l != want[k..].last().cloned() { return err("last", &l); }
        let (it, _) = start();
        let g: Vec<_> = it.skip(1).step_by(2).collect();
        if g != want[k..].iter().skip(1).step_by(2).cloned().collect::<Vec<_>>() { return err("skip and step_by", &g); }
        let (it, _) = start();
        let g = it.partition::<Vec<_>, _>(|r| r.is_ok());
        if g != want[k..].iter().cloned().partition(|r| r.is_ok()) { return err("partition", &g); }
        let (mut it, _) = start();
        let g = it.position(|r| r.is_err());
        if g != want[k..].iter().position(|r| r.is_err()) { return err("position", &g); }
        let (it, _) = start();
        let g: Result<Vec<Card>, ParseCardError> = it.try_collect();
        if g != want[k..].iter().cloned().collect() { return err("try_collect", &g); }
    }
    Ok(())
}
fn is_deck(v: &[Card]) -> bool {
    v.len() == 52 && v.iter().map(|c| (RANKS.iter().position(|r| *r == c.rank()), SUITS.iter().position(|s| *s == c.suit()))).collect::<BTreeSet<_>>().len() == 52
        && v.iter().map(|c| c.unique_integer()).collect::<BTreeSet<_>>().len() == 52
}
pub fn show(v: &[Card]) -> String { v.iter().map(|c| c.rank_suit_string()).collect::<Vec<_>>().join(" ") }
pub fn c06(cx: &Cx) {
    let first: Vec<Card> = deck::generate().collect();
    cx.check(is_deck(&first), || format!("generate() yields {} cards: {}", first.len(), show(&first)));
    cx.sample(|| show(&first));
    for k in 0..300 {
        beat();
        let mut it = deck::generate();
        let mut v = vec![];
        while let Some(c) = it.next() { v.push(c); if v.len() > 100 { break; } }
        cx.check(v == first, || format!("call {k} of generate() yields {}", show(&v)));
        cx.check(it.next().is_none() && it.next().is_none(), || "generate() yields again after its end".into());
    }
    let v = deck::generate().fold(vec![], |mut a, c| { a.push(c); a });
    cx.check(v == first, || format!("fold over generate() yields {}", show(&v)));
    let (mut a, mut b) = (deck::generate(), deck::generate());
    for i in 0..52 { let (x, y) = (a.next(), b.next()); cx.check(x == first.get(i).copied() && x == y, || format!("two interleaved decks differ at {i}")); }
    for k in 0..54 {
        cx.check(deck::generate().nth(k) == first.get(k).copied(), || format!("generate().nth({k})"));
        cx.check(deck::generate().skip(k).count() == 52usize.saturating_sub(k), || format!("generate().skip({k}).count()"));
        let mut it = deck::generate();
        for _ in 0..k { it.next(); }
        let h = it.size_hint();
        let left = 52usize.saturating_sub(k);
        cx.check(h.0 <= left && h.1.map_or(true, |u| u >= left), || format!("generate() says {h:?} with {left} to come"));
    }
    cx.check(deck::generate().last() == first.last().copied() && deck::generate().count() == 52, || "last or count of generate()".into());
    std::thread::scope(|s| { for _ in 0..8 { s.spawn(|| { for _ in 0..200 { let v: Vec<Card> = deck::generate().collect(); cx.check(v == first, || format!("generate() in another thread yields {}", show(&v))); } }); } });
    let big = 70_000; // more calls than a 16-bit counter holds
    for _ in 0..big { cx.check(deck::generate().next() == first.first().copied(), || "the first card changes between calls".into()); }
    cx.part("the deck, through every iterator method, repeated, interleaved and in threads", 300 + 54 * 3 + 1600 + big, 1, true);
}

struct Fixed(Vec<u64>, usize);
impl RngCore for Fixed {
    fn next_u32(&mut self) -> u32 { self.next_u64() as u32 }
    fn next_u64(&mut self) -> u64 { let x = self.0[self.1 % self.0.len()]; self.1 += 1; x }
    fn fill_bytes(&mut self, d: &mut [u8]) { for b in d { *b = self.next_u64() as u8; } }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), RandError> { self.fill_bytes(d); Ok(()) }
}
pub fn c07(cx: &Cx) {
    let one = |what: String, mk: &dyn Fn() -> Box<dyn RngCore>| {
        beat();
        let g = guard(|| { let (mut a, mut b) = (mk(), mk()); (deck::shuffled_with(&mut a), deck::shuffled_with(&mut b)) });
        match g {
            Err(p) => cx.fail(format!("shuffled_with({what}) panics: {p}")),
            Ok((a, b)) => {
                cx.check(is_deck(&a), || format!("shuffled_with({what}) gives {} cards: {}", a.len(), show(&a)));
                cx.check(a == b, || format!("shuffled_with({what}) gives two different decks: {} / {}", show(&a), show(&b)));
            }
        }
    };
    // sources that stop rejection sampling from ever ending are excluded by halves: a constant works unless it is rejected for ever
    let mut n = 0u64;
    for k in 0..64 { for c in [1u64 << k, (1u64 << k) - 1, u64::MAX >> k, (0x5555_5555_5555_5555u64 >> k) | 1] {
        // a constant, with a zero every now and then so that no sampler can wait for ever
        one(format!("constant {c:#x}, then zero"), &move || Box::new(Fixed(vec![c, c, c, c, c, c, c, 0], 0)));
        one(format!("alternating {c:#x} and its complement"), &move || Box::new(Fixed(vec![c, !c, 0], 0)));
        n += 4;
    } }
    one("all zero".into(), &|| Box::new(Fixed(vec![0], 0)));
    for s in 0..256u64 { one(format!("steps of {s}"), &move || Box::new(Fixed((0..257).map(|i| (i * s) << 56 | (i * s) << 24).collect(), 0))); n += 2; }
    for s in 0..2000u64 {
        let seed = cx.seed.wrapping_mul(1000) + s;
        one(format!("StdRng seed {seed}"), &move || Box::new(StdRng::seed_from_u64(seed)));
        n += 2;
    }
    // drawing twice from one generator equals drawing twice from an equal one; earlier calls leave no trace
    let (mut a, mut b) = (StdRng::seed_from_u64(cx.seed), StdRng::seed_from_u64(cx.seed));
    for i in 0..200 {
        let x = deck::shuffled_with(&mut a);
        if i % 3 == 0 { let _ = deck::shuffled(); let _ = deck::shuffled_with(&mut Fixed(vec![0], 0)); }
        let y = deck::shuffled_with(&mut b);
        cx.check(x == y, || format!("draw {i} from equal generators differs"));
    }
    let mut firsts = BTreeSet::new();
    for i in 0..3000 {
        beat();
        let d = deck::shuffled();
        cx.check(is_deck(&d), || format!("shuffled() call {i} gives {} cards: {}", d.len(), show(&d)));
        if i < 3 { cx.sample(|| show(&d)); }
        firsts.insert(show(&d));
    }
    std::thread::scope(|s| { for _ in 0..8 { s.spawn(|| { for _ in 0..300 { let d = deck::shuffled(); cx.check(is_deck(&d), || format!("shuffled() in a thread gives {}", show(&d))); } }); } });
    cx.part("constant, cyclic and seeded generators, drawn twice, and the default generator", n + 200 * 2 + 5400, n / 2 + 5600, false);
}

pub fn c18(cx: &Cx) {
    for r in 0..13 { let t = RANKS[r].to_string(); cx.check(t == RANK_CHARS[r].to_string(), || format!("rank {:?} displays as {t:?}", RANKS[r])); cx.sample(|| t.clone()); }
    for s in 0..4 { let t = SUITS[s].to_string(); cx.check(t == SUIT_SYMBOLS[s].to_string(), || format!("suit {:?} displays as {t:?}", SUITS[s])); }
    for c in 0..52u8 {
        let want = format!("[ {}{} ]", RANK_CHARS[(c / 4) as usize], SUIT_SYMBOLS[(c % 4) as usize]);
        let t = card(c).to_string();
        cx.check(t == want, || format!("{} displays as {t:?}, not {want:?}", name(c)));
        let t = format!("{}", card(c));
        cx.check(t == want, || format!("{} displays as {t:?}, not {want:?}", name(c)));
    }
    cx.part("every rank, suit and card", 13 + 4 + 104, 69, true);
}

pub fn c19(cx: &Cx) {
    let pool = interesting_chars();
    let msg = |e: &ParseCardError| match e {
        ParseCardError::InvalidLength { original_input: o } => format!("Error parsing input '{o}' as a Card: Found input of length {}, expected 2", o.chars().count()),
        ParseCardError::InvalidRank { original_input: o, incorrect_char: c } => format!("Error parsing input '{o}' as a Card: Invalid rank character '{c}', expected one of [23456789TJQKA]"),
        ParseCardError::InvalidSuit { original_input: o, incorrect_char: c } => format!("Error parsing input '{o}' as a Card: Invalid suit character '{c}', expected one of [chsd]"),
    };
    let one = |e: ParseCardError| {
        beat();
        match guard(|| e.to_string()) {
            Err(p) => cx.fail(format!("displaying {e:?} panics: {p}")),
            Ok(t) => {
                // the facts: the input in quotes, the length, or the character and the expected ones
                let ok = match &e {
                    ParseCardError::InvalidLength { original_input: o } => t.contains(&format!("'{o}'")) && t.replacen(o.as_str(), "", 1).contains(&o.chars().count().to_string()),
                    ParseCardError::InvalidRank { original_input: o, incorrect_char: c } => t.contains(&format!("'{o}'")) && t.contains(&format!("'{c}'")) && t.contains("23456789TJQKA"),
                    ParseCardError::InvalidSuit { original_input: o, incorrect_char: c } => t.contains(&format!("'{o}'")) && t.contains(&format!("'{c}'")) && t.contains("chsd"),
                };
                cx.check(ok && t == msg(&e), || format!("{e:?} displays as {t:?}, not {:?}", msg(&e)));
            }
        }
    };
    let m = if cx.thorough { 2_000_000u64 } else { 200_000 };
    par(cx, 64, |i| {
        let mut rng = cx.rng(1900 + i as u64);
        for _ in 0..m / 64 {
            if cx.failed() { return; }
            let s = random_string(&mut rng, &pool);
            if let Err(e) = s.parse::<Card>() { one(e); }
            let c = *pool.choose(&mut rng).unwrap();
            one(match rng.gen_range(0..3) {
                0 => ParseCardError::InvalidLength { original_input: s },
                1 => ParseCardError::InvalidRank { original_input: s, incorrect_char: c },
                _ => ParseCardError::InvalidSuit { original_input: s, incorrect_char: c },
            });
        }
    });
    for n in 0..2000usize { for c in ['s', 'é', '♠', '🂡'] { one(ParseCardError::InvalidLength { original_input: std::iter::repeat(c).take(n).collect() }); } }
    let all: Vec<char> = (0..0x110000u32).filter_map(char::from_u32).collect();
    let chunks: Vec<&[char]> = all.chunks(20_000).collect();
    par(cx, chunks.len(), |i| {
        for &c in chunks[i] {
            if cx.failed() { return; }
            one(ParseCardError::InvalidRank { original_input: format!("{c}s"), incorrect_char: c });
            one(ParseCardError::InvalidSuit { original_input: format!("K{c}"), incorrect_char: c });
            one(ParseCardError::InvalidLength { original_input: c.to_string() });
        }
    });
    cx.part("every character as the offending one", all.len() as u64 * 3, all.len() as u64 * 3, true);
    cx.part("random error values, inputs of every length below 2000", m + 8000, m + 8000, false);
    // evaluation errors
    for n in (0..100).chain([255, 256, 65535, 65536, usize::MAX]) {
        let want = format!("Cannot evaluate a poker hand with a set of less than 5 cards. Number of cards received: {n}");
        let t = EvalError::InvalidHandSize(n).to_string();
        cx.check(t == want, || format!("InvalidHandSize({n}) displays as {t:?}"));
    }
    let dups = |v: &[C]| {
        beat();
        let e = EvalError::CardsNotUnique(cards(v));
        let pre = "Cannot evaluate a poker hand with a set of cards that are not unique. Cards duplicated at least once: ";
        match guard(|| e.to_string()) {
            Err(p) => cx.fail(format!("displaying the not-unique error of {} panics: {p}", names(v))),
            Ok(t) => {
                let mut count = [0usize; 52];
                for &c in v { count[c as usize] += 1; }
                let mut want: Vec<String> = (0..52u8).filter(|&c| count[c as usize] > 1).map(name).collect();
                want.sort();
                match t.strip_prefix(pre) {
                    None => cx.fail(format!("the not-unique error of {} displays as {t:?}", names(v))),
                    Some(l) => {
                        let mut got: Vec<String> = if l.is_empty() { vec![] } else { l.split(' ').map(|s| s.to_string()).collect() };
                        got.sort();
                        cx.check(got == want, || format!("the not-unique error of {} lists {l:?}", names(v)));
                    }
                }
            }
        }
    };
    for a in 0..52u8 { for b in 0..52u8 { dups(&[a, b]); dups(&[a, b, a]); dups(&[a, b, a, b]); dups(&[a, a, a, b]); dups(&[b, a, a, b, b, a]); } }
    let k = if cx.thorough { 1_000_000u64 } else { 60_000 };
    par(cx, 64, |i| {
        let mut rng = cx.rng(1950 + i as u64);
        for _ in 0..k / 64 {
            if cx.failed() { return; }
            let n = match rng.gen_range(0..8) { 0 => rng.gen_range(50..400), 1 => 52, _ => rng.gen_range(2..20) };
            let w = rng.gen_range(1..=52);
            let mut v: Vec<C> = (0..n).map(|_| rng.gen_range(0..w)).collect();
            if rng.gen_bool(0.3) { v = deck(&mut rng); let t = rng.gen_range(0..52); let extra: Vec<C> = v[..t].to_vec(); v.extend(extra); v.shuffle(&mut rng); }
            dups(&v);
        }
    });
    cx.sample(|| EvalError::CardsNotUnique(cards(&[0, 5, 0, 5, 9])).to_string());
    cx.part("every pattern of two duplicated cards, random duplicate lists", k + 52 * 52 * 5, k + 52 * 52 * 5, false);
}

