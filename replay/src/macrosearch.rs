use crate::cardsearch::{interesting_chars, random_string, show};
use crate::oracle::*;
use crate::run::*;
use poker::{box_cards, card as mcard, cards as mcards, Card, Rank, Suit};
use rand::{seq::SliceRandom, Rng};

macro_rules! table {
    ($($r:ident)*) => {{
        let mut v: Vec<(Card, Card, Rank, Suit)> = vec![];
        $(
            v.push((mcard!($r, Clubs), mcard!($r of Clubs), Rank::$r, Suit::Clubs));
            v.push((mcard!($r, Hearts), mcard!($r of Hearts), Rank::$r, Suit::Hearts));
            v.push((mcard!($r, Spades), mcard!($r of Spades), Rank::$r, Suit::Spades));
            v.push((mcard!($r, Diamonds), mcard!($r of Diamonds), Rank::$r, Suit::Diamonds));
        )*
        v
    }};
}
macro_rules! several {
    ($($r:ident)*) => {{
        let mut v: Vec<(Vec<Card>, Rank)> = vec![];
        $(
            v.push((mcards!($r, Clubs; $r, Hearts; $r, Spades; $r, Diamonds).to_vec(), Rank::$r));
            v.push((mcards!($r, Clubs; $r, Hearts; $r, Spades; $r, Diamonds;).to_vec(), Rank::$r));
            v.push((mcards!($r of Clubs, $r of Hearts, $r of Spades, $r of Diamonds).to_vec(), Rank::$r));
            v.push((mcards!($r of Clubs, $r of Hearts, $r of Spades, $r of Diamonds,).to_vec(), Rank::$r));
            v.push((mcards![$r of Clubs].iter().copied().chain(mcards![$r, Hearts]).chain(mcards!{$r, Spades; $r, Diamonds}).collect(), Rank::$r));
        )*
        v
    }};
}
macro_rules! whole { ($($r:ident)*) => { mcards!($($r of Clubs),*).into_iter().chain(mcards!($($r, Hearts);*)).collect::<Vec<Card>>() }; }
macro_rules! with_ranks { ($m:ident) => { $m!(Two Three Four Five Six Seven Eight Nine Ten Jack Queen King Ace) }; }
pub fn c21(cx: &Cx) {
    for (a, b, r, s) in with_ranks!(table) {
        cx.check(a == Card::new(r, s) && b == Card::new(r, s), || format!("card!({r:?}, {s:?}) is {a}, card!({r:?} of {s:?}) is {b}"));
    }
    let order = [Suit::Clubs, Suit::Hearts, Suit::Spades, Suit::Diamonds];
    for (v, r) in with_ranks!(several) {
        let want: Vec<Card> = order.iter().map(|&s| Card::new(r, s)).collect();
        cx.check(v == want, || format!("cards! of the {r:?}s gives {}", show(&v)));
    }
    let v: Vec<Card> = with_ranks!(whole);
    let want: Vec<Card> = RANKS.iter().map(|&r| Card::new(r, Suit::Clubs)).chain(RANKS.iter().map(|&r| Card::new(r, Suit::Hearts))).collect();
    cx.check(v == want, || format!("cards! of 26 cards gives {}", show(&v)));
    cx.part("every rank and suit in both identifier forms", 52 * 2 + 13 * 5 * 4 + 26, 52 * 2 + 13 * 5 + 1, true);
    let pool = interesting_chars();
    let m = if cx.thorough { 2_000_000u64 } else { 100_000 };
    let ws = [" ", "  ", "\t", "\n", "\r\n", "\u{a0}", "\u{2003}", "\u{3000}", "\u{b}", " \t "];
    par(cx, 64, |i| {
        let mut rng = cx.rng(2100 + i as u64);
        for _ in 0..m / 64 {
            if cx.failed() { return; }
            beat();
            let v: Vec<String> = (0..6).map(|_| if rng.gen_bool(0.7) { name(rng.gen_range(0..52)) } else { random_string(&mut rng, &pool) }).collect();
            let (a, b, c, d, e, f) = (&v[0], &v[1], &v[2], &v[3], &v[4], &v[5]);
            let g = guard(|| {
                let w: Vec<_> = v.iter().map(|s| parse(s)).collect();
                if mcard!(a) != w[0] || mcard!(a.as_str()) != w[0] || mcard!(a.clone()) != w[0] { return Err(format!("card!({a:?}) gives {:?}", mcard!(a))); }
                let two: Vec<_> = mcards!(a.as_str(), b.as_str()).collect();
                if two != w[..2] { return Err(format!("cards!({a:?}, {b:?}) gives {two:?}")); }
                let three: Vec<_> = mcards!(&a[..], &b[..], &c[..],).collect();
                if three != w[..3] { return Err(format!("cards!({a:?}, {b:?}, {c:?},) gives {three:?}")); }
                let five: Vec<_> = mcards![a.as_str(), b.as_str(), c.as_str(), d.as_str(), e.as_str()].collect();
                if five != w[..5] { return Err(format!("cards! of {:?} gives {five:?}", &v[..5])); }
                let six: Vec<_> = mcards!(&**a, &**b, &**c, &**d, &**e, &**f).collect();
                if six != w { return Err(format!("cards! of {v:?} gives {six:?}")); }
                // every argument is evaluated once, in order
                let mut k = 0;
                let mut take = || { k += 1; v[(k - 1) % 6].as_str() };
                let one = mcard!(take());
                if one != w[0] || k != 1 { return Err(format!("card! of the next of {v:?} gives {one:?} and takes {k}")); }
                k = 0;
                let mut take = || { k += 1; v[(k - 1) % 6].as_str() };
                let four: Vec<_> = mcards!(take(), take(), take(), take()).collect();
                if four != w[..4] || k != 4 { return Err(format!("cards! of the next four of {v:?} gives {four:?} and takes {k}")); }
                k = 0;
                let mut take = || { k += 1; v[(k - 1) % 6].as_str() };
                let got: Vec<_> = mcards!(take()).collect();
                if got != a.split_whitespace().map(parse).collect::<Vec<_>>() || k != 1 { return Err(format!("cards! of the next of {v:?} gives {got:?} and takes {k}")); }
                let mut t = String::new();
                if rng.gen_bool(0.3) { t.push_str(ws.choose(&mut rng).unwrap()); }
                let n = rng.gen_range(0..7);
                for s in v.iter().take(n) { t.push_str(s); t.push_str(ws.choose(&mut rng).unwrap()); }
                if rng.gen_bool(0.5) { t.push_str("Ks"); }
                let want: Vec<_> = t.split_whitespace().map(parse).collect();
                let got: Vec<_> = mcards!(t).collect();
                if got != want { return Err(format!("cards!({t:?}) gives {got:?}")); }
                let got: Vec<_> = mcards!(t.as_str()).collect();
                if got != want { return Err(format!("cards!({t:?}) gives {got:?}")); }
                let got: Result<Vec<Card>, _> = mcards!(t).try_collect();
                if got != want.iter().cloned().collect() { return Err(format!("cards!({t:?}).try_collect() gives {got:?}")); }
                // slices of every length, joined
                let mut mk = || { let n = rng.gen_range(0..6); cards(&(0..n).map(|_| rng.gen_range(0..52)).collect::<Vec<C>>()) };
                let (p, q, r, s, t, u) = (mk(), mk(), mk(), mk(), mk(), mk());
                let (pa, qa) = (&p[..], &q[..]);
                let all = [&p, &q, &r];
                let mut k = 0;
                let mut take = || { k += 1; &all[(k - 1) % 3][..] };
                let got: Box<[Card]> = box_cards!(take(), take(), take());
                if got[..] != [&p[..], &q, &r].concat()[..] || k != 3 { return Err(format!("box_cards! of the next three of {:?} gives {} and takes {k}", all.map(|p| show(p)), show(&got))); }
                let tests: [(Box<[Card]>, Vec<&[Card]>); 5] = [
                    (box_cards!(pa, qa), vec![&p, &q]),
                    (box_cards!(p, q, r,), vec![&p, &q, &r]),
                    (box_cards!(p, q, r, s), vec![&p, &q, &r, &s]),
                    (box_cards!(p, q, r, s, t), vec![&p, &q, &r, &s, &t]),
                    (box_cards!(p, q, r, s, t, u), vec![&p, &q, &r, &s, &t, &u]),
                ];
                for (got, parts) in tests {
                    let want: Vec<Card> = parts.concat();
                    if got[..] != want[..] { return Err(format!("box_cards! of {:?} gives {}", parts.iter().map(|p| show(p)).collect::<Vec<_>>(), show(&got))); }
                }
                Ok(())
            });
            match g { Ok(Ok(())) => {} Ok(Err(m)) => cx.fail(m), Err(p) => cx.fail(format!("the macros on {v:?} panic: {p}")) }
        }
    });
    cx.sample(|| format!("{:?}", mcards!("Ks Xx 2c").collect::<Vec<_>>()));
    cx.part("string forms and slices, random", m * 14, m * 14, false);
}
