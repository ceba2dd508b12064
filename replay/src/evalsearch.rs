use crate::cardsearch::{fed, hash};
use crate::oracle::*;
use crate::run::*;
use poker::{Card, Eval, EvalClass, EvalError, Evaluator, Rank};
use rand::{rngs::StdRng, seq::SliceRandom, Rng};
use std::cmp::Ordering;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::Arc;

fn ev() -> Evaluator { Evaluator::new() }
macro_rules! get { ($cx:expr, $e:expr) => { match $e { Ok(x) => x, Err(m) => { $cx.fail(m); return; } } }; }

pub fn c08(cx: &Cx) {
    let e = ev();
    let n = AtomicU64::new(0);
    let one = |v: &[C]| {
        n.fetch_add(1, Relaxed);
        let cs = cards(v);
        let mut seen = 0u64;
        let mut dup = false;
        for &c in v { dup |= seen >> c & 1 == 1; seen |= 1 << c; }
        match evalr(&e, &cs) {
            Err(p) => cx.fail(format!("evaluating {} panics: {p}", names(v))),
            Ok(r) => {
                let ok = match &r {
                    Err(EvalError::CardsNotUnique(x)) => dup && *x == cs,
                    Err(EvalError::InvalidHandSize(k)) => !dup && v.len() < 5 && *k == v.len(),
                    Ok(_) => !dup && v.len() >= 5,
                };
                cx.check(ok, || format!("evaluating the {} cards {} gives {r:?}", v.len(), names(v)));
            }
        }
    };
    one(&[]);
    // every sequence of one, two, three and (thorough) four cards
    par(cx, 52, |a| {
        let a = a as C;
        one(&[a]);
        for b in 0..52 { one(&[a, b]); for c in 0..52 { one(&[a, b, c]); if cx.thorough { for d in 0..52 { one(&[a, b, c, d]); } } } }
    });
    cx.part("every sequence of up to three (thorough: four) cards", n.swap(0, Relaxed), 52 + 52 * 52 + 52 * 52 * 52, true);
    // every multiset of five cards
    par(cx, 52, |a| {
        let mut rng = cx.rng(800 + a as u64);
        for b in a..52 { for c in b..52 { for d in c..52 { for f in d..52 {
            let mut h = [a as C, b as C, c as C, d as C, f as C];
            if (f ^ d) % 3 == 0 { h.shuffle(&mut rng); }
            one(&h);
        } if cx.failed() { return; } } } }
    });
    cx.part("every multiset of five cards", n.swap(0, Relaxed), 3_819_816, true);
    // every card doubled, at every pair of positions, in hands of every length
    par(cx, 52, |k| {
        let mut rng = cx.rng(860 + k as u64);
        for len in 2..=54usize {
            for i in 0..len { for j in i + 1..len {
                if len > 12 && !rng.gen_bool(if cx.thorough { 0.5 } else { 0.05 }) && i > 1 && j + 2 < len { continue; }
                let mut d = deck(&mut rng);
                d.retain(|c| *c != k as C);
                d.extend(0..3);
                d.truncate(len);
                d[i] = k as C;
                d[j] = k as C;
                one(&d);
            } }
            if cx.failed() { return; }
        }
    });
    cx.part("every card doubled at pairs of positions, lengths 2 to 54", n.load(Relaxed), n.swap(0, Relaxed), false);
    // distinct cards of every length
    for len in 0..=52usize {
        let m = match len { 0..=9 => 2000, 10..=14 => 60, 15..=30 => 4, _ => 2 };
        par(cx, m, |i| { let mut rng = cx.rng((900 + len * 10_000 + i) as u64); one(&hand(&mut rng, len)); });
    }
    cx.part("distinct cards of every length up to 52", n.load(Relaxed), n.swap(0, Relaxed), false);
    // long slices: necessarily duplicates; first duplicate early or late
    let mut rng = cx.rng(899);
    for len in (53..600).chain([1023, 1024, 1025, 65535, 65536, 65537, 200_000]) {
        let mut d = deck(&mut rng);
        let k = rng.gen_range(0..52);
        let tail = d[k];
        d.resize(len, tail);
        one(&d);
        one(&vec![tail; len]);
        one(&(0..len).map(|_| rng.gen_range(0..52)).collect::<Vec<C>>());
    }
    let m = if cx.thorough { 5_000_000 } else { 400_000 };
    par(cx, 64, |i| {
        let mut rng = cx.rng(7000 + i as u64);
        for _ in 0..m / 64 { if cx.failed() { return; } let len = rng.gen_range(0..12); let w = rng.gen_range(1..=52); one(&(0..len).map(|_| rng.gen_range(0..w)).collect::<Vec<C>>()); }
    });
    cx.part("long slices, random sequences", n.load(Relaxed), n.swap(0, Relaxed), false);
    // containers
    let mut rng = cx.rng(898);
    for len in 0..9usize { for rep in 0..40 {
        let mut v = hand(&mut rng, len);
        if rep % 3 == 0 && len > 1 { v[len - 1] = v[0]; }
        let cs = cards(&v);
        let g = guard(|| {
            let a = e.evaluate(&cs[..]);
            let all = vec![e.evaluate(cs.clone()), e.evaluate(&cs), e.evaluate(cs.clone().into_boxed_slice()), e.evaluate(Arc::<[Card]>::from(cs.clone())), e.evaluate(std::rc::Rc::<[Card]>::from(cs.clone())),
                e.evaluate(std::borrow::Cow::from(cs.clone())), e.evaluate(&&&cs[..]), e.evaluate(Once(std::cell::Cell::new(0), cs.clone()))];
            (a, all)
        });
        match g {
            Err(p) => cx.fail(format!("evaluating {} in some container panics: {p}", names(&v))),
            Ok((a, all)) => for (k, b) in all.iter().enumerate() { cx.check(*b == a && format!("{b:?}") == format!("{a:?}"), || format!("container {k} with {}: {b:?}, not {a:?}", names(&v))); },
        }
        n.fetch_add(9, Relaxed);
    } }
    cx.part("the same cards in eight containers", n.load(Relaxed), 360, false);
    cx.sample(|| format!("{:?}", e.evaluate(cards(&[0, 0, 1]))));
    cx.sample(|| format!("{:?}", e.evaluate(cards(&[0, 1]))));
    cx.sample(|| format!("{:?}", e.evaluate(cards(&[0, 5, 11, 20, 33]))));
}
/// a container that shows its cards when first asked, and fewer afterwards
struct Once(std::cell::Cell<usize>, Vec<Card>);
impl AsRef<[Card]> for Once {
    fn as_ref(&self) -> &[Card] { let k = self.0.get(); self.0.set(k + 1); if k == 0 { &self.1 } else { &[] } }
}

pub fn c09(cx: &Cx) {
    let e = ev();
    let check = |h: &[C; 5], sorted: &[C; 5]| {
        let x = get!(cx, eval5(&e, h));
        let want = class(key5(sorted));
        cx.check(x.class() == want, || format!("{} evaluates to {:?}, not {want:?}", names(h), x.class()));
    };
    all5(cx, |h| {
        check(h, h);
        // and in another order, different from hand to hand
        let s = h.iter().map(|&c| c as usize).sum::<usize>() + h[1] as usize;
        check(&perm(h, s % 120), h);
    });
    for h in [[51, 47, 43, 39, 35], [0, 5, 10, 15, 20], [48, 3, 4, 11, 13]] { cx.sample(|| format!("{}: {:?}", names(&h), eval5(&e, &h).map(|x| x.class()))); }
    cx.part("all five-card hands, in two orders each", 2 * HANDS5 as u64, HANDS5 as u64, true);
}
pub fn perm<const N: usize>(h: &[C; N], mut k: usize) -> [C; N] {
    let mut r = *h;
    for i in (1..N).rev() { r.swap(i, k % (i + 1)); k /= i + 1; }
    r
}
fn agree(a: Eval, b: Eval, o: Ordering) -> bool {
    use Ordering::*;
    a.cmp(&b) == o && a.partial_cmp(&b) == Some(o) && (a == b) == (o == Equal) && (a != b) == (o != Equal)
        && (a < b) == (o == Less) && (a <= b) == (o != Greater) && (a > b) == (o == Greater) && (a >= b) == (o != Less)
        && a.is_better_than(b) == (o == Greater) && a.is_worse_than(b) == (o == Less) && a.is_equal_to(b) == (o == Equal)
}
fn tell(a: Eval, b: Eval) -> String {
    format!("cmp {:?}, partial_cmp {:?}, == {}, != {}, < {}, <= {}, > {}, >= {}, better {}, worse {}, equal {}", a.cmp(&b), a.partial_cmp(&b), a == b, a != b, a < b, a <= b, a > b, a >= b, a.is_better_than(b), a.is_worse_than(b), a.is_equal_to(b))
}
pub fn c10(cx: &Cx) {
    let e = ev();
    let vals = values(cx, &e);
    if cx.failed() { return; }
    let v: Vec<_> = vals.v.iter().filter(|x| x.2.len() == 5).collect();
    par(cx, v.len(), |i| {
        let (k, a, h) = v[i];
        for (l, b, g) in &v {
            let o = k.cmp(l);
            if !agree(*a, *b, o) { cx.fail(format!("{} against {}: the rules say {o:?}; {}", names(h), names(g), tell(*a, *b))); return; }
        }
    });
    cx.sample(|| format!("{:?} beats {:?}", v.last().map(|x| names(&x.2)), v.first().map(|x| names(&x.2))));
    cx.part("all five-card hands, grouped into the different values they take", vals.hands, HANDS5 as u64, true);
    cx.part("all pairs of values", (v.len() * v.len()) as u64, (v.len() * v.len()) as u64, true);
    // the orders in which cards are given
    all5(cx, |h| {
        let s = h.iter().map(|&c| c as usize).sum::<usize>() + h[2] as usize;
        let (a, b) = (get!(cx, eval5(&e, h)), get!(cx, eval5(&e, &perm(h, s % 120))));
        cx.check(agree(a, b, Ordering::Equal), || format!("{} against itself in another order: {}", names(h), tell(a, b)));
    });
    cx.part("all five-card hands against themselves in another order", 2 * HANDS5 as u64, HANDS5 as u64, true);
}

/// All that six and more cards, other orders, other names of the suits and other evaluators rest on: every five-card hand in every
/// order and with every renaming of the suits gives one value; any two values compare in one and the same total order, equal ones
/// have the same class; every card is what it was made of, and no two cards are taken for the same. That the values are the ones
/// of the poker rules is not asked here (C09 and C10 ask it).
pub fn five(cx: &Cx) {
    cards_are_cards(cx);
    if cx.failed() { return; }
    let e = ev();
    let vals = values(cx, &e);
    if cx.failed() { return; }
    let mut v: Vec<_> = vals.v.iter().filter(|x| x.2.len() == 5).collect();
    if let Err(p) = guard(|| v.sort_by(|a, b| a.1.cmp(&b.1))) { cx.fail(format!("sorting evaluations panics: {p}")); return; }
    let mut place = vec![0usize; v.len()];
    for i in 1..v.len() { place[i] = place[i - 1] + (v[i].1.cmp(&v[i - 1].1) != Ordering::Equal) as usize; }
    par(cx, v.len(), |i| {
        let (_, a, h) = v[i];
        for (j, (_, b, g)) in v.iter().enumerate() {
            let o = place[i].cmp(&place[j]);
            if !agree(*a, *b, o) || o == Ordering::Equal && !same(*a, *b) { cx.fail(format!("{} against {}: {a:?} and {b:?} do not compare in one order ({o:?}): {}", names(h), names(g), tell(*a, *b))); return; }
        }
    });
    cx.part("all pairs of values", (v.len() * v.len()) as u64, (v.len() * v.len()) as u64, true);
    if cx.failed() { return; }
    all5(cx, |h| {
        let x = get!(cx, eval5(&e, h));
        for k in 0..120 {
            let p = perm(h, k);
            let m = perm(&[0, 1, 2, 3], k % 24);
            let q = p.map(|c| c / 4 * 4 + m[(c % 4) as usize]);
            for (g, how) in [(p, "in another order"), (q, "with the suits renamed")] {
                let y = get!(cx, eval5(&e, &g));
                if !same(x, y) { cx.fail(format!("{} evaluates to {x:?}, {how} {} to {y:?}", names(h), names(&g))); return; }
            }
        }
    });
    cx.part("all five-card hands in all 120 orders, and with all renamings of the suits", 240 * HANDS5 as u64, 120 * HANDS5 as u64, true);
}
fn cards_are_cards(cx: &Cx) {
    let e = ev();
    for a in 0..52u8 {
        let c = card(a);
        cx.check(c.rank() == RANKS[(a / 4) as usize] && c.suit() == SUITS[(a % 4) as usize], || format!("{} has the rank {:?} and the suit {:?}", name(a), c.rank(), c.suit()));
        for b in 0..52u8 {
            cx.check((card(a) == card(b)) == (a == b), || format!("{} == {} is {}", name(a), name(b), card(a) == card(b)));
            let r = guard(|| e.evaluate([card(a), card(b)]));
            let ok = match &r { Ok(Err(EvalError::CardsNotUnique(_))) => a == b, Ok(Err(EvalError::InvalidHandSize(_))) => a != b, _ => false };
            cx.check(ok, || format!("{} and {} evaluate to {r:?}", name(a), name(b)));
        }
    }
    cx.part("all pairs of cards", 52 * 52, 52 * 52, true);
}

fn best_of(t: &[Eval], ix: &Idx, h: &[C]) -> Eval {
    let mut s: Vec<C> = h.to_vec();
    s.sort_unstable();
    let mut best: Option<Eval> = None;
    for_combos::<5>(s.len(), |c| {
        let x = t[ix.of(&[s[c[0]], s[c[1]], s[c[2]], s[c[3]], s[c[4]]])];
        if best.map_or(true, |b| x.is_better_than(b)) { best = Some(x); }
        true
    });
    best.unwrap()
}
fn same(a: Eval, b: Eval) -> bool { a.is_equal_to(b) && a == b && a.class() == b.class() && a.is_royal_flush() == b.is_royal_flush() }
/// put a royal flush at the given positions of n cards that hold no other one; only those five cards give it
fn planted(rng: &mut StdRng, n: usize, at: &[usize; 5]) -> Vec<C> {
    let s = rng.gen_range(0..4u8);
    let mut royal: Vec<C> = (8..13).map(|r| r * 4 + s).collect();
    royal.shuffle(rng);
    // every other suit lacks its ten; with 44 others at most 49 cards
    let mut rest: Vec<C> = (0..52).filter(|c| !(c % 4 == s && c / 4 >= 8) && !(c / 4 == 8)).collect();
    rest.shuffle(rng);
    let mut out = Vec::with_capacity(n);
    let (mut i, mut j) = (0, 0);
    for p in 0..n { if i < 5 && at[i] == p { out.push(royal[i]); i += 1; } else { out.push(rest[j]); j += 1; } }
    out
}
fn positions(cx: &Cx, e: &Evaluator, secs: f64) {
    let whole_to = if cx.thorough { 28 } else { 22 };
    let mut n_whole = 0u64;
    for n in 6..=whole_to {
        let mut all = vec![];
        for_combos::<5>(n, |c| { all.push(*c); true });
        n_whole += all.len() as u64;
        par(cx, all.len(), |i| {
            let mut rng = cx.rng((n * 1_000_000 + i) as u64);
            let h = planted(&mut rng, n, &all[i]);
            let x = get!(cx, eval(e, &h));
            cx.check(x.is_royal_flush() && same(x, Eval::BEST), || format!("{} holds a royal flush at positions {:?} and evaluates to {x:?}", names(&h), all[i]));
        });
        if cx.failed() { return; }
    }
    cx.part(&format!("6 to {whole_to} cards with the best five at every choice of five positions"), n_whole, n_whole, true);
    let end = cx.until(secs, 200.0);
    let k = AtomicU64::new(0);
    par_until(cx, end, |i| {
        let mut rng = cx.rng(4_000_000 + i as u64);
        let n = whole_to + 1 + i % (49 - whole_to);
        let mut at: Vec<usize> = (0..n).collect();
        // the last combinations of all are the likeliest to be lost
        match i / (49 - whole_to) {
            0 => at = (n - 5..n).collect(),
            1 => at = (0..5).collect(),
            2 => { at = vec![0, n - 4, n - 3, n - 2, n - 1]; }
            _ => { at.shuffle(&mut rng); at.truncate(5); at.sort(); }
        }
        let at: [usize; 5] = at.try_into().unwrap();
        let h = planted(&mut rng, n, &at);
        let x = get!(cx, eval(e, &h));
        k.fetch_add(1, Relaxed);
        cx.check(x.is_royal_flush(), || format!("{} holds a royal flush at positions {at:?} and evaluates to {x:?}", names(&h)));
    });
    cx.part(&format!("{} to 49 cards with the best five at chosen positions", whole_to + 1), k.load(Relaxed), k.load(Relaxed), false);
}
pub fn c11(cx: &Cx) {
    let e = ev();
    let ix = Idx::new();
    let t = table5(cx, &e);
    if cx.failed() { return; }
    cx.part("all five-card hands, for comparison", HANDS5 as u64, HANDS5 as u64, true);
    let one = |h: &[C]| {
        let x = get!(cx, eval(&e, h));
        let b = best_of(&t, &ix, h);
        cx.check(same(x, b), || format!("{} evaluates to {x:?}, its best five to {b:?}", names(h)));
    };
    // every set of six cards, each in one order of its own
    let mut items = vec![];
    for a in 0..47usize { for b in a + 1..48 { items.push((a as C, b as C)); } }
    par(cx, items.len(), |i| {
        let (a, b) = items[i];
        let mut k = i;
        for c in b + 1..52 { for d in c + 1..52 { for f in d + 1..52 { for g in f + 1..52 {
            let s = [a, b, c, d, f, g];
            let h = perm(&s, k % 720);
            k = k.wrapping_mul(5).wrapping_add(13 + g as usize);
            let v = [card(h[0]), card(h[1]), card(h[2]), card(h[3]), card(h[4]), card(h[5])];
            let x = match guard(|| e.evaluate(v)) { Ok(Ok(x)) => x, Ok(Err(x)) => { cx.fail(format!("evaluating {} gives {x:?}", names(&h))); return; } Err(p) => { cx.fail(format!("evaluating {} panics: {p}", names(&h))); return; } };
            // one of the six is the best and none is better
            let mut best = t[ix.of(&[b, c, d, f, g])];
            for o in [[a, c, d, f, g], [a, b, d, f, g], [a, b, c, f, g], [a, b, c, d, g], [a, b, c, d, f]] { let y = t[ix.of(&o)]; if y.is_better_than(best) { best = y; } }
            if !same(x, best) { cx.fail(format!("{} evaluates to {x:?}, its best five to {best:?}", names(&h))); return; }
        } } beat(); if cx.failed() { return; } } }
    });
    cx.part("every set of six cards", binom(52, 6) as u64, binom(52, 6) as u64, true);
    if cx.thorough {
        par(cx, items.len(), |i| {
            let (a, b) = items[i];
            let mut k = i;
            for c in b + 1..52 { for d in c + 1..52 { for f in d + 1..52 { for g in f + 1..52 { for m in g + 1..52 {
                let h = perm(&[a, b, c, d, f, g, m], k % 5040);
                k = k.wrapping_mul(5).wrapping_add(13 + m as usize);
                one(&h);
            } } } if cx.failed() { return; } } }
        });
        cx.part("every set of seven cards", binom(52, 7) as u64, binom(52, 7) as u64, true);
    }
    // more cards
    let n = AtomicU64::new(0);
    let end = cx.until(12.0, 150.0);
    par_until(cx, end, |i| {
        let mut rng = cx.rng(1_100_000 + i as u64);
        let big = i % 200 == 3;
        for _ in 0..if big { 1 } else { 50 } {
            if cx.failed() { return; }
            let k = if big { rng.gen_range(16..=52) } else { rng.gen_range(7..=15) };
            one(&hand(&mut rng, k));
            n.fetch_add(1, Relaxed);
        }
    });
    cx.part("random sets of 7 to 52 cards", n.load(Relaxed), n.load(Relaxed), false);
    let mut rng = cx.rng(11);
    for k in [6, 7, 8, 10, 13] { let h = hand(&mut rng, k); cx.sample(|| format!("{}: {:?}", names(&h), eval(&e, &h).map(|x| x.class()))); }
    positions(cx, &e, 6.0);
}

pub fn c12(cx: &Cx) {
    let e = ev();
    let n = AtomicU64::new(0);
    all5(cx, |h| {
        let x = get!(cx, eval5(&e, h));
        let lead = h[0] % 4 == 0 || cx.thorough;
        // hands whose lowest card is a spade stand for the others in the full set of orders; every hand sees some
        let mut k = 0;
        while k < 120 {
            let p = perm(h, k);
            let y = get!(cx, eval5(&e, &p));
            if !same(x, y) { cx.fail(format!("{} evaluates to {x:?}, {} to {y:?}", names(h), names(&p))); return; }
            k += if lead { 1 } else { 17 };
        }
        for s in 1..24 {
            let m = perm(&[0, 1, 2, 3], s);
            let p = perm(&h.map(|c| c / 4 * 4 + m[(c % 4) as usize]), s * 5);
            let y = get!(cx, eval5(&e, &p));
            if !same(x, y) { cx.fail(format!("{} evaluates to {x:?}, renamed to {} to {y:?}", names(h), names(&p))); return; }
        }
        n.fetch_add(if lead { 144 } else { 32 }, Relaxed);
    });
    cx.part("all five-card hands, all 23 renamings and (lowest card a spade, or thorough) all 120 orders", n.load(Relaxed), n.load(Relaxed), true);
    let n = AtomicU64::new(0);
    let end = cx.until(15.0, 200.0);
    par_until(cx, end, |i| {
        let mut rng = cx.rng(1_200_000 + i as u64);
        let big = i % 400 == 3;
        for _ in 0..if big { 1 } else { 20 } {
            if cx.failed() { return; }
            let k = if big { rng.gen_range(16..=52) } else { *[6, 6, 7, 7, 7, 8, 9, 10, 12, 14].choose(&mut rng).unwrap() };
            let h = hand(&mut rng, k);
            let x = get!(cx, eval(&e, &h));
            for _ in 0..if k < 10 { 40 } else { 3 } {
                let mut m = [0u8, 1, 2, 3];
                if rng.gen_bool(0.6) { m.shuffle(&mut rng); }
                let mut p: Vec<C> = h.iter().map(|c| c / 4 * 4 + m[(c % 4) as usize]).collect();
                match rng.gen_range(0..4) { 0 => p.sort_unstable(), 1 => { p.sort_unstable(); p.reverse(); } 2 => p.sort_by_key(|c| (c % 4, *c)), _ => p.shuffle(&mut rng) }
                let y = get!(cx, eval(&e, &p));
                n.fetch_add(1, Relaxed);
                if !same(x, y) { cx.fail(format!("{} evaluates to {x:?}, {} to {y:?}", names(&h), names(&p))); return; }
            }
        }
    });
    cx.part("random sets of 6 to 52 cards, renamed and reordered", n.load(Relaxed), n.load(Relaxed), false);
    let mut rng = cx.rng(12);
    for k in [5, 6, 7, 9] { let h = hand(&mut rng, k); cx.sample(|| format!("{}: {:?}", names(&h), eval(&e, &h).map(|x| x.class()))); }
    // the last position matters as much as the first
    positions(cx, &e, 3.0);
}

fn with_constants(v: &Values) -> Vec<(String, Eval)> {
    let mut l: Vec<(String, Eval)> = v.v.iter().map(|(_, x, h)| (names(h), *x)).collect();
    l.push(("Eval::BEST".into(), Eval::BEST));
    l.push(("Eval::WORST".into(), Eval::WORST));
    l
}
pub fn c13(cx: &Cx) {
    let e = ev();
    let vals = values(cx, &e);
    if cx.failed() { return; }
    let mut l = with_constants(&vals);
    // place every value in one line by the named methods; every pair must then agree with its places
    l.sort_by(|a, b| if a.1.is_better_than(b.1) { Ordering::Greater } else if a.1.is_worse_than(b.1) { Ordering::Less } else { Ordering::Equal });
    let mut place = vec![0usize; l.len()];
    for i in 1..l.len() { place[i] = place[i - 1] + l[i].1.is_better_than(l[i - 1].1) as usize; }
    par(cx, l.len(), |i| {
        let a = l[i].1;
        for j in 0..l.len() {
            let b = l[j].1;
            let o = place[i].cmp(&place[j]);
            if !agree(a, b, o) { cx.fail(format!("{} against {}: {} (others put them {o:?})", l[i].0, l[j].0, tell(a, b))); return; }
            let (mx, mn) = (a.max(b), a.min(b));
            let ok = match o {
                Ordering::Less => mx.is_equal_to(b) && mn.is_equal_to(a) && mx.class() == b.class() && mn.class() == a.class(),
                _ => mx.is_equal_to(a) && mn.is_equal_to(b) && mx.class() == a.class() && mn.class() == b.class(),
            };
            if !ok { cx.fail(format!("max and min of {} and {} are {mx:?} and {mn:?}", l[i].0, l[j].0)); return; }
            if o == Ordering::Equal && (a.class() != b.class() || fed(&a) != fed(&b) || hash(&a) != hash(&b)) { cx.fail(format!("{} and {} tie but their classes are {:?} and {:?}, hash equal {}", l[i].0, l[j].0, a.class(), b.class(), fed(&a) == fed(&b))); return; }
        }
    });
    par(cx, 64, |i| {
        let mut rng = cx.rng(1300 + i as u64);
        for _ in 0..20_000 {
            let (x, p, q) = (rng.gen_range(0..l.len()), rng.gen_range(0..l.len()), rng.gen_range(0..l.len()));
            let near = |k: usize, r: &mut rand::rngs::StdRng| (k + r.gen_range(0..3)).min(l.len() - 1);
            let x = match rng.gen_range(0..3) { 0 => x, 1 => near(p, &mut rng), _ => near(q, &mut rng) };
            let (p, q) = if place[p] <= place[q] { (p, q) } else { (q, p) };
            let want = if place[x] < place[p] { p } else if place[x] > place[q] { q } else { x };
            let got = l[x].1.clamp(l[p].1, l[q].1);
            if !got.is_equal_to(l[want].1) || got.class() != l[want].1.class() { cx.fail(format!("{} clamped to {} and {} is {got:?}", l[x].0, l[p].0, l[q].0)); return; }
        }
    });
    cx.sample(|| format!("{} < {}", l[0].0, l[l.len() - 1].0));
    cx.part("every value taken by the five-card hands (all of them) and by random larger ones (sampled), with the constants", vals.hands, vals.hands, true);
    cx.part("all pairs of values, placed in one line (which settles all triples)", (l.len() * l.len()) as u64, (l.len() * l.len()) as u64, true);
}
pub fn c14(cx: &Cx) {
    let e = ev();
    let vals = values(cx, &e);
    if cx.failed() { return; }
    for (h, x) in with_constants(&vals) {
        let q = questions(x);
        let (k, a, _) = class_parts(x.class());
        let want: Vec<bool> = (0..9).map(|i| i == k).chain([k == 8 && a == 12]).collect();
        cx.check(q[..] == want[..], || format!("{h}: the class is {:?} and the answers (high card .. straight flush, royal) are {q:?}", x.class()));
        cx.check(x.is_royal_flush() == (x == Eval::BEST) && x.is_royal_flush() == x.is_equal_to(Eval::BEST), || format!("{h}: royal flush {}, equal to the best {}", x.is_royal_flush(), x == Eval::BEST));
        if h.starts_with('A') { cx.sample(|| format!("{h}: {q:?}")); }
    }
    cx.part("every value taken by the five-card hands (all of them) and by random larger ones (sampled), with the constants", vals.hands, vals.hands, true);
}
pub fn c15(cx: &Cx) {
    let e = ev();
    let vals = values(cx, &e);
    if cx.failed() { return; }
    for (k, x, h) in &vals.v {
        let n = names(h);
        let ok = !x.is_better_than(Eval::BEST) && !x.is_worse_than(Eval::WORST) && *x <= Eval::BEST && *x >= Eval::WORST && !Eval::BEST.is_worse_than(*x) && !Eval::WORST.is_better_than(*x);
        cx.check(ok, || format!("{n} evaluates to {x:?}, outside the constants"));
        let royal = *k == 8 << 20 | 12 << 16;
        let best = x.is_equal_to(Eval::BEST) && *x == Eval::BEST;
        cx.check(best == royal && x.is_equal_to(Eval::BEST) == royal && (!royal || x.class() == Eval::BEST.class()), || format!("{n} equals the best constant: {best}"));
        let low = *k == 5 << 16 | 3 << 12 | 2 << 8 | 1 << 4;
        let worst = x.is_equal_to(Eval::WORST) && *x == Eval::WORST;
        cx.check(worst == low && x.is_equal_to(Eval::WORST) == low && (!low || x.class() == Eval::WORST.class()), || format!("{n} equals the worst constant: {worst}"));
        if best || worst { cx.sample(|| format!("{n}: best {best}, worst {worst}")); }
    }
    cx.part("every value taken by the five-card hands (all of them) and by random larger ones (sampled)", vals.hands, vals.hands, true);
}
pub fn c16(cx: &Cx) {
    let all = all_classes();
    par(cx, all.len(), |i| for &b in &all {
        let a = all[i];
        let o = class_parts(a).cmp(&class_parts(b));
        let ok = a.cmp(&b) == o && a.partial_cmp(&b) == Some(o) && (a == b) == (o == Ordering::Equal) && (a != b) == (o != Ordering::Equal) && (a < b) == (o == Ordering::Less) && (a > b) == (o == Ordering::Greater)
            && (a <= b) == (o != Ordering::Greater) && (a >= b) == (o != Ordering::Less) && std::cmp::max(a, b) == (if o == Ordering::Greater { a } else { b });
        cx.check(ok, || format!("{a:?} against {b:?}: cmp {:?}, partial_cmp {:?}, ==, <, >, <=, >= {:?}", a.cmp(&b), a.partial_cmp(&b), [a == b, a < b, a > b, a <= b, a >= b]));
    });
    par(cx, all.len(), |i| {
        let mut rng = cx.rng(1600 + i as u64);
        for _ in 0..4000 {
            let (x, y) = (all[rng.gen_range(0..all.len())], all[rng.gen_range(0..all.len())]);
            let (x, y) = if class_parts(x) <= class_parts(y) { (x, y) } else { (y, x) };
            let c = all[i];
            let want = if class_parts(c) < class_parts(x) { x } else if class_parts(c) > class_parts(y) { y } else { c };
            let got = c.clamp(x, y);
            cx.check(got == want && std::cmp::min(c, x) == (if class_parts(c) <= class_parts(x) { c } else { x }), || format!("{c:?} clamped to {x:?} and {y:?} is {got:?}, the smaller of it and {x:?} is {:?}", std::cmp::min(c, x)));
        }
    });
    cx.part("all pairs of class values", (all.len() * all.len()) as u64, (all.len() * all.len()) as u64, true);
    let e = ev();
    let vals = values(cx, &e);
    if cx.failed() { return; }
    let l = with_constants(&vals);
    par(cx, l.len(), |i| for (h, b) in &l {
        let (g, a) = &l[i];
        let (x, y) = (a.class(), b.class());
        if (x > y && !a.is_better_than(*b)) || (x > y && *a <= *b) || (a == b && x != y) || (a.is_equal_to(*b) && x != y) { cx.fail(format!("{g} is {x:?}, {h} is {y:?}; as evaluations: {}", tell(*a, *b))); return; }
    });
    cx.sample(|| format!("{:?}", EvalClass::Pair { pair: Rank::Two } < EvalClass::TwoPair { first_pair: Rank::Three, second_pair: Rank::Two }));
    cx.part("every value taken by the five-card hands (all of them) and by random larger ones (sampled)", vals.hands, vals.hands, true);
    cx.part("all pairs of values", (l.len() * l.len()) as u64, (l.len() * l.len()) as u64, true);
}
pub fn c17(cx: &Cx) {
    for c in all_classes() {
        let (t, want) = (c.to_string(), class_text(c));
        cx.check(t == want && format!("{c}") == want, || format!("{c:?} displays as {t:?}, not {want:?}"));
        cx.sample(|| t.clone());
    }
    cx.part("every class value", all_classes().len() as u64 * 2, all_classes().len() as u64, true);
    let e = ev();
    let vals = values(cx, &e);
    if cx.failed() { return; }
    for (h, x) in with_constants(&vals) {
        let want = class_text(x.class());
        cx.check(x.to_string() == want && format!("{x}") == want, || format!("{h} ({:?}) displays as {:?}, not {want:?}", x.class(), x.to_string()));
    }
    cx.part("every value taken by the five-card hands (all of them) and by random larger ones (sampled)", vals.hands, vals.hands, true);
}

pub fn c20(cx: &Cx) {
    let base = get!(cx, guard(ev));
    let made = get!(cx, guard(|| {
        let d = Evaluator::default();
        let dc = d.clone();
        let mut into = Evaluator::default();
        into.clone_from(&base);
        vec![("new()", Evaluator::new()), ("default()", d), ("new().clone()", base.clone()), ("default().clone()", dc), ("clone of a clone", base.clone().clone()), ("clone_from", into), ("std::mem::take", std::mem::take(&mut Evaluator::new()))]
    }));
    for (n, x) in &made { for (m, y) in &made { cx.check(x == y && !(x != y), || format!("the evaluators {n} and {m} differ")); } }
    let debug = format!("{base:?}").len();
    let t = table5(cx, &base);
    if cx.failed() { return; }
    let ix = Idx::new();
    for (n, x) in &made {
        all5(cx, |h| match guard(|| x.evaluate([card(h[0]), card(h[1]), card(h[2]), card(h[3]), card(h[4])])) {
            Ok(Ok(v)) => cx.check(same(v, t[ix.of(h)]), || format!("{n} evaluates {} to {v:?}, the first evaluator to {:?}", names(h), t[ix.of(h)])),
            Ok(Err(v)) => cx.fail(format!("{n} gives {v:?} for {}", names(h))),
            Err(p) => cx.fail(format!("{n} panics on {}: {p}", names(h))),
        });
        if cx.failed() { return; }
        cx.check(*x == base, || format!("{n} is no longer equal to the first evaluator after evaluating"));
    }
    cx.part("all five-card hands through evaluators obtained in seven ways", (made.len() as u64 + 1) * HANDS5 as u64, (made.len() as u64 + 1) * HANDS5 as u64, true);
    // the same answers whatever was evaluated before, beside it, or how often
    let mut pool: Vec<Vec<C>> = vec![];
    let mut rng = cx.rng(20);
    for _ in 0..3000 { let k = *[5, 5, 5, 6, 7, 7, 8, 10, 3, 0].choose(&mut rng).unwrap(); let mut h = hand(&mut rng, k); if k > 1 && rng.gen_range(0..9) == 0 { let l = h.len() - 1; h[l] = h[0]; } pool.push(h); }
    for k in [20, 30, 52] { pool.push(hand(&mut rng, k)); }
    for s in 0..4u8 { pool.push((8..13).map(|r| r * 4 + s).collect()); }
    let want: Vec<String> = pool.iter().map(|h| format!("{:?}", Evaluator::evaluate(&base, cards(h)))).collect();
    let shared = Arc::new(ev());
    let n = AtomicU64::new(0);
    par(cx, 64, |i| {
        let mut rng = cx.rng(2000 + i as u64);
        let rounds = if cx.thorough { 60_000 } else { 8_000 };
        let mut last = 0;
        for _ in 0..rounds {
            if cx.failed() { return; }
            let k = if rng.gen_range(0..4) == 0 { last } else { rng.gen_range(0..pool.len()) };
            if pool[k].len() > 15 && rng.gen_range(0..30) != 0 { continue; }
            last = k;
            beat();
            let who = if rng.gen_bool(0.7) { &*shared } else { &made[rng.gen_range(0..made.len())].1 };
            match guard(|| format!("{:?}", who.evaluate(cards(&pool[k])))) {
                Ok(g) => cx.check(g == want[k], || format!("{} gives {g} after other evaluations, {} before", names(&pool[k]), want[k])),
                Err(p) => cx.fail(format!("{} panics after other evaluations: {p}", names(&pool[k]))),
            }
            n.fetch_add(1, Relaxed);
        }
    });
    for (m, x) in &made { cx.check(*x == base && *shared == base, || format!("{m} changed by use")); }
    cx.check(format!("{base:?}").len() == debug, || "an evaluator's contents changed by use".into());
    // one hand over and over, more often than 16-bit counters hold
    for h in [vec![0u8, 5, 10, 15, 20], vec![48, 44, 40, 36, 32], vec![0, 1, 2, 3, 4, 5, 6]] {
        let x = get!(cx, eval(&base, &h));
        for i in 0..70_000 { let y = get!(cx, eval(&base, &h)); if !same(x, y) { cx.fail(format!("evaluation {i} of {} gives {y:?}, the first {x:?}", names(&h))); return; } }
    }
    // many evaluators
    for i in 0..300 {
        let x = get!(cx, guard(|| if i % 2 == 0 { Evaluator::new() } else { Evaluator::default() }));
        cx.check(x == base, || format!("evaluator number {i} differs"));
    }
    cx.part("random histories on shared evaluators in eight threads; one hand 70,000 times; 300 evaluators", n.load(Relaxed) + 210_300, n.load(Relaxed), false);
    cx.sample(|| format!("{} histories over {} hands", 64, pool.len()));
}

pub fn c22(cx: &Cx) {
    let e = ev();
    let ix = Idx::new();
    let t = table5(cx, &e);
    if cx.failed() { return; }
    cx.part("all five-card hands", HANDS5 as u64, HANDS5 as u64, true);
    let mut items = vec![];
    for a in 0..47usize { for b in a + 1..48 { items.push((a as C, b as C)); } }
    par(cx, items.len(), |i| {
        let (a, b) = items[i];
        let mut k = i;
        for c in b + 1..52 { for d in c + 1..52 { for f in d + 1..52 { for g in f + 1..52 {
            let s = [a, b, c, d, f, g];
            let h = perm(&s, k % 720);
            k = k.wrapping_mul(5).wrapping_add(13 + g as usize);
            let v = [card(h[0]), card(h[1]), card(h[2]), card(h[3]), card(h[4]), card(h[5])];
            let x = match guard(|| e.evaluate(v)) { Ok(Ok(x)) => x, Ok(Err(x)) => { cx.fail(format!("evaluating {} gives {x:?}", names(&h))); return; } Err(p) => { cx.fail(format!("evaluating {} panics: {p}", names(&h))); return; } };
            for o in [[b, c, d, f, g], [a, c, d, f, g], [a, b, d, f, g], [a, b, c, f, g], [a, b, c, d, g], [a, b, c, d, f]] {
                let y = t[ix.of(&o)];
                if x.is_worse_than(y) || x < y { cx.fail(format!("{} evaluates to {x:?}, worse than its part {}: {y:?}", names(&h), names(&o))); return; }
            }
        } } beat(); if cx.failed() { return; } } }
    });
    cx.part("every set of six cards against its five-card parts", binom(52, 6) as u64, binom(52, 6) as u64 * 6, true);
    let n = AtomicU64::new(0);
    let end = cx.until(15.0, 240.0);
    par_until(cx, end, |i| {
        let mut rng = cx.rng(2_200_000 + i as u64);
        let big = i % 300 == 3;
        for _ in 0..if big { 1 } else { 10 } {
            if cx.failed() { return; }
            // a growing hand; the newcomers anywhere among the others
            let top = if big { 52 } else { rng.gen_range(7..=13) };
            let d = hand(&mut rng, top);
            let mut h: Vec<C> = d[..5].to_vec();
            let mut last = get!(cx, eval(&e, &h));
            let mut before = names(&h);
            let mut j = 5;
            while j < top {
                let step = if big { rng.gen_range(3..16) } else if rng.gen_bool(0.8) { 1 } else { 2 }.min(top - j);
                for &c in &d[j..(j + step).min(top)] { let p = match rng.gen_range(0..3) { 0 => h.len(), 1 => 0, _ => rng.gen_range(0..=h.len()) }; h.insert(p, c); }
                j += step;
                if rng.gen_bool(0.3) { h.shuffle(&mut rng); }
                let x = get!(cx, eval(&e, &h));
                n.fetch_add(1, Relaxed);
                if x.is_worse_than(last) || x < last { cx.fail(format!("{} evaluates to {x:?}, worse than {before}: {last:?}", names(&h))); return; }
                last = x;
                before = names(&h);
            }
        }
    });
    cx.part("growing random hands up to 52 cards", n.load(Relaxed), n.load(Relaxed), false);
    let mut rng = cx.rng(22);
    for k in [6, 7, 9] { let h = hand(&mut rng, k); cx.sample(|| format!("{}: {:?}, first five {:?}", names(&h), eval(&e, &h).map(|x| x.class()), eval(&e, &h[..5]).map(|x| x.class()))); }
    positions(cx, &e, 5.0);
}
