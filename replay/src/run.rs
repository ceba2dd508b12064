use crate::oracle::*;
use poker::{Eval, EvalError, Evaluator};
use rand::{rngs::StdRng, seq::SliceRandom, Rng, SeedableRng};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub const THREADS: usize = 8;

pub struct Cx {
    pub seed: u64,
    pub thorough: bool,
    evals: AtomicU64,
    distinct: AtomicU64,
    fail: Mutex<Option<String>>,
    stop: AtomicBool,
    samples: Mutex<Vec<String>>,
    /// what was covered, one line per part; `true` when the part ranges over its whole domain
    parts: Mutex<Vec<(String, u64, bool)>>,
}

impl Cx {
    pub fn new(seed: u64, thorough: bool) -> Self {
        Cx { seed, thorough, evals: AtomicU64::new(0), distinct: AtomicU64::new(0), fail: Mutex::new(None), stop: AtomicBool::new(false), samples: Mutex::new(vec![]), parts: Mutex::new(vec![]) }
    }
    pub fn rng(&self, salt: u64) -> StdRng { StdRng::seed_from_u64(self.seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ salt) }
    pub fn fail(&self, m: String) {
        let mut f = self.fail.lock().unwrap();
        if f.is_none() { *FIRST.lock().unwrap() = Some(m.clone()); *f = Some(m); }
        self.stop.store(true, SeqCst);
    }
    pub fn failed(&self) -> bool { self.stop.load(SeqCst) }
    pub fn check(&self, ok: bool, m: impl FnOnce() -> String) {
        if !ok { self.fail(m()); }
    }
    pub fn sample(&self, s: impl FnOnce() -> String) {
        let mut v = self.samples.lock().unwrap();
        if v.len() < 12 { v.push(s()); }
    }
    /// n executions of the code over `distinct` different inputs
    pub fn part(&self, what: &str, n: u64, distinct: u64, whole: bool) {
        self.evals.fetch_add(n, SeqCst);
        self.distinct.fetch_add(distinct, SeqCst);
        self.parts.lock().unwrap().push((what.into(), n, whole));
    }
    pub fn report(&self, id: &str, secs: f64) -> String {
        let q = quoted;
        let parts = self.parts.lock().unwrap();
        let whole = !parts.is_empty() && parts.iter().all(|p| p.2);
        format!(
            "{{\"property\":{},\"seed\":{},\"tier\":\"{}\",\"evaluations\":{},\"distinct\":{},\"exhaustive\":{},\"seconds\":{:.2},\"parts\":[{}],\"samples\":[{}],\"failure\":{}}}",
            q(id), self.seed, if self.thorough { "thorough" } else { "quick" }, self.evals.load(SeqCst), self.distinct.load(SeqCst), whole, secs,
            parts.iter().map(|p| format!("{{\"what\":{},\"executions\":{},\"whole_domain\":{}}}", q(&p.0), p.1, p.2)).collect::<Vec<_>>().join(","),
            self.samples.lock().unwrap().iter().map(|s| q(s)).collect::<Vec<_>>().join(","),
            self.fail.lock().unwrap().as_ref().map_or("null".into(), |s| q(s)),
        )
    }
    /// seconds left in which sampling may go on
    pub fn until(&self, quick: f64, thorough: f64) -> Instant { Instant::now() + Duration::from_secs_f64(if self.thorough { thorough } else { quick }) }
}

fn quoted(s: &str) -> String {
        let mut o = String::from("\"");
        for c in s.chars() {
            match c {
                '"' => o.push_str("\\\""),
                '\\' => o.push_str("\\\\"),
                c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
                c => o.push(c),
            }
        }
        o.push('"');
        o
}

/// the first failure, and what is known of a search that does not end after it
static FIRST: Mutex<Option<String>> = Mutex::new(None);

// ---- the hang watch: every worker publishes what it is doing; no movement for a minute is a failure

static BEAT: [AtomicU64; 64] = [const { AtomicU64::new(0) }; 64];
static NEXT: AtomicUsize = AtomicUsize::new(0);
thread_local! { static ME: usize = NEXT.fetch_add(1, SeqCst) % 64; }
pub fn beat() { ME.with(|m| BEAT[*m].fetch_add(1, Relaxed)); }

pub fn watchdog(id: String, out: Option<String>) -> std::sync::mpsc::Sender<()> {
    let (tx, rx) = std::sync::mpsc::channel::<()>();
    std::thread::spawn(move || {
        let mut last = 0;
        let mut since = Instant::now();
        let mut failed: Option<Instant> = None;
        loop {
            match rx.recv_timeout(Duration::from_secs(1)) {
                Err(std::sync::mpsc::RecvTimeoutError::Timeout) => {}
                _ => return,
            }
            let now: u64 = BEAT.iter().map(|b| b.load(Relaxed)).sum();
            if now != last { last = now; since = Instant::now(); }
            let first = FIRST.lock().unwrap().clone();
            if first.is_some() && failed.is_none() { failed = Some(Instant::now()); }
            // a failure is told even if what comes after it does not end
            if since.elapsed() > Duration::from_secs(100) || failed.is_some_and(|f| f.elapsed() > Duration::from_secs(15)) {
                let what = first.unwrap_or_else(|| "a call into the crate did not return for 100 s".into());
                let t = format!("{{\"property\":\"{id}\",\"evaluations\":1,\"distinct\":1,\"exhaustive\":false,\"parts\":[],\"samples\":[],\"failure\":{}}}", quoted(&what));
                match &out {
                    Some(p) => { let _ = std::fs::write(p, &t); }
                    None => println!("{t}"),
                }
                std::process::exit(1);
            }
        }
    });
    tx
}

/// run `f(i)` for every i below n on all cores; stops early once something failed
pub fn par<F: Fn(usize) + Sync>(cx: &Cx, n: usize, f: F) {
    let next = AtomicUsize::new(0);
    std::thread::scope(|s| {
        for _ in 0..THREADS {
            s.spawn(|| {
                loop {
                    let i = next.fetch_add(1, SeqCst);
                    if i >= n || cx.failed() { break; }
                    beat();
                    if let Err(p) = catch_unwind(AssertUnwindSafe(|| f(i))) {
                        let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                        cx.fail(format!("the code under test panicked: {m}"));
                    }
                }
            });
        }
    });
}

/// run `f(0)`, `f(1)`, ... on all cores until the time is up
pub fn par_until<F: Fn(usize) + Sync>(cx: &Cx, end: Instant, f: F) {
    let next = AtomicUsize::new(0);
    par(cx, THREADS, |_| {
        while Instant::now() < end && !cx.failed() { f(next.fetch_add(1, SeqCst)); }
    });
}

pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|p| p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())
}

/// evaluate distinct cards; a panic or an error is a failure of the call
pub fn eval(e: &Evaluator, cs: &[C]) -> Result<Eval, String> {
    beat();
    let v = cards(cs);
    match guard(|| e.evaluate(v)) {
        Ok(Ok(x)) => Ok(x),
        Ok(Err(x)) => Err(format!("evaluating {} gives the error {x:?}", names(cs))),
        Err(p) => Err(format!("evaluating {} panics: {p}", names(cs))),
    }
}
pub fn eval5(e: &Evaluator, cs: &[C; 5]) -> Result<Eval, String> {
    let v = [card(cs[0]), card(cs[1]), card(cs[2]), card(cs[3]), card(cs[4])];
    match guard(|| e.evaluate(v)) {
        Ok(Ok(x)) => Ok(x),
        Ok(Err(x)) => Err(format!("evaluating {} gives the error {x:?}", names(cs))),
        Err(p) => Err(format!("evaluating {} panics: {p}", names(cs))),
    }
}
pub fn evalr(e: &Evaluator, cs: &[poker::Card]) -> Result<Result<Eval, EvalError>, String> {
    beat();
    guard(|| e.evaluate(cs))
}

pub fn binom(n: usize, k: usize) -> usize {
    if k > n { return 0; }
    let mut r = 1usize;
    for i in 0..k { r = r * (n - i) / (i + 1); }
    r
}
/// all increasing k-tuples below n, in lexicographic order
pub fn for_combos<const K: usize>(n: usize, mut f: impl FnMut(&[usize; K]) -> bool) {
    if K > n { return; }
    let mut ix: [usize; K] = std::array::from_fn(|i| i);
    loop {
        if !f(&ix) { return; }
        let mut i = K;
        loop {
            if i == 0 { return; }
            i -= 1;
            if ix[i] < n - K + i { break; }
        }
        ix[i] += 1;
        for j in i + 1..K { ix[j] = ix[j - 1] + 1; }
    }
}
/// index of a strictly increasing five-card hand
pub struct Idx([[u32; 5]; 52]);
impl Idx {
    pub fn new() -> Self {
        let mut t = [[0; 5]; 52];
        for c in 0..52 { for k in 0..5 { t[c][k] = binom(c, k + 1) as u32; } }
        Idx(t)
    }
    #[inline]
    pub fn of(&self, h: &[C; 5]) -> usize { (0..5).map(|k| self.0[h[k] as usize][k] as usize).sum() }
}
pub const HANDS5: usize = 2_598_960;
/// every five-card hand (increasing), grouped by its first card for the workers
pub fn all5(cx: &Cx, f: impl Fn(&[C; 5]) + Sync) {
    // work items: (first, second) pairs
    let mut items = vec![];
    for a in 0..48usize { for b in a + 1..49 { items.push((a, b)); } }
    items.sort_by_key(|&(_, b)| b);
    par(cx, items.len(), |i| {
        let (a, b) = items[i];
        for c in b + 1..52 { for d in c + 1..52 { for e in d + 1..52 { f(&[a as C, b as C, c as C, d as C, e as C]); } } if cx.failed() { return; } }
    });
}

/// every five-card hand's evaluation by index
pub fn table5(cx: &Cx, e: &Evaluator) -> Vec<Eval> {
    let ix = Idx::new();
    let parts: Mutex<Vec<(usize, Eval)>> = Mutex::new(Vec::with_capacity(HANDS5));
    let mut items = vec![];
    for a in 0..48usize { for b in a + 1..49 { items.push((a, b)); } }
    par(cx, items.len(), |i| {
        let (a, b) = items[i];
        let mut v = Vec::new();
        for c in b + 1..52 { for d in c + 1..52 { for f in d + 1..52 {
            let h = [a as C, b as C, c as C, d as C, f as C];
            match eval5(e, &h) { Ok(x) => v.push((ix.of(&h), x)), Err(m) => { cx.fail(m); return; } }
        } } }
        parts.lock().unwrap().extend(v);
    });
    let mut t = vec![Eval::WORST; HANDS5];
    for (i, x) in parts.into_inner().unwrap() { t[i] = x; }
    t
}

pub fn deck(rng: &mut StdRng) -> Vec<C> {
    let mut d: Vec<C> = (0..52).collect();
    d.shuffle(rng);
    d
}
/// a random hand of n cards; sometimes biased so that small categories occur: few ranks, one suit, runs
pub fn hand(rng: &mut StdRng, n: usize) -> Vec<C> {
    let mut d = deck(rng);
    match rng.gen_range(0..4) {
        0 => {}
        1 => {
            // few ranks
            let k = rng.gen_range(2..=13).max(n.div_ceil(4));
            let mut rs: Vec<C> = (0..13).collect();
            rs.shuffle(rng);
            let keep = &rs[..k];
            d.sort_by_key(|c| !keep.contains(&(c / 4)));
            let m = (4 * k).min(52);
            d[..m].shuffle(rng);
        }
        2 => {
            // mostly one or two suits
            let s = rng.gen_range(0..4u8);
            let t = rng.gen_range(0..4u8);
            d.sort_by_key(|c| c % 4 != s && c % 4 != t);
            let m = if s == t { 13 } else { 26 };
            d[..m].shuffle(rng);
        }
        _ => {
            // a window of ranks
            let lo = rng.gen_range(0..13u8);
            let w = rng.gen_range(5..=13u8);
            d.sort_by_key(|c| ((c / 4) + 13 - lo) % 13 >= w);
            let m = (4 * w as usize).min(52);
            d[..m].shuffle(rng);
        }
    }
    d.truncate(n);
    d.shuffle(rng);
    d
}

/// the different values evaluations take, with the rules' key and a hand that gives them
pub struct Values { pub v: Vec<(u32, Eval, Vec<C>)>, pub hands: u64 }
pub fn face(e: Eval) -> String { format!("{e:?}|{:?}|{e}|{:?}", e.class(), questions(e)) }
pub fn values(cx: &Cx, e: &Evaluator) -> Values {
    let m: Mutex<BTreeMap<(u32, String), (Eval, Vec<C>)>> = Mutex::new(BTreeMap::new());
    let n = AtomicU64::new(0);
    let mut items = vec![];
    for a in 0..48usize { for b in a + 1..49 { items.push((a, b)); } }
    par(cx, items.len(), |i| {
        let (a, b) = items[i];
        let mut l: BTreeMap<(u32, String), (Eval, Vec<C>)> = BTreeMap::new();
        let mut known: std::collections::HashMap<u32, (String, String)> = Default::default();
        for c in b + 1..52 { for d in c + 1..52 { for f in d + 1..52 {
            let h = [a as C, b as C, c as C, d as C, f as C];
            let k = key5(&h);
            match eval5(e, &h) {
                Ok(x) => {
                    // the derived Debug text shows the whole value
                    let dbg = format!("{x:?}");
                    let entry = known.entry(k).or_insert_with(|| (String::new(), String::new()));
                    if entry.0 != dbg { entry.0 = dbg; entry.1 = face(x); l.entry((k, entry.1.clone())).or_insert((x, h.to_vec())); }
                }
                Err(m) => { cx.fail(m); return; }
            }
            n.fetch_add(1, Relaxed);
        } } }
        let mut g = m.lock().unwrap();
        for (k, v) in l { g.entry(k).or_insert(v); }
    });
    // six cards and more
    let more = if cx.thorough { 2_000_000 } else { 100_000 };
    par(cx, 64, |i| {
        let mut rng = cx.rng(77 + i as u64);
        let mut l: BTreeMap<(u32, String), (Eval, Vec<C>)> = BTreeMap::new();
        for _ in 0..more / 64 {
            let k = if rng.gen_range(0..50) == 0 { rng.gen_range(8..=14) } else { rng.gen_range(6..=7) };
            let h = hand(&mut rng, k);
            match eval(e, &h) { Ok(x) => { l.entry((best_key(&h), face(x))).or_insert((x, h)); } Err(m) => { cx.fail(m); return; } }
            n.fetch_add(1, Relaxed);
        }
        let mut g = m.lock().unwrap();
        for (k, v) in l { g.entry(k).or_insert(v); }
    });
    let v = m.into_inner().unwrap().into_iter().map(|((k, _), (x, h))| (k, x, h)).collect();
    Values { v, hands: n.into_inner() }
}
pub fn best_key(h: &[C]) -> u32 {
    let mut b = 0;
    for_combos::<5>(h.len(), |ix| { b = b.max(key5(&[h[ix[0]], h[ix[1]], h[ix[2]], h[ix[3]], h[ix[4]]])); true });
    b
}
