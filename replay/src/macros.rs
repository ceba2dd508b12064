//! The search for C21 on its own: if a form of the macros no longer compiles, only this program does not.
#![allow(dead_code)]
mod cardsearch;
mod macrosearch;
mod oracle;
mod run;

use run::*;
use std::time::Instant;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let id = args.get(1).cloned().unwrap_or_default();
    let seed: u64 = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = get("--tier").as_deref() == Some("thorough");
    let out = get("--out");
    std::panic::set_hook(Box::new(|_| {}));
    let cx = Cx::new(seed, thorough);
    let watch = watchdog(id.clone(), out.clone());
    let t0 = Instant::now();
    let r = std::panic::catch_unwind(|| macrosearch::c21(&cx));
    drop(watch);
    if let Err(p) = r {
        let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        cx.fail(format!("the code under test panicked: {m}"));
    }
    let text = cx.report(&id, t0.elapsed().as_secs_f64());
    match out {
        Some(p) => std::fs::write(p, &text).unwrap(),
        None => println!("{text}"),
    }
    std::process::exit(if cx.failed() { 1 } else { 0 });
}
