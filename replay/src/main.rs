//! Executes the real crate and compares it with the rules in oracle.rs, one search per property.
//! Finds the failing input behind a refuted obligation; stands in (labelled bounded) for what the verifier cannot decide.
mod cardsearch;
mod evalsearch;
mod oracle;
mod run;

use run::*;
use std::time::Instant;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let id = args.get(1).cloned().unwrap_or_default();
    let seed: u64 = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = get("--tier").as_deref() == Some("thorough");
    let out = get("--out");
    std::panic::set_hook(Box::new(|_| {}));
    let cx = Cx::new(seed, thorough);
    let watch = watchdog(id.clone(), out.clone());
    let t0 = Instant::now();
    let r = std::panic::catch_unwind(|| match id.as_str() {
        "C01" => cardsearch::c01(&cx),
        "C02" => cardsearch::c02(&cx),
        "C03" => cardsearch::c03(&cx),
        "C04" => cardsearch::c04(&cx),
        "C05" => cardsearch::c05(&cx),
        "C06" => cardsearch::c06(&cx),
        "C07" => cardsearch::c07(&cx),
        "C08" => evalsearch::c08(&cx),
        "C09" => evalsearch::c09(&cx),
        "C10" => evalsearch::c10(&cx),
        "C11" => evalsearch::c11(&cx),
        "C12" => evalsearch::c12(&cx),
        "C13" => evalsearch::c13(&cx),
        "C14" => evalsearch::c14(&cx),
        "C15" => evalsearch::c15(&cx),
        "C16" => evalsearch::c16(&cx),
        "C17" => evalsearch::c17(&cx),
        "C18" => cardsearch::c18(&cx),
        "C19" => cardsearch::c19(&cx),
        "C20" => evalsearch::c20(&cx),
        "FIVE" => evalsearch::five(&cx),
        "C22" => evalsearch::c22(&cx),
        _ => {
            eprintln!("no search for {id}");
            std::process::exit(2);
        }
    });
    drop(watch);
    if let Err(p) = r {
        let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        cx.fail(format!("the code under test panicked: {m}"));
    }
    let text = cx.report(&id, t0.elapsed().as_secs_f64());
    match out {
        Some(p) => std::fs::write(p, &text).unwrap(),
        None => println!("{text}"),
    }
    std::process::exit(if cx.failed() { 1 } else { 0 });
}
