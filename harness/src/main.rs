// Executes JSON cases (one per line on stdin) against the public API of ppt-rs and prints
// one "@R {json}" line per case.  Panics of the code under test are data, not failures.
use serde_json::{json, Value};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

mod brute;
mod builder;
mod compress;
mod containers;
mod deck;
mod edit;
mod export;
mod inspect;
mod markup;
mod pdf;
mod read;
mod util;
#[cfg(feature = "web")]
mod web;

pub struct Ctx {
    pub dir: std::path::PathBuf,
}

fn dispatch(kind: &str, case: &Value, ctx: &Ctx) -> Value {
    match kind {
        "merge" => containers::merge(case),
        "sections" => containers::sections(case),
        "comments" => containers::comments(case),
        "rels" => containers::rels(case),
        "ctypes" => containers::ctypes(case),
        "package" => containers::package(case, ctx),
        "units" => containers::units(case),
        "deck" => deck::run(case, ctx),
        "edit" => edit::run(case, ctx),
        "builder" => builder::run(case, ctx),
        "compress" => compress::run(case, ctx),
        "markdown" => markup::markdown(case, ctx),
        "diagrams" => markup::diagrams(case, ctx),
        "html" => markup::html(case, ctx),
        "export" => export::run(case, ctx),
        "pdf" => pdf::run(case, ctx),
        "brute" => brute::run(case, ctx),
        "text" => brute::text(case, ctx),
        "xmltree" => brute::xml(case, ctx),
        "inspect" => inspect::run(case, ctx),
        "read" => read::run(case, ctx),
        #[cfg(feature = "web")]
        "web" => web::run(case, ctx),
        _ => json!({"unknown": kind}),
    }
}

fn main() {
    let dir = std::env::args().nth(1).unwrap_or_else(|| ".".to_string());
    let show = std::env::var_os("HARNESS_SHOW").is_some();
    std::panic::set_hook(Box::new(move |i| {
        if show {
            eprintln!("{i}\n{}", std::backtrace::Backtrace::force_capture());
        }
    }));
    let ctx = Ctx { dir: std::path::PathBuf::from(dir) };
    let stdin = std::io::stdin();
    // a deep stack so that only unbounded recursion overflows
    let h = std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
        let out = std::io::stdout();
        for line in stdin.lock().lines() {
            let Ok(line) = line else { break };
            if line.trim().is_empty() {
                continue;
            }
            let case: Value = serde_json::from_str(&line).expect("case json");
            let kind = case["kind"].as_str().unwrap_or("").to_string();
            let r = catch_unwind(AssertUnwindSafe(|| dispatch(&kind, &case, &ctx)));
            let v = match r {
                Ok(v) => json!({"id": case["id"], "res": v}),
                Err(e) => json!({"id": case["id"], "res": {"panic": util::panic_text(e)}}),
            };
            let mut o = out.lock();
            let _ = writeln!(o, "@R {}", v);
            let _ = o.flush();
        }
    }).unwrap();
    let _ = h.join();
}
