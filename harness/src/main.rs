//! Replays the state graph of spec/BagMC.tla on the implementation.
//!
//!   bag-replay walk GRAPH OUT.json [--seed N] [--modes A..B] [--random N]
//!              [--digest FILE] [--prop P] [--only KEY] [--route R]

mod cap;
mod graph;
mod lv;
mod obj;
mod rec;
mod walk;

use serde_json::json;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;

fn arg(args: &[String], name: &str) -> Option<String> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).cloned()
}

fn panic_text(p: Box<dyn std::any::Any + Send>) -> String {
    p.downcast_ref::<String>()
        .cloned()
        .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
        .unwrap_or_else(|| "?".into())
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        Some("walk") => walk_cmd(&args),
        _ => {
            eprintln!("usage: bag-replay walk GRAPH OUT.json ...");
            std::process::exit(2);
        }
    }
}

fn walk_cmd(args: &[String]) {
    let sources = graph::load(&args[2]);
    let seed: u64 = arg(args, "--seed").map_or(0, |s| s.parse().unwrap());
    let modes: Vec<u32> = arg(args, "--modes").map_or(vec![0, 1, 2, 3], |s| {
        let (a, b) = s.split_once("..").unwrap();
        (a.parse().unwrap()..b.parse().unwrap()).collect()
    });
    let random: u32 = arg(args, "--random").map_or(1, |s| s.parse().unwrap());
    let len: u32 = arg(args, "--len").map_or(8, |s| s.parse().unwrap());
    let digest = arg(args, "--digest");
    let prop = arg(args, "--prop");
    let prop = prop.as_deref();
    let only = arg(args, "--only");
    let only_route = arg(args, "--route");
    std::panic::set_hook(Box::new(|_| ()));

    let next = AtomicUsize::new(0);
    let total = Mutex::new(walk::Report::default());
    let unsupported = Mutex::new(Vec::<String>::new());
    let threads = std::thread::available_parallelism().map_or(4, |n| n.get());
    std::thread::scope(|sc| {
        for _ in 0..threads {
            sc.spawn(|| {
                let mut rep = walk::Report::default();
                loop {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    let Some(src) = sources.get(i) else { break };
                    if only.as_ref().is_some_and(|o| *o != src.key) {
                        continue;
                    }
                    if !walk::relevant(prop, &src.key) {
                        continue;
                    }
                    // one concrete value when the specification names it
                    let named = src.def["t"]["c"].is_string();
                    for &mode in modes.iter().take(if named { 1 } else { usize::MAX }) {
                        for (route, node) in &src.routes {
                            if only_route.as_ref().is_some_and(|o| o != route) {
                                continue;
                            }
                            let inst = cap::make(&src.def, mode, seed);
                            let mut w = walk::Walk::new(src, &inst, route, mode, &mut rep);
                            w.digest = digest.is_some() && mode <= 1;
                            w.faults = mode == 0;
                            w.node = *node;
                            w.want = walk::Want::of(prop);
                            let r = catch_unwind(AssertUnwindSafe(|| match inst.subj.capture(route) {
                                Some(bag) => {
                                    w.rep.captures += 1;
                                    w.bag(&bag, *node);
                                    w.digest = false;
                                    w.faults = false;
                                    for k in 0..random {
                                        let mut rng = lv::Rng::new(seed, &format!("{}{route}{mode}{k}", src.key));
                                        w.random(&bag, *node, &mut rng, len);
                                        w.rep.traces += 1;
                                    }
                                    true
                                }
                                None => false,
                            }));
                            match r {
                                Ok(true) => (),
                                Ok(false) if route.starts_with("try_") => w.wrong_capture("a value", "refused"),
                                Ok(false) => unsupported.lock().unwrap().push(format!("{} {route}", src.key)),
                                Err(p) => w.panicked(panic_text(p)),
                            }
                        }
                        for route in &src.refused {
                            let inst = cap::make(&src.def, mode, seed);
                            if let Some(bag) = inst.subj.capture(route) {
                                let shown = format!("{bag:?}");
                                walk::Walk::new(src, &inst, route, mode, &mut rep).wrong_capture("refused", &shown);
                            }
                        }
                    }
                }
                total.lock().unwrap().merge(rep);
            });
        }
    });
    let mut rep = total.into_inner().unwrap();
    let unsupported = unsupported.into_inner().unwrap();
    rep.mismatches.sort_by(|a, b| {
        (a.path.len(), a.src.len(), &a.src, &a.route, a.mode, &a.path, &a.op).cmp(&(b.path.len(), b.src.len(), &b.src, &b.route, b.mode, &b.path, &b.op))
    });
    if let Some(f) = digest {
        let mut out = String::new();
        for (k, row) in &rep.digests {
            out.push_str(k);
            for (e, g) in row {
                out.push_str(&format!("\t{e:x}:{g:x}"));
            }
            out.push('\n');
        }
        std::fs::write(f, out).unwrap();
    }
    let ms: Vec<_> = rep
        .mismatches
        .iter()
        .map(|m| {
            json!({"props": m.props.iter().collect::<Vec<_>>(), "src": m.src, "route": m.route, "mode": m.mode,
                   "path": m.path, "state": m.key, "op": m.op, "expected": m.exp, "got": m.got})
        })
        .collect();
    let out = json!({
        "sources": sources.len(),
        "states": sources.iter().map(|s| s.nodes.len()).sum::<usize>(),
        "captures": rep.captures,
        "observed": rep.steps,
        "expanded": rep.nodes_hit,
        "faults": rep.faults,
        "checks": rep.checks,
        "per_prop": rep.per_prop,
        "traces": rep.traces,
        "samples": rep.samples,
        "unsupported": unsupported,
        "mismatches": ms,
    });
    std::fs::write(&args[3], serde_json::to_string_pretty(&out).unwrap()).unwrap();
    println!(
        "sources {} captures {} observed {} mismatches {} unsupported {}",
        sources.len(),
        rep.captures,
        rep.steps,
        rep.mismatches.len(),
        out["unsupported"].as_array().unwrap().len()
    );
}
