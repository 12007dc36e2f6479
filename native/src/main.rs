#![feature(panic_can_unwind)]
//! Bounded contract checks against the real crates: `conform <PROPERTY> --seed N --tier quick|thorough --out FILE`.
mod core;
mod encs;
mod gen;
mod io;
mod ops;
mod rng;
mod sem;

use std::fmt::Write as _;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let pid = args.get(1).cloned().unwrap_or_default();
    let seed: u64 = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = get("--tier").as_deref() == Some("thorough");
    let mut ctx = core::Ctx::new(&pid, seed, thorough);
    if let Some(b) = get("--budget").and_then(|s| s.parse().ok()) { ctx.budget = b; }
    if let Some((i, n)) = get("--shard").and_then(|s| s.split_once('/').map(|(a, b)| (a.parse().unwrap(), b.parse().unwrap()))) { ctx.shard = (i, n); }
    core::install_hook();
    core::watchdog(get("--out"), pid.clone());
    let f: fn(&mut core::Ctx) = match pid.as_str() {
        "P01" => ops::p01, "P02" => ops::p02, "P03" => ops::p03, "P04" => ops::p04, "P05" => ops::p05,
        "P07" => ops::p07, "P08" => ops::p08, "P09" => ops::p09, "P10" => ops::p10, "P11" => ops::p11, "P12" => ops::p12,
        "P13" => ops::p13, "P14" => ops::p14, "P15" => ops::p15, "P24" => ops::p24,
        "P06" => sem::p06, "P19" => sem::p19, "P20" => sem::p20, "P21" => sem::p21, "P22" => sem::p22,
        "P16" => io::p16, "P17" => io::p17, "P18" => io::p18, "P23" => io::p23,
        _ => { eprintln!("unknown property {pid}"); std::process::exit(2); }
    };
    // deep recursion in debug builds
    let ctx = std::thread::Builder::new().stack_size(256 << 20).spawn(move || { f(&mut ctx); ctx }).unwrap().join().unwrap();
    let js = |s: &str| serde_json::to_string(s).unwrap();
    let mut o = String::new();
    let _ = write!(o, "{{\"property\":{},\"seed\":{seed},\"thorough\":{thorough},\"evaluations\":{},\"nontrivial\":{},\"unimplemented\":{},\"cut_short\":{},\"wall_s\":{:.2},\n\"by_op\":{{", js(&pid), ctx.evals, ctx.nontrivial, ctx.unimpl, ctx.over(), ctx.start.elapsed().as_secs_f64());
    let _ = write!(o, "{}", ctx.by_op.iter().map(|(k, v)| format!("{}:{v}", js(k))).collect::<Vec<_>>().join(","));
    let _ = write!(o, "}},\n\"samples\":[{}],\n\"failures\":[", ctx.samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(","));
    let _ = write!(o, "{}", ctx.fails.values().map(|(n, f)| format!("{{\"sig\":{},\"count\":{n},\"detail\":{}}}", js(&f.sig), js(&f.detail))).collect::<Vec<_>>().join(",\n"));
    o.push_str("]}\n");
    match get("--out") { Some(p) => std::fs::write(p, o).unwrap(), None => print!("{o}") }
    std::process::exit(if ctx.fails.is_empty() { 0 } else { 1 });
}
