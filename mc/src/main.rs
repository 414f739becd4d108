//! Exhaustive bounded exploration of the real parsers and utilities of http-box against reference
//! models. `mc check <property> --tier quick|thorough` decides one property, `mc replay <file>`
//! re-executes a recorded counterexample.

mod alpha;
mod bomb;
mod chains;
mod cost;
mod sparse;
mod docs;
mod explore;
mod guard;
mod step;
mod h1model;
mod h2model;
mod model;
mod numeric;
mod plans;
mod rec;
mod sess;
mod tok;
mod util;

#[global_allocator]
static COUNTING: cost::Counting = cost::Counting;

use explore::*;
use model::*;
use rec::{Rec, NONE};
use sess::*;
use std::collections::HashSet;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

const KNOWN_SETTINGS: &str = "settings-single";
const KNOWN_NOSTRIP: &str = "new-nostrip";

fn known_file() -> String {
    std::env::var("MC_KNOWN").unwrap_or_else(|_| concat!(env!("CARGO_MANIFEST_DIR"), "/../known-findings.txt").to_string())
}

/// (property, id, text) of the listed findings.
fn known_findings() -> Vec<(String, String, String)> {
    let s = std::fs::read_to_string(known_file()).unwrap_or_default();
    let mut v = Vec::new();
    for l in s.lines() {
        if let Some(r) = l.strip_prefix("known: ") {
            let mut f = r.splitn(3, ' ');
            let p = f.next().unwrap_or("").trim_start_matches("property=").to_string();
            let i = f.next().unwrap_or("").trim_start_matches("id=").to_string();
            v.push((p, i, f.next().unwrap_or("").to_string()));
        }
    }
    v
}

/// The recorded deviations are only tolerated if they are listed and exactly as recorded.
fn variant() -> Variant {
    let k = known_findings();
    let listed = |id: &str| k.iter().any(|(_, i, _)| i == id);
    let mut v = Variant::default();
    if listed(KNOWN_NOSTRIP) {
        v.new_nostrip = b"\r\n\t ".iter().all(|b| {
            let s = [*b, b'G', b' '];
            let mut p = H1P::make(Start::New);
            let mut r = Rec::new();
            r.start(s.as_ptr(), 3, NONE, 0);
            guard::call(&s, NONE, || H1P::resume(&mut p, &mut r, &s)) == Ok(Out::Err(h1model::X_METHOD, *b)) && r.toks.is_empty()
        });
    }
    if listed(KNOWN_SETTINGS) {
        v.settings_single = [0u8, 1, 0xff].iter().all(|x| {
            let mut s = numeric::h2hdr(12, 4, 0, 0);
            s.extend_from_slice(&[0, 3, *x, 2, 3, 4, 0, 4, *x, 0, 0, 7, 1, 0, 0]);
            let mut p = H2P::make(Start::H2);
            let mut r = Rec::new();
            r.start(s.as_ptr(), s.len(), NONE, 0);
            let o = guard::call(&s, NONE, || H2P::resume(&mut p, &mut r, &s));
            o == Ok(Out::Eos(s.len()))
                && r.toks == vec![tok::frame(12, 4, 0, 0), tok::e(tok::SETTING, 3, (*x as u64) << 24 | 0x020304),
                                  tok::frame(0x000400 | *x as u32, 0, 0, 0x07010000)]
        });
    }
    v
}

fn new_run(prop: &str, thorough: bool, seed: u64) -> Run {
    let secs = std::env::var("MC_SECONDS").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 3000 } else { 300 });
    Run {
        prop: prop.into(),
        mask: mask_of(prop).unwrap_or(0),
        thorough,
        seed,
        var: variant(),
        begin: Instant::now(),
        deadline: Instant::now() + Duration::from_secs(secs),
        slot: AtomicU64::new(u64::MAX),
        stop: AtomicBool::new(false),
        states: AtomicU64::new(0),
        transitions: AtomicU64::new(0),
        traces: AtomicU64::new(0),
        calls: AtomicU64::new(0),
        unmatched: AtomicU64::new(0),
        outcomes: Mutex::new(HashSet::new()),
        rep: Mutex::new(Report::default()),
    }
}

fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o + "\""
}

fn list(v: &[String]) -> String {
    let w: Vec<String> = v.iter().map(|s| format!("    {}", json(s))).collect();
    if w.is_empty() { "[]".into() } else { format!("[\n{}\n   ]", w.join(",\n")) }
}

fn evidence(run: &Run, known: &[String]) {
    let r = run.rep.lock().unwrap();
    let n = |a: &AtomicU64| a.load(Ordering::Relaxed);
    let others: Vec<String> = r.other.iter().map(|(m, (c, t))| format!("{} mismatches concerning {} only, first: {}", c, mask_names(*m), t.lines().next().unwrap_or(""))).collect();
    let assume = vec![
        "The reference model states the property; its every transition is executed on the real parser in lockstep.".to_string(),
        "Two executions that reach the same parser memory and the same model state have the same futures (parser objects are compared byte by byte, without padding and the running total).".to_string(),
        "Behaviour outside the listed alphabets, documents and bounds is not covered.".to_string(),
    ];
    let s = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"impl_calls\": {},\n  \"replays_with_other_storage\": {},\n  \"exhaustive\": {},\n  \"spaces\": {},\n  \"known_findings\": {},\n  \"mismatches_of_other_properties\": {},\n  \"samples\": {}\n }},\n \"assumptions\": {},\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
        json(&run.prop), json(if run.thorough { "thorough" } else { "quick" }), run.seed, n(&run.states), n(&run.transitions), n(&run.traces), n(&run.calls),
        n(&run.unmatched), !r.capped, list(&r.spaces), list(known), list(&others), list(&r.samples), list(&assume), run.begin.elapsed().as_secs_f64(), r.violation.is_some() as u32);
    let dir = std::env::var("MC_EVIDENCE").unwrap_or_else(|_| concat!(env!("CARGO_MANIFEST_DIR"), "/../evidence").to_string());
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(format!("{}/{}.json", dir, run.prop), s) {
        eprintln!("mc: cannot write evidence: {}", e);
        std::process::exit(3);
    }
}

fn check(id: &str, thorough: bool, seed: u64) -> i32 {
    let prop = id.to_string();
    guard::fallback(Box::new(move |what, c| explore::violation_text(&prop, &format!("a call {} (slice \"{}\")", what, tok::esc(c)), "bulk")));
    let run = new_run(id, thorough, seed);
    let mut known = Vec::new();
    for (p, i, t) in known_findings() {
        let on = (i == KNOWN_NOSTRIP && run.var.new_nostrip) || (i == KNOWN_SETTINGS && run.var.settings_single);
        if p == id && on {
            known.push(t);
        }
    }
    plans::run_plan(&run, id);
    evidence(&run, &known);
    for t in &known {
        println!("KNOWN-FINDING: property={} {}", id, t);
    }
    let r = run.rep.lock().unwrap();
    if std::env::var("MC_VERBOSE").is_ok() {
        for (m, (c, t)) in &r.other {
            eprintln!("other: {} x{}\n{}", mask_names(*m), c, t);
        }
    }
    match &r.violation {
        Some(v) => {
            print!("{}", v);
            1
        }
        None => {
            println!("{}: held; {} states, {} transitions, {} traces executed on the implementation, {:.1}s{}", id, run.states.load(Ordering::Relaxed),
                     run.transitions.load(Ordering::Relaxed), run.traces.load(Ordering::Relaxed), run.begin.elapsed().as_secs_f64(),
                     if r.capped { ", stopped at a cap" } else { "" });
            0
        }
    }
}

fn unhex(s: &str) -> Vec<u8> {
    if s == "-" {
        return vec![];
    }
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).expect("hex")).collect()
}

fn read_start(f: &[&str]) -> Start {
    match f[0] {
        "new" => Start::New,
        "head" => Start::Head,
        "chunked" => Start::Chunked,
        "multipart" => Start::Multipart(Box::leak(unhex(f[1]).into_boxed_slice())),
        "url" => Start::Url(f[1].parse().expect("number")),
        "h2" => Start::H2,
        x => panic!("unknown start {}", x),
    }
}

/// Re-execute every call of a recorded history, with all properties in force.
fn replay_ops<X: Proto>(run: &Run, start: Start, ops: &[Op]) {
    for strict in [false, true] {
        let mut cx = Cx::new(strict, run.var);
        let all = ops.to_vec();
        with_context(run, start, Box::new(move || all.clone()), || {
            let mut s = Sess::<X>::new(start, run.var);
            for (i, op) in ops.iter().enumerate() {
                match s.apply(op, &mut cx) {
                    Ok(f) => println!("  {} -> {}", show_ops_text(start, &ops[i..=i]), f.map(|f| show_out::<X>(f.out)).unwrap_or_else(|| "ok".into())),
                    Err(m) => {
                        handle::<X>(run, &mut cx, start, &ops[..=i], &m);
                        return;
                    }
                }
            }
        });
        if run.stopped() {
            return;
        }
    }
}

fn replay(path: &str) -> i32 {
    let text = std::fs::read_to_string(path).expect("replay file");
    let mut start = None;
    let mut ops = Vec::new();
    let mut run = new_run("A01", false, 1);
    for l in text.lines() {
        let f: Vec<&str> = l.split_whitespace().collect();
        match f.first().copied() {
            Some("property") => {
                run = new_run(f[1], false, 1);
            }
            Some("start") => start = Some(read_start(&f[1..])),
            Some("feed") => ops.push(Op::Feed(unhex(f[1]), if f.len() > 3 { f[3].parse().expect("number") } else { NONE })),
            Some("init") => ops.push(Op::Init(read_start(&f[1..]), false)),
            Some("reset") => ops.push(Op::Init(read_start(&f[1..]), true)),
            Some("util") => {
                for gap in 0..16 {
                    guard::FIRST_GAP.store(gap, std::sync::atomic::Ordering::Relaxed);
                    if !run.stopped() {
                        util::replay(&run, l);
                    }
                }
            }
            Some("bulk") => {
                let id = run.prop.clone();
                plans::run_plan(&run, &id);
            }
            _ => {}
        }
    }
    if let Some(s) = start {
        // the calls at every alignment
        for gap in 0..16 {
            guard::FIRST_GAP.store(gap, std::sync::atomic::Ordering::Relaxed);
            if run.stopped() {
                break;
            }
            if s == Start::H2 {
                replay_ops::<H2P>(&run, s, &ops);
            } else {
                replay_ops::<H1P>(&run, s, &ops);
            }
        }
    }
    let r = run.rep.lock().unwrap();
    for (m, (_, t)) in &r.other {
        println!("mismatch concerning {}:\n{}", mask_names(*m), t);
    }
    match &r.violation {
        Some(v) => {
            print!("{}", v);
            1
        }
        None => {
            println!("property {}: no violation in this history", run.prop);
            0
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    // in a process that has not used the library yet
    match (a.first().map(|s| &s[..]), a.get(1)) {
        (Some("check"), Some(id)) => step::first_of(id, a.iter().any(|x| x == "thorough")),
        (Some("replay"), Some(f)) => {
            let text = std::fs::read_to_string(f).unwrap_or_default();
            if text.lines().any(|l| l == "bulk") {
                if let Some(id) = text.lines().find_map(|l| l.strip_prefix("property ")) {
                    step::first_of(id, false);
                }
            }
        }
        _ => {}
    }
    guard::install();
    let opt = |n: &str| a.iter().position(|x| x == n).and_then(|i| a.get(i + 1)).cloned();
    let tier = opt("--tier").or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or_else(|| "quick".into());
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let code = match (a.first().map(|s| &s[..]), a.get(1)) {
        (Some("check"), Some(id)) if mask_of(id).is_some() => check(id, tier == "thorough", seed),
        (Some("replay"), Some(f)) => replay(f),
        (Some("sweep"), _) => {
            guard::fallback(Box::new(|what, _| format!("SWEEP caught [crash] a call {}\n", what)));
            let run = new_run("none", tier == "thorough", seed);
            plans::sweep(&run, a.get(1).map_or("all", |s| &s[..]));
            let r = run.rep.lock().unwrap();
            let u = r.other.keys().fold(0, |a, b| a | b);
            println!("SWEEP {} [{}] {:.1}s", if r.other.is_empty() { "quiet" } else { "caught" }, mask_names(u), run.begin.elapsed().as_secs_f64());
            for (m, (c, t)) in r.other.iter().take(6) {
                println!("{} x{}: {}", mask_names(*m), c, t);
            }
            0
        }
        (Some("list"), _) => {
            println!("{}", IDS.join("\n"));
            0
        }
        _ => {
            eprintln!("usage: mc check <property> [--tier quick|thorough] | mc replay <file> | mc list");
            2
        }
    };
    std::process::exit(code);
}
