//! What each check explores.

use crate::alpha;
use crate::docs::*;
use crate::explore::*;
use crate::model::*;
use crate::numeric::*;
use crate::sess::*;
use crate::util;
use std::cell::RefCell;

/// How a state space is explored.
#[derive(Clone, Copy, PartialEq, Eq)]
enum Way {
    /// Every slice in every state.
    Plain,
    /// And every callback interrupted.
    Stop,
    /// Nothing may be held back.
    Strict,
}

const ALL: [&str; 4] = ["head", "chunked", "multipart", "url"];

fn graphs(run: &Run, mode: &'static str, way: Way) {
    if later(2, move |run| graphs(run, mode, way)) {
        return;
    }
    let th = run.thorough;
    let mut lim = Limits::default();
    let stop = way == Way::Stop;
    let k = if th && !stop { 4 } else { 3 };
    let sets: Vec<(String, Vec<Start>, Vec<Vec<u8>>)> = match mode {
        "head" => {
            if stop {
                lim.ver = vec![1];
                lim.code = vec![2];
            }
            vec![("head".into(), vec![Start::New, Start::Head], alpha::head(if stop && !th { 1 } else { k }, !stop))]
        }
        "chunked" => {
            if stop && !th {
                lim.max_n = 2;
            }
            vec![("chunked".into(), vec![Start::Chunked], alpha::chunked(k))]
        }
        "multipart" => {
            let bs: Vec<&'static [u8]> = if th { BOUNDARIES.to_vec() } else { vec![b"ab", b"aab", b"-", b"a-", b"b"] };
            bs.into_iter().map(|b| (format!("multipart, boundary {}", String::from_utf8_lossy(b)), vec![Start::Multipart(b)], alpha::multipart(b, k.min(if b.len() > 8 { 2 } else { k })))).collect()
        }
        "url" => vec![("URL encoded body".into(), (0..=if th { 12 } else { 7 }).map(Start::Url).collect(), alpha::url(k))],
        "h2" => return h2_graph(run, way),
        _ => unreachable!(),
    };
    for (name, starts, chunks) in sets {
        Graph {
            name: format!("{}{}", name, if way == Way::Strict { ", nothing held back" } else { "" }),
            starts, chunks, limits: lim.clone(), interrupts: stop, inits: vec![], max_states: if th { 40_000_000 } else { 20_000_000 },
            strict_late: way == Way::Strict, cut_rest: stop && mode != "head",
        }.run::<H1P>(run);
    }
}

fn h2_limits(th: bool) -> Limits {
    let mut lim = Limits::default();
    lim.h2_flags = if th { vec![0, 8, 0x20, 0x28, 0xd7] } else { vec![0, 0x28] };
    lim.h2_u32 = vec![0x81020304];
    lim.h2_len = if th { 12 } else { 10 };
    lim.h2_types = vec![0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10];
    if th {
        lim.h2_types.push(255);
        lim.h2_pads = vec![0, 1, 2, 3];
    }
    lim
}

fn h2_graph(run: &Run, way: Way) {
    let th = run.thorough;
    let stop = way == Way::Stop;
    let lim = h2_limits(th);
    let chunks = if stop { alpha::h2(&[0, 6, 10], &lim.h2_types, &[0x28], if th { 2 } else { 1 }) }
        else { alpha::h2(&[0, 4, 5, 6, 8, 9, 10], &lim.h2_types, &lim.h2_flags, 2) };
    Graph {
        name: format!("HTTP/2{}", if way == Way::Strict { ", nothing held back" } else { "" }),
        starts: vec![Start::H2], chunks, limits: lim, interrupts: stop, inits: vec![], max_states: if th { 40_000_000 } else { 20_000_000 },
        strict_late: way == Way::Strict, cut_rest: stop,
    }.run::<H2P>(run);
}

/// Every mode, with re-initialisation for every mode in every state.
fn reinit(run: &Run) {
    if later(2, move |run| reinit(run)) {
        return;
    }
    let th = run.thorough;
    let mut lim = Limits::default();
    lim.ver = vec![1];
    lim.code = vec![2];
    lim.max_n = 2;
    let starts = vec![Start::New, Start::Head, Start::Chunked, Start::Multipart(b"ab"), Start::Multipart(b"b-c"), Start::Url(0), Start::Url(3)];
    let mut inits: Vec<(Start, bool)> = starts[1..].iter().map(|s| (*s, false)).collect();
    inits.extend(starts[1..].iter().map(|s| (*s, true)));
    let mut chunks = alpha::singles();
    for s in ["GET / HTTP/1.1\r\nA: b\r\n", "HTTP/1.1 200 O", "Host: 0123456789 0123456789", "3;a=\"b", "1\r\nx\r\n0\r\n", "--ab\r\nA: 3\r\n\r\n", "--ab\r\nA: b\r\n\r\nx\r\n--a", "--b-c\r\n\r\n", "a=%4", "%41&a", "HT", "\r\n\r\n", "0\r\nA: b\r\n c"] {
        chunks.push(s.as_bytes().to_vec());
    }
    if th {
        chunks.extend(alpha::strings(b"\r\n :-a0;=\"%H", 2, 2));
    }
    for stop in [false, true] {
        if stop && !th {
            lim.only = B04 | B05 | B06 | B07 | B08;
        }
        Graph {
            name: "all modes, re-initialised in every state".into(),
            starts: starts.clone(), chunks: chunks.clone(), limits: lim.clone(), interrupts: stop, inits: inits.clone(), max_states: if th { 8_000_000 } else { 600_000 },
            strict_late: false, cut_rest: false,
        }.run::<H1P>(run);
    }
}

fn h2_reinit(run: &Run) {
    if later(2, move |run| h2_reinit(run)) {
        return;
    }
    let th = run.thorough;
    let mut lim = h2_limits(th);
    lim.h2_flags = if th { vec![0, 8, 0x20, 0x28] } else { vec![0x28] };
    let mut chunks = alpha::singles();
    chunks.extend(alpha::h2(&[0, 6, 10], &lim.h2_types, &[0x28, 0], 1));
    for stop in [false, true] {
        Graph {
            name: "HTTP/2, reset in every state".into(),
            starts: vec![Start::H2], chunks: alpha::dedup(chunks.clone()), limits: lim.clone(), interrupts: stop, inits: vec![(Start::H2, true)],
            max_states: if th { 40_000_000 } else { 20_000_000 }, strict_late: false, cut_rest: false,
        }.run::<H2P>(run);
    }
}

fn cuts(run: &Run, interrupts: bool, strict: bool) -> Cuts {
    let long = match (interrupts, run.thorough) {
        (false, false) => (90, 6),
        (false, true) => (400, 40),
        (true, false) => (30, 3),
        (true, true) => (60, 10),
    };
    Cuts { max: 1 << 20, long, interrupts, empties: true, strict_late: strict }
}

fn names(run: &Run) {
    if later(1, move |run| names(run)) {
        return;
    }
    let c = Cuts { max: if run.thorough { 1 << 20 } else { 2 }, ..cuts(run, false, false) };
    explore_docs(run, "header names", &header_names(run.thorough), c);
}

/// Document sets by name.
fn docs(name: &str, th: bool) -> Vec<Doc> {
    match name {
        "request lines" => request_lines(th),
        "response lines" => response_lines(th),
        "header blocks" => header_blocks(th),
        "chunked bodies" => chunked(th),
        "multipart bodies" => multipart(th),
        "declared parts" => declared(th),
        "URL encoded bodies" => url(th),
        "frames" => h2(th),
        _ => unreachable!(),
    }
}

fn sets(mode: &str) -> &'static [&'static str] {
    match mode {
        "head" => &["request lines", "response lines", "header blocks"],
        "chunked" => &["chunked bodies"],
        "multipart" => &["multipart bodies", "declared parts"],
        "url" => &["URL encoded bodies"],
        "h2" => &["frames"],
        _ => unreachable!(),
    }
}

fn explore_docs(run: &Run, name: &str, d: &[Doc], c: Cuts) {
    if d.first().map(|x| x.start) == Some(Start::H2) {
        lattices::<H2P>(run, name, d, c);
    } else {
        lattices::<H1P>(run, name, d, c);
    }
}

fn lattice_set(run: &Run, set: &'static str, stop: bool, strict: bool) {
    if later(1, move |run| lattice_set(run, set, stop, strict)) {
        return;
    }
    let d = docs(set, run.thorough);
    explore_docs(run, set, &d, cuts(run, stop, strict));
}

/// Every byte of the bases replaced by every value, and small edits; every cutting in two or more.
fn mutations(run: &Run, bases_of: &'static [&'static str], stop: bool) {
    if later(1, move |run| mutations(run, bases_of, stop)) {
        return;
    }
    let th = run.thorough;
    for m in bases_of {
        let b = bases(m);
        let s = substituted(&b, th);
        let c = Cuts { max: match (stop, th) { (false, _) => 1 << 20, (true, true) => 8, (true, false) => 3 }, empties: false, ..cuts(run, stop, false) };
        explore_docs(run, &format!("{}: every byte replaced", m), &s, c);
        let e = edited(&b);
        explore_docs(run, &format!("{}: bytes inserted, doubled, dropped", m), &e, c);
    }
}

fn bases_for(mode: &str) -> &'static [&'static str] {
    match mode {
        "head" => &["request", "response", "headers"],
        "chunked" => &["chunked"],
        "multipart" => &["multipart", "declared"],
        "url" => &["url"],
        "h2" => &["h2"],
        _ => unreachable!(),
    }
}

thread_local!(static LATER: RefCell<Option<Vec<(u8, Box<dyn FnOnce(&Run)>)>>> = RefCell::new(None));

/// Within a plan, leave an exploration whose size depends on the code under test for later: what only takes
/// time linear in its inputs comes first, then the documents, then the graphs. Returns whether it was left.
fn later(rank: u8, f: impl FnOnce(&Run) + 'static) -> bool {
    LATER.with(|l| match &mut *l.borrow_mut() {
        Some(v) => {
            v.push((rank, Box::new(f)));
            true
        }
        None => false,
    })
}

pub fn run_plan(run: &Run, id: &str) {
    LATER.with(|l| *l.borrow_mut() = Some(Vec::new()));
    plan(run, id);
    let mut v = LATER.with(|l| l.borrow_mut().take()).unwrap();
    v.sort_by_key(|x| x.0);
    for (_, f) in v {
        run.slot(0.4);
        f(run);
    }
}

fn plan(run: &Run, id: &str) {
    let th = run.thorough;
    match id {
        "A01" | "E01" => {
            let modes: &[&str] = if id == "A01" { &ALL } else { &["h2"] };
            for m in modes {
                graphs(run, m, Way::Plain);
                for s in sets(m) {
                    lattice_set(run, s, false, false);
                }
                mutations(run, bases_for(m), false);
            }
            if id == "A01" {
                names(run);
                long_elements(run, B01 | B02 | B03 | B04 | B05 | B06 | B07 | B08);
                many::<H1P>(run, !0, false);
            } else {
                h2_lengths(run);
                many::<H2P>(run, !0, false);
            }
        }
        "A02" | "A03" | "E02" => {
            let modes: &[&str] = if id != "E02" { &ALL } else { &["h2"] };
            for m in modes {
                graphs(run, m, Way::Stop);
                for s in sets(m) {
                    lattice_set(run, s, true, false);
                }
                mutations(run, bases_for(m), true);
            }
            if id == "E02" {
                many::<H2P>(run, !0, true);
            } else {
                many::<H1P>(run, !0, true);
            }
            if id == "A03" {
                many_calls::<H1P>(run);
                for m in ALL {
                    graphs(run, m, Way::Plain);
                }
                bulk_total(run);
                h1_slices(run);
            } else {
                default_handler(run, id == "E02");
            }
        }
        "A04" => {
            reinit(run);
            many_calls::<H1P>(run);
            for m in ALL {
                for s in sets(m) {
                    lattice_set(run, s, false, false);
                }
            }
        }
        "A05" => {
            for m in ALL {
                graphs(run, m, Way::Plain);
                mutations(run, bases_for(m), false);
                for s in sets(m) {
                    lattice_set(run, s, true, false);
                }
            }
            reinit(run);
            names(run);
            long_elements(run, B01 | B02 | B03 | B04 | B05 | B06 | B07 | B08);
            many::<H1P>(run, !0, false);
            many_calls::<H1P>(run);
            url_bytes(run);
            huge_lengths(run);
            h1_slices(run);
        }
        "A06" => {
            for m in ALL {
                graphs(run, m, Way::Plain);
                mutations(run, bases_for(m), false);
                for s in sets(m) {
                    lattice_set(run, s, false, false);
                }
            }
            names(run);
            codes(run);
            url_escapes(run);
        }
        "A11" => {
            for m in ALL {
                graphs(run, m, Way::Plain);
                mutations(run, bases_for(m), false);
                for s in sets(m) {
                    lattice_set(run, s, false, false);
                }
                graphs(run, m, Way::Stop);
            }
            names(run);
            codes(run);
            versions(run, true, true);
            url_escapes(run);
        }
        "A07" | "E07" => {
            let modes: &[&str] = if id == "A07" { &ALL } else { &["h2"] };
            for m in modes {
                graphs(run, m, Way::Strict);
                for s in sets(m) {
                    lattice_set(run, s, false, true);
                }
            }
        }
        "A08" => {
            for m in ["head", "chunked", "multipart", "url", "h2"] {
                graphs(run, m, Way::Plain);
                for s in sets(m) {
                    lattice_set(run, s, true, false);
                }
            }
            long_elements(run, B01 | B02 | B03 | B04 | B05 | B06 | B07 | B08);
            h2_lengths(run);
            many::<H1P>(run, !0, false);
        }
        "B01" => {
            graphs(run, "head", Way::Plain);
            lattice_set(run, "request lines", true, false);
            mutations(run, &["request"], false);
            versions(run, true, false);
            urls(run);
            long_elements(run, B01);
            many::<H1P>(run, B01, false);
        }
        "B02" => {
            graphs(run, "head", Way::Plain);
            lattice_set(run, "response lines", true, false);
            mutations(run, &["response"], false);
            versions(run, false, true);
            codes(run);
            reasons(run);
            long_elements(run, B02);
            many::<H1P>(run, B02, false);
        }
        "B03" => {
            graphs(run, "head", Way::Plain);
            lattice_set(run, "header blocks", true, false);
            names(run);
            mutations(run, &["headers"], false);
            graphs(run, "chunked", Way::Plain);
            graphs(run, "multipart", Way::Plain);
            long_elements(run, B03);
            many::<H1P>(run, B03, false);
        }
        "B04" => {
            graphs(run, "chunked", Way::Stop);
            lattice_set(run, "chunked bodies", true, false);
            mutations(run, &["chunked"], false);
            long_elements(run, B04);
            h1_slices(run);
            many::<H1P>(run, B04, false);
            chunk_lengths(run);
        }
        "B05" => {
            graphs(run, "chunked", Way::Plain);
            graphs(run, "chunked", Way::Stop);
            lattice_set(run, "chunked bodies", true, false);
            mutations(run, &["chunked"], false);
            long_elements(run, B05);
            many::<H1P>(run, B05, false);
        }
        "B06" => {
            graphs(run, "multipart", Way::Plain);
            graphs(run, "multipart", Way::Stop);
            lattice_set(run, "multipart bodies", true, false);
            lattice_set(run, "declared parts", false, false);
            mutations(run, &["multipart"], false);
            long_elements(run, B06);
            boundaries(run);
            many::<H1P>(run, B06, false);
        }
        "B07" => {
            graphs(run, "multipart", Way::Plain);
            graphs(run, "multipart", Way::Stop);
            lattice_set(run, "declared parts", true, false);
            mutations(run, &["declared"], false);
            long_elements(run, B07);
            many::<H1P>(run, B07, false);
            huge_lengths(run);
        }
        "B10" => {
            for m in ALL {
                graphs(run, m, Way::Plain);
            }
            graphs(run, "multipart", Way::Stop);
            lattice_set(run, "multipart bodies", true, false);
            lattice_set(run, "declared parts", true, false);
            mutations(run, &["multipart", "declared"], false);
        }
        "B08" => {
            graphs(run, "url", Way::Plain);
            graphs(run, "url", Way::Stop);
            lattice_set(run, "URL encoded bodies", true, false);
            mutations(run, &["url"], false);
            url_escapes(run);
            url_bytes(run);
            long_elements(run, B08);
            many::<H1P>(run, B08, false);
            huge_lengths(run);
        }
        "A10" => crate::chains::connections(run),
        "H01" => {
            crate::step::first_report(run, H01, "H01");
            crate::chains::parallel(run);
            crate::chains::interleavings(run);
        }
        "H02" => crate::sparse::sparse(run),
        "H03" => crate::cost::costs(run),
        "H04" => crate::bomb::bombs(run),
        "A09" => {
            for m in ALL {
                graphs(run, m, Way::Plain);
                graphs(run, m, Way::Stop);
                for s in sets(m) {
                    lattice_set(run, s, true, false);
                }
                mutations(run, bases_for(m), false);
            }
            reinit(run);
            many_calls::<H1P>(run);
        }
        "E10" => {
            graphs(run, "h2", Way::Plain);
            graphs(run, "h2", Way::Stop);
            lattice_set(run, "frames", true, false);
            mutations(run, &["h2"], true);
            h2_reinit(run);
            h2_headers(run);
            many_calls::<H2P>(run);
        }
        "B09" => {
            for m in ALL {
                graphs(run, m, Way::Plain);
                graphs(run, m, Way::Stop);
                for s in sets(m) {
                    lattice_set(run, s, true, false);
                }
                mutations(run, bases_for(m), false);
            }
            many::<H1P>(run, !0, false);
        }
        "E03" => {
            graphs(run, "h2", Way::Plain);
            lattice_set(run, "frames", true, false);
            h2_headers(run);
            many::<H2P>(run, E03, false);
        }
        "E04" => {
            graphs(run, "h2", Way::Plain);
            lattice_set(run, "frames", true, false);
            mutations(run, &["h2"], false);
            h2_fields(run);
            many::<H2P>(run, E04, false);
        }
        "E05" => {
            graphs(run, "h2", Way::Plain);
            lattice_set(run, "frames", true, false);
            h2_lengths(run);
            many::<H2P>(run, E05, false);
        }
        "E06" => {
            graphs(run, "h2", Way::Plain);
            lattice_set(run, "frames", true, false);
            mutations(run, &["h2"], true);
            h2_headers(run);
            h2_lengths(run);
            h2_overlong(run);
            h2_slices(run);
            many::<H2P>(run, !0, false);
            many_calls::<H2P>(run);
        }
        "E08" => {
            h2_reinit(run);
            many_calls::<H2P>(run);
            many::<H2P>(run, !0, true);
            h2_total(run);
            h2_slices(run);
            graphs(run, "h2", Way::Stop);
            lattice_set(run, "frames", true, false);
            mutations(run, &["h2"], true);
        }
        _ => util::check_utils(run, id),
    }
}

/// Look for mismatches of any property, cheapest explorations first. Used to measure detection.
pub fn sweep(run: &Run, part: &str) {
    let (h1, h2, ut) = (part != "h2" && part != "util", part != "h1" && part != "util", part != "h1" && part != "h2");
    let enough = || {
        let r = run.rep.lock().unwrap();
        (!r.other.is_empty() && run.begin.elapsed().as_secs_f64() > 4.0) || run.stopped()
    };
    for m in ["url", "multipart", "chunked", "head", "h2"] {
        if !(if m == "h2" { h2 } else { h1 }) {
            continue;
        }
        for w in [Way::Plain, Way::Stop, Way::Strict] {
            if m != "h2" || w == Way::Plain {
                graphs(run, m, w);
            }
        }
        for s in sets(m) {
            lattice_set(run, s, m != "h2", false);
        }
        mutations(run, bases_for(m), false);
        if enough() {
            return;
        }
    }
    type Step = fn(&Run);
    let steps: Vec<(bool, Step)> = vec![
        (ut || h2, |r| util::check_utils(r, "E09")), (ut || h1, |r| util::check_utils(r, "G01")), (ut || h1, |r| util::check_utils(r, "G02")), (ut, |r| util::check_utils(r, "F06")), (ut, |r| util::check_utils(r, "F07")),
        (ut, |r| util::check_utils(r, "F05")), (h1, |r| default_handler(r, false)), (h2, |r| default_handler(r, true)), (h1, reinit), (h1, names),
        (h1, codes), (h1, url_escapes), (h1, url_bytes), (h1, urls), (h1, reasons), (h1, chunk_lengths), (h2, h2_overlong),
        (h1, |r| versions(r, true, true)), (h1, huge_lengths), (h1, crate::chains::connections), (h1, crate::chains::interleavings), (true, crate::sparse::sparse), (h2, h2_headers), (h2, h2_lengths), (h2, h2_fields), (h2, h2_reinit), (h2, |r| graphs(r, "h2", Way::Stop)),
        (h2, |r| graphs(r, "h2", Way::Strict)), (h1, |r| many::<H1P>(r, !0, false)), (h1, |r| many::<H1P>(r, !0, true)), (h1, many_calls::<H1P>),
        (h2, |r| many::<H2P>(r, !0, false)), (h2, |r| many::<H2P>(r, !0, true)), (h2, many_calls::<H2P>), (h1, |r| long_elements(r, B01 | B02 | B03 | B04 | B05 | B06 | B07 | B08)),
    ];
    for (on, s) in steps {
        if on {
            s(run);
        }
        if enough() {
            return;
        }
    }
}
