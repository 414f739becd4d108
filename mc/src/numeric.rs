//! Complete enumeration of numeric fields and of element lengths.

use crate::explore::*;
use crate::guard;
use crate::model::*;
use crate::rec::{Rec, NONE};
use crate::sess::*;
use crate::tok::*;
use std::sync::atomic::{AtomicU64, Ordering};

/// Run `f(cx, i)` for all `i < n` on all cores; every call is a history executed from a fresh parser.
pub fn par<F: Fn(&mut Cx, u64) + Sync>(run: &Run, name: &str, n: u64, f: F) {
    if run.stopped() {
        return;
    }
    let t0 = std::time::Instant::now();
    let next = AtomicU64::new(0);
    let done = AtomicU64::new(0);
    let calls = AtomicU64::new(0);
    let block = (n / 2048).clamp(1, 1024);
    std::thread::scope(|sc| {
        for _ in 0..threads() {
            sc.spawn(|| {
                guard::enter_thread();
                let mut cx = Cx::new(false, run.var);
                loop {
                    let i = next.fetch_add(block, Ordering::Relaxed);
                    if i >= n || run.stopped() || run.out_of_time() {
                        break;
                    }
                    for j in i..(i + block).min(n) {
                        f(&mut cx, j);
                        if run.stopped() {
                            break;
                        }
                    }
                    done.fetch_add((i + block).min(n) - i, Ordering::Relaxed);
                }
                calls.fetch_add(cx.calls, Ordering::Relaxed);
                guard::leave_thread();
            });
        }
    });
    let (done, calls) = (done.load(Ordering::Relaxed), calls.load(Ordering::Relaxed));
    if done < n && !run.stopped() {
        run.cap();
    }
    run.traces.fetch_add(done, Ordering::Relaxed);
    run.transitions.fetch_add(calls, Ordering::Relaxed);
    run.calls.fetch_add(calls, Ordering::Relaxed);
    run.space(format!("{}: {} of {} cases, {} calls ({:.1}s)", name, done, n, calls, t0.elapsed().as_secs_f64()));
}

fn ctx<R>(run: &Run, start: Start, doc: &[u8], f: impl FnOnce() -> R) -> R {
    let d = doc.to_vec();
    guard::PANICKED.set(false);
    with_context(run, start, Box::new(move || vec![Op::Feed(d.clone(), NONE)]), f)
}

/// The document in one slice, byte by byte, and in every two slices.
pub fn all_two<X: Proto>(run: &Run, cx: &mut Cx, start: Start, doc: &[u8]) {
    ctx(run, start, doc, || {
        let single: Vec<&[u8]> = doc.chunks(1).collect();
        straight::<X>(run, cx, start, &single, &[]);
        for i in 0..doc.len() {
            straight::<X>(run, cx, start, &[&doc[..i], &doc[i..]], &[]);
        }
    })
}

pub fn whole_and_bytes<X: Proto>(run: &Run, cx: &mut Cx, start: Start, doc: &[u8]) {
    ctx(run, start, doc, || {
        let single: Vec<&[u8]> = doc.chunks(1).collect();
        straight::<X>(run, cx, start, &single, &[]);
        straight::<X>(run, cx, start, &[doc], &[]);
    })
}

fn digits3(i: u64) -> String {
    // 0..10: one digit, 10..110: two digits, 110..1110: three digits
    if i < 10 {
        format!("{}", i)
    } else if i < 110 {
        format!("{:02}", i - 10)
    } else {
        format!("{:03}", i - 110)
    }
}

pub fn versions(run: &Run, req: bool, resp: bool) {
    let th = run.thorough;
    for (r, on) in [(true, req), (false, resp)] {
        if !on {
            continue;
        }
        par(run, if r { "request versions: all pairs of one to three digits" } else { "response versions: all pairs of one to three digits" },
            1110 * 1110, |cx, i| {
            let v = format!("{}.{}", digits3(i / 1110), digits3(i % 1110));
            let doc = if r { format!("G / HTTP/{}\r\n\r\n", v) } else { format!("HTTP/{} 200 K\r\n\r\n", v) };
            let doc = doc.as_bytes();
            if th || i % 1110 < 30 || i / 1110 < 30 || i % 101 == 0 {
                all_two::<H1P>(run, cx, Start::Head, doc);
            } else {
                whole_and_bytes::<H1P>(run, cx, Start::Head, doc);
            }
        });
    }
}

pub fn codes(run: &Run) {
    par(run, "status codes: all three digits", 1000, |cx, i| {
        for v in ["1.1", "2.0", "1.0", "3.14"] {
            let doc = format!("HTTP/{} {:03} Reason x\r\n\r\n", v, i);
            all_two::<H1P>(run, cx, Start::Head, doc.as_bytes());
        }
        for bad in [format!("HTTP/1.1 {} x\r\n", i), format!("HTTP/1.1 {:04} x\r\n", i), format!("HTTP/1.1 {:02} \r\n", i % 100)] {
            all_two::<H1P>(run, cx, Start::Head, bad.as_bytes());
        }
    });
    // every byte in every position of the code
    par(run, "status codes: every pair of bytes in the code", 3 * 65536, |cx, i| {
        let p = (i / 65536) as usize;
        let (a, b) = ((i >> 8) as u8, i as u8);
        let mut doc = b"HTTP/1.1 200 OK\r\n".to_vec();
        let at = [(9, 10), (10, 11), (11, 12)][p];
        doc[at.0] = a;
        doc[at.1] = b;
        whole_and_bytes::<H1P>(run, cx, Start::Head, &doc);
    });
}

pub fn reasons(run: &Run) {
    par(run, "reason texts: every pair of bytes", 65536, |cx, i| {
        let mut doc = b"HTTP/1.1 200 xyz\r\n\r\n".to_vec();
        doc[13] = (i >> 8) as u8;
        doc[14] = i as u8;
        whole_and_bytes::<H1P>(run, cx, Start::Head, &doc);
    });
}

pub fn urls(run: &Run) {
    par(run, "URLs: every pair of bytes", 65536, |cx, i| {
        let mut doc = b"GET /xyz HTTP/1.1\r\n\r\n".to_vec();
        doc[5] = (i >> 8) as u8;
        doc[6] = i as u8;
        whole_and_bytes::<H1P>(run, cx, Start::Head, &doc);
    });
    par(run, "methods: every pair of bytes", 65536 * 2, |cx, i| {
        let mut doc = b"GET / HTTP/1.1\r\n\r\n".to_vec();
        if i >= 65536 {
            doc = b"HTTPX / HTTP/1.1\r\n\r\n".to_vec();
            doc[3] = (i >> 8) as u8;
            doc[4] = i as u8;
        } else {
            doc[0] = (i >> 8) as u8;
            doc[1] = i as u8;
        }
        whole_and_bytes::<H1P>(run, cx, Start::Head, &doc);
    });
}

/// Chunk length fields.
pub fn chunk_lengths(run: &Run) {
    const HEX: &[u8] = b"0123456789abcdefABCDEF";
    let th = run.thorough;
    let full = if th { 4 } else { 3 };
    par(run, &format!("chunk lengths: all up to {} digits", full), crate::util::count(HEX, full), |cx, i| {
        let mut v = Vec::new();
        crate::util::nth(HEX, i, &mut v);
        for end in [&b"\r\n"[..], b";a\r\n", b"\n", b" \r\n"] {
            let mut doc = v.clone();
            doc.extend_from_slice(end);
            all_two::<H1P>(run, cx, Start::Chunked, &doc);
        }
    });
    let few = b"017fF";
    let n = if th { 10 } else { 9 };
    par(run, &format!("chunk lengths: up to {} digits of 0, 1, 7, f, F", n), crate::util::count(few, n), |cx, i| {
        let mut v = Vec::new();
        crate::util::nth(few, i, &mut v);
        for end in [&b"\r\nx"[..], b";a=b\r\nx"] {
            let mut doc = v.clone();
            doc.extend_from_slice(end);
            whole_and_bytes::<H1P>(run, cx, Start::Chunked, &doc);
        }
    });
    // one digit at every place of eight
    par(run, "chunk lengths: every digit at every place of eight", 8 * 22 * 22, |cx, i| {
        let mut v = vec![b'1'; 8];
        let p = (i / 484) as usize;
        v[0] = HEX[1 + (i % 21) as usize];
        v[p] = HEX[((i / 22) % 22) as usize];
        v[7 - p] = HEX[(i % 22) as usize];
        v.extend_from_slice(b"\r\nx");
        all_two::<H1P>(run, cx, Start::Chunked, &v);
    });
    bulk_chunks(run);
    bulk_total(run);
}

fn bulk_fail(run: &Run, mask: u64, text: String) {
    let (mask, text) = if guard::PANICKED.get() { (mask | A05 | E06, text + "; a call panics") } else { (mask, text) };
    let t = format!("{}\n  violates: {}", text, mask_names(mask));
    if mask & run.mask != 0 {
        run.violate(&t, "bulk");
    } else {
        run.other(mask, &t);
    }
}

/// Data of huge chunks, in slices of a gigabyte.
fn bulk_chunks(run: &Run) {
    let area = guard::huge(1 << 30);
    par(run, "huge chunks delivered completely", 9, |cx, i| {
        cx.calls += 1;
        let len = [1u64 << 16, (1 << 24) - 1, 1 << 24, (1 << 30) - 1, 1 << 30, (1 << 31) - 1, 1 << 31, (1 << 32) - 2, (1 << 32) - 1][i as usize];
        let text = format!("chunk of {:#x} bytes in slices of up to {:#x}", len, area.len());
        ctx(run, Start::Chunked, format!("{:X}\r\n", len).as_bytes(), || {
            let mut p = http_box::http1::Parser::new();
            p.init_chunked();
            let mut r = Rec::new();
            r.bulk = true;
            let head = format!("{:X}\r\n", len).into_bytes();
            r.start(head.as_ptr(), head.len(), NONE, 0);
            let o = guard::call(&head, NONE, || H1P::resume(&mut p, &mut r, &head));
            if o != Ok(Out::Eos(head.len())) || !r.toks.iter().any(|t| *t == e(CHLEN, 0, len)) {
                return bulk_fail(run, B04, format!("{}: not announced with its length", text));
            }
            let mut left = len;
            while left > 0 {
                let n = left.min(area.len() as u64) as usize;
                let s = &area[area.len() - n..];
                r.start(s.as_ptr(), s.len(), NONE, 0);
                match guard::call(&s[..0], NONE, || H1P::resume(&mut p, &mut r, s)) {
                    Ok(Out::Eos(k)) if k == n => {}
                    Ok(o) => return bulk_fail(run, B04 | A03, format!("{}: {} with {} bytes left", text, show_out::<H1P>(o), left)),
                    Err(()) => return bulk_fail(run, B04 | A05, format!("{}: panics with {} bytes left", text, left)),
                }
                let mut pos = 0;
                for (k, _, off, l) in &r.bulks {
                    if *k != CDATA || *off != pos {
                        return bulk_fail(run, B04 | A08, format!("{}: data not delivered in place", text));
                    }
                    pos += l;
                }
                if pos != n {
                    return bulk_fail(run, B04, format!("{}: {} of {} bytes delivered", text, pos, n));
                }
                left -= n as u64;
            }
            let tail = b"\r\n0\r\n\r\n";
            r.bulk = false;
            r.start(tail.as_ptr(), tail.len(), NONE, 0);
            let o = guard::call(tail, NONE, || H1P::resume(&mut p, &mut r, tail));
            if o != Ok(Out::Fin(tail.len())) {
                return bulk_fail(run, B04, format!("{}: the body does not end after it", text));
            }
            let want = head.len() as u64 + len + tail.len() as u64;
            if H1P::byte_count(&p) as u64 != want {
                return bulk_fail(run, A03, format!("{}: the running total is {} instead of {}", text, H1P::byte_count(&p), want));
            }
        });
    });
}

/// Totals beyond 32 bits.
pub fn bulk_total(run: &Run) {
    let area = guard::huge(1 << 30);
    par(run, "running total beyond 2^33", 1, |cx, _| {
        cx.calls += 1;
        ctx(run, Start::Chunked, b"FFFFFFFF\r\n", || {
            let mut p = http_box::http1::Parser::new();
            p.init_chunked();
            let mut r = Rec::new();
            r.bulk = true;
            let mut total = 0u64;
            let mut feed = |p: &mut _, r: &mut Rec, s: &[u8]| {
                r.start(s.as_ptr(), s.len(), NONE, 0);
                let o = guard::call(&s[..0], NONE, || H1P::resume(p, r, s));
                total += s.len() as u64;
                o == Ok(Out::Eos(s.len())) && H1P::byte_count(p) as u64 == total
            };
            for _ in 0..3 {
                let mut ok = feed(&mut p, &mut r, b"FFFFFFFF\r\n");
                let mut left = (1u64 << 32) - 1;
                while left > 0 {
                    let n = left.min(area.len() as u64) as usize;
                    ok &= feed(&mut p, &mut r, &area[area.len() - n..]);
                    left -= n as u64;
                }
                ok &= feed(&mut p, &mut r, b"\r\n");
                if !ok {
                    return bulk_fail(run, A03, "the running total does not follow the consumed bytes".into());
                }
            }
        });
    });
}

/// Elements of all lengths and at buffer-size boundaries.
pub fn long_elements(run: &Run, what: u64) {
    let top = if run.thorough { 17 } else { 15 };
    let mut lens: Vec<usize> = (0..=300).collect();
    for k in 9..=top {
        lens.extend_from_slice(&[(1 << k) - 1, 1 << k, (1 << k) + 1]);
    }
    let kinds: Vec<(Start, &str, &str, u8, u64)> = vec![
        (Start::Head, "", " / HTTP/1.1\r\n\r\n", b'M', B01),
        (Start::Head, "GET /", " HTTP/1.1\r\n\r\n", b'u', B01),
        (Start::Head, "", "GET / HTTP/1.1\r\n\r\n", b' ', B01),
        (Start::Head, "HTTP/1.1 200 O", "\r\n\r\n", b'K', B02),
        (Start::Head, "GET / HTTP/1.1\r\nN", ": v\r\n\r\n", b'n', B03),
        (Start::Head, "GET / HTTP/1.1\r\nN", ": v\r\n\r\n", b'N', B03),
        (Start::Head, "GET / HTTP/1.1\r\nHost: v", "\r\n\r\n", b'v', B03),
        (Start::Head, "GET / HTTP/1.1\r\nHost:", "v\r\n\r\n", b' ', B03),
        (Start::Head, "GET / HTTP/1.1\r\nHost: \"", "\"\r\n\r\n", b'q', B03),
        (Start::Head, "GET / HTTP/1.1\r\nHost: v\r\n ", "\r\n\r\n", b'f', B03),
        (Start::Chunked, "1;n", "=v\r\nx\r\n0\r\n\r\n", b'x', B05),
        (Start::Chunked, "1;n=v", "\r\nx\r\n0\r\n\r\n", b'y', B05),
        (Start::Chunked, "1;n=\"", "\"\r\nx\r\n0\r\n\r\n", b'z', B05),
        (Start::Chunked, "0\r\nT: t", "\r\n\r\n", b't', B05),
        (Start::Multipart(b"bd"), "--bd\r\nA: b\r\n\r\n", "\r\n--bd--", b'm', B06),
        (Start::Multipart(b"bd"), "--bd\r\nA: b\r\n\r\n", "\r\n--bd--", b'\r', B06),
        (Start::Multipart(b"bd"), "--bd\r\nA: b\r\n\r\n", "\r\n--bd--", b'-', B06),
    ];
    par(run, &format!("elements of 0..300 bytes and around powers of two up to 2^{}", top), (lens.len() * kinds.len()) as u64, |cx, i| {
        let len = lens[i as usize % lens.len()];
        let (start, pre, post, c, m) = kinds[i as usize / lens.len()];
        if m & what == 0 {
            return;
        }
        let mut doc = pre.as_bytes().to_vec();
        doc.resize(doc.len() + len, c);
        doc.extend_from_slice(post.as_bytes());
        slices(run, cx, start, &doc, pre.len(), len);
    });
    // counted elements
    let counted: Vec<u64> = vec![B04, B07, B08, B08];
    par(run, &format!("counted elements of 0..300 bytes and around powers of two up to 2^{}", top), (lens.len() * counted.len()) as u64, |cx, i| {
        let len = lens[i as usize % lens.len()];
        let k = i as usize / lens.len();
        if counted[k] & what == 0 {
            return;
        }
        match k {
            0 if len > 0 => {
                let pre = format!("{:x}\r\n", len);
                let mut doc = pre.as_bytes().to_vec();
                doc.extend((0..len).map(|j| b"\r\n0;x"[j % 5]));
                doc.extend_from_slice(b"\r\n0\r\n\r\n");
                slices(run, cx, Start::Chunked, &doc, pre.len(), len);
            }
            2 if len > 0 => {
                let mut doc = b"a=".to_vec();
                doc.resize(len.max(2), b'v');
                let n = doc.len();
                doc.extend_from_slice(b"&x");
                slices(run, cx, Start::Url(n), &doc, 0, n);
            }
            3 if len > 0 => {
                let mut doc = vec![b'n'; len];
                doc.extend_from_slice(b"&x");
                slices(run, cx, Start::Url(len), &doc, 0, len);
            }
            1 => declared_length(run, cx, len),
            _ => {}
        }
    });
}

/// A multipart part whose declared length is `len`.
fn declared_length(run: &Run, cx: &mut Cx, len: usize) {
    let start = Start::Multipart(b"bd");
    let pre = b"--bd\r\nA: b\r\n\r\n";
    let data: Vec<u8> = (0..len).map(|j| b"\r\n--bd--x"[j % 9]).collect();
    for cut in [0, 1, len / 2, len.saturating_sub(1), len] {
        let cut = cut.min(len);
        let mut doc = pre.to_vec();
        doc.extend_from_slice(&data);
        doc.extend_from_slice(b"\r\n--bd--");
        let d2 = doc.clone();
        ctx(run, start, &d2, || {
            let mut p = H1P::make(start);
            let mut r = Rec::new();
            r.cl_override = Some(len);
            let mut toks = Vec::new();
            let mut used = 0;
            let mut fin = false;
            for s in [&doc[..pre.len() + cut], &doc[pre.len() + cut..]] {
                let s = cx.guard.place(s);
                r.start(s.as_ptr(), s.len(), NONE, 0);
                cx.calls += 1;
                match guard::call(s, NONE, || H1P::resume(&mut p, &mut r, s)) {
                    Ok(Out::Eos(n)) => used += n,
                    Ok(Out::Fin(n)) => {
                        used += n;
                        fin = true;
                    }
                    _ => {}
                }
                toks.extend_from_slice(&r.toks);
            }
            let mut want: Vec<Tok> = vec![e(MPBEGIN, 0, 0), d(HNAME, b'a'), d(HVAL, b'b'), e(HDRFIN, 0, 0)];
            want.extend(data.iter().map(|b| d(MDATA, *b)));
            want.push(e(BODYFIN, 0, 0));
            if toks != want || !fin || used != doc.len() {
                bulk_fail(run, B07, format!("declared part length {}, cut {}: finished {}, {} bytes used, delivered {}", len, cut, fin, used,
                                            &show(&toks).chars().take(200).collect::<String>()));
            }
        });
    }
}

/// Declared lengths around every power of two.
pub fn huge_lengths(run: &Run) {
    let mut lens: Vec<usize> = vec![usize::MAX, usize::MAX - 1, usize::MAX - 9, usize::MAX / 10, usize::MAX / 10 + 1];
    for k in 4..64 {
        for dlt in [-2i64, -1, 0, 1, 2, 5] {
            lens.push((1usize << k).wrapping_add(dlt as usize));
        }
    }
    let bodies: [&[u8]; 4] = [b"a=b&%41+", b"a", b"", b"nn=vv"];
    par(run, "declared body lengths around every power of two: the beginning of the body", lens.len() as u64, |cx, i| {
        for b in bodies {
            whole_and_bytes::<H1P>(run, cx, Start::Url(lens[i as usize]), b);
        }
    });
    par(run, "declared part lengths around every power of two: the beginning of the part", lens.len() as u64, |cx, i| {
        part_prefix(run, cx, lens[i as usize]);
    });
    let area = guard::huge(1 << 30);
    let full: Vec<usize> = vec![(1 << 16) + 3, (1 << 24) + 1, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, (1 << 33) + 7];
    par(run, "huge declared parts delivered completely", full.len() as u64, |cx, i| {
        part_whole(run, cx, full[i as usize], area);
    });
    let full: Vec<usize> = if run.thorough { vec![(1 << 24) + 1, (1 << 31) + 1, 1 << 32, (1 << 32) + 4, (1 << 33) + 1] } else { vec![(1 << 24) + 1, (1 << 31) + 1, (1 << 32) + 4] };
    par(run, "huge URL encoded bodies delivered completely", full.len() as u64, |cx, i| {
        body_whole(run, cx, full[i as usize]);
    });
}

fn part_prefix(run: &Run, cx: &mut Cx, len: usize) {
    let start = Start::Multipart(b"bd");
    let pre = b"--bd\r\nA: b\r\n\r\n";
    let data = b"\r\n--bd--\r\n--";
    let len = len.max(data.len());
    let mut doc = pre.to_vec();
    doc.extend_from_slice(data);
    let mut want: Vec<Tok> = vec![e(MPBEGIN, 0, 0), d(HNAME, b'a'), d(HVAL, b'b'), e(HDRFIN, 0, 0)];
    want.extend(data.iter().map(|b| d(MDATA, *b)));
    for k in [1usize, 4, pre.len(), doc.len()] {
        ctx(run, start, &doc, || {
            let mut p = H1P::make(start);
            let mut r = Rec::new();
            r.cl_override = Some(len);
            let mut toks = Vec::new();
            let mut used = 0;
            for s in doc.chunks(k) {
                let s = cx.guard.place(s);
                r.start(s.as_ptr(), s.len(), NONE, 0);
                cx.calls += 1;
                if let Ok(Out::Eos(n)) = guard::call(s, NONE, || H1P::resume(&mut p, &mut r, s)) {
                    used += n;
                }
                toks.extend_from_slice(&r.toks);
            }
            if toks != want || used != doc.len() {
                bulk_fail(run, B07, format!("declared part length {}: {} bytes used, delivered {}", len, used, show(&toks)));
            }
        });
    }
}

fn part_whole(run: &Run, cx: &mut Cx, len: usize, area: &[u8]) {
    let start = Start::Multipart(b"bd");
    cx.calls += 1;
    let head = b"--bd\r\n\r\n";
    ctx(run, start, head, || {
        let mut p = H1P::make(start);
        let mut r = Rec::new();
        r.cl_override = Some(len);
        r.start(head.as_ptr(), head.len(), NONE, 0);
        let o = guard::call(head, NONE, || H1P::resume(&mut p, &mut r, head));
        if o != Ok(Out::Eos(head.len())) {
            return bulk_fail(run, B07, format!("declared part length {}: the part does not begin", len));
        }
        r.bulk = true;
        let mut left = len;
        while left > 0 {
            let n = left.min(area.len());
            let s = &area[area.len() - n..];
            r.start(s.as_ptr(), s.len(), NONE, 0);
            let o = guard::call(&s[..0], NONE, || H1P::resume(&mut p, &mut r, s));
            let whole = r.bulks.iter().map(|b| b.3).sum::<usize>() == n && r.bulks.iter().all(|b| b.0 == MDATA);
            if o != Ok(Out::Eos(n)) || !whole {
                return bulk_fail(run, B07, format!("declared part length {}: the slice that leaves {} bytes is not all data", len, left - n));
            }
            left -= n;
        }
        let tail = b"\r\n--bd--";
        r.bulk = false;
        r.start(tail.as_ptr(), tail.len(), NONE, 0);
        let o = guard::call(tail, NONE, || H1P::resume(&mut p, &mut r, tail));
        if o != Ok(Out::Fin(tail.len())) || r.toks != [e(BODYFIN, 0, 0)] {
            bulk_fail(run, B07, format!("declared part length {}: no boundary is found after it", len));
        }
    });
}

fn body_whole(run: &Run, cx: &mut Cx, len: usize) {
    let start = Start::Url(len);
    cx.calls += 1;
    let area = vec![b'v'; 1 << 24];
    ctx(run, start, b"n=", || {
        let mut p = H1P::make(start);
        let mut r = Rec::new();
        let head = b"n=";
        r.start(head.as_ptr(), head.len(), NONE, 0);
        let o = guard::call(head, NONE, || H1P::resume(&mut p, &mut r, head));
        if o != Ok(Out::Eos(2)) {
            return bulk_fail(run, B08, format!("body of {} bytes: ends with its name", len));
        }
        r.bulk = true;
        let mut left = len - 2;
        while left > area.len() {
            let s = &area[..];
            r.start(s.as_ptr(), s.len(), NONE, 0);
            let o = guard::call(&s[..0], NONE, || H1P::resume(&mut p, &mut r, s));
            let whole = r.bulks.iter().map(|b| b.3).sum::<usize>() == s.len() && r.bulks.iter().all(|b| b.0 == UVAL);
            if o != Ok(Out::Eos(s.len())) || !whole {
                return bulk_fail(run, B08, format!("body of {} bytes: wrong with {} bytes left", len, left));
            }
            left -= s.len();
        }
        // one byte more than there are left
        let mut last = area[..left].to_vec();
        last.push(b'%');
        r.start(last.as_ptr(), last.len(), NONE, 0);
        let o = guard::call(&last[..0], NONE, || H1P::resume(&mut p, &mut r, &last));
        let got = r.bulks.iter().map(|b| b.3).sum::<usize>();
        if o != Ok(Out::Fin(left)) || got != left {
            return bulk_fail(run, B08, format!("body of {} bytes: {} of the last {} bytes are delivered", len, got, left));
        }
        if H1P::byte_count(&p) != len {
            bulk_fail(run, A03, format!("body of {} bytes: the running total is {}", len, H1P::byte_count(&p)));
        }
    });
}

/// One slice, byte-wise for short ones, and cuts around the element's ends and middle.
fn slices(run: &Run, cx: &mut Cx, start: Start, doc: &[u8], at: usize, len: usize) {
    ctx(run, start, doc, || {
        straight::<H1P>(run, cx, start, &[doc], &[]);
        if len <= 300 {
            for gap in 1..16 {
                cx.guard.gap.set(gap);
                straight::<H1P>(run, cx, start, &[doc], &[]);
            }
            cx.guard.gap.set(0);
        }
        if len <= 4200 {
            let single: Vec<&[u8]> = doc.chunks(1).collect();
            straight::<H1P>(run, cx, start, &single, &[]);
        }
        for k in [7usize, 64] {
            let v: Vec<&[u8]> = doc.chunks(k).collect();
            straight::<H1P>(run, cx, start, &v, &[]);
        }
        for c in [at, at + 1, at + len / 2, (at + len).saturating_sub(1), at + len, at + len + 1, at + len + 2] {
            if c <= doc.len() {
                straight::<H1P>(run, cx, start, &[&doc[..c], &doc[c..]], &[]);
            }
        }
    })
}

pub fn url_escapes(run: &Run) {
    par(run, "body escapes: all 65536, in name and value, complete and at the end", 65536, |cx, i| {
        let e = [b'%', (i >> 8) as u8, i as u8];
        for (pre, post, n) in [(&b""[..], &b""[..], 0usize), (b"a=", b"", 0), (b"a", b"b", 0), (b"a=b", b"c", 0), (b"", b"&b", 0), (b"x=", b"&", 1)] {
            let mut v = pre.to_vec();
            v.extend_from_slice(&e);
            v.extend_from_slice(post);
            whole_and_bytes::<H1P>(run, cx, Start::Url(v.len() - n), &v);
        }
    });
    par(run, "body escapes: cut off by the declared length", 256, |cx, i| {
        for v in [vec![b'%', i as u8, b'1', b'2'], vec![b'a', b'=', b'%', i as u8, b'1', b'2'], vec![b'a', b'%', i as u8, b'1']] {
            for n in 0..=v.len() {
                all_two::<H1P>(run, cx, Start::Url(n), &v);
            }
        }
    });
}

pub fn url_bytes(run: &Run) {
    par(run, "body bytes: every pair in name and value", 65536, |cx, i| {
        let (a, b) = ((i >> 8) as u8, i as u8);
        for doc in [vec![b'n', a, b, b'=', b'v'], vec![b'n', b'=', a, b, b'w'], vec![a, b]] {
            whole_and_bytes::<H1P>(run, cx, Start::Url(doc.len()), &doc);
        }
    });
}

// -------------------------------------------------------------------------------------------------
// HTTP/2
// -------------------------------------------------------------------------------------------------

pub fn h2hdr(len: u32, ty: u8, fl: u8, id: u32) -> Vec<u8> {
    let mut v = len.to_be_bytes()[1..].to_vec();
    v.push(ty);
    v.push(fl);
    v.extend_from_slice(&id.to_be_bytes());
    v
}

/// Every value of every byte of the frame header, with several contexts.
pub fn h2_headers(run: &Run) {
    let lens = [0u32, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 254, 255, 256, 257, 258, 261, 262, 263, 0xffff, 0x10000, 0xfffffe, 0xffffff];
    par(run, "frame headers: all types and flags, lengths around every minimum and maximum", 65536, |cx, i| {
        let (ty, fl) = ((i >> 8) as u8, i as u8);
        for (k, len) in lens.iter().enumerate() {
            let id = [0u32, 1, 0x80000000, 0x7fffffff, 0xffffffff, 0x81020304, 0x01020384][(k + i as usize) % 7];
            let mut doc = h2hdr(*len, ty, fl, id);
            doc.extend_from_slice(&[0, 1, 2, 3, 4]);
            whole_and_bytes::<H2P>(run, cx, Start::H2, &doc);
        }
    });
    par(run, "frame headers: every value of every two header bytes", 36 * 65536, |cx, i| {
        let pairs: Vec<(usize, usize)> = (0..9).flat_map(|a| (a + 1..9).map(move |b| (a, b))).collect();
        let (a, b) = pairs[(i >> 16) as usize];
        let mut doc = h2hdr(0x030405, 0, 0x11, 0x01020304);
        doc[a] = (i >> 8) as u8;
        doc[b] = i as u8;
        whole_and_bytes::<H2P>(run, cx, Start::H2, &doc);
    });
}

/// A frame of fixed fields followed by a second frame.
fn frame_doc(ty: u8, fl: u8, id: u32, payload: &[u8]) -> Vec<u8> {
    let mut v = h2hdr(payload.len() as u32, ty, fl, id);
    v.extend_from_slice(payload);
    v.extend_from_slice(&h2hdr(2, 0, 1, 5));
    v.extend_from_slice(b"zz");
    v
}

pub fn h2_fields(run: &Run) {
    // (type, flags, fixed bytes, rest)
    let kinds: [(u8, u8, usize, usize); 12] = [
        (1, 0x20, 5, 0), (1, 0x20, 5, 2), (1, 0x28, 6, 3), (2, 0, 5, 0), (3, 0, 4, 0), (4, 0, 6, 0), (5, 4, 4, 2), (5, 8, 5, 3),
        (7, 0, 8, 0), (7, 0, 8, 2), (8, 0, 4, 0), (4, 1, 0, 0),
    ];
    par(run, "fixed fields: every value of every two field bytes", kinds.len() as u64 * 28 * 65536, |cx, i| {
        let (ty, fl, fixed, rest) = kinds[(i / (28 * 65536)) as usize];
        let pairs: Vec<(usize, usize)> = (0..8).flat_map(|a| (a + 1..8).map(move |b| (a, b))).collect();
        let (a, b) = pairs[((i >> 16) % 28) as usize];
        if b >= fixed || (fl & 8 != 0 && a == 0 && ((i >> 8) as u8) > 4) {
            return;
        }
        let mut p: Vec<u8> = (0..fixed as u8).map(|x| 0x11 * (x + 1)).collect();
        p[a] = (i >> 8) as u8;
        p[b] = i as u8;
        if fl & 8 != 0 && a != 0 {
            p[0] = 1;
        }
        p.extend((0..rest as u8).map(|x| b'a' + x));
        let doc = frame_doc(ty, fl, 3, &p);
        whole_and_bytes::<H2P>(run, cx, Start::H2, &doc);
    });
    par(run, "fixed fields: every byte position, every cut in two", 12 * 9 * 256, |cx, i| {
        let (ty, fl, fixed, rest) = kinds[(i / (9 * 256)) as usize];
        let a = ((i / 256) % 9) as usize;
        if a >= fixed || (fl & 8 != 0 && a == 0 && (i as u8) > 4) {
            return;
        }
        let mut p: Vec<u8> = (0..fixed as u8).map(|x| 0xf1 - 0x11 * x).collect();
        if fl & 8 != 0 {
            p[0] = 1;
        }
        p[a] = i as u8;
        p.extend((0..rest as u8).map(|x| b'a' + x));
        let doc = frame_doc(ty, fl, 3, &p);
        all_two::<H2P>(run, cx, Start::H2, &doc);
    });
}

/// Payload and padding lengths.
pub fn h2_lengths(run: &Run) {
    let types: [u8; 8] = [0, 1, 5, 6, 7, 9, 10, 255];
    let th = run.thorough;
    let mut lens: Vec<usize> = (0..=40).collect();
    lens.extend_from_slice(&[63, 64, 65, 127, 128, 129, 250, 254, 255, 256, 257, 258, 259, 260, 261, 262, 263, 264, 265, 270, 300, 511, 512, 513]);
    let pads: Vec<usize> = (0..=255).collect();
    par(run, "payload and padding: all pad lengths for payloads of 0..40 and around 64, 128, 256, 512 bytes", (types.len() * 2 * lens.len() * 256) as u64, |cx, i| {
        let i = i as usize;
        let pad = pads[i % 256];
        let len = lens[(i / 256) % lens.len()];
        let prio = (i / 256 / lens.len()) % 2;
        let ty = types[i / 256 / lens.len() / 2];
        if prio == 1 && ty != 1 {
            return;
        }
        if !th && len > 44 && !(pad < 8 || pad > 244 || (pad + 12 > len && pad < len + 4)) {
            return;
        }
        let fl = 8 | if prio == 1 { 0x20 } else { 0 };
        let mut p = vec![pad as u8];
        p.extend((1..len).map(|x| x as u8));
        p.truncate(len);
        let doc = frame_doc(ty, fl, 7, &p);
        whole_and_bytes::<H2P>(run, cx, Start::H2, &doc);
        if len < 20 && pad < 20 {
            all_two::<H2P>(run, cx, Start::H2, &doc);
        }
    });
    par(run, "payload lengths without padding", (types.len() * 600) as u64, |cx, i| {
        let len = (i % 600) as usize;
        let ty = types[(i / 600) as usize];
        let p: Vec<u8> = (0..len).map(|x| x as u8).collect();
        let doc = frame_doc(ty, 0, 7, &p);
        whole_and_bytes::<H2P>(run, cx, Start::H2, &doc);
        for k in [2usize, 16] {
            let v: Vec<&[u8]> = doc.chunks(k).collect();
            ctx(run, Start::H2, &doc, || {
                straight::<H2P>(run, cx, Start::H2, &v, &[]);
            });
        }
    });
    let big: Vec<usize> = vec![0xffff, 0x10000, 0x10001, 0x1ffff, 0xfffff - 32, (1 << 20) - 64];
    par(run, "long payloads", (types.len() * big.len()) as u64, |cx, i| {
        let len = big[i as usize % big.len()];
        let ty = types[i as usize / big.len()];
        let p: Vec<u8> = (0..len).map(|x| (x >> 3) as u8).collect();
        let doc = frame_doc(ty, 0, 7, &p);
        ctx(run, Start::H2, &doc[..20], || {
            straight::<H2P>(run, cx, Start::H2, &[&doc[..]], &[]);
            let v: Vec<&[u8]> = doc.chunks(4096).collect();
            straight::<H2P>(run, cx, Start::H2, &v, &[]);
        });
    });
    h2_bulk(run);
}

/// Frames of the largest payload, in one slice and in pieces.
fn h2_bulk(run: &Run) {
    let area = guard::huge(1 << 25);
    let types: [u8; 8] = [0, 1, 5, 6, 7, 9, 10, 255];
    par(run, "payloads of up to 2^24-1 bytes", types.len() as u64 * 12, |cx, i| {
        cx.calls += 1;
        let ty = types[(i / 12) as usize];
        let len = [0xffffffu32, 0xfffffe, 0x800000, 0x7fffff, 0x010000, 0x00ffff][(i % 12 / 2) as usize];
        let padded = i % 2 == 1 && matches!(ty, 0 | 1 | 5 | 10 | 255);
        let fixed = match ty {
            5 => 4,
            7 => 8,
            _ => 0,
        };
        let mut head = h2hdr(len, ty, if padded { 8 } else { 0 }, 1);
        let mut left = len as usize;
        let mut pad = 0;
        if padded {
            head.push(255);
            left -= 1;
            pad = 255;
        }
        head.extend(std::iter::repeat(0).take(fixed));
        left -= fixed;
        let text = format!("frame of type {} with {:#x} payload bytes", ty, len);
        ctx(run, Start::H2, &head, || {
            let mut p = http_box::http2::Parser::new();
            let mut r = Rec::new();
            r.bulk = true;
            r.start(head.as_ptr(), head.len(), NONE, 0);
            let o = guard::call(&head, NONE, || H2P::resume(&mut p, &mut r, &head));
            if o != Ok(Out::Eos(head.len())) {
                return bulk_fail(run, E05, format!("{}: header is not accepted", text));
            }
            let mut data = left - pad;
            let mut done = false;
            for part in [1usize, 2, left / 2, left] {
                let n = part.min(left);
                left -= n;
                let s = &area[area.len() - n..];
                r.start(s.as_ptr(), s.len(), NONE, 0);
                match guard::call(&s[..0], NONE, || H2P::resume(&mut p, &mut r, s)) {
                    Ok(Out::Eos(k)) if k == n => {}
                    Ok(_) => return bulk_fail(run, E05 | E08, format!("{}: unexpected result", text)),
                    Err(()) => return bulk_fail(run, E05 | E06, format!("{}: panics", text)),
                }
                let want = n.min(data);
                let mut pos = 0;
                for (_, _, off, l) in &r.bulks {
                    if *l > 0 && *off != pos {
                        return bulk_fail(run, E05 | A08, format!("{}: data not delivered in place", text));
                    }
                    pos += l;
                }
                if pos != want {
                    return bulk_fail(run, E05, format!("{}: {} of {} bytes delivered", text, pos, want));
                }
                data -= want;
                let ends = r.toks.iter().filter(|t| t.k == PEND).count();
                if ends != (data == 0 && !done) as usize {
                    return bulk_fail(run, E05, format!("{}: wrong end mark", text));
                }
                done |= data == 0;
            }
            let tail = h2hdr(0, 6, 0, 9);
            r.bulk = false;
            r.start(tail.as_ptr(), tail.len(), NONE, 0);
            let o = guard::call(&tail, NONE, || H2P::resume(&mut p, &mut r, &tail));
            if o != Ok(Out::Eos(9)) || r.toks.first() != Some(&frame(0, 6, 0, 9)) {
                return bulk_fail(run, E05, format!("{}: the next frame does not follow", text));
            }
        });
    });
}

/// Whatever follows a frame with more bytes than its fixed fields, calls return normally.
pub fn h2_overlong(run: &Run) {
    let types = [2u8, 3, 4, 8];
    par(run, "fixed-size frames with extra bytes: no crash", 4 * 64 * 256, |cx, i| {
        let ty = types[(i / (64 * 256)) as usize];
        let len = ((i / 256) % 64) as usize;
        let b = i as u8;
        let p: Vec<u8> = (0..len).map(|x| if x % 5 == 4 { b } else { b.wrapping_add(x as u8) }).collect();
        let doc = frame_doc(ty, b, 7, &p);
        ctx(run, Start::H2, &doc, || {
            for k in [1usize, 3, 1000] {
                let mut p = H2P::make(Start::H2);
                let mut r = Rec::new();
                for s in doc.chunks(k) {
                    let s = cx.guard.place(s);
                    cx.calls += 1;
                    r.start(s.as_ptr(), s.len(), NONE, 0);
                    match guard::call(s, NONE, || H2P::resume(&mut p, &mut r, s)) {
                        Ok(Out::Eos(n)) | Ok(Out::Cb(n)) | Ok(Out::Fin(n)) if n > s.len() => {
                            return bulk_fail(run, E06 | E08, format!("type {} length {}: more bytes consumed than there are", ty, len));
                        }
                        Ok(_) => {}
                        Err(()) => {
                            let (t, r) = (format!("type {} length {} fill {}: panics", ty, len, b), show_ops(Start::H2, &[Op::Feed(doc.clone(), NONE)]));
                            if run.mask & E06 != 0 {
                                run.violate(&t, &r);
                            }
                            return;
                        }
                    }
                }
            }
        });
    });
}

// -------------------------------------------------------------------------------------------------
// Handlers that implement nothing
// -------------------------------------------------------------------------------------------------

pub fn default_handler(run: &Run, h2: bool) {
    struct D;
    impl http_box::http1::HttpHandler for D {}
    impl http_box::http2::HttpHandler for D {}
    let docs: Vec<(Start, &[u8], bool)> = if h2 {
        vec![]
    } else {
        vec![
            (Start::Head, b"GET / HTTP/1.1\r\nHost: a\r\n\r\n", true),
            (Start::Head, b"HTTP/1.1 200 OK\r\nA: b\r\n\r\n", true),
            (Start::Chunked, b"3;a=b;c\r\nabc\r\n0;x\r\nT: t\r\n\r\n", true),
            (Start::Multipart(b"b"), b"--b\r\nA: b\r\n\r\nd\r\n--b--", true),
            (Start::Url(12), b"a=b&c=%41;de", true),
        ]
    };
    for (start, doc, fin) in docs {
        for cut in 0..=doc.len() {
            let r = ctx(run, start, doc, || guard::call(b"", NONE, || {
                let mut h = D;
                let mut p = http_box::http1::Parser::new();
                match start {
                    Start::Chunked => p.init_chunked(),
                    Start::Multipart(b) => {
                        p.init_multipart();
                        p.set_boundary(b);
                    }
                    Start::Url(n) => {
                        p.init_url_encoded();
                        p.set_length(n);
                    }
                    _ => p.init_head(),
                }
                let a = p.resume(&mut h, &doc[..cut]);
                let done = matches!(a, Ok(http_box::fsm::Success::Finished(_)));
                let b = if done { a } else { p.resume(&mut h, &doc[cut..]) };
                matches!(b, Ok(http_box::fsm::Success::Finished(_)))
            }));
            run.traces.fetch_add(1, Ordering::Relaxed);
            if r != Ok(fin) {
                let t = format!("a handler that implements nothing stops the parser: {} cut at {}", esc(doc), cut);
                if run.mask & A02 != 0 {
                    run.violate(&t, &show_ops(start, &[Op::Feed(doc.to_vec(), NONE)]));
                }
                return;
            }
        }
    }
    if !h2 {
        use http_box::http1::HttpHandler as H;
        let mut h = D;
        if H::content_length(&mut h).is_some() && run.mask & A02 != 0 {
            run.violate("a handler that implements nothing declares a part length", "bulk");
        }
    } else {
        for ty in 0..=10u8 {
            for (fl, len) in [(0u8, 12usize), (8, 12), (0x28, 12), (0, 8), (0, 5), (0, 4), (0, 6), (0, 0)] {
                let mut p: Vec<u8> = (0..len).map(|x| x as u8).collect();
                if len > 0 {
                    p[0] = 1;
                }
                let doc = frame_doc(ty, fl, 3, &p);
                run.traces.fetch_add(1, Ordering::Relaxed);
                let r = ctx(run, Start::H2, &doc, || guard::call(b"", NONE, || {
                    let mut h = D;
                    let mut p = http_box::http2::Parser::new();
                    matches!(p.resume(&mut h, &doc), Ok(http_box::fsm::Success::Callback(_)))
                }));
                if r != Ok(false) {
                    if run.mask & E02 != 0 {
                        run.violate(&format!("a handler that implements nothing stops the parser at a frame of type {}", ty),
                                    &show_ops(Start::H2, &[Op::Feed(doc.clone(), NONE)]));
                    }
                    return;
                }
            }
        }
    }
    run.space("handlers that implement nothing never interrupt".into());
}

// -------------------------------------------------------------------------------------------------
// Many elements: repetitions up to and beyond 8 and 16 bits
// -------------------------------------------------------------------------------------------------

/// What a call sequence did, kept small: a slice is a range of the document.
fn stopping<X: Proto>(run: &Run, cx: &mut Cx, start: Start, slices: &[&[u8]]) {
    let mut s = Sess::<X>::new(start, run.var);
    let mut done: Vec<(usize, usize, usize, u32)> = Vec::new();
    for (i, c) in slices.iter().enumerate() {
        let mut a = 0;
        loop {
            if s.m.status() == Status::Unspec {
                return;
            }
            done.push((i, a, c.len(), 0));
            match s.feed(cx, &c[a..], 0) {
                Ok(Fed { out: Out::Cb(n), .. }) => a += n,
                Ok(_) => break,
                Err(m) => {
                    let ops: Vec<Op> = done.iter().map(|(i, a, b, at)| Op::Feed(slices[*i][*a..*b].to_vec(), *at)).collect();
                    return handle::<X>(run, cx, start, &ops, &m);
                }
            }
        }
    }
}

/// Operations one after the other.
fn sequence<X: Proto>(run: &Run, cx: &mut Cx, start: Start, ops: &[Op]) {
    let mut s = Sess::<X>::new(start, run.var);
    for (i, op) in ops.iter().enumerate() {
        if s.m.status() == Status::Unspec && matches!(op, Op::Feed(..)) {
            continue;
        }
        if let Err(m) = s.apply(op, cx) {
            return handle::<X>(run, cx, start, &ops[..=i], &m);
        }
    }
}

pub fn counts(th: bool, most: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=if th { 300 } else { 130 }).collect();
    for k in 6..=16 {
        v.extend_from_slice(&[(1 << k) - 1, 1 << k, (1 << k) + 1]);
    }
    v.sort();
    v.dedup();
    v.retain(|n| *n <= most);
    v
}

/// Documents in which something is repeated many times.
pub fn many<X: Proto>(run: &Run, what: u64, stops: bool) {
    let th = run.thorough;
    type K = (Start, &'static str, &'static str, &'static str, u64);
    let mp = Start::Multipart(b"bd");
    let h1: Vec<K> = vec![
        (Start::Head, "GET / HTTP/1.1\r\n", "A: b\r\n", "\r\n", B03),
        (Start::Head, "HTTP/1.1 200 OK\r\n", "Host: b\r\n", "\r\n", B03),
        (Start::Head, "GET / HTTP/1.1\r\n", "Date:b\r\nX:y\r\n", "\r\n", B03),
        (Start::Head, "GET / HTTP/1.1\r\nA: b", "\r\n c", "\r\n\r\n", B03),
        (Start::Head, "GET / HTTP/1.1\r\nA: b", "\r\n\t\"q\"", "\r\n\r\n", B03),
        (Start::Head, "GET / HTTP/1.1\r\nA: \"", "\\\"x", "\"\r\n\r\n", B03),
        (Start::Head, "GET / HTTP/1.1\r\nA: b", " \"c\"", "\r\n\r\n", B03),
        (Start::Head, "GET /", "%2f?;", " HTTP/1.1\r\n\r\n", B01),
        (Start::Head, "HTTP/1.1 200 A", " \tb", "\r\n\r\n", B02),
        (Start::Chunked, "", "1\r\nx\r\n", "0\r\n\r\n", B04),
        (Start::Chunked, "", "2\r\n\r\n\r\n", "0\r\n\r\n", B04),
        (Start::Chunked, "", "1;n=v\r\nx\r\n", "0\r\n\r\n", B05),
        (Start::Chunked, "", "1;n=\"\"\r\nx\r\n", "0\r\n\r\n", B05),
        (Start::Chunked, "1", ";n=v", "\r\nx\r\n0\r\n\r\n", B05),
        (Start::Chunked, "1", ";n=\"v\"", "\r\nx\r\n0\r\n\r\n", B05),
        (Start::Chunked, "1;n=\"", "\\\"x", "\"\r\nx\r\n0\r\n\r\n", B05),
        (Start::Chunked, "0\r\n", "T: u\r\n", "\r\n", B05),
        (mp, "", "--bd\r\nA: b\r\n\r\nx\r\n", "--bd--", B06),
        (mp, "--bd\r\nA: b\r\n\r\n", "\r\n--b", "\r\n--bd--", B06),
        (mp, "--bd\r\nA: b\r\n\r\n", "x\r\n", "\r\n--bd--", B06),
        (mp, "--bd\r\nA: b\r\n\r\n", "x\r", "\r\n--bd--", B06),
        (mp, "--bd\r\n", "A: b\r\n", "\r\nx\r\n--bd--", B06 | B03),
        (mp, "", "--bd\r\nA: 1\r\n\r\nx\r\n", "--bd--", B07),
        (mp, "", "--bd\r\nA: 4\r\n\r\n\r\n--\r\n--bd\r\nA: b\r\n\r\n4\r\n", "--bd--", B07),
        (Start::Url(0), "", "a=b&", "c", B08),
        (Start::Url(0), "", "%61=+;", "c", B08),
        (Start::Url(0), "x=", "%4f", "&c", B08),
        (Start::Url(0), "x", "+", "=c", B08),
        (Start::Url(0), "", "a&", "c", B08),
        (Start::Url(0), "a=", "%41+", "", B08),
    ];
    let mut docs: Vec<(Start, Vec<u8>, Vec<u8>, Vec<u8>, u64)> = Vec::new();
    if X::SEG == A01 {
        docs.extend(h1.iter().map(|k| (k.0, k.1.as_bytes().to_vec(), k.2.as_bytes().to_vec(), k.3.as_bytes().to_vec(), k.4)));
    } else {
        let f = |ty: u8, fl: u8, p: &[u8]| {
            let mut v = h2hdr(p.len() as u32, ty, fl, 0x81020304);
            v.extend_from_slice(p);
            v
        };
        let tail = f(0, 1, b"zz");
        let us = vec![
            f(0, 0, b"x"), f(0, 8, b"\x01xp"), f(0, 0, b""), f(1, 4, b"h"), f(1, 0x24, b"\x80\0\0\x01\x09h"), f(2, 0, b"\0\0\0\x02\x10"), f(3, 0, b"\0\0\0\x08"),
            f(4, 0, b"\0\x03\0\0\0\x64"), f(4, 1, b""), f(5, 4, b"\0\0\0\x04p"), f(6, 0, b"12345678"), f(7, 0, b"\0\0\0\x01\0\0\0\x02d"),
            f(8, 0, b"\0\0\0\x05"), f(9, 4, b"c"), f(10, 0, b"u"), f(255, 255, b""),
        ];
        for u in &us {
            docs.push((Start::H2, vec![], u.clone(), tail.clone(), E03 | E04 | E05));
        }
        docs.push((Start::H2, vec![], us.concat(), tail.clone(), E03 | E04 | E05));
    }
    docs.retain(|k| k.4 & what != 0);
    let ns = counts(th, 65537);
    par(run, &format!("repeated elements: 0..{} and around powers of two up to 2^16 of {} kinds{}", if th { 300 } else { 130 }, docs.len(),
                      if stops { ", every callback interrupted" } else { "" }), (ns.len() * docs.len()) as u64, |cx, i| {
        let n = ns[ns.len() - 1 - i as usize / docs.len()];
        let (start, pre, unit, post, _) = &docs[i as usize % docs.len()];
        let total = pre.len() + unit.len() * n + post.len();
        if total > (1 << 20) - 64 {
            return;
        }
        let mut doc = pre.clone();
        for _ in 0..n {
            doc.extend_from_slice(unit);
        }
        doc.extend_from_slice(post);
        let start = if let Start::Url(_) = start { Start::Url(doc.len()) } else { *start };
        let go = |cx: &mut Cx, v: &[&[u8]]| {
            if stops {
                stopping::<X>(run, cx, start, v);
            } else {
                straight::<X>(run, cx, start, v, &[]);
            }
        };
        ctx(run, start, &doc, || {
            // an interrupted call gets the rest of the slice again
            if !stops || doc.len() < 40000 {
                go(cx, &[&doc]);
            }
            if doc.len() < if th { 1 << 20 } else { 30000 } {
                go(cx, &doc.chunks(1).collect::<Vec<_>>());
            }
            let u = unit.len().max(2);
            for k in [u - 1, u, u + 1, 256] {
                if doc.len() < 100_000 || k == 256 || (th && k == u) {
                    go(cx, &doc.chunks(k).collect::<Vec<_>>());
                }
            }
        });
    });
}

/// Many calls: empty slices in every place, a failed or finished parser asked again and again, many messages.
pub fn many_calls<X: Proto>(run: &Run) {
    let th = run.thorough;
    let mut cases: Vec<(Start, Vec<u8>)> = Vec::new();
    if X::SEG == A01 {
        let mp = Start::Multipart(b"bd");
        for (s, d) in [
            (Start::Head, &b"GET / HTTP/1.1\r\nHost: \"b\"\r\n c\r\n\r\n"[..]), (Start::Head, b"HTTP/1.1 200 OK\r\nA: b\r\n\r\n"), (Start::Head, b"GET / HTTP/1.1\r\n\x01"),
            (Start::Chunked, b"3;n=v;m=\"w\"\r\nabc\r\n0\r\nT: u\r\n\r\n"), (Start::Chunked, b"3\r\nabcd"),
            (mp, b"--bd\r\nA: b\r\n\r\nx\r\n--b\r\n--bd\r\nA: 3\r\n\r\nxyz\r\n--bd--"), (mp, b"--bd\r\nA: 1\r\n\r\nx\r\n--bx"),
            (Start::Url(11), b"a=%41+&b;c="), (Start::Url(5), b"a=%4g"), (Start::Url(0), b""),
        ] {
            cases.push((s, d.to_vec()));
        }
    } else {
        let mut d = h2hdr(3, 0, 8, 1);
        d.extend_from_slice(b"\x01xp");
        d.extend_from_slice(&h2hdr(5, 2, 0, 1));
        d.extend_from_slice(b"\0\0\0\x01\x02");
        cases.push((Start::H2, d));
        let mut d = h2hdr(2, 0, 8, 1);
        d.extend_from_slice(b"\x09xp");
        cases.push((Start::H2, d));
    }
    let ns: Vec<usize> = if th { vec![1, 2, 3, 255, 256, 257, 4097, 65535, 65536, 65537] } else { vec![1, 2, 255, 256, 257, 65537] };
    par(run, &format!("many calls without data: up to {} in every place, and after the end", ns.last().unwrap()), (cases.len() * 80) as u64, |cx, i| {
        let (start, doc) = &cases[i as usize / 80];
        let p = i as usize % 80;
        if p > doc.len() {
            return;
        }
        ctx(run, *start, doc, || {
            for n in &ns {
                let mut ops = vec![Op::Feed(doc[..p].to_vec(), NONE)];
                ops.extend((0..*n).map(|_| Op::Feed(vec![], NONE)));
                ops.push(Op::Feed(doc[p..].to_vec(), NONE));
                sequence::<X>(run, cx, *start, &ops);
                if p == doc.len() {
                    ops.extend((0..*n).map(|k| Op::Feed(doc[..k % (doc.len() + 1)].to_vec(), NONE)));
                    sequence::<X>(run, cx, *start, &ops);
                }
            }
        });
    });
    let ms = counts(th, 65537);
    par(run, &format!("up to {} messages on one parser", ms.last().unwrap()), (cases.len() * ms.len() * 3) as u64, |cx, i| {
        let i = i as usize;
        let n = ms[ms.len() - 1 - i / 3 / cases.len()];
        let (start, doc) = &cases[i / 3 % cases.len()];
        let way = i % 3;
        let other = &cases[(i / 3 + 3) % cases.len()];
        ctx(run, *start, doc, || {
            let mut ops = Vec::new();
            for k in 0..n {
                match way {
                    0 => ops.push(Op::Feed(doc.clone(), NONE)),
                    // given up half way
                    1 => ops.push(Op::Feed(doc[..k % (doc.len() + 1)].to_vec(), NONE)),
                    _ => {}
                }
                ops.push(Op::Init(if k & 3 == 3 { other.0 } else { *start }, k & 3 == 2 && X::SEG == A01));
                if way == 2 && k & 3 == 3 {
                    ops.push(Op::Feed(other.1.clone(), NONE));
                }
            }
            ops.push(Op::Init(*start, false));
            ops.push(Op::Feed(doc.clone(), NONE));
            sequence::<X>(run, cx, *start, &ops);
        });
    });
}

/// HTTP/2 totals beyond 32 bits.
pub fn h2_total(run: &Run) {
    let area = guard::huge(1 << 25);
    par(run, "HTTP/2 running total beyond 2^33", 2, |cx, i| {
        cx.calls += 1;
        ctx(run, Start::H2, b"frames of 0xffffff bytes", || {
            let mut p = http_box::http2::Parser::new();
            let mut r = Rec::new();
            r.bulk = true;
            let mut total = 0u64;
            let head = h2hdr(0xffffff, if i == 0 { 0 } else { 255 }, 0, 1);
            for _ in 0..520 {
                for s in [&head[..], &area[area.len() - 0x7fffff..], &area[area.len() - 0x800000..]] {
                    r.start(s.as_ptr(), s.len(), NONE, 0);
                    let o = guard::call(&s[..0], NONE, || H2P::resume(&mut p, &mut r, s));
                    total += s.len() as u64;
                    if o != Ok(Out::Eos(s.len())) || H2P::byte_count(&p) as u64 != total {
                        return bulk_fail(run, E08, format!("after {} bytes the running total is {}", total, H2P::byte_count(&p)));
                    }
                }
            }
        });
    });
}

/// Boundaries of every length, and lines that agree with them in every number of bytes.
pub fn boundaries(run: &Run) {
    let th = run.thorough;
    let mut lens: Vec<usize> = (1..=if th { 130 } else { 72 }).collect();
    lens.extend_from_slice(&[127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025]);
    if th {
        lens.extend_from_slice(&[2047, 2048, 2049, 4095, 4096, 4097]);
    }
    lens.dedup();
    const SIGNS: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789'+_,-./:=?";
    // (boundary, bytes in which the other line agrees)
    let mut cases: Vec<(&'static [u8], usize)> = Vec::new();
    for l in lens {
        for kind in 0..if l <= 72 || th { 2 } else { 1 } {
            let b: Vec<u8> = (0..l).map(|i| if kind == 0 { SIGNS[(i * 7 + i / SIGNS.len() * 5) % SIGNS.len()] } else { b'a' }).collect();
            let b: &'static [u8] = Box::leak(b.into_boxed_slice());
            for k in 0..l {
                if l <= 130 || k.is_power_of_two() || (k + 1).is_power_of_two() || k + 2 > l {
                    cases.push((b, k));
                }
            }
        }
    }
    par(run, "boundaries of many lengths, each with lines that agree with it in every number of bytes", cases.len() as u64, |cx, i| {
        let (b, k) = cases[i as usize];
        let mut doc = b"--".to_vec();
        doc.extend_from_slice(b);
        doc.extend_from_slice(b"\r\n\r\nx\r\n--");
        doc.extend_from_slice(&b[..k]);
        let near = doc.len();
        doc.push(b'~');
        doc.extend_from_slice(&b[k + 1..]);
        doc.extend_from_slice(b"\r\n--");
        doc.extend_from_slice(b);
        doc.extend_from_slice(b"--");
        let start = Start::Multipart(b);
        ctx(run, start, &doc, || {
            let single: Vec<&[u8]> = doc.chunks(1).collect();
            straight::<H1P>(run, cx, start, &single, &[]);
            straight::<H1P>(run, cx, start, &[&doc], &[]);
            // a cut around the byte that differs, and one anywhere else
            for j in [near - k.min(1), near, near + 1] {
                for c in 1..doc.len() {
                    if b.len() > 72 && !th && !(c.is_power_of_two() || (c + 3) % 29 == 0) {
                        continue;
                    }
                    let (x, y) = (c.min(j), c.max(j));
                    straight::<H1P>(run, cx, start, &[&doc[..x], &doc[x..y], &doc[y..]], &[]);
                }
            }
            // the first boundary may not differ either
            let mut bad = b"--".to_vec();
            bad.extend_from_slice(&b[..k]);
            bad.push(b'~');
            bad.extend_from_slice(&b[k + 1..]);
            for c in 0..bad.len() {
                if b.len() <= 72 || th || c + 3 > bad.len() || c.is_power_of_two() {
                    straight::<H1P>(run, cx, start, &[&bad[..c], &bad[c..]], &[]);
                }
            }
        });
    });
}

/// Feed one slice, with every callback answering `!stops`; what was delivered, and how it ended.
fn feed_huge<X: Proto>(r: &mut Rec, p: &mut X::P, s: &[u8], stops: bool) -> (Vec<Tok>, Vec<(u8, usize, usize)>, Option<(Out, usize)>) {
    let mut toks = Vec::new();
    let mut data = Vec::new();
    let mut at = 0;
    r.bulk = true;
    for _ in 0..100000 {
        let rest = &s[at..];
        r.start(rest.as_ptr(), rest.len(), if stops { 0 } else { NONE }, 0);
        let o = guard::call(&rest[..0], NONE, || X::resume(p, r, rest));
        toks.extend_from_slice(&r.toks);
        data.extend(r.bulks.iter().map(|b| (b.0, at.wrapping_add(b.2), b.3)));
        match o {
            Ok(Out::Cb(n)) if n <= rest.len() => at += n,
            Ok(Out::Eos(n)) | Ok(Out::Fin(n)) => return (toks, data, o.ok().map(|x| (x, at + n))),
            Ok(x) => return (toks, data, Some((x, at))),
            Err(()) => return (toks, data, None),
        }
    }
    (toks, data, None)
}

/// Single slices of up to more than 2^33 bytes.
pub fn h2_slices(run: &Run) {
    let lens: Vec<usize> = vec![(1 << 16) - 1, (1 << 16) + 1, (1 << 24) - 1, 1 << 24, (1 << 24) + 25, (1 << 31) - 1, (1 << 31) + 1, (1 << 32) - 1, 1 << 32, (1 << 32) + 11, (1 << 33) + 5];
    par(run, "single slices of up to 2^33 bytes, full of frames", lens.len() as u64 * 2, |cx, i| {
        let len = lens[i as usize / 2];
        let stops = i % 2 == 1;
        cx.calls += 1;
        let mut pieces = Vec::new();
        let mut want = Vec::new();
        let mut toks = Vec::new();
        let mut at = 0;
        while at < len {
            let mut n = (len - at - 9).min(0xffffff);
            let left = len - at - 9 - n;
            if left > 0 && left < 9 {
                n -= 9;
            }
            let (ty, k) = [(0u8, DATA), (9, FRAG), (200, UNSUP)][pieces.len() % 3];
            pieces.push((at, h2hdr(n as u32, ty, 0, 1)));
            toks.push(frame(n as u32, ty, 0, 1));
            toks.push(e(PEND, k as u32, 0));
            want.push((k, at + 9, n));
            at += 9 + n;
        }
        let area = guard::Holes::new(len, &pieces);
        ctx(run, Start::H2, format!("a slice of {} bytes", len).as_bytes(), || {
            let mut p = http_box::http2::Parser::new();
            let mut r = Rec::new();
            let (t, data, o) = feed_huge::<H2P>(&mut r, &mut p, area.bytes(), stops);
            let data: Vec<_> = data.into_iter().filter(|d| d.2 > 0).collect();
            want.retain(|d| d.2 > 0);
            if o.map(|x| x.1) != Some(len) || H2P::byte_count(&p) != len {
                return bulk_fail(run, E08 | E02, format!("a slice of {} bytes full of frames: result {:?}, running total {}", len, o, H2P::byte_count(&p)));
            }
            if t != toks || data != want {
                bulk_fail(run, E05 | E02, format!("a slice of {} bytes full of frames: {} frames of {} are delivered, {} of {} payloads in place", len, t.len() / 2, toks.len() / 2, data.len(), want.len()));
            }
        });
    });
}

/// Chunked and declared bodies of up to more than 2^33 bytes in a single slice.
pub fn h1_slices(run: &Run) {
    // sizes of chunks or of parts
    let mut cases: Vec<(Start, Vec<usize>)> = Vec::new();
    let m = 0xffffffff;
    for v in [vec![(1 << 16) - 20], vec![1 << 16], vec![(1 << 24) - 1], vec![1 << 24, 3], vec![(1 << 31) - 1], vec![1 << 31], vec![m], vec![m, 5], vec![m, m, 70000]] {
        cases.push((Start::Chunked, v));
    }
    for v in [vec![(1 << 16) - 20], vec![1 << 16], vec![1 << 24, 1 << 24], vec![(1 << 31) + 1, (1 << 31) + 1], vec![m, m], vec![(1 << 32) + 3, (1 << 32) + 3], vec![(1 << 33) + 1, (1 << 33) + 1]] {
        cases.push((Start::Multipart(b"bd"), v));
    }
    par(run, "bodies of up to 2^33 bytes in single slices", cases.len() as u64 * 2, |cx, i| {
        let (start, sizes) = &cases[i as usize / 2];
        let stops = i % 2 == 1;
        cx.calls += 1;
        let chunked = *start == Start::Chunked;
        let mut pieces: Vec<(usize, Vec<u8>)> = Vec::new();
        let mut want: Vec<(u8, usize, usize)> = Vec::new();
        let mut at = 0;
        for n in sizes {
            let h = if chunked { format!("{:X}\r\n", n).into_bytes() } else { b"--bd\r\n\r\n".to_vec() };
            pieces.push((at, h.clone()));
            at += h.len();
            want.push((if chunked { CDATA } else { MDATA }, at, *n));
            at += n;
            pieces.push((at, b"\r\n".to_vec()));
            at += 2;
        }
        let tail: &[u8] = if chunked { b"0\r\n\r\n" } else { b"--bd--" };
        pieces.push((at, tail.to_vec()));
        let len = at + tail.len();
        let area = guard::Holes::new(len, &pieces);
        ctx(run, *start, format!("a slice of {} bytes", len).as_bytes(), || {
            let mut p = H1P::make(*start);
            let mut r = Rec::new();
            r.cl_override = Some(sizes[0]);
            let (_, data, o) = feed_huge::<H1P>(&mut r, &mut p, area.bytes(), stops);
            let data: Vec<_> = data.into_iter().filter(|d| d.0 == want[0].0).collect();
            let reg = if chunked { B04 } else { B07 };
            if data != want {
                return bulk_fail(run, reg | A02 | A08, format!("a body of {} bytes in one slice: data {:?} instead of {:?}", len, data, want));
            }
            match o {
                Some((Out::Fin(_), n)) if n == len && H1P::byte_count(&p) == len => {}
                _ => bulk_fail(run, A03 | A02, format!("a body of {} bytes in one slice: result {:?}, running total {}", len, o, H1P::byte_count(&p))),
            }
        });
    });
}
