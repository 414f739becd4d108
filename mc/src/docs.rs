//! Document families whose every cutting and interruption is explored.

use crate::alpha::{KNOWN_NAMES, METHODS};
use crate::explore::Doc;
use crate::model::*;
use crate::numeric::h2hdr;

fn doc(start: Start, b: impl AsRef<[u8]>) -> Doc {
    Doc { start, bytes: b.as_ref().to_vec() }
}

fn head(b: impl AsRef<[u8]>) -> Doc {
    doc(Start::Head, b)
}

const URLS: [&str; 5] = ["/", "*", "/a?b=c%20&d;\"~", "h:1", "HTTP/1.1"];

pub fn request_lines(th: bool) -> Vec<Doc> {
    let mut v = Vec::new();
    for m in METHODS {
        for (i, u) in URLS.iter().enumerate() {
            if !th && i > 0 && m.len() > 5 {
                continue;
            }
            for ver in ["1.1", "2.0", "1.0", "0.9", "12.3", "001.10", "999.999"] {
                if !th && i > 1 && ver != "1.1" {
                    continue;
                }
                v.push(head(format!("{} {} HTTP/{}\r\n\r\n", m, u, ver)));
            }
        }
    }
    for lead in ["\r\n", " ", "\t", "\r\n\r\n", " \r\n\t", "\n\n", "\r"] {
        for m in ["GET", "HEAD", "X", "HT"] {
            v.push(head(format!("{}{} /a HTTP/1.1\r\nA: b\r\n\r\nx", lead, m)));
        }
    }
    // prefixes of the protocol name, followed by every kind of byte
    for n in 1..=5 {
        for x in ["A", " ", "T", "P", "H", "/", "1", "a", "HTTP", "HTTP/1.1 "] {
            v.push(head(format!("{}{} / HTTP/1.1\r\n\r\n", &"HTTP/"[..n], x)));
            v.push(head(format!("{}{}", &"HTTP/"[..n], x)));
        }
    }
    // every two and three letter method over the letters of known ones
    for a in "GPHDCOT".chars() {
        for b in "GPHDCOTERU".chars() {
            v.push(head(format!("{}{} / HTTP/1.1\r\n\r\n", a, b)));
            if th {
                for c in "GPHDCOTERU".chars() {
                    v.push(head(format!("{}{}{} / HTTP/1.1\r\n\r\n", a, b, c)));
                }
            }
        }
    }
    for m in METHODS {
        // bytes inserted anywhere into known methods, or put in the place of one
        for i in 0..=m.len() {
            for x in if th { b"AETDPX0-!/\" :~\r\x00".to_vec() } else { b"ATX!/ ".to_vec() } {
                let mut d = m.as_bytes()[..i].to_vec();
                d.push(x);
                let mut e = d.clone();
                d.extend_from_slice(&m.as_bytes()[i..]);
                d.extend_from_slice(b" /a HTTP/1.1\r\n\r\n");
                v.push(head(d));
                if i < m.len() {
                    e.extend_from_slice(&m.as_bytes()[i + 1..]);
                    e.extend_from_slice(b" / HTTP/1.1\r\n\r\n");
                    v.push(head(e));
                }
            }
        }
        // near misses of known methods
        for i in 0..m.len() {
            let mut b = m.as_bytes().to_vec();
            b[i] = if b[i] == b'Z' { b'Y' } else { b[i] + 1 };
            let mut d = b.clone();
            d.extend_from_slice(b" /a HTTP/1.1\r\n\r\n");
            v.push(head(d));
            v.push(head(format!("{} /a HTTP/1.1\r\n\r\n", &m[..=i])));
        }
    }
    v
}

pub fn response_lines(th: bool) -> Vec<Doc> {
    let mut v = Vec::new();
    for ver in ["1.1", "2.0", "1.0", "0.9", "12.3", "001.10", "999.999", "1.01", "255.256"] {
        for c in ["200", "000", "999", "404", "101", "065"] {
            for r in ["OK", "O", "Not Found", " x ", "HTTP/1.1 200 OK", "\u{e9}~\""] {
                if !th && ver != "1.1" && ver != "2.0" && (c != "200" || r.len() > 3) {
                    continue;
                }
                v.push(head(format!("HTTP/{} {} {}\r\n\r\n", ver, c, r)));
            }
        }
    }
    for bad in ["HTTP/1.1 200\r\n", "HTTP/1.1  200 OK\r\n", "HTTP/1.1 20 OK\r\n", "HTTP/1.1 2000 OK\r\n", "HTTP/1.1 2x0 OK\r\n", "HTTP/1.1 200 \r\n",
                "HTTP/1.1 200 O\tK\r\n", "HTTP/1.1 200 OK\n", "HTTP/1.1 200 OK\r\r", "HTTP/1. 200 OK\r\n", "HTTP/.1 200 OK\r\n",
                "HTTP/1.1\r\n", "HTTP/1,1 200 OK\r\n", "HTTP/1.1234 200 OK\r\n", "HTTP/1234.1 200 OK\r\n", "HTTP1.1 200 OK\r\n"] {
        v.push(head(bad));
    }
    for lead in ["\r\n", " ", "\t\t", "\r\n\r\n"] {
        v.push(head(format!("{}HTTP/1.1 200 OK\r\nA: b\r\n\r\nx", lead)));
    }
    v.push(head("HTTP/1.1 200 OK\r\nA: b\r\n c\r\nHost: \"q\\\"\"\r\n\r\nHTTP/1.1 200 OK\r\n\r\n"));
    v
}

/// Header lines, to be placed in a head, in a multipart part or in a trailer.
fn lines(th: bool) -> Vec<Vec<u8>> {
    let mut v: Vec<String> = Vec::new();
    for n in KNOWN_NAMES {
        let caps: String = n.chars().enumerate().map(|(i, c)| if i % 2 == 0 { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect();
        for m in [n.to_string(), n.to_lowercase(), n.to_uppercase(), caps] {
            v.push(format!("{}: v\r\n", m));
            v.push(format!("{}:value of the header field, long enough\r\n", m));
        }
        v.push(format!("{}x: v 0123456789 0123456789\r\n", n));
        v.push(format!("{}: v 0123456789 0123456789\r\n", &n[..n.len() - 1]));
        v.push(format!("X{}: v 0123456789 0123456789\r\n", n));
        v.push(format!("{}-: v 0123456789 0123456789\r\n", n));
        for t in if th { 0..36 } else { 0..0 } {
            v.push(format!("{}:{}\r\n", n, &"0123456789 0123456789 0123456789 abcd"[..t + 1]));
        }
    }
    for s in [
        "a: b\r\n c\r\n", "a: b\r\n\tc\r\n  d\r\n", "a: \"q\"\r\n", "a: \"q\\\"r\\\\\"s\"t\"\r\n", "a:b:c\r\n", "a: \"x\"\r\n \"y\"\r\n", "a:b\r\nb:c\r\nc:d\r\n",
        "!#$%&'*+-.^_`|~09: v\r\n", "a: b\u{e9}\r\n", "a:\t b \r\n", "A-Very-Long-Header-Name-That-Is-Not-Known: v\r\n", "a: b\r\n \r\n", "a: b\r\n  \r\nx: y\r\n",
        // malformed
        "a:\r\n", "a\r\n", " a: b\r\n", ":b\r\n", "a :b\r\n", "a: b\n", "a: \"b\r\n", "a: b\r\r\n", "a: \"\\\x01\"\r\n", "a: b\x7f\r\n", "(: b\r\n", "a: \"b\\", "a: b\r\n:\r\n",
    ] {
        v.push(s.to_string());
    }
    let mut w: Vec<Vec<u8>> = v.into_iter().map(|s| s.into_bytes()).collect();
    w.push(b"a: b\xff\x80\r\n".to_vec());
    w
}

pub fn header_blocks(th: bool) -> Vec<Doc> {
    let ls = lines(th);
    let mut v = Vec::new();
    for (i, l) in ls.iter().enumerate() {
        let mut d = if i % 3 == 0 { b"HTTP/1.1 200 OK\r\n".to_vec() } else { b"G / HTTP/1.1\r\n".to_vec() };
        d.extend_from_slice(l);
        if i % 2 == 0 {
            d.extend_from_slice(b"Host: z\r\n");
        }
        d.extend_from_slice(b"\r\n");
        v.push(head(d));
    }
    v
}

/// Every byte in every place of known header names, short enough and long enough for the fast path.
pub fn header_names(th: bool) -> Vec<Doc> {
    let mut v = Vec::new();
    for n in KNOWN_NAMES {
        for i in 0..=n.len() {
            for b in 0..=255u8 {
                if !th && !(b == b'-' || b == b'_' || b == b':' || b.is_ascii_alphabetic() || b < 0x21 || b > 0x7c || b % 16 == 13) {
                    continue;
                }
                let mut d = b"G / HTTP/1.1\r\n".to_vec();
                d.extend_from_slice(&n.as_bytes()[..i]);
                d.push(b);
                d.extend_from_slice(&n.as_bytes()[(i + 1).min(n.len())..]);
                d.extend_from_slice(b": 0123456789 0123456789 012\r\n\r\n");
                v.push(head(d));
            }
        }
        // all tail lengths around the look-ahead
        for t in 0..32 {
            for m in [n.to_string(), n.to_lowercase()] {
                v.push(head(format!("G / HTTP/1.1\r\n{}:{}", m, &"0123456789 0123456789 0123456789"[..t])));
                v.push(head(format!("G / HTTP/1.1\r\n{}: {}\r\n\r\n", m, &"0123456789 0123456789 0123456789"[..t])));
            }
        }
    }
    v
}

pub fn chunked(th: bool) -> Vec<Doc> {
    let mut v = Vec::new();
    let datas: Vec<Vec<u8>> = vec![b"x".to_vec(), b"\r\n".to_vec(), b"0\r\n\r\n".to_vec(), b"3\r\nabc\r\n".to_vec(), vec![0, 0xff, 0x80], (0..17).collect(), b"\r\n0\r\n\r\n\r\n".to_vec()];
    let exts = ["", ";a", ";a=b", ";Ab=cD;e", "; a= b", ";a=\"q\"", ";a=\"q\\\"\\\\r\";b=\"\";c=x\"y\"z", ";a;b;c", ";a=b;c=d; e", ";a=\" ;=\r\"", ";a=", ";=", ";a=\"b", ";a b", ";a=b c", ";a\x01", ";a=\"\\\x01\"", ";a==b"];
    let trails = ["", "T: t\r\n", "Content-Length: 10\r\nX-Forwarded-Host: 0123456789 0123456789\r\n", "a: b\r\n c\r\nd: \"e\"\r\n"];
    for (i, d) in datas.iter().enumerate() {
        for (j, x) in exts.iter().enumerate() {
            if !th && i > 1 && j > 3 && (i + j) % 3 != 0 {
                continue;
            }
            let mut b = format!("{:x}{}\r\n", d.len(), x).into_bytes();
            b.extend_from_slice(d);
            b.extend_from_slice(b"\r\n");
            if (i + j) % 2 == 0 {
                b.extend_from_slice(b"1;n\r\ny\r\n");
            }
            b.extend_from_slice(format!("0{}\r\n{}\r\n", exts[(j + i) % exts.len()], trails[(i + j) % 4]).as_bytes());
            if (i + j) % 3 == 0 {
                b.extend_from_slice(b"0\r\n\r\n");
            }
            v.push(doc(Start::Chunked, b));
        }
    }
    for x in exts {
        for t in trails {
            v.push(doc(Start::Chunked, format!("0{}\r\n{}\r\nz", x, t)));
        }
    }
    for s in ["00\r\n\r\n", "0000\r\n", "1\rx", "1\n", "g\r\n", "-1\r\n", "1\r\nx\n", "1\r\nxx\r\n", "1\r\nx\r\r", "100000000\r\n", "ffffffff\r\nab", "FFFFFFFF;a\r\nab", "01\r\nx\r\n0\r\n\r\n",
              "00000001\r\nx\r\n0\r\n\r\n", "000000001\r\nx", "a\r\n0123456789\r\nA\r\n0123456789\r\n0\r\n\r\n", "1 \r\nx", " 1\r\nx", "1 ;a\r\nx", "\r\n"] {
        v.push(doc(Start::Chunked, s));
    }
    let ls = lines(false);
    for (i, l) in ls.iter().enumerate() {
        if th || i % 4 == 0 || i > 208 {
            let mut b = b"0\r\n".to_vec();
            b.extend_from_slice(l);
            b.extend_from_slice(b"\r\n");
            v.push(doc(Start::Chunked, b));
        }
    }
    v
}

pub const BOUNDARIES: [&[u8]; 11] = [
    b"ab", b"b", b"aab", b"aa", b"a-", b"-", b"--", b"-a-", b"abab", b"'()+_,-./:=? z9",
    b"0123456789012345678901234567890123456789012345678901234567890123456789",
];

/// Bodies of undeclared parts.
pub fn multipart(th: bool) -> Vec<Doc> {
    let mut v = Vec::new();
    for bd in BOUNDARIES {
        let s = String::from_utf8_lossy(bd).to_string();
        let line = format!("\r\n--{}", s);
        let mut datas: Vec<String> = vec!["".into(), "x".into(), "\r\n".into(), "\r".into(), "\r\n\r\n".into(), "-".into(), "--".into(), "\r\n-".into(), "\r\n--".into(), "x\r\n--".into(),
                                          "\r\r\n".into(), "\r\n\r\n--".into(), "\r\n--\r\n--".into(), "\r\n-\r\n--".into()];
        for i in 1..line.len().min(10) {
            datas.push(line[..i].to_string());
            datas.push(format!("{}{}", &line[..i], &line[..i]));
            datas.push(format!("y{}z", &line[..i]));
            for j in 1..line.len().min(8) {
                if th {
                    datas.push(format!("{}{}", &line[..i], &line[..j]));
                }
                if j > 2 && (th || i == j || (i + j) % 3 == 0) {
                    datas.push(format!("{}{}{}", &line[..i], &line[j..], &line[..j]));
                }
            }
        }
        for (i, d) in datas.iter().enumerate() {
            let h = ["A: b\r\n", "", "Content-Disposition: form-data; name=\"a\"\r\nA: c\r\n"][if i % 7 == 3 { 2 } else { i % 2 }];
            let mut b = format!("--{}\r\n{}\r\n{}\r\n--{}", s, h, d, s);
            if i % 3 != 0 {
                b += "\r\nB: x\r\n\r\n";
                b += &datas[(i * 5 + 3) % datas.len()];
                b += &line;
            }
            b += if i % 5 == 4 { "--\r\nepilogue" } else { "--" };
            if bd.len() > 40 && !th && i % 4 != 0 {
                continue;
            }
            v.push(doc(Start::Multipart(bd), b));
        }
        for bad in [format!("--{}x", s), format!("--{}\n", s), format!("-{}", s), format!("\r\n--{}", s), format!("--{}-x", s), format!("--{}\r\r", s), format!("--{}\r\n\r\nx\r\n--{}x", s, s),
                    format!("--{}\r\nA\r\n", s), format!("--{}\r\n\r\nx\r\n--{}\rx", s, s), format!("--{}--x", s), format!("--{}\r\n\r\nx\r\n--{}-x", s, s), format!("x--{}", s)] {
            v.push(doc(Start::Multipart(bd), bad));
        }
    }
    v
}

/// Bodies with declared part lengths: the last header value byte is the length.
pub fn declared(th: bool) -> Vec<Doc> {
    let mut v = Vec::new();
    for bd in [&b"ab"[..], b"b", b"-", b"--"] {
        let s = String::from_utf8_lossy(bd).to_string();
        let datas = ["", "x", "\r", "\r\n", "\r\n-", "\r\n--", "\r\n--a", "\r\n--ab", "\r\n--b", "xyzxyzxyz", "--ab--", "\r\n--b--x", "12345678"];
        for (i, d) in datas.iter().enumerate() {
            for off in [0i32, -1, 1] {
                let n = d.len() as i32 + off;
                if !(0..=9).contains(&n) {
                    continue;
                }
                let tails = [format!("\r\n--{}--", s), format!("\r\n--{}\r\nA: x\r\n\r\n{}\r\n--{}--z", s, d, s), format!("\r\n--{}\r\nA: 2\r\n\r\n\r\n\r\n--{}--", s, s), "x".to_string(), format!("--{}", s)];
                for (j, t) in tails.iter().enumerate() {
                    if off == 0 || th || (i + j) % 3 == 0 {
                        v.push(doc(Start::Multipart(bd), format!("--{}\r\nA: {}\r\n\r\n{}{}", s, n, d, t)));
                        v.push(doc(Start::Multipart(bd), format!("--{}\r\nA: q\r\n\r\ny\r\n--{}\r\nA: {}\r\n\r\n{}{}", s, s, n, d, t)));
                    }
                }
            }
        }
    }
    v
}

pub fn url(th: bool) -> Vec<Doc> {
    let mut v = Vec::new();
    let texts = ["", "a", "a=b", "a=b&c=d", "a;b=c;d", "=", "==", "&", "&&", ";&", "a=&=b", "a==b", "%41=%42", "a%2b+b=+%2B", "%", "%4", "%41", "a=%", "a=%4", "a=%41", "%zz", "a=%4g", "a b", "a=b c",
                 "a=%00%0a%ff", "+", "a=+", "%26=%3b&x", "a=b=c&d", "longername=longervalue&x=y", "%%41", "a=%%", "a=1%25", "\u{e9}=1", "a=\u{e9}", "%e2%82%AC=%f0"];
    for t in texts {
        let b = t.as_bytes();
        for n in 0..=b.len() {
            if n == b.len() || th || b.len() < 13 {
                v.push(doc(Start::Url(n), b));
            }
        }
        for junk in ["x", "&", "%", "=z", "%zz\x01"] {
            let mut d = b.to_vec();
            d.extend_from_slice(junk.as_bytes());
            v.push(doc(Start::Url(b.len()), d));
        }
        // fewer bytes than declared
        v.push(doc(Start::Url(b.len() + 3), b));
    }
    v
}

// -------------------------------------------------------------------------------------------------

fn frame(ty: u8, fl: u8, id: u32, payload: &[u8]) -> Vec<u8> {
    let mut v = h2hdr(payload.len() as u32, ty, fl, id);
    v.extend_from_slice(payload);
    v
}

pub fn payload_of(ty: u8, fl: u8, pad: u8, rest: usize) -> Vec<u8> {
    let mut p = Vec::new();
    let padded = fl & 8 != 0 && !matches!(ty, 2 | 3 | 4 | 6 | 7 | 8 | 9);
    if padded {
        p.push(pad);
    }
    let fixed: &[u8] = match ty {
        1 if fl & 0x20 != 0 => &[0x81, 2, 3, 4, 0xf5],
        2 => &[0x81, 2, 3, 4, 0xf5],
        3 => &[0x81, 2, 3, 4],
        4 => &[0, 3, 0x81, 2, 3, 4],
        5 | 8 => &[0x81, 2, 3, 4],
        7 => &[0x81, 2, 3, 4, 0xf5, 6, 7, 8],
        _ => &[],
    };
    p.extend_from_slice(fixed);
    if !matches!(ty, 2 | 3 | 4 | 8) {
        p.extend((0..rest).map(|x| b'a' + x as u8));
    }
    if padded {
        p.extend(std::iter::repeat(0).take(pad as usize));
    }
    p
}

pub fn h2(th: bool) -> Vec<Doc> {
    let mut v = Vec::new();
    let mut add = |d: Vec<u8>| v.push(doc(Start::H2, d));
    let tails = [frame(0, 0, 1, b"t"), frame(6, 1, 0x80000001, b"12345678"), frame(4, 0, 0, &[0, 1, 2, 3, 4, 5]), frame(8, 0, 3, &[0x80, 0, 0, 9]), frame(4, 1, 0, b""), frame(0, 1, 7, b""), frame(11, 0xff, 3, b"u")];
    let mut n = 0;
    for ty in [0u8, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 255] {
        for fl in [0u8, 8, 0x20, 0x28, 1, 4, 0xd7, 0xff] {
            if !th && !matches!(ty, 0 | 1 | 5 | 10) && fl & 8 != 0 && fl != 8 {
                continue;
            }
            for pad in 0..=if fl & 8 != 0 { 3 } else { 0 } {
                for rest in 0..=3 {
                    let mut d = frame(ty, fl, 0x80000000 | n as u32, &payload_of(ty, fl, pad, rest));
                    let whole = d.len();
                    n += 1;
                    d.extend_from_slice(&tails[n % tails.len()]);
                    add(d.clone());
                    // declared lengths that do not fit
                    let len = (whole - 9) as u32;
                    for l in [len.wrapping_sub(1), len.wrapping_sub(2), len + 1, 0, 4] {
                        if l < 100 && (th || (n + l as usize) % 5 == 0) {
                            let mut e = d.clone();
                            e[..3].copy_from_slice(&l.to_be_bytes()[1..]);
                            add(e);
                        }
                    }
                }
            }
        }
    }
    // long sequences
    let mut all = Vec::new();
    for t in &tails {
        all.extend_from_slice(t);
    }
    add(all);
    let mut all = Vec::new();
    for ty in 0..=10u8 {
        all.extend_from_slice(&frame(ty, 0x28, ty as u32, &payload_of(ty, 0x28, 1, 1)));
    }
    add(all);
    add(b"PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n".to_vec());
    for l in [0u8, 1, 2, 3, 4, 5, 6, 7, 8] {
        for ty in 0..=10 {
            for fl in [0, 8, 0x20, 0x28] {
                let mut d = h2hdr(l as u32, ty, fl, 1);
                d.extend_from_slice(&[l / 2, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10]);
                add(d);
            }
        }
    }
    v
}

/// Replace every byte of every document by every value.
pub fn substituted(base: &[Doc], th: bool) -> Vec<Doc> {
    let mut v = Vec::new();
    for d in base {
        for i in 0..d.bytes.len() {
            for b in 0..=255u8 {
                if b == d.bytes[i] || (!th && !(b < 0x30 || b > 0x3a && b < 0x42 || b > 0x5a && b < 0x61 || b > 0x7a && b < 0x82 || b > 0xfd || b % 16 == 6 || b"09:FGZafgz".contains(&b))) {
                    continue;
                }
                let mut x = d.clone();
                x.bytes[i] = b;
                v.push(x);
            }
        }
    }
    v
}

/// Insert a critical byte, drop a byte or double a byte anywhere.
pub fn edited(base: &[Doc]) -> Vec<Doc> {
    let mut v = Vec::new();
    for d in base {
        for i in 0..=d.bytes.len() {
            for b in [b'\r', b'\n', b' ', b'"', b'\\', b':', b'-', b'0', b'%', b'=', 0, 0xff] {
                let mut x = d.clone();
                x.bytes.insert(i, b);
                v.push(x);
            }
            if i < d.bytes.len() {
                let mut x = d.clone();
                x.bytes.remove(i);
                v.push(x);
                let mut x = d.clone();
                x.bytes.insert(i, d.bytes[i]);
                v.push(x);
            }
        }
    }
    v
}

/// Every stream with both a request or response line, a header block and trailing bytes, and so on:
/// one document per grammar element, used as the base of substitutions.
pub fn bases(mode: &str) -> Vec<Doc> {
    match mode {
        "request" => vec![head("\r\nHEAD /a?b HTTP/1.1\r\nA: b\r\n\r\n"), head("HTTPX * HTTP/12.345\r\n\r\n")],
        "response" => vec![head("HTTP/1.1 200 OK x\r\nA: b\r\n\r\n"), head("\r\nHTTP/123.45 065 K\r\n\r\n")],
        "headers" => vec![head("G / HTTP/1.1\r\nHost: a\r\n b\r\nX-y: \"q\\\"r\" s\r\n\r\nx"), head("HTTP/1.1 200 OK\r\nContent-Length: 0123456789 0123456789\r\nA:b\r\n\r\n")],
        "chunked" => vec![doc(Start::Chunked, "2\r\nxy\r\n1a;A=b;c=\"d\\\"e\";f\r\n01234567890123456789012345\r\n0;g= h\r\nT: t\r\n u\r\n\r\nz"), doc(Start::Chunked, "FfFf\r\nxy"), doc(Start::Chunked, "1\r\n0\r\n0\r\n\r\n")],
        "multipart" => vec![doc(Start::Multipart(b"ab"), "--ab\r\nA: b\r\n\r\nx\r\n--a\r\n--ab\r\nB: c\r\n\r\n\r\n--ab--z")],
        "declared" => vec![doc(Start::Multipart(b"ab"), "--ab\r\nA: 4\r\n\r\n\r\n--\r\n--ab\r\nB: x\r\n\r\ny\r\n--ab\r\nC: 0\r\n\r\n\r\n--ab--z")],
        "url" => vec![doc(Start::Url(24), "a=b&%41+c=%42+d;e==f&=&%7E?"), doc(Start::Url(9), "ab=%41%4"), doc(Start::Url(3), "%414x")],
        "h2" => {
            let mut a = frame(1, 0x28, 3, &payload_of(1, 0x28, 1, 2));
            a.extend_from_slice(&frame(7, 0, 0, &payload_of(7, 0, 0, 1)));
            a.extend_from_slice(&frame(0, 8, 5, &payload_of(0, 8, 2, 2)));
            let mut b = frame(2, 0, 3, &payload_of(2, 0, 0, 0));
            b.extend_from_slice(&frame(3, 0, 0, &payload_of(3, 0, 0, 0)));
            b.extend_from_slice(&frame(5, 8, 3, &payload_of(5, 8, 2, 2)));
            b.extend_from_slice(&frame(8, 0, 3, &payload_of(8, 0, 0, 0)));
            let mut c = frame(4, 0, 0, &payload_of(4, 0, 0, 0));
            c.extend_from_slice(&frame(9, 4, 3, b"ab"));
            c.extend_from_slice(&frame(6, 0, 0, b"12345678"));
            c.extend_from_slice(&frame(77, 8, 3, &payload_of(77, 8, 1, 1)));
            vec![doc(Start::H2, a), doc(Start::H2, b), doc(Start::H2, c)]
        }
        _ => unreachable!(),
    }
}
