//! Slices offered to the parser in every state of a graph exploration.

/// All single bytes and the empty slice.
pub fn singles() -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![vec![]];
    v.extend((0..=255u8).map(|b| vec![b]));
    v
}

/// All strings over `alpha` with `lo..=hi` bytes.
pub fn strings(alpha: &[u8], lo: usize, hi: usize) -> Vec<Vec<u8>> {
    let mut v = Vec::new();
    let mut cur: Vec<Vec<u8>> = vec![vec![]];
    for n in 0..=hi {
        if n >= lo {
            v.extend(cur.iter().cloned());
        }
        if n < hi {
            cur = cur.iter().flat_map(|s| alpha.iter().map(move |b| {
                let mut t = s.clone();
                t.push(*b);
                t
            })).collect();
        }
    }
    v
}

pub fn dedup(v: Vec<Vec<u8>>) -> Vec<Vec<u8>> {
    let mut seen = std::collections::HashSet::new();
    v.into_iter().filter(|x| seen.insert(x.clone())).collect()
}

pub const KNOWN_NAMES: [&str; 26] = [
    "Accept", "Accept-Charset", "Accept-Encoding", "Accept-Language", "Authorization", "Host",
    "User-Agent", "Upgrade", "Connection", "Content-Type", "Content-Length", "Cookie",
    "Cache-Control", "Content-Security-Policy", "Location", "Last-Modified", "Pragma",
    "Set-Cookie", "Transfer-Encoding", "X-Powered-By", "X-Forwarded-For", "X-Forwarded-Host",
    "X-XSS-Protection", "X-WebKit-CSP", "WWW-Authenticate", "Referer",
];

pub const METHODS: [&str; 20] = [
    "GET", "POST", "PUT", "DELETE", "CONNECT", "OPTIONS", "HEAD", "TRACE", "PRI", "PATCH", "H",
    "HT", "HTT", "HTTP", "HTTPS", "PROPFIND", "GETT", "POS", "X", "VERSIONCONTROL",
];

fn b(s: &str) -> Vec<u8> {
    s.as_bytes().to_vec()
}

/// With `dict` also longer pieces of request and response heads.
pub fn head(k: usize, dict: bool) -> Vec<Vec<u8>> {
    let mut v = singles();
    v.extend(strings(b"\r\n GH:\"\\a/.1", 2, k));
    if !dict {
        for s in ["HTTP/1.1 ", "HTTP/1.1\r\n", "GET / HTTP", "200 OK\r\n", "Host: 0123456789 0123456789", "host:", "Accept:0123456789 0123456789\r\n\r\n",
                  "A: \"\\\"\"\r\n b\r\n", "\r\n\r\nx", "HT", "HTT", "TP/1.1"] {
            v.push(b(s));
        }
        return dedup(v);
    }
    for m in METHODS {
        v.push(b(m));
        v.push(b(&format!("{} ", m)));
        v.push(b(&format!("{} / HTTP", m)));
        v.push(b(&format!("{} / HTTP/1.1\r", m)));
    }
    for ver in ["1.1", "2.0", "1.0", "0.0", "1.2", "2.1", "11.0", "1.10"] {
        for e in [" ", "\r", "\r\n", " 200", " 200 OK\r\n", "", "x", ": "] {
            v.push(b(&format!("HTTP/{}{}", ver, e)));
        }
    }
    v.push(b("HTTP"));
    v.push(b("HTTP/"));
    v.push(b("TP/1"));
    for c in ["200", "200 ", "200 O", "2 00", "20 ", "2000", "999 x\r\n"] {
        v.push(b(c));
    }
    for n in KNOWN_NAMES {
        for s in [n.to_string(), n.to_lowercase(), n.to_uppercase()] {
            v.push(b(&s));
            v.push(b(&format!("{}:", s)));
            // the look-ahead needs 24 bytes
            let t = format!("{}: 0123456789 0123456789 x", s);
            v.push(b(&t));
            v.push(b(&t[..24.max(n.len() + 1)]));
            v.push(b(&t[..23.max(n.len() + 1)]));
            v.push(b(&format!("{}x: 0123456789 0123456789 x", s)));
            v.push(b(&format!("{}:\r\n", s)));
            v.push(b(&format!("{}:v\r\n b\r\nA:\"q\\\"\"\r\n\r\n", s)));
        }
    }
    v.push(b(": v\r\n"));
    v.push(b("\r\n\r\n"));
    v.push(b("\r\n x"));
    v.push(b("\r\na: b\r\n\r\nx"));
    v.push(b("\"a\\\"b\" \"c\"\r\n"));
    v.push(b("GET / HTTP/1.1\r\nHost: a\r\n\r\nGET / HTTP/1.1\r\n\r\n"));
    dedup(v)
}

pub fn chunked(k: usize) -> Vec<Vec<u8>> {
    let mut v = singles();
    v.extend(strings(b"\r\n 0123;=\"\\aF", 2, k));
    for s in [
        "1\r\nx\r\n", "3\r\nabc\r\n", "3\r\nab", "0\r\n\r\n", "0\r\n\r\nx", "0;a=b\r\n\r\n", "2;a\r\nxy\r\n0\r\n\r\n",
        "1;A=\"q\\\"r\";b\r\nx\r\n", "0\r\nA: b\r\n\r\n", "Content-Length: 12345678901234567890\r\n", "FFFFFFFF\r\n",
        "100000000\r\n", "ffffffff;", "12345678", "123456789", "\r\n\r\n", "\r\n0\r\n", "; a = b", ";a= \"b\"", "a: b\r\n c\r\n\r\n",
        "00000001\r\n", "\r\n3\r\n\r\n1\r\n2\r\n",
    ] {
        v.push(b(s));
    }
    for n in ["Trailer", "Content-Type", "X-Forwarded-Host"] {
        v.push(b(&format!("{}: 0123456789 0123456789 x\r\n\r\n", n)));
    }
    dedup(v)
}

pub fn multipart(bd: &[u8], k: usize) -> Vec<Vec<u8>> {
    let mut v = singles();
    let mut al: Vec<u8> = b"\r\n-:x012".to_vec();
    for c in bd {
        if !al.contains(c) {
            al.push(*c);
        }
    }
    v.extend(strings(&al, 2, k));
    let s = String::from_utf8_lossy(bd).to_string();
    for t in [
        format!("--{}", s), format!("--{}\r\n", s), format!("--{}--", s), format!("\r\n--{}", s), format!("\r\n--{}\r\n", s),
        format!("\r\n--{}--", s), format!("\r\n--{}-", s), format!("\r\n--{}x", s), format!("\r\r\n--{}", s), format!("\r\n\r\n--{}", s),
        format!("\r\n-\r\n--{}--x", s), format!("\r\n--\r\n--{}--", s), format!("\r\n--{}\r\nA: b\r\n\r\ndata\r\n--{}--", s, s),
        format!("--{}\r\nA: 2\r\n\r\nxy\r\n--{}\r\nA: b\r\n\r\nxy\r\n--{}--x", s, s, s),
        "A: 3\r\n\r\n".to_string(), "A: b\r\n\r\n".to_string(), "\r\n\r\n".to_string(), "A: 0\r\n\r\n".to_string(),
        format!("--{}{}", s, s), format!("\r\n--{}\r\n--{}", s, s), "x\r\n".into(), "xx\r\n-".into(), "x\r\n--".into(),
    ] {
        v.push(b(&t));
    }
    for i in 1..s.len() {
        v.push(b(&format!("\r\n--{}", &s[..i])));
        v.push(b(&format!("\r\n--{}\r\n--{}", &s[..i], s)));
        v.push(b(&format!("\r\n--{}\r", &s[..i])));
        v.push(b(&s[i..]));
    }
    v.push(bd.to_vec());
    v.push(b("Content-Disposition: form-data; name=\"a\"\r\n\r\n"));
    dedup(v)
}

pub fn url(k: usize) -> Vec<Vec<u8>> {
    let mut v = singles();
    v.extend(strings(b"a=&;%+24fG ", 2, k));
    for s in ["a=b&c=d", "%41%42", "a%20b=c%2", "%", "%4", "%zz", "%2z", "a=%00%ff;b", "==", "&&", "=a=", "abcdefgh", "a=b&c=d&e=f&g=h"] {
        v.push(b(s));
    }
    dedup(v)
}

fn h2hdr(len: u32, ty: u8, fl: u8, id: u32) -> Vec<u8> {
    let mut v = len.to_be_bytes()[1..].to_vec();
    v.push(ty);
    v.push(fl);
    v.extend_from_slice(&id.to_be_bytes());
    v
}

pub fn h2(lens: &[u32], types: &[u8], flags: &[u8], k: usize) -> Vec<Vec<u8>> {
    let mut v = singles();
    v.extend(strings(&[0, 1, 2, 8, 0x81], 2, k));
    for w in [1u32, 0x81020304, 0x7fffffff, 0x80000000, 0xffffffff] {
        v.push(w.to_be_bytes().to_vec());
        let mut x = w.to_be_bytes().to_vec();
        x.push(0xfe);
        v.push(x.clone());
        x.extend_from_slice(&[1, 2, 3]);
        v.push(x);
        let mut y = vec![1u8];
        y.extend_from_slice(&w.to_be_bytes());
        v.push(y);
        let mut z = vec![0xf0u8, 0x0f];
        z.extend_from_slice(&w.to_be_bytes());
        v.push(z);
    }
    for t in types {
        for f in flags {
            for l in lens {
                let h = h2hdr(*l, *t, *f, 0x81020304);
                v.push(h[..3].to_vec());
                v.push(h[..4].to_vec());
                v.push(h[..5].to_vec());
                v.push(h.clone());
                let mut x = h.clone();
                x.extend_from_slice(&[0, 1, 2, 3, 4]);
                v.push(x.clone());
                x.extend_from_slice(&[5, 6, 7, 8, 9, 10, 11, 12, 13]);
                v.push(x);
                let mut x = h.clone();
                x.extend_from_slice(&[1, 0x81, 2, 3, 4, 5]);
                v.push(x.clone());
                v.push(h[4..].to_vec());
                v.push(h[5..].to_vec());
                let mut x = h.clone();
                x.extend_from_slice(&h);
                v.push(x);
            }
        }
    }
    dedup(v)
}
