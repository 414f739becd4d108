//! Observations: every callback of the real parsers is turned into tokens, one per data byte and one
//! per event, so that observations of differently cut streams can be compared directly.

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct Tok {
    pub k: u8,
    pub a: u32,
    pub b: u64,
}

macro_rules! kinds {
    ($($name:ident = $v:expr),* $(,)?) => {
        $(pub const $name: u8 = $v;)*
        pub fn kind_name(k: u8) -> &'static str {
            match k { $($v => stringify!($name),)* _ => "?" }
        }
    };
}

kinds! {
    // data kinds (one token per byte): below 32
    METHOD = 0, URL = 1, STATUS = 2, HNAME = 3, HVAL = 4, CDATA = 5, XNAME = 6, XVAL = 7,
    MDATA = 8, UNAME = 9, UVAL = 10,
    DATA = 16, FRAG = 17, PING = 18, DEBUG = 19, UNSUP = 20,
    // events
    VERSION = 32, CODE = 33, INITFIN = 34, HDRFIN = 35, CHBEGIN = 36, CHLEN = 37, XFIN = 38,
    XSFIN = 39, BODYFIN = 40, MPBEGIN = 41, UBEGIN = 42,
    FRAME = 48, PEND = 49, HEADERS = 50, PRIORITY = 51, PUSH = 52, GOAWAY = 53, RST = 54,
    SETTING = 55, WINDOW = 56,
    // data changed while it was handed over
    CHANGED = 60,
}

pub fn is_data(k: u8) -> bool {
    k < 32
}

pub fn d(k: u8, byte: u8) -> Tok {
    Tok { k, a: byte as u32, b: 0 }
}

pub fn e(k: u8, a: u32, b: u64) -> Tok {
    Tok { k, a, b }
}

/// Frame header: length and type in `a`, flags and stream identifier in `b`.
pub fn frame(len: u32, ty: u8, flags: u8, id: u32) -> Tok {
    Tok { k: FRAME, a: (len << 8) | ty as u32, b: ((flags as u64) << 32) | id as u64 }
}

pub fn show(toks: &[Tok]) -> String {
    let mut s = String::new();
    let mut i = 0;
    while i < toks.len() {
        let t = toks[i];
        if !s.is_empty() {
            s.push(' ');
        }
        s.push_str(kind_name(t.k));
        if is_data(t.k) {
            s.push('(');
            while i < toks.len() && toks[i].k == t.k {
                let b = toks[i].a as u8;
                s.push_str(&std::ascii::escape_default(b).to_string());
                i += 1;
            }
            s.push(')');
        } else {
            match t.k {
                FRAME => s.push_str(&format!("(len={} type={} flags={:#x} id={:#x})", t.a >> 8,
                                             t.a & 0xff, t.b >> 32, t.b & 0xffffffff)),
                PEND => s.push_str(&format!("({})", kind_name(t.a as u8))),
                VERSION | SETTING | GOAWAY => s.push_str(&format!("({},{})", t.a, t.b)),
                HEADERS | PRIORITY => s.push_str(&format!("(id={:#x} excl={} weight={})", t.a,
                                                          t.b >> 8, t.b & 0xff)),
                CODE | PUSH | RST | WINDOW => s.push_str(&format!("({:#x})", t.a)),
                CHLEN => s.push_str(&format!("({})", t.b)),
                _ => {}
            }
            i += 1;
        }
    }
    s
}

pub fn esc(bytes: &[u8]) -> String {
    bytes.iter().map(|b| std::ascii::escape_default(*b).to_string()).collect()
}
