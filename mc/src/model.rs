//! What every reference model provides.

use crate::tok::Tok;
use std::fmt::Debug;
use std::hash::Hash;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Status {
    Run,
    Done,
    /// The stream is invalid: error kind and offending byte.
    Err(u8, u8),
    /// The error has been reported.
    Dead,
    /// The property does not say what happens from here on.
    Unspec,
}

/// A token together with what the model knows about it.
#[derive(Clone, Copy)]
pub struct MTok {
    pub t: Tok,
    /// The token is the current byte taken verbatim and must point into the caller's buffer.
    pub inplace: bool,
}

/// How a parser instance is created.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Start {
    /// `Parser::new()` without initialisation (HTTP/1).
    New,
    Head,
    Chunked,
    Multipart(&'static [u8]),
    Url(usize),
    H2,
}

/// Deviations of the unchanged tree that are recorded as known findings.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, Default)]
pub struct Variant {
    /// A parser that was created but not initialised does not skip leading blanks.
    pub new_nostrip: bool,
    /// Only the first setting of a SETTINGS frame is read.
    pub settings_single: bool,
}

/// Property bit masks.
pub const IDS: [&str; 44] = [
    "A01", "A02", "A03", "A04", "A05", "A06", "A07", "A08", "B01", "B02", "B03", "B04", "B05",
    "B06", "B07", "B08", "B09", "E01", "E02", "E03", "E04", "E05", "E06", "E07", "E08", "E09",
    "F01", "F02", "F03", "F04", "F05", "F06", "G01", "A09", "E10", "G02", "A10", "H01", "H02", "B10", "F07", "A11", "H03", "H04",
];

pub const fn bit(i: usize) -> u64 {
    1 << i
}
pub const A01: u64 = bit(0);
pub const A02: u64 = bit(1);
pub const A03: u64 = bit(2);
pub const A04: u64 = bit(3);
pub const A05: u64 = bit(4);
pub const A06: u64 = bit(5);
pub const A07: u64 = bit(6);
pub const A08: u64 = bit(7);
pub const B01: u64 = bit(8);
pub const B02: u64 = bit(9);
pub const B03: u64 = bit(10);
pub const B04: u64 = bit(11);
pub const B05: u64 = bit(12);
pub const B06: u64 = bit(13);
pub const B07: u64 = bit(14);
pub const B08: u64 = bit(15);
pub const B09: u64 = bit(16);
pub const E01: u64 = bit(17);
pub const E02: u64 = bit(18);
pub const E03: u64 = bit(19);
pub const E04: u64 = bit(20);
pub const E05: u64 = bit(21);
pub const E06: u64 = bit(22);
pub const E07: u64 = bit(23);
pub const E08: u64 = bit(24);
pub const E09: u64 = bit(25);
pub const F01: u64 = bit(26);
pub const F02: u64 = bit(27);
pub const F03: u64 = bit(28);
pub const F04: u64 = bit(29);
pub const F05: u64 = bit(30);
pub const F06: u64 = bit(31);
pub const G01: u64 = bit(32);
pub const A09: u64 = bit(33);
pub const E10: u64 = bit(34);
pub const G02: u64 = bit(35);
pub const A10: u64 = bit(36);
pub const H01: u64 = bit(37);
pub const H02: u64 = bit(38);
pub const B10: u64 = bit(39);
pub const F07: u64 = bit(40);
pub const A11: u64 = bit(41);
pub const H03: u64 = bit(42);
pub const H04: u64 = bit(43);

pub fn mask_of(id: &str) -> Option<u64> {
    IDS.iter().position(|x| *x == id).map(bit)
}

pub fn mask_names(m: u64) -> String {
    let v: Vec<&str> = (0..IDS.len()).filter(|i| m & bit(*i) != 0).map(|i| IDS[i]).collect();
    v.join(",")
}

/// Bounds on the numeric accumulators of the states that are explored further.
#[derive(Clone, Debug)]
pub struct Limits {
    pub ver: Vec<u8>,
    pub code: Vec<u8>,
    pub hex: Vec<u8>,
    pub esc: Vec<u8>,
    pub max_n: u64,
    pub h2_types: Vec<u8>,
    pub h2_flags: Vec<u8>,
    pub h2_len: u32,
    pub h2_u32: Vec<u32>,
    pub h2_pads: Vec<u8>,
    /// Stop expanding once this grammar region is left (0: never).
    pub only: u64,
}

impl Default for Limits {
    fn default() -> Limits {
        Limits {
            ver: vec![0, 1],
            code: vec![0, 2],
            hex: vec![1, 0xf],
            esc: vec![0x00, 0x25, 0x41, 0xff],
            max_n: 3,
            h2_types: vec![0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 255],
            h2_flags: vec![0, 8, 0x20, 0x28, 0xd7],
            h2_len: 10,
            h2_u32: vec![1, 0x81020304],
            h2_pads: vec![0, 1, 2],
            only: 0,
        }
    }
}

pub trait Model: Clone + Eq + Hash + Debug + Send + Sync + 'static {
    fn new(start: Start, v: Variant) -> Self;
    /// Tokens that are due before any byte.
    fn begin(&mut self, out: &mut Vec<MTok>);
    fn step(&mut self, b: u8, out: &mut Vec<MTok>);
    fn status(&self) -> Status;
    fn set_status(&mut self, s: Status);
    /// The error was caused by the end of the declared length, and may be reported by a later call.
    fn deferred(&self) -> bool;
    fn keep(&self, l: &Limits) -> bool;
    /// Properties that speak about the grammar element the model is in.
    fn region(&self) -> u64;
    /// Properties that speak about this observation.
    fn tok_region(&self, t: &Tok) -> u64;
    fn name(&self) -> String;
    /// Data tokens of this kind that an error cut short need not have been delivered.
    fn partial_kind(&self) -> Option<u8>;
}

pub fn is_token(b: u8) -> bool {
    // RFC 2616: any CHAR except CTLs or separators
    b > 0x20 && b < 0x7f && !b"()<>@,;:\\\"/[]?={}".contains(&b)
}

pub fn is_field(b: u8) -> bool {
    b == b'\t' || (b >= 0x20 && b != 0x7f && b != b'"')
}

pub fn is_quoted_field(b: u8) -> bool {
    is_field(b) && b != b'\\'
}

pub fn is_visible(b: u8) -> bool {
    b > 0x20 && b < 0x7f
}

pub fn is_escapable(b: u8) -> bool {
    b > 0x1f && b < 0x7b
}

pub fn hexv(b: u8) -> Option<u8> {
    match b {
        b'0'..=b'9' => Some(b - b'0'),
        b'a'..=b'f' => Some(b - b'a' + 10),
        b'A'..=b'F' => Some(b - b'A' + 10),
        _ => None,
    }
}
