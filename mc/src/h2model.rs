//! Reference model of HTTP/2 frame parsing.

use crate::model::*;
use crate::tok::*;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum F { Hdr, Pad, Fixed, Payload, Padding }

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct H2 {
    pub st: F,
    pub status: Status,
    var: Variant,
    cnt: u8,
    acc: u128,
    len: u32,
    pad: u32,
    ty: u8,
    flags: u8,
    /// This is not the first frame.
    later: bool,
}

pub const T_DATA: u8 = 0;
pub const T_HEADERS: u8 = 1;
pub const T_PRIORITY: u8 = 2;
pub const T_RST: u8 = 3;
pub const T_SETTINGS: u8 = 4;
pub const T_PUSH: u8 = 5;
pub const T_PING: u8 = 6;
pub const T_GOAWAY: u8 = 7;
pub const T_WINDOW: u8 = 8;
pub const T_CONT: u8 = 9;
pub const F_PADDED: u8 = 8;
pub const F_PRIORITY: u8 = 0x20;

fn ev(out: &mut Vec<MTok>, t: Tok) {
    out.push(MTok { t, inplace: false });
}

impl H2 {
    fn kind(&self) -> u8 {
        match self.ty {
            T_DATA => DATA,
            T_HEADERS | T_PUSH | T_CONT => FRAG,
            T_PING => PING,
            T_GOAWAY => DEBUG,
            _ => UNSUP,
        }
    }

    fn padded(&self) -> bool {
        self.flags & F_PADDED != 0
            && !matches!(self.ty, T_PRIORITY | T_RST | T_SETTINGS | T_PING | T_GOAWAY | T_WINDOW | T_CONT)
    }

    /// Bytes of fixed fields after the pad length.
    fn fixed(&self) -> u32 {
        match self.ty {
            T_HEADERS => if self.flags & F_PRIORITY != 0 { 5 } else { 0 },
            T_PRIORITY => 5,
            T_RST | T_WINDOW | T_PUSH => 4,
            T_SETTINGS => if self.len > 0 { 6 } else { 0 },
            T_GOAWAY => 8,
            _ => 0,
        }
    }

    fn next(&mut self) {
        self.st = F::Hdr;
        self.cnt = 0;
        self.acc = 0;
        self.len = 0;
        self.pad = 0;
        self.ty = 0;
        self.flags = 0;
        self.later = true;
    }

    fn after_pad(&mut self, out: &mut Vec<MTok>) {
        self.cnt = 0;
        self.acc = 0;
        if self.fixed() > 0 {
            self.st = F::Fixed;
        } else {
            if self.ty == T_HEADERS && self.padded() {
                ev(out, e(HEADERS, 0, 0));
            }
            if self.ty == T_SETTINGS {
                self.next();
            } else {
                self.payload(out);
            }
        }
    }

    fn payload(&mut self, out: &mut Vec<MTok>) {
        self.cnt = 0;
        self.acc = 0;
        if self.len == self.pad {
            self.end_payload(out);
        } else {
            self.st = F::Payload;
        }
    }

    fn end_payload(&mut self, out: &mut Vec<MTok>) {
        ev(out, e(PEND, self.kind() as u32, 0));
        if self.pad > 0 {
            self.st = F::Padding;
            self.len = self.pad;
            self.pad = 0;
            self.ty = 0;
            self.flags = 0;
        } else {
            self.next();
        }
    }

    fn err(&mut self) {
        self.status = Status::Err(crate::h1model::X_DEAD, 0);
    }
}

impl Model for H2 {
    fn new(_: Start, var: Variant) -> H2 {
        H2 {
            st: F::Hdr, status: Status::Run, var, cnt: 0, acc: 0, len: 0, pad: 0, ty: 0, flags: 0,
            later: false,
        }
    }

    fn begin(&mut self, _: &mut Vec<MTok>) {}

    fn step(&mut self, b: u8, out: &mut Vec<MTok>) {
        match self.st {
            F::Hdr => {
                self.acc = self.acc << 8 | b as u128;
                self.cnt += 1;
                if self.cnt == 9 {
                    let id = self.acc as u32 & 0x7fffffff;
                    self.flags = (self.acc >> 32) as u8;
                    self.ty = (self.acc >> 40) as u8;
                    self.len = (self.acc >> 48) as u32;
                    let need = self.padded() as u32 + self.fixed();
                    if self.len < need {
                        self.err();
                        return;
                    }
                    self.later = false;
                    ev(out, frame(self.len, self.ty, self.flags, id));
                    self.cnt = 0;
                    self.acc = 0;
                    if self.padded() {
                        self.st = F::Pad;
                    } else {
                        self.after_pad(out);
                    }
                }
            }
            F::Pad => {
                self.pad = b as u32;
                self.len -= 1;
                if self.pad + self.fixed() > self.len {
                    self.err();
                    return;
                }
                self.after_pad(out);
            }
            F::Fixed => {
                self.acc = self.acc << 8 | b as u128;
                self.cnt += 1;
                if (self.cnt as u32) < self.fixed() {
                    return;
                }
                let acc = self.acc as u64;
                self.len -= self.fixed();
                let over = self.len > 0;
                match self.ty {
                    T_HEADERS | T_PRIORITY => {
                        let dep = (acc >> 8) as u32;
                        let v = ((dep >> 31) as u64) << 8 | acc & 0xff;
                        let k = if self.ty == T_HEADERS { HEADERS } else { PRIORITY };
                        ev(out, e(k, dep & 0x7fffffff, v));
                    }
                    T_RST => ev(out, e(RST, acc as u32, 0)),
                    T_WINDOW => ev(out, e(WINDOW, acc as u32 & 0x7fffffff, 0)),
                    T_PUSH => ev(out, e(PUSH, acc as u32 & 0x7fffffff, 0)),
                    T_GOAWAY => ev(out, e(GOAWAY, (acc >> 32) as u32 & 0x7fffffff, acc & 0xffffffff)),
                    T_SETTINGS => ev(out, e(SETTING, (acc >> 32) as u32, acc & 0xffffffff)),
                    _ => unreachable!(),
                }
                self.cnt = 0;
                self.acc = 0;
                match self.ty {
                    T_HEADERS | T_PUSH => self.payload(out),
                    T_GOAWAY => {
                        // without debug data there is nothing more to deliver
                        if over { self.payload(out) } else { self.next() }
                    }
                    T_SETTINGS => {
                        if self.len % 6 != 0 {
                            self.status = Status::Unspec;
                        } else if !over || self.var.settings_single {
                            self.next();
                        }
                    }
                    _ => {
                        if over { self.status = Status::Unspec } else { self.next() }
                    }
                }
            }
            F::Payload => {
                out.push(MTok { t: d(self.kind(), b), inplace: true });
                self.len -= 1;
                if self.len == self.pad {
                    self.end_payload(out);
                }
            }
            F::Padding => {
                self.len -= 1;
                if self.len == 0 {
                    self.next();
                }
            }
        }
    }

    fn status(&self) -> Status {
        self.status
    }

    fn set_status(&mut self, s: Status) {
        self.status = s;
    }

    fn deferred(&self) -> bool {
        false
    }

    fn keep(&self, l: &Limits) -> bool {
        let prefix = |v: u32, bytes: u32| {
            l.h2_u32.iter().any(|x| bytes == 0 || x >> (32 - 8 * bytes) == v)
        };
        (self.st == F::Hdr || self.len <= l.h2_len) && (match self.st {
            F::Hdr => {
                let c = self.cnt as u32;
                if c == 0 {
                    return true;
                }
                let top = |n: u32| (self.acc >> (8 * (c - n))) as u64;
                if c <= 3 {
                    return l.h2_len >> (8 * (3 - c)) >= top(c) as u32;
                }
                if top(3) as u32 > l.h2_len {
                    return false;
                }
                if !l.h2_types.contains(&(top(4) as u8)) {
                    return false;
                }
                if c >= 5 && !l.h2_flags.contains(&(top(5) as u8)) {
                    return false;
                }
                c < 6 || prefix((self.acc & ((1u128 << (8 * (c - 5))) - 1)) as u32, c - 5)
            }
            F::Pad => true,
            F::Fixed => {
                let c = self.cnt as u32;
                let pad_ok = self.pad == 0 || l.h2_pads.contains(&(self.pad as u8));
                let v = self.acc as u64;
                pad_ok && if c == 0 {
                    true
                } else if self.ty == T_SETTINGS {
                    // 2 byte identifier, 4 byte value
                    if c <= 2 {
                        v == if c == 1 { 0 } else { 3 } || v == if c == 1 { 0xf0 } else { 0xf00f }
                    } else {
                        let id = v >> (8 * (c - 2));
                        (id == 3 || id == 0xf00f)
                            && prefix((v & ((1u64 << (8 * (c - 2))) - 1)) as u32, c - 2)
                    }
                } else if c <= 4 {
                    prefix(v as u32, c)
                } else {
                    let lo = v & ((1u64 << (8 * (c - 4))) - 1);
                    prefix((v >> (8 * (c - 4))) as u32, 4) && prefix(lo as u32, c - 4)
                }
            }
            _ => self.pad == 0 || l.h2_pads.contains(&(self.pad as u8)),
        })
    }

    fn region(&self) -> u64 {
        match self.st {
            F::Hdr => E03 | if self.later { E05 } else { 0 } | if self.cnt == 8 { E06 } else { 0 },
            F::Pad => E05 | E06,
            F::Fixed => E04,
            F::Payload | F::Padding => E05,
        }
    }

    fn tok_region(&self, t: &Tok) -> u64 {
        match t.k {
            FRAME => E03 | if self.later { E05 } else { 0 },
            PEND => E05,
            k if is_data(k) => E05,
            _ => E04,
        }
    }

    fn name(&self) -> String {
        format!("{:?} type {}", self.st, self.ty)
    }

    fn partial_kind(&self) -> Option<u8> {
        None
    }
}
