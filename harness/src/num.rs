//! Floating-point instructions by their definition on bit patterns: integer operations only, except for the five
//! arithmetic operations, whose IEEE 754 result is taken from the machine's own.
#![allow(dead_code)]
use crate::rt::*;
pub struct Fl { pub w: u32, pub m: u32, pub sgn: u64, pub inf: u64, pub quiet: u64, pub bias: i64 }
pub const S: Fl = Fl { w: 32, m: 23, sgn: 1 << 31, inf: 0xff << 23, quiet: 1 << 22, bias: 127 };
pub const D: Fl = Fl { w: 64, m: 52, sgn: 1 << 63, inf: 0x7ff << 52, quiet: 1 << 51, bias: 1023 };
pub fn fl(w: u32) -> &'static Fl { if w == 32 { &S } else { &D } }
/// what an instruction may give
#[derive(Clone, Copy)]
pub enum Out { /// exactly these bits
    Bits(u64), /// this float, where a NaN stands for the ones the operands permit
    Float(u64), Trap(u32), /// one of two
    Either(u64, u64), Any }
impl Fl {
    pub fn mag(&self, x: u64) -> u64 { x & !self.sgn }
    pub fn nan(&self, x: u64) -> bool { self.mag(x) > self.inf }
    pub fn neg(&self, x: u64) -> bool { x & self.sgn != 0 }
    pub fn zero(&self, x: u64) -> bool { self.mag(x) == 0 }
    pub fn eq(&self, a: u64, b: u64) -> bool { !self.nan(a) & !self.nan(b) & ((a == b) | (self.mag(a | b) == 0)) }
    /// numbers in order, as integers of the same order
    fn key(&self, a: u64) -> i64 { let m = self.mag(a) as i64; sym::ite(self.neg(a), (-m) as u64, m as u64) as i64 }
    pub fn lt(&self, a: u64, b: u64) -> bool { !self.nan(a) & !self.nan(b) & (self.key(a) < self.key(b)) }
    pub fn le(&self, a: u64, b: u64) -> bool { !self.nan(a) & !self.nan(b) & (self.key(a) <= self.key(b)) }
    /// the canonical NaN
    pub fn cnan(&self) -> u64 { self.inf | self.quiet }
    /// 0 up, 1 down, 2 towards zero, 3 to the nearest, ties to even
    pub fn round(&self, x: u64, mode: u32) -> u64 {
        let (s, g) = (x & self.sgn, self.mag(x)); let one = (self.bias as u64) << self.m; let e = (g >> self.m) as i64 - self.bias;
        // below one
        let away = match mode { 0 => s == 0, 1 => s != 0, 2 => false, _ => g > one - (1 << self.m) }; let low = s | sym::ite(away & (g != 0), one, 0);
        let sh = sym::ite((e >= 0) & (e < self.m as i64), (self.m as u64).wrapping_sub(e as u64), 1); let mask = (1u64 << (sh & 63)) - 1; let (f, b) = (g & mask, g & !mask); let half = 1u64 << ((sh - 1) & 63);
        let up = match mode { 0 => (s == 0) & (f != 0), 1 => (s != 0) & (f != 0), 2 => false, _ => (f > half) | (f == half) & (b & (half << 1) != 0) }; let mid = s | b + sym::ite(up, half << 1, 0);
        sym::ite(e < 0, low, sym::ite(e >= self.m as i64, x, mid))
    }
    /// the integer part: negative?, magnitude (saturated), or None of a NaN
    pub fn int(&self, x: u64) -> (bool, u128) {
        let g = self.mag(x); let e = (g >> self.m) as i64 - self.bias; let man = (g & ((1 << self.m) - 1) | 1 << self.m) as u128; let ok = (e >= 0) & (e < 65); let e2 = sym::ite(ok, e as u64, 0) as u32;
        let v = (man << e2) >> self.m; (self.neg(x), if e < 0 { 0 } else if e >= 65 { u128::MAX } else { v })
    }
    /// truncation to an integer of iw bits; a saturating one never traps
    pub fn trunc(&self, x: u64, iw: u32, signed: bool, sat: bool) -> Out {
        let ones = if iw == 64 { u64::MAX } else { (1 << iw) - 1 };
        if self.nan(x) { return if sat { Out::Bits(0) } else { Out::Trap(BADCONV) } }
        let (n, v) = self.int(x); let (lo, hi): (u128, u128) = if signed { (1 << (iw - 1), (1 << (iw - 1)) - 1) } else { (0, ones as u128) };
        if n { if v > lo { if sat { Out::Bits(if signed { 1 << (iw - 1) } else { 0 }) } else { Out::Trap(OVERFLOW) } } else { Out::Bits((v as u64).wrapping_neg() & ones) } }
        else if v > hi { if sat { Out::Bits(hi as u64) } else { Out::Trap(OVERFLOW) } } else { Out::Bits(v as u64) }
    }
    /// the nearest float of sign s and magnitude g * 2^x, g not zero
    pub fn near(&self, s: u64, g: u64, x: i64) -> u64 {
        let mut n = 0u64; for k in 0..64 { n = sym::ite(g >> k & 1 == 1, k, n) } // place of the highest bit
        let e = n as i64 + x; // the value is at least 2^e
        // place of the last bit that is kept
        let min = 1 - self.bias; let e1 = sym::ite(e < min, min as u64, e as u64) as i64; let last = e1 - self.m as i64 - x;
        let exact = last <= 0; let l = sym::ite(exact, 0, last as u64); let l = sym::ite(l > 65, 65, l); let up = sym::ite(exact, (-last) as u64, 0) & 63;
        let q = ((g as u128) >> l) as u64; let rest = (g as u128) & ((1u128 << l) - 1); let half = (1u128 << l) >> 1; let inc = !exact & ((rest > half) | (rest == half) & (q & 1 == 1)); let q = (q << up) + sym::ite(inc, 1, 0);
        // q has the hidden bit unless the result is subnormal
        let b = ((e1 - min) as u64) << self.m; let r = b.wrapping_add(q); let big = e1 > self.bias; s | sym::ite(big | (r >= self.inf), self.inf, r)
    }
    pub fn from_int(&self, s: bool, g: u64) -> u64 { let r = self.near(sym::ite(s, self.sgn, 0), g, 0); sym::ite(g == 0, 0, r) }
    pub fn add(&self, op: u32, a: u64, b: u64) -> u64 {
        if self.w == 32 { let (x, y) = (f32::from_bits(a as u32), f32::from_bits(b as u32)); (match op { 0 => x + y, 1 => x - y, 2 => x * y, 3 => x / y, _ => x.sqrt() }).to_bits() as u64 }
        else { let (x, y) = (f64::from_bits(a), f64::from_bits(b)); (match op { 0 => x + y, 1 => x - y, 2 => x * y, 3 => x / y, _ => x.sqrt() }).to_bits() }
    }
    pub fn fma(&self, a: u64, b: u64, c: u64) -> u64 { if self.w == 32 { f32::from_bits(a as u32).mul_add(f32::from_bits(b as u32), f32::from_bits(c as u32)).to_bits() as u64 } else { f64::from_bits(a).mul_add(f64::from_bits(b), f64::from_bits(c)).to_bits() } }
    pub fn min(&self, a: u64, b: u64) -> u64 { let n = self.nan(a) | self.nan(b); let z = (self.mag(a) == 0) & (self.mag(b) == 0); sym::ite(n, self.cnan(), sym::ite(z, a | b, sym::ite(self.key(a) < self.key(b), a, b))) }
    pub fn max(&self, a: u64, b: u64) -> u64 { let n = self.nan(a) | self.nan(b); let z = (self.mag(a) == 0) & (self.mag(b) == 0); sym::ite(n, self.cnan(), sym::ite(z, a & b, sym::ite(self.key(a) < self.key(b), b, a))) }
    /// whether a NaN may be the result of operands: canonical ones give canonical ones, others any quiet one
    fn nan_of(&self, r: u64, ins: &[u64]) -> bool { let canon = |x: u64| self.mag(x) == self.cnan(); let mut all = true; for x in ins { all &= !self.nan(*x) | canon(*x) } sym::ite(all, canon(r) as u64, (self.nan(r) & (r & self.quiet != 0)) as u64) == 1 }
    /// one float result
    pub fn fits(&self, got: u64, want: u64, ins: &[u64]) -> bool { let n = self.nan(want); n & self.nan_of(got, ins) | !n & (got == want) }
}
pub fn promote(x: u64) -> u64 { let s = (x & S.sgn) << 32; let g = S.mag(x); let e = g >> 23; let f = g & 0x7f_ffff; if S.nan(x) { D.cnan() } else if g == S.inf { s | D.inf } else if g == 0 { s } else if e == 0 { D.near(s, f, -149) } else { s | ((e + 896) << 52) + (f << 29) } }
pub fn demote(x: u64) -> u64 { let s = (x & D.sgn) >> 32; let g = D.mag(x); let e = (g >> 52) as i64; let f = g & ((1 << 52) - 1); if D.nan(x) { S.cnan() } else if g == D.inf { s | S.inf } else if e < 700 { s } else { S.near(s, f | 1 << 52, e - 1075) } }
fn bo(v: bool) -> Out { Out::Bits(v as u64) }
fn trunc_of(k: u64, x: u64, sat: bool) -> Out { let iw = if k < 4 { 32 } else { 64 }; fl(if k & 2 == 0 { 32 } else { 64 }).trunc(x, iw, k & 1 == 0, sat) }
/// the one byte opcodes on floats
pub fn scalar(op: u64, a: u64, b: u64) -> Option<Out> {
    let w = match op { 0x5b..=0x60 | 0x8b..=0x98 => 32, _ => 64 }; let f = fl(w);
    Some(match op {
        0x5b..=0x66 => match (op - 0x5b) % 6 { 0 => bo(f.eq(a, b)), 1 => bo(!f.eq(a, b)), 2 => bo(f.lt(a, b)), 3 => bo(f.lt(b, a)), 4 => bo(f.le(a, b)), _ => bo(f.le(b, a)) },
        0x8b..=0x98 | 0x99..=0xa6 => match (op - 0x8b) % 14 { 0 => Out::Bits(f.mag(a)), 1 => Out::Bits(a ^ f.sgn), k @ (2 | 3 | 4 | 5) => Out::Float(sym::ite(f.nan(a), f.cnan(), f.round(a, k as u32 - 2))), 6 => Out::Float(f.add(4, a, a)), k @ 7..=10 => Out::Float(f.add(k as u32 - 7, a, b)), 11 => Out::Float(f.min(a, b)), 12 => Out::Float(f.max(a, b)), _ => Out::Bits(f.mag(a) | b & f.sgn) },
        0xa8..=0xab => trunc_of(op - 0xa8, a, false), 0xae..=0xb1 => trunc_of(op - 0xae + 4, a, false),
        0xb2..=0xb5 | 0xb7..=0xba => { let f = if op < 0xb6 { &S } else { &D }; let k = if op < 0xb6 { op - 0xb2 } else { op - 0xb7 }; let signed = k & 1 == 0; let (n, g) = if k < 2 { let x = a as u32; ((x as i32) < 0 && signed, if signed { (x as i32).unsigned_abs() } else { x } as u64) } else { ((a as i64) < 0 && signed, if signed { (a as i64).unsigned_abs() } else { a }) }; Out::Bits(f.from_int(n, g)) }
        0xb6 => Out::Float(demote(a)), 0xbb => Out::Float(promote(a)), 0xbc..=0xbf => Out::Bits(a), _ => return None,
    })
}
pub fn sat(k: u64, a: u64) -> Out { trunc_of(k, a, true) }
