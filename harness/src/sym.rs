//! Harness intrinsics. Undefined externals for the symbolic engine, a value file reader in native replays.
unsafe extern "C" {
    fn sym_var(name: *const u8, len: usize, width: u32) -> u64;
    fn sym_assume(c: bool);
    fn sym_check(c: bool, name: *const u8, len: usize);
    fn sym_cover(name: *const u8, len: usize);
    fn sym_note(name: *const u8, len: usize);
    fn sym_concretize(v: u64) -> u64;
    fn sym_ite(c: bool, a: u64, b: u64) -> u64;
    fn sym_choose(name: *const u8, len: usize, k: u64) -> u64;
    fn sym_set_clock(on: u64);
    fn sym_trace(name: *const u8, len: usize, v: u64);
}
#[inline(always)]
pub fn u64v(n: &str) -> u64 { unsafe { sym_var(n.as_ptr(), n.len(), 64) } }
#[inline(always)]
pub fn u32v(n: &str) -> u32 { unsafe { sym_var(n.as_ptr(), n.len(), 32) as u32 } }
#[inline(always)]
pub fn u16v(n: &str) -> u16 { unsafe { sym_var(n.as_ptr(), n.len(), 16) as u16 } }
#[inline(always)]
pub fn u8v(n: &str) -> u8 { unsafe { sym_var(n.as_ptr(), n.len(), 8) as u8 } }
#[inline(always)]
pub fn i32v(n: &str) -> i32 { u32v(n) as i32 }
#[inline(always)]
pub fn i64v(n: &str) -> i64 { u64v(n) as i64 }
#[inline(always)]
pub fn boolv(n: &str) -> bool { unsafe { sym_var(n.as_ptr(), n.len(), 1) != 0 } }
pub fn u128v(n: &str) -> u128 { let lo = u64v(n) as u128; let hi = u64v(n) as u128; lo | hi << 64 }
pub fn bytes<const N: usize>(n: &str) -> [u8; N] { let mut b = [0u8; N]; for x in b.iter_mut() { *x = u8v(n); } b }
#[inline(always)]
pub fn assume(c: bool) { unsafe { sym_assume(c) } }
#[inline(always)]
pub fn check(c: bool, n: &str) { unsafe { sym_check(c, n.as_ptr(), n.len()) } }
#[inline(always)]
pub fn cover(n: &str) { unsafe { sym_cover(n.as_ptr(), n.len()) } }
#[inline(always)]
pub fn note(n: &str) { unsafe { sym_note(n.as_ptr(), n.len()) } }
#[inline(always)]
pub fn concretize(v: u64) -> u64 { unsafe { sym_concretize(v) } }
#[inline(always)]
pub fn ite(c: bool, a: u64, b: u64) -> u64 { unsafe { sym_ite(c, a, b) } }
pub fn set_clock(on: bool) { unsafe { sym_set_clock(on as u64) } }
#[allow(dead_code)]
pub fn trace(n: &str, v: u64) { unsafe { sym_trace(n.as_ptr(), n.len(), v) } }
/// A value in `0..k`, split into one path per value.
pub fn choose(n: &str, k: u64) -> u64 { unsafe { sym_choose(n.as_ptr(), n.len(), k) } }
