//! Native definitions of the harness intrinsics: values come from the file named by SYM_INPUTS
//! (lines "name hexvalue"; the n-th use of a name takes the n-th line with that name, 0 when there is none).
use std::collections::HashMap;
use std::sync::Mutex;
static IN: Mutex<Option<HashMap<String, Vec<u64>>>> = Mutex::new(None);
fn st(p: *const u8, n: usize) -> String { unsafe { String::from_utf8_lossy(std::slice::from_raw_parts(p, n)).into_owned() } }
#[unsafe(no_mangle)] extern "C" fn sym_var(p: *const u8, n: usize, w: u32) -> u64 {
    let mut g = IN.lock().unwrap();
    let m = g.get_or_insert_with(|| {
        let mut m: HashMap<String, Vec<u64>> = HashMap::new();
        if let Ok(f) = std::env::var("SYM_INPUTS") {
            for l in std::fs::read_to_string(f).unwrap().lines() { if let Some((a, b)) = l.rsplit_once(' ') { m.entry(a.to_string()).or_default().push(u64::from_str_radix(b, 16).unwrap()) } }
        }
        for v in m.values_mut() { v.reverse() }
        m
    });
    let k = st(p, n); let v = m.get_mut(&k).and_then(|v| v.pop()).unwrap_or(0);
    if w < 64 { v & ((1u64 << w) - 1) } else { v }
}
#[unsafe(no_mangle)] extern "C" fn sym_choose(p: *const u8, n: usize, _: u64) -> u64 { sym_var(p, n, 32) }
#[unsafe(no_mangle)] extern "C" fn sym_assume(c: bool) { if !c { eprintln!("REPLAY: assumption not met"); std::process::exit(40) } }
#[unsafe(no_mangle)] extern "C" fn sym_check(c: bool, p: *const u8, n: usize) { if !c { eprintln!("REPLAY: check failed: {}", st(p, n)); std::process::exit(41) } }
#[unsafe(no_mangle)] extern "C" fn sym_cover(p: *const u8, n: usize) { if std::env::var("SYM_TRACE").is_ok() { eprintln!("COVER {}", st(p, n)) } }
#[unsafe(no_mangle)] extern "C" fn sym_note(p: *const u8, n: usize) { eprintln!("NOTE {}", st(p, n)) }
#[unsafe(no_mangle)] extern "C" fn sym_concretize(v: u64) -> u64 { v }
#[unsafe(no_mangle)] extern "C" fn sym_ite(c: bool, a: u64, b: u64) -> u64 { if c { a } else { b } }
#[unsafe(no_mangle)] extern "C" fn sym_set_clock(on: u64) { *CLOCK.lock().unwrap() = (on != 0, 1000, 0) }
static CLOCK: Mutex<(bool, u64, u64)> = Mutex::new((false, 1000, 0));
fn rd(n: &str, w: u32) -> u64 { sym_var(n.as_ptr(), n.len(), w) }
/// the clock of the process (this library is linked so that it uses its own): real, or as given in the inputs
#[unsafe(no_mangle)] extern "C" fn clock_gettime(id: i32, ts: *mut [u64; 2]) -> i32 {
    let mut c = CLOCK.lock().unwrap();
    if !c.0 { let mut t = [0u64; 2]; let r: i64; unsafe { core::arch::asm!("syscall", inlateout("rax") 228i64 => r, in("rdi") id as i64, in("rsi") &mut t as *mut _, out("rcx") _, out("r11") _); *ts = t } return r as i32 }
    let s = rd("clock_s", 8); let n = rd("clock_n", 32); let n = if n < 1_000_000_000 { n } else { 0 };
    if s > c.1 - 1000 { c.1 = 1000 + s; c.2 = n } else if n > c.2 { c.2 = n }
    unsafe { *ts = [c.1, c.2] } 0
}
#[unsafe(no_mangle)] extern "C" fn sym_trace(p: *const u8, n: usize, v: u64) { eprintln!("TRACE {} {:x}", st(p, n), v) }
