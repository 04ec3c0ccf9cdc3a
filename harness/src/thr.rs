//! Threads of the code under test, one schedule after another: what `pthread_create` starts runs as a whole, at once or later,
//! in an order that is a choice of the executor. Symbolic runs give each its own thread-local storage; native replays run it on a real thread, in the chosen order.
type Start = extern "C" fn(*mut u8) -> *mut u8;
struct T { start: Start, arg: *mut u8, id: u64 }
static mut PENDING: Vec<T> = Vec::new();
static mut COUNT: u64 = 0;
/// 0: every thread runs when it is started; 1: each at once or later, in any order; 2: all later, in any order
static mut MODE: u64 = 0;
#[allow(static_mut_refs)]
pub fn begin(mode: u64) { unsafe { MODE = mode; COUNT = 0; PENDING.clear() } }
/// the number of threads started since `begin`
pub fn started() -> u64 { unsafe { COUNT } }
#[cfg(not(feature = "native"))]
unsafe extern "C" { fn sym_tls_save(p: *mut u8) -> u64; fn sym_tls_load(p: *const u8) -> u64; }
#[cfg(not(feature = "native"))]
fn run(t: T) { unsafe { let n = sym_tls_save(core::ptr::null_mut()); let mut b = vec![0u8; n as usize]; sym_tls_save(b.as_mut_ptr()); (t.start)(t.arg); sym_tls_load(b.as_ptr()); } }
#[cfg(feature = "native")]
unsafe extern "C" { fn dlsym(h: *mut u8, n: *const u8) -> *mut u8; }
#[cfg(feature = "native")]
fn run(t: T) {
    unsafe {
        let next = !0usize as *mut u8;
        let create: extern "C" fn(*mut u64, *const u8, Start, *mut u8) -> i32 = core::mem::transmute(dlsym(next, c"pthread_create".as_ptr() as _));
        let join: extern "C" fn(u64, *mut *mut u8) -> i32 = core::mem::transmute(dlsym(next, c"pthread_join".as_ptr() as _));
        let mut id = 0; assert_eq!(create(&mut id, core::ptr::null(), t.start, t.arg), 0); assert_eq!(join(id, core::ptr::null_mut()), 0);
    }
}
#[allow(static_mut_refs)]
fn run_pending() { unsafe { while !PENDING.is_empty() { let n = PENDING.len() as u64; let k = if n == 1 { 0 } else { crate::sym::choose("next thread", n) }; let t = PENDING.remove(k as usize); run(t) } } }
#[allow(static_mut_refs)]
#[unsafe(no_mangle)] extern "C" fn pthread_create(out: *mut u64, _: *const u8, start: Start, arg: *mut u8) -> i32 {
    unsafe { COUNT += 1; *out = COUNT; let t = T { start, arg, id: COUNT }; let later = match MODE { 0 => false, 1 => crate::sym::choose("later", 2) == 1, _ => true }; if later { PENDING.push(t) } else { run(t) } } 0
}
#[unsafe(no_mangle)] extern "C" fn pthread_join(_: u64, r: *mut *mut u8) -> i32 { run_pending(); if !r.is_null() { unsafe { *r = core::ptr::null_mut() } } 0 }
#[unsafe(no_mangle)] extern "C" fn pthread_detach(_: u64) -> i32 { run_pending(); 0 }
