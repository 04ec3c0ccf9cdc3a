//! C06: the memory backend and the allocation policy are not observable: every one behaves like an array of bytes.
use crate::rt::*;
use tinywasm::engine::{Config, LazyLinearMemory, LinearMemory, MemoryBackend, PagedMemory, VecMemory};
/// a backend that moves at most `step` bytes at a time and relies on the provided methods of the trait
struct Short { data: Vec<u8>, step: usize }
impl LinearMemory for Short {
    fn len(&self) -> usize { self.data.len() }
    fn grow_to(&mut self, n: usize) -> core::result::Result<(), Trap> { self.data.resize(n, 0); Ok(()) }
    fn read(&self, addr: usize, dst: &mut [u8]) -> usize { if addr >= self.data.len() { return 0 } let n = dst.len().min(self.step).min(self.data.len() - addr); dst[..n].copy_from_slice(&self.data[addr..addr + n]); n }
    fn write(&mut self, addr: usize, src: &[u8]) -> usize { if addr >= self.data.len() { return 0 } let n = src.len().min(self.step).min(self.data.len() - addr); self.data[addr..addr + n].copy_from_slice(&src[..n]); n }
}
fn backend(k: u64) -> MemoryBackend { match k { 0 => MemoryBackend::paged(4), 1 => MemoryBackend::paged(2), 2 => MemoryBackend::custom(|ty| Ok(Short { data: vec![0; ty.initial_size() as usize], step: 2 })), 3 => MemoryBackend::paged(1), 4 => MemoryBackend::paged(16), 5 => MemoryBackend::custom(|ty| PagedMemory::try_new(ty.initial_size() as usize, 8).map_err(Error::Trap)), 6 => MemoryBackend::custom(|ty| LazyLinearMemory::try_new(ty, MemoryBackend::paged(4))), _ => MemoryBackend::vec() } }
fn cfg(k: u64) -> Config { Config::new().with_memory_backend(backend(k)) }
/// one path per value near the memory
fn near(name: &str, n: u64, wide: bool) -> u64 { let k = choose(name, n + 2); if k <= n { k } else { let v = if wide { u64v(name) } else { u32v(name) as u64 }; assume(v > n); v } }
fn is(r: &RefMem, at: u64, b: &[u8], n: &str) { let mut e = true; for (k, x) in b.iter().enumerate() { e &= *x == r.get(at + k as u64) } check(e, n) }
fn whole(r: &RefMem, m: &dyn LinearMemory) { check(m.len() == r.0.len() && m.is_empty() == r.0.is_empty(), "length"); match m.read_vec(0, r.0.len()) { Some(v) => check(r.eq(&v), "contents afterwards"), None => check(false, "the whole memory can be read") } }
fn oob<T>(r: &core::result::Result<T, Trap>) -> bool { matches!(r, Err(Trap::MemoryOutOfBounds { .. })) }
// ---- the backends as such
fn create(k: u64, l: usize) -> Box<dyn LinearMemory> {
    let ty = MemoryType::default().with_page_size(Some(1)).with_page_count_initial(l as u64);
    let lazy = |b| match LazyLinearMemory::try_new(ty, b) { Ok(m) => Box::new(m) as Box<dyn LinearMemory>, Err(_) => panic!("lazy memory") };
    match k { 0 => match PagedMemory::try_new(l, 4) { Ok(m) => Box::new(m), Err(_) => panic!("paged memory") }, 1 => lazy(MemoryBackend::paged(2)), 2 => Box::new(Short { data: vec![0; l], step: 1 }), 3 => lazy(MemoryBackend::vec()), 4 => match VecMemory::try_new(l) { Ok(m) => Box::new(m), Err(_) => panic!("vec memory") },
        5 => match PagedMemory::try_new(l, 2) { Ok(m) => Box::new(m), Err(_) => panic!("paged memory") }, 6 => match PagedMemory::try_new(l, 16) { Ok(m) => Box::new(m), Err(_) => panic!("paged memory") }, 7 => Box::new(Short { data: vec![0; l], step: 3 }), _ => match PagedMemory::try_new(l, 1) { Ok(m) => Box::new(m), Err(_) => panic!("paged memory") } }
}
/// fills the memory, or leaves all or some of it untouched
fn prepare(m: &mut dyn LinearMemory, r: &mut RefMem, pattern: u64, b: &[u8]) {
    let n = r.0.len(); let (from, to) = match pattern { 0 => (0, 0), 1 => (0, n), 2 => (4.min(n), 8.min(n)), _ => (0, 4.min(n)) }; if to == from { return }
    check(m.write_all(from, &b[from..to]).is_some(), "the memory can be written"); for k in from..to { r.0[k] = b[k] }
}
fn small(n: &str, l: u64, full: bool) -> u64 { if full { near(n, l, true) } else { choose(n, l + 2) } }
fn one(m: &mut dyn LinearMemory, r: &mut RefMem, op: u64, full: bool) {
    let l = r.0.len() as u64; let at = small("at", l, full); let inb = |n: u64| at as u128 + n as u128 <= l as u128; let done = |ok: bool, n: u64, what: &str| { check(ok == (at as u128 + n as u128 <= l as u128), what); cover(if ok { "value" } else { "trap" }) };
    match op {
        0 => { let mut d = [0x99u8; 3]; let g = m.read(at as usize, &mut d) as u64; check(g <= 3 && (g > 0) == (at < l) && (g == 0 || inb(g)), "bytes read at once"); let g = sym::concretize(g) as usize; is(r, at, &d[..g], "read"); for k in g..3 { check(d[k] == 0x99, "nothing beyond the count") } }
        1 => { let s: [u8; 3] = sym::bytes("s"); let g = m.write(at as usize, &s) as u64; check(g <= 3 && (g > 0) == (at < l) && (g == 0 || inb(g)), "bytes written at once"); for k in 0..sym::concretize(g) { r.put(at + k, s[k as usize]) } }
        2 => { let n = [0, 1, 5][choose("n", 3) as usize]; let s: [u8; 5] = sym::bytes("s"); done(m.write_all(at as usize, &s[..n as usize]).is_some(), n, "write_all"); if inb(n) { for k in 0..n { r.put(at + k, s[k as usize]) } } }
        3 => { let n = small("n", l, full); let v = if choose("zero", 2) == 1 { 0 } else { u8v("v") }; done(m.fill(at as usize, n as usize, v).is_some(), n, "fill"); if inb(n) { for k in 0..sym::concretize(n) { r.put(at + k, v) } } }
        4 => { let (n, src) = (small("n", l, full), small("src", l, full)); let ok = m.copy_within(at as usize, src as usize, n as usize).is_some(); let good = inb(n) && src as u128 + n as u128 <= l as u128; check(ok == good, "copy_within"); cover(if ok { "value" } else { "trap" }); if good { let n = sym::concretize(n); let b: Vec<u8> = (0..n).map(|k| r.get(src + k)).collect(); for k in 0..n { r.put(at + k, b[k as usize]) } } }
        5 => { let n = [0usize, 1, 5][choose("n", 3) as usize]; let mut d = [0x99u8; 6]; done(m.read_exact(at as usize, &mut d[..n]).is_some(), n as u64, "read_exact"); if inb(n as u64) { is(r, at, &d[..n], "bytes read") } for k in n..6 { check(d[k] == 0x99, "nothing beyond the buffer") } }
        6 => { let n = small("n", l, full); match m.read_vec(at as usize, n as usize) { Some(v) => { check(inb(n) && v.len() as u64 == n, "read_vec"); is(r, at, &v, "bytes read"); cover("value") } None => { check(!inb(n), "read_vec within bounds"); cover("trap") } } }
        7 => { let n = l + choose("more", 6); check(m.grow_to(n as usize).is_ok(), "growth"); r.0.resize(n as usize, 0) }
        8 => { macro_rules! rd { ($n:expr, $f:ident) => {{ let o = m.$f(at as usize); done(o.is_ok(), $n, stringify!($f)); match o { Ok(b) => is(r, at, &b, stringify!($f)), e => check(oob(&e), "the trap names the memory") } }} } match choose("width", 5) { 0 => rd!(1, read_8), 1 => rd!(2, read_16), 2 => rd!(4, read_32), 3 => rd!(8, read_64), _ => rd!(16, read_128) } }
        _ => { let s: [u8; 16] = sym::bytes("s"); macro_rules! wr { ($n:expr, $f:ident) => {{ let o = m.$f(at as usize, &s[..$n]); done(o.is_ok(), $n, stringify!($f)); check(o.is_ok() || oob(&o), "the trap names the memory"); $n }} } let n = match choose("width", 5) { 0 => wr!(1, write_8), 1 => wr!(2, write_16), 2 => wr!(4, write_32), 3 => wr!(8, write_64), _ => wr!(16, write_128) }; if inb(n) { for k in 0..n { r.put(at + k, s[k as usize]) } } }
    }
}
fn direct(backends: u64, op: u64, l: usize) {
    let mut m = create(choose("backend", backends), l); let b: [u8; 20] = sym::bytes("m"); let mut r = RefMem(vec![0; l]); prepare(&mut *m, &mut r, choose("pattern", if backends > 5 { 4 } else { 3 }), &b);
    one(&mut *m, &mut r, op, true); whole(&r, &*m);
}
h!(h_c06_simple, { let op = [0, 1, 2, 3, 5, 7][choose("op", 6) as usize]; direct(9, op, 7) });
h!(h_c06_range, { let op = [4, 6][choose("op", 2) as usize]; direct(5, op, 7) });
h!(h_c06_rangex, { let op = [4, 6][choose("op", 2) as usize]; direct(9, op, 9) });
h!(h_c06_width, { let op = 8 + choose("op", 2); direct(5, op, 19) });
h!(h_c06_widthx, { let op = 8 + choose("op", 2); direct(9, op, 19) });
fn two(backends: u64, l: usize) {
    let mut m = create(choose("backend", backends), l); let mut r = RefMem(vec![0; l]); let b: [u8; 20] = sym::bytes("m"); prepare(&mut *m, &mut r, choose("pattern", 2), &b);
    let menu = [1u64, 3, 4, 7, 2]; for s in ["op0", "op1"] { let op = menu[choose(s, 5) as usize]; one(&mut *m, &mut r, op, false) } whole(&r, &*m);
}
h!(h_c06_two, { two(3, 3) });
h!(h_c06_twox, { two(9, 5) });
// ---- a module's memory under every configuration
const L: usize = 7; const L2: usize = 4;
/// who: 0 the module itself uses its memories (allocated at once), 1 another module imports them (allocated on first use), 2 like 1 without that policy, 3 like 0 with a segment at the start
fn guest(k: u64, who: u64, op: u64) {
    let host = who == 1 || who == 2; let mut d = M::new(); d.mem(memty(false, L as u64, Some(L as u64 + 4), 0)); d.mem(memty(false, L2 as u64, None, 0)); d.export("m", KM, 0); d.export("n", KM, 1);
    let mut u = M::new(); { let m = if host { u.imp_mem("d", "m", &memty(false, L as u64, Some(L as u64 + 4), 0)); u.imp_mem("d", "n", &memty(false, L2 as u64, None, 0)); &mut u } else { &mut d };
        m.data_passive(&[11, 22, 33, 44, 55]); if who == 3 { m.data(0, c().i32c(2), &[7, 8, 9]) }
        let mut f = |n: &str, p: &[u8], r: &[u8], b: C| { let f = m.func(p, r, &[], b); m.export(n, KF, f); };
        f("copy", &[I32, I32, I32], &[], c().get(0).get(1).get(2).fc(10).u(0).u(0)); f("copy01", &[I32, I32, I32], &[], c().get(0).get(1).get(2).fc(10).u(1).u(0)); f("copy10", &[I32, I32, I32], &[], c().get(0).get(1).get(2).fc(10).u(0).u(1));
        f("fill", &[I32, I32, I32], &[], c().get(0).get(1).get(2).fc(11).u(0)); f("init", &[I32, I32, I32], &[], c().get(0).get(1).get(2).fc(8).u(0).u(0)); f("grow", &[I32], &[I32, I32], c().get(0).op(0x40).u(0).op(0x3f).u(0));
        f("ld8", &[I32], &[I32], c().get(0).mem(0x2d, 0, 0, 1)); f("ld16", &[I32], &[I32], c().get(0).mem(0x2f, 1, 0, 1)); f("ld32", &[I32], &[I32], c().get(0).mem(0x28, 2, 0, 1)); f("ld64", &[I32], &[I64], c().get(0).mem(0x29, 3, 0, 0));
        f("st8", &[I32, I32], &[], c().get(0).get(1).mem(0x3a, 0, 0, 1)); f("st16", &[I32, I32], &[], c().get(0).get(1).mem(0x3b, 1, 0, 1)); f("st32", &[I32, I32], &[], c().get(0).get(1).mem(0x36, 2, 0, 1)); f("inc", &[I32, I32], &[], c().get(0).get(0).mem(0x28, 2, 0, 1).get(1).op(0x6a).mem(0x36, 2, 0, 1)); }
    let mut st = cfg_store(cfg(k)); let o = tinywasm::parser::ParserOptions::default().with_local_memory_allocation_optimization(who != 2); let md = match tinywasm::parser::Parser::with_options(o).parse_module_bytes(d.bytes()) { Ok(m) => m, Err(_) => panic!("rejected") };
    let di = match ModuleInstance::instantiate(&mut st, &md, None) { Ok(i) => i, Err(_) => { check(false, "instantiation"); return } }; let (x, y) = (di.memory("m").unwrap(), di.memory("n").unwrap());
    let ui = if host { let mut im = Imports::new(); if im.link_module("d", di.clone()).is_err() { panic!("link") } inst(&mut st, &u, true, Some(im)) } else { di.clone() };
    let b: [u8; L] = sym::bytes("m"); let mut r = RefMem(vec![0; L]); if who == 3 { r.0[2..5].copy_from_slice(&[7, 8, 9]) } let mut q = RefMem(vec![0; L2]);
    match choose("pattern", 3) { 0 => {} 1 => { check(x.copy_from_slice(&mut st, 0, &b).is_ok(), "host write"); r.0.copy_from_slice(&b) } _ => { check(x.copy_from_slice(&mut st, 2, &b[..1]).is_ok() && y.copy_from_slice(&mut st, 1, &b[1..3]).is_ok(), "host write"); r.0[2] = b[0]; q.0[1..3].copy_from_slice(&b[1..3]) } }
    let inb = |r: &RefMem, at: u64, n: u64| r.inb(at as u128 + n as u128, 0); let arg = |n: &str| near(n, L as u64, false); let a = |v: u64| i(v as i32); let want: Option<bool>; let oc;
    match op {
        0 => { let (d, s, n) = (arg("d"), arg("s"), arg("n")); let w = choose("which", 3); oc = call(&mut st, &ui, ["copy", "copy01", "copy10"][w as usize], &[a(d), a(s), a(n)]).0; let (sr, dl) = match w { 0 => (&r, &r), 1 => (&r, &q), _ => (&q, &r) }; let ok = inb(dl, d, n) && inb(sr, s, n); want = Some(ok); if ok { let n = sym::concretize(n); let b: Vec<u8> = (0..n).map(|k| sr.get(s + k)).collect(); let dst = if w == 1 { &mut q } else { &mut r }; for k in 0..n { dst.put(d + k, b[k as usize]) } } }
        1 => { let (d, n) = (arg("d"), arg("n")); let v = if choose("zero", 2) == 1 { 0 } else { u32v("v") }; oc = call(&mut st, &ui, "fill", &[a(d), i(v as i32), a(n)]).0; let ok = inb(&r, d, n); want = Some(ok); if ok { for k in 0..sym::concretize(n) { r.put(d + k, v as u8) } } }
        2 => { let (d, s, n) = (arg("d"), arg("s"), arg("n")); oc = call(&mut st, &ui, "init", &[a(d), a(s), a(n)]).0; let ok = inb(&r, d, n) && s + n <= 5; want = Some(ok); if ok { for k in 0..sym::concretize(n) { r.put(d + k, [11, 22, 33, 44, 55][(s + k) as usize]) } } }
        3 => { let n = arg("n"); let (o, v) = call(&mut st, &ui, "grow", &[a(n)]); oc = o; want = Some(true); let ok = n <= 4; check(o == OK && bits(&v[0]) as u32 == if ok { L as u32 } else { u32::MAX } && bits(&v[1]) as u64 == if ok { L as u64 + n } else { L as u64 }, "memory.grow"); if ok { r.0.resize(L + n as usize, 0) } }
        4 => { let d = arg("d"); let (f, n, off) = [("ld8", 1, 1), ("ld16", 2, 1), ("ld32", 4, 1), ("ld64", 8, 0)][choose("width", 4) as usize]; let (o, v) = call1(&mut st, &ui, f, &[a(d)]); oc = o; let ok = inb(&r, d + off, n); want = Some(ok); if ok { check(v == r.load(d + off, n), "a load") } }
        _ => { let (d, v) = (arg("d"), u32v("v")); let w = choose("width", 4); let (f, n) = [("st8", 1), ("st16", 2), ("st32", 4), ("inc", 4)][w as usize]; oc = call(&mut st, &ui, f, &[a(d), i(v as i32)]).0; let ok = inb(&r, d + 1, n); want = Some(ok); if ok { let v = if w == 3 { (r.load(d + 1, 4) as u32).wrapping_add(v) } else { v }; r.store(d + 1, n, v as u128) } }
    }
    check((oc == OK) == want.unwrap() && (oc == OK || oc == OOB), "outcome of a memory instruction"); cover(if oc == OK { "value" } else { "trap" });
    for (h, r) in [(&x, &r), (&y, &q)] { check(h.len(&st).unwrap() == r.0.len() && h.page_count(&st).unwrap() == r.0.len(), "size afterwards"); match h.read_vec(&st, 0, r.0.len()) { Ok(v) => check(r.eq(&v), "contents afterwards"), Err(_) => check(false, "the memory can be read") } }
}
h!(h_c06_own, { let k = choose("backend", 3); let op = choose("op", 6); guest(k, if k == 0 { choose("who", 2) * 3 } else { 0 }, op) });
h!(h_c06_other, { let k = choose("backend", 2) * 7; let op = choose("op", 6); guest(k, 1, op) });
h!(h_c06_ownx, { let op = choose("op", 6); guest(choose("backend", 8), choose("who", 2) * 3, op) });
h!(h_c06_otherx, { let op = choose("op", 6); guest(choose("backend", 8), 1 + choose("who", 2), op) });
// ---- the only instruction that touches a module's own memory
h!(h_c06_policy, {
    let imported = choose("imported memory first", 2); let exported = choose("exported", 2) == 1; let dead = choose("in a second function", 2) == 1; let own = imported; let second = if choose("second own memory", 2) == 1 { 1 } else { 0 }; let k = own + second;
    let mut m = M::new(); if imported == 1 { m.imp_mem("e", "m", &memty(false, 1, None, 0)); } m.mem(memty(false, if second == 1 { 0 } else { 17 }, None, 0)); if second == 1 { m.mem(memty(false, 17, None, 0)); }
    m.data_passive(&[1, 2, 3]); let at = u32v("at"); let v: u128 = u128v("v"); let w = choose("op", 12);
    let other = if imported == 1 { 0 } else { k }; // the other side of a copy
    let (body, r): (C, u8) = match w { 0 => (c().op(0x3f).u(k), I32), 1 => (c().get(0).op(0x40).u(k), I32), 2 => (c().get(0).mem(0x2d, 0, k, 0), I32), 3 => (c().get(0).get(1).mem(0x36, 2, k, 0), 0), 4 => (c().get(0).memfd(0, 4, k, 0), V128), 5 => (c().get(0).get(2).memfd(11, 4, k, 0), 0), 6 => (c().get(0).get(2).memfd(84, 0, k, 0).op(3), V128), 7 => (c().get(0).get(2).memfd(88, 0, k, 0).op(3), 0), 8 => (c().get(0).get(1).i32c(2).fc(11).u(k), 0), 9 => (c().get(0).i32c(0).i32c(3).fc(8).u(0).u(k), 0), 10 => (c().get(0).i32c(0).i32c(1).fc(10).u(k).u(other), 0), _ => (c().i32c(0).get(0).i32c(1).fc(10).u(other).u(k), 0) };
    let n = match w { 0 | 1 => 0, 2 | 6 | 7 | 10 | 11 => 1, 3 => 4, 8 => 2, 9 => 3, _ => 16 };
    let rs: Vec<u8> = if r == 0 { vec![] } else { vec![r] }; if dead { m.func(&[], &[], &[], c()); } let f = m.func(&[I32, I32, V128], &rs, &[], body); m.export("f", KF, f); if exported { m.export("m", KM, k as u32); }
    let at = if w == 1 { assume(at <= 3 || at > 1 << 31); if at <= 3 { sym::concretize(at as u64) as u32 } else { at } } else { at };
    let mut out = vec![]; for opt in [true, false] {
        let mut st = Store::default(); let o = tinywasm::parser::ParserOptions::default().with_local_memory_allocation_optimization(opt); let md = match tinywasm::parser::Parser::with_options(o).parse_module_bytes(m.bytes()) { Ok(m) => m, Err(_) => panic!("rejected") };
        let im = if imported == 1 { let ty = MemoryType::default().with_page_size(Some(1)).with_page_count_initial(1); let Ok(h) = Memory::new(&mut st, ty) else { panic!("memory") }; let mut im = Imports::new(); im.define("e", "m", h); Some(im) } else { None };
        let x = match ModuleInstance::instantiate(&mut st, &md, im) { Ok(i) => i, Err(_) => { check(false, "instantiation"); return } };
        let (oc, vs) = call(&mut st, &x, "f", &[i(at as i32), i(v as i32), val(V128, v)]); out.push((oc, vs.iter().map(bits).fold(0, |_, b| b)));
    }
    let ok = at as u64 + n <= 17 || n == 0; check((out[0].0 == OK) == ok, "the instruction works on its own memory"); check(out[0] == out[1], "whether memories are allocated lazily or at once"); cover(if ok { "value" } else { "trap" });
    if ok { let want = match w { 0 => 17, 1 => if at <= 3 { 17 } else { if at as u64 + 17 <= 1 << 32 { return } u32::MAX as u128 }, 2 | 4 => 0, 6 => v & !(0xffu128 << 24), _ => 0 }; check(out[0].1 == want, "its result") }
});
// ---- a module none of whose instructions touches its memory
h!(h_c06_unused, {
    let imported = choose("imported memory first", 2) == 1; let seg = choose("segment", 3); let mut m = M::new(); if imported { m.imp_mem("e", "m", &memty(false, 4, None, 0)); } let own = m.mem(memty(false, 3, None, 0)); let at = u32v("at"); let n = choose("n", 3) as usize;
    match seg { 0 => {} 1 => m.data(own, c().i32c(at as i32), &[5, 6][..n]), _ => if imported { m.data(0, c().i32c(at as i32), &[5, 6][..n]) } else { m.data_passive(&[5, 6]) } }
    let f = m.func(&[I32], &[I32], &[], if imported { c().get(0).mem(0x2d, 0, 0, 0) } else { c().get(0) }); m.export("f", KF, f); let exported = choose("exported", 2) == 1; if exported { m.export("m", KM, own); }
    for opt in [true, false] {
        let mut st = Store::default(); let o = tinywasm::parser::ParserOptions::default().with_local_memory_allocation_optimization(opt); let md = match tinywasm::parser::Parser::with_options(o).parse_module_bytes(m.bytes()) { Ok(m) => m, Err(_) => panic!("rejected") };
        let im = if imported { let ty = MemoryType::default().with_page_size(Some(1)).with_page_count_initial(4); let Ok(h) = Memory::new(&mut st, ty) else { panic!("memory") }; let mut im = Imports::new(); im.define("e", "m", h); Some(im) } else { None };
        let size = if seg == 1 { 3 } else { 4 }; let fits = seg == 0 || seg == 2 && !imported || at as usize as u64 + n as u64 <= size;
        match ModuleInstance::instantiate(&mut st, &md, im) { Err(e) => { check(!fits && errcode(&e) == OOB, "instantiation"); cover("trap") } Ok(x) => { check(fits, "a segment outside its memory"); cover("value");
            if exported { let h = x.memory("m").unwrap(); check(h.len(&st).unwrap() == 3, "size"); let mut w = RefMem(vec![0; 3]); if seg == 1 { for k in 0..n { w.put(at as u64 + k as u64, [5, 6][k]) } } check(w.eq(&h.read_vec(&st, 0, 3).unwrap()), "contents of the exported memory") }
            let a = u32v("a"); let (oc, v) = call1(&mut st, &x, "f", &[i(a as i32)]); if imported { let mut w = RefMem(vec![0; 4]); if seg == 2 { for k in 0..n { w.put(at as u64 + k as u64, [5, 6][k]) } } check((oc == OK) == (a < 4), "a load"); if oc == OK { check(v as u8 == w.get(a as u64), "a byte of the imported memory") } } else { check(oc == OK && v as u32 == a, "a call") } } }
    }
});
// ---- beyond the 256 and 1024 bytes that move at a time
fn dotted(n: usize, name: &str) -> Vec<u8> { let mut b = vec![0u8; n]; let mut k = 0; while k < n { b[k] = if k % 127 == 5 { u8v(name) } else { (k ^ k >> 5 ^ k >> 8) as u8 }; k += 1 } b }
fn same(a: &[u8], b: &[u8]) -> bool { let mut e = a.len() == b.len(); let mut k = 0; while k < a.len() { e &= a[k] == b[k]; k += 1 } e }
fn large(k: u64, l: usize) -> Box<dyn LinearMemory> { match k { 0 => match PagedMemory::try_new(l, 64) { Ok(m) => Box::new(m), Err(_) => panic!("paged memory") }, 1 => match PagedMemory::try_new(l, 512) { Ok(m) => Box::new(m), Err(_) => panic!("paged memory") }, 2 => Box::new(Short { data: vec![0; l], step: 1100 }), 3 => Box::new(Short { data: vec![0; l], step: 300 }), 4 => match PagedMemory::try_new(l, 256) { Ok(m) => Box::new(m), Err(_) => panic!("paged memory") }, _ => match VecMemory::try_new(l) { Ok(m) => Box::new(m), Err(_) => panic!("vec memory") } } }
fn big(backends: u64, op: u64, l: usize, lens: &[usize], far: &[usize]) {
    let k = choose("backend", backends); let (l, lens, far): (usize, &[usize], &[usize]) = if k == 2 || k == 3 { (3500, &[1025, 2049, 2200], &[3, 1023, 1024, 1025, 1200]) } else { (l, lens, far) };
    let mut m = large(k, l); let b = dotted(l, "m"); let sparse = choose("sparse", 2) == 1; let mut w = vec![0; l]; if sparse { m.write_all(300, &b[300..520]).unwrap(); w[300..520].copy_from_slice(&b[300..520]) } else { m.write_all(0, &b).unwrap(); w.copy_from_slice(&b) }
    let n = lens[choose("len", lens.len() as u64) as usize]; let base = [0usize, 1, 37][choose("at", 3) as usize];
    if op == 0 { let f = far[choose("distance", far.len() as u64) as usize]; let (d, s) = if choose("down", 2) == 1 { (base, base + f) } else { (base + f, base) }; let ok = d + n <= l && s + n <= l; check(m.copy_within(d, s, n).is_some() == ok, "copy_within"); cover(if ok { "value" } else { "trap" }); if ok { w.copy_within(s..s + n, d) } }
    else { let v = if choose("zero", 2) == 1 { 0 } else { u8v("v") }; let at = base + 200; let ok = at + n <= l; check(m.fill(at, n, v).is_some() == ok, "fill"); cover(if ok { "value" } else { "trap" }); if ok { w[at..at + n].fill(v) } }
    match m.read_vec(0, l) { Some(g) => check(same(&w, &g), "contents afterwards"), None => check(false, "the whole memory can be read") }
}
const LENS: &[usize] = &[256, 257, 513, 700, 769, 990]; const FAR: &[usize] = &[1, 64, 255, 256, 257, 300, 511, 512, 513];
h!(h_c06_big, { let op = choose("op", 2); big(6, op, 1300, LENS, FAR) });
