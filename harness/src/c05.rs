//! Bulk memory instructions against a byte array.
use crate::rt::*;
const N: usize = 6; const N2: usize = 4; const D: usize = 5;
/// places: 0 both ends in one memory, 1 two memories, 2 the same memory imported under two indices
fn setup(m64: bool, b1: &[u8], b2: &[u8], opt: bool, code: C, params: &[u8], data: bool) -> (Store, ModuleInstance, Memory, Memory) {
    let mut m = M::new(); m.mem(memty(m64, N as u64, None, 0)); m.mem(memty(m64, N2 as u64, None, 0)); m.export("m", KM, 0); m.export("n", KM, 1);
    if data { m.data_passive(&[11, 22, 33, 44, 55]); m.data(1, konst(c(), if m64 { I64 } else { I32 }, 1), &[7, 8]); }
    let f = m.func(params, &[], &[], code); m.export("f", KF, f);
    let d = m.func(&[], &[], &[], if data { c().fc(9).u(0) } else { c() }); m.export("d", KF, d);
    let mut st = Store::default(); let i = inst(&mut st, &m, opt, None); let (x, y) = (i.memory("m").unwrap(), i.memory("n").unwrap());
    x.copy_from_slice(&mut st, 0, b1).unwrap(); y.copy_from_slice(&mut st, 0, b2).unwrap(); (st, i, x, y)
}
fn w(m64: bool) -> u8 { if m64 { I64 } else { I32 } }
fn arg(m64: bool, n: &str) -> u64 { if m64 { u64v(n) } else { u32v(n) as u64 } }
fn post(st: &Store, x: &Memory, y: &Memory, r1: &RefMem, r2: &RefMem, oc: u32, inb: bool) {
    check((oc == OK) == inb, "a bulk operation traps exactly when a range leaves its memory"); check(oc == OK || oc == OOB, "the trap of a bulk operation names the memory");
    check(r1.eq(&x.read_vec(st, 0, N).unwrap()), "first memory after a bulk operation"); check(r2.eq(&y.read_vec(st, 0, N2).unwrap()), "second memory after a bulk operation");
    cover(if oc == OK { "value" } else { "trap" });
}
fn copy(m64: bool) {
    let opt = choose("opt", 2) == 1; let (dm, sm) = (choose("dst memory", 2), choose("src memory", 2)); let t = w(m64);
    let (d, s, n) = (arg(m64, "dst"), arg(m64, "src"), arg(m64, "len")); let (b1, b2): ([u8; N], [u8; N2]) = (sym::bytes("m1"), sym::bytes("m2"));
    let kc = choose("constant length", 2) == 1;
    let code = c().get(0).get(1); let code = if kc { konst(code, t, n as u128) } else { code.get(2) }; let code = code.fc(10).u(dm).u(sm);
    let (mut st, i, x, y) = setup(m64, &b1, &b2, opt, code, &[t, t, t], false);
    let (oc, _) = call(&mut st, &i, "f", &[val(t, d as u128), val(t, s as u128), val(t, n as u128)]);
    let mut r = [RefMem(b1.to_vec()), RefMem(b2.to_vec())];
    let inb = d as u128 + n as u128 <= r[dm as usize].0.len() as u128 && s as u128 + n as u128 <= r[sm as usize].0.len() as u128;
    if inb { let n = sym::concretize(n); let src: Vec<u8> = (0..n).map(|k| r[sm as usize].get(s + k)).collect(); for k in 0..n { r[dm as usize].put(d + k, src[k as usize]) } }
    post(&st, &x, &y, &r[0], &r[1], oc, inb);
}
fn fill(m64: bool) {
    let opt = choose("opt", 2) == 1; let dm = choose("memory", 2); let t = w(m64); let (d, v, n) = (arg(m64, "dst"), u32v("val"), arg(m64, "len"));
    let (b1, b2): ([u8; N], [u8; N2]) = (sym::bytes("m1"), sym::bytes("m2")); let form = choose("form", 4);
    let code = c().get(0); let code = if form & 1 == 1 { code.i32c(v as i32) } else { code.get(1) }; let code = if form & 2 == 2 { konst(code, t, n as u128) } else { code.get(2) }; let code = code.fc(11).u(dm);
    let (mut st, i, x, y) = setup(m64, &b1, &b2, opt, code, &[t, I32, t], false);
    let (oc, _) = call(&mut st, &i, "f", &[val(t, d as u128), val(I32, v as u128), val(t, n as u128)]);
    let mut r = [RefMem(b1.to_vec()), RefMem(b2.to_vec())]; let inb = r[dm as usize].inb(d as u128 + n as u128, 0);
    if inb { let n = sym::concretize(n); for k in 0..n { r[dm as usize].put(d + k, v as u8) } }
    post(&st, &x, &y, &r[0], &r[1], oc, inb);
}
/// memory.init from a passive segment, from a dropped one, and from an active one (which instantiation drops)
fn init(m64: bool) {
    let opt = choose("opt", 2) == 1; let dm = choose("memory", 2); let t = w(m64); let (d, s, n) = (arg(m64, "dst"), u32v("src") as u64, u32v("len") as u64);
    let (b1, b2): ([u8; N], [u8; N2]) = (sym::bytes("m1"), sym::bytes("m2")); let seg = choose("segment", 2); let dropped = choose("dropped", 2) == 1;
    let code = c().get(0).get(1).get(2).fc(8).u(seg).u(dm);
    let (mut st, i, x, y) = setup(m64, &b1, &b2, opt, code, &[t, I32, I32], true);
    if dropped { check(call(&mut st, &i, "d", &[]).0 == OK, "data.drop"); if choose("twice", 2) == 1 { check(call(&mut st, &i, "d", &[]).0 == OK, "data.drop again"); } }
    let seg_len = if seg == 0 && !dropped { D } else { 0 } as u128;
    let (oc, _) = call(&mut st, &i, "f", &[val(t, d as u128), val(I32, s as u128), val(I32, n as u128)]);
    let mut r = [RefMem(b1.to_vec()), RefMem(b2.to_vec())]; let inb = d as u128 + n as u128 <= r[dm as usize].0.len() as u128 && s as u128 + n as u128 <= seg_len;
    if inb { let n = sym::concretize(n); let src = RefMem(vec![11, 22, 33, 44, 55]); for k in 0..n { let b = src.get(s + k); r[dm as usize].put(d + k, b) } }
    post(&st, &x, &y, &r[0], &r[1], oc, inb);
}
h!(h_c05_copy32, { copy(false) });
h!(h_c05_copy64, { copy(true) });
h!(h_c05_fill32, { fill(false) });
h!(h_c05_fill64, { fill(true) });
h!(h_c05_init32, { init(false) });
h!(h_c05_init64, { init(true) });
// one memory imported under two indices
h!(h_c05_alias, {
    let b: [u8; N] = sym::bytes("m"); let (d, s, n) = (u32v("dst") as u64, u32v("src") as u64, u32v("len") as u64);
    let mut st = Store::default(); let mem = Memory::new(&mut st, MemoryType::new(MemoryArch::I32, N as u64, None, Some(1))).unwrap(); mem.copy_from_slice(&mut st, 0, &b).unwrap();
    let mut m = M::new(); m.imp_mem("e", "a", &memty(false, 1, None, 0)); m.imp_mem("e", "b", &memty(false, 1, None, 0));
    let f = m.func(&[I32, I32, I32], &[], &[], c().get(0).get(1).get(2).fc(10).u(0).u(1)); m.export("f", KF, f);
    let mut im = Imports::new(); im.define("e", "a", mem.clone()); im.define("e", "b", mem.clone());
    let i = inst(&mut st, &m, true, Some(im));
    let (oc, _) = call(&mut st, &i, "f", &[val(I32, d as u128), val(I32, s as u128), val(I32, n as u128)]);
    let mut r = RefMem(b.to_vec()); let inb = r.inb(d as u128 + n as u128, 0) && r.inb(s as u128 + n as u128, 0);
    if inb { let n = sym::concretize(n); let src: Vec<u8> = (0..n).map(|k| r.get(s + k)).collect(); for k in 0..n { r.put(d + k, src[k as usize]) } }
    check((oc == OK) == inb, "a copy inside an aliased memory"); check(r.eq(&mem.read_vec(&st, 0, N).unwrap()), "an aliased memory after a copy"); cover(if oc == OK { "value" } else { "trap" });
});
// from a 32 bit to a 64 bit memory and back: the length has the smaller width
h!(h_c05_mixed, {
    let opt = choose("opt", 2) == 1; let to64 = choose("direction", 2) == 1; let (dt, stt) = if to64 { (I64, I32) } else { (I32, I64) };
    let (d, s, n) = (arg(to64, "dst"), arg(!to64, "src"), u32v("len") as u64); let (b1, b2): ([u8; N], [u8; N2]) = (sym::bytes("m1"), sym::bytes("m2"));
    let mut m = M::new(); m.mem(memty(false, N as u64, None, 0)); m.mem(memty(true, N2 as u64, None, 0)); m.export("m", KM, 0); m.export("n", KM, 1);
    let (dm, sm) = if to64 { (1, 0) } else { (0, 1) };
    let f = m.func(&[dt, stt, I32], &[], &[], c().get(0).get(1).get(2).fc(10).u(dm).u(sm)); m.export("f", KF, f);
    let mut st = Store::default(); let i = inst(&mut st, &m, opt, None); let (x, y) = (i.memory("m").unwrap(), i.memory("n").unwrap());
    x.copy_from_slice(&mut st, 0, &b1).unwrap(); y.copy_from_slice(&mut st, 0, &b2).unwrap();
    let (oc, _) = call(&mut st, &i, "f", &[val(dt, d as u128), val(stt, s as u128), val(I32, n as u128)]);
    let mut r = [RefMem(b1.to_vec()), RefMem(b2.to_vec())];
    let inb = d as u128 + n as u128 <= r[dm as usize].0.len() as u128 && s as u128 + n as u128 <= r[sm as usize].0.len() as u128;
    if inb { let n = sym::concretize(n); let src: Vec<u8> = (0..n).map(|k| r[sm as usize].get(s + k)).collect(); for k in 0..n { r[dm as usize].put(d + k, src[k as usize]) } }
    post(&st, &x, &y, &r[0], &r[1], oc, inb);
});
// ---- beyond the 4096 bytes that move at a time between two memories
const B: usize = 9000;
/// known bytes with a symbolic one every 1111
fn dotted(n: usize, name: &str) -> Vec<u8> { let mut b = vec![0u8; n]; let mut k = 0; while k < n { b[k] = if k % 1111 == 5 { u8v(name) } else { (k ^ k >> 5 ^ k >> 9) as u8 }; k += 1 } b }
fn same(a: &[u8], b: &[u8]) -> bool { let mut e = a.len() == b.len(); let mut k = 0; while k < a.len() { e &= a[k] == b[k]; k += 1 } e }
fn big(op: u64, lens: &[u64]) {
    let (s, d) = ([0u64, 1, 700][choose("src", 3) as usize], [0u64, 1, 3][choose("dst", 3) as usize]); let n = lens[choose("len", lens.len() as u64) as usize];
    let (b1, b2) = (dotted(B, "m1"), dotted(B, "m2")); let mut m = M::new(); m.mem(memty(false, B as u64, None, 0)); m.mem(memty(false, B as u64, None, 0)); m.export("m", KM, 0); m.export("n", KM, 1); if op == 3 { m.data_passive(&b1); }
    let f = m.func(&[I32, I32, I32], &[], &[], match op { 0 => c().get(0).get(1).get(2).fc(10).u(1).u(0), 1 => c().get(0).get(1).get(2).fc(10).u(0).u(0), 2 => c().get(0).get(1).get(2).fc(11).u(0), _ => c().get(0).get(1).get(2).fc(8).u(0).u(1) }); m.export("f", KF, f);
    let mut st = match choose("backend", 3) { 0 => Store::default(), k => cfg_store(tinywasm::engine::Config::new().with_memory_backend(tinywasm::engine::MemoryBackend::paged(if k == 1 { 256 } else { 8192 }))) }; let x = inst(&mut st, &m, true, None); let (p, q) = (x.memory("m").unwrap(), x.memory("n").unwrap()); p.copy_from_slice(&mut st, 0, &b1).unwrap(); q.copy_from_slice(&mut st, 0, &b2).unwrap();
    let v = u8v("v"); let second = if op == 2 { v as u64 } else { s }; let (oc, _) = call(&mut st, &x, "f", &[i(d as i32), i(second as i32), i(n as i32)]);
    let ok = d + n <= B as u64 && (op == 2 || s + n <= B as u64); let mut w = [b1.clone(), b2]; if ok { let (s, d, n) = (s as usize, d as usize, n as usize); match op { 0 | 3 => w[1][d..d + n].copy_from_slice(&b1[s..s + n]), 1 => w[0][d..d + n].copy_from_slice(&b1[s..s + n]), _ => w[0][d..d + n].fill(v) } }
    check(oc == if ok { OK } else { OOB }, "a bulk operation traps exactly when a range leaves its memory"); check(same(&w[0], &p.read_vec(&st, 0, B).unwrap()), "first memory after a bulk operation"); check(same(&w[1], &q.read_vec(&st, 0, B).unwrap()), "second memory after a bulk operation"); cover(if ok { "value" } else { "trap" })
}
h!(h_c05_big, { let op = choose("op", 4); big(op, if op == 0 { &[4096, 4097, 8193, 8299, 8999] } else { &[4097, 8999] }) });
