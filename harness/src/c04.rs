//! Loads and stores against a byte array.
use crate::rt::*;
/// opcode, simd?, natural alignment, bytes touched, result type, result from the bytes
struct Ld { op: u64, fd: bool, al: u8, n: u64, t: u8, f: fn(u128) -> u128 }
fn id(v: u128) -> u128 { v }
macro_rules! ld { ($op:expr, $al:expr, $n:expr, $t:expr, $f:expr) => { Ld { op: $op, fd: false, al: $al, n: $n, t: $t, f: $f } } }
macro_rules! lv { ($op:expr, $al:expr, $n:expr, $f:expr) => { Ld { op: $op, fd: true, al: $al, n: $n, t: V128, f: $f } } }
fn ext(v: u128, from: u32, signed: bool) -> u128 { let mut r = 0; let lanes = 64 / from; for k in 0..lanes { let e = (v >> (k * from)) & ((1 << from) - 1); let e = if signed { sx(e, from) } else { e } & ((1u128 << (2 * from)) - 1); r |= e << (k * 2 * from) } r }
fn splat(v: u128, w: u32) -> u128 { let mut r = 0; for k in 0..128 / w { r |= v << (k * w) } r }
static LOADS: &[Ld] = &[
    ld!(0x28, 2, 4, I32, id), ld!(0x29, 3, 8, I64, id), ld!(0x2a, 2, 4, F32, id), ld!(0x2b, 3, 8, F64, id),
    ld!(0x2c, 0, 1, I32, |v| sx(v, 8) & 0xffff_ffff), ld!(0x2d, 0, 1, I32, id), ld!(0x2e, 1, 2, I32, |v| sx(v, 16) & 0xffff_ffff), ld!(0x2f, 1, 2, I32, id),
    ld!(0x30, 0, 1, I64, |v| sx(v, 8) as u64 as u128), ld!(0x31, 0, 1, I64, id), ld!(0x32, 1, 2, I64, |v| sx(v, 16) as u64 as u128), ld!(0x33, 1, 2, I64, id),
    ld!(0x34, 2, 4, I64, |v| sx(v, 32) as u64 as u128), ld!(0x35, 2, 4, I64, id),
    lv!(0, 4, 16, id), lv!(1, 3, 8, |v| ext(v, 8, true)), lv!(2, 3, 8, |v| ext(v, 8, false)), lv!(3, 3, 8, |v| ext(v, 16, true)), lv!(4, 3, 8, |v| ext(v, 16, false)),
    lv!(5, 3, 8, |v| ext(v, 32, true)), lv!(6, 3, 8, |v| ext(v, 32, false)),
    lv!(7, 0, 1, |v| splat(v, 8)), lv!(8, 1, 2, |v| splat(v, 16)), lv!(9, 2, 4, |v| splat(v, 32)), lv!(10, 3, 8, |v| splat(v, 64)),
    lv!(92, 2, 4, id), lv!(93, 3, 8, id),
];
/// opcode, simd?, alignment, bytes, operand type
static STORES: &[(u64, bool, u8, u64, u8)] = &[(0x36, false, 2, 4, I32), (0x37, false, 3, 8, I64), (0x38, false, 2, 4, F32), (0x39, false, 3, 8, F64), (0x3a, false, 0, 1, I32), (0x3b, false, 1, 2, I32), (0x3c, false, 0, 1, I64), (0x3d, false, 1, 2, I64), (0x3e, false, 2, 4, I64), (11, true, 4, 16, V128)];
const N: usize = 21;
pub struct Env { pub m64: bool, pub addr: u64, pub off: u64, pub idx: u64, pub form: u64, pub opt: bool }
fn env(m64: bool) -> Env {
    let addr = if m64 { u64v("addr") } else { u32v("addr") as u64 }; let off = if m64 { u64v("off") } else { u32v("off") as u64 };
    Env { m64, addr, off, idx: choose("memory", 2), form: choose("form", 4), opt: choose("opt", 2) == 1 }
}
impl Env {
    fn at(&self) -> u8 { if self.m64 { I64 } else { I32 } }
    fn ea(&self) -> u128 { self.addr as u128 + self.off as u128 }
    /// local 0 is the address, `v` (local 1) a value
    fn address(&self) -> C { match self.form { 0 => c().get(0), 1 => konst(c(), self.at(), self.addr as u128), 2 => c().get(0).call(0), _ => konst(c().get(0), self.at(), 0).op(if self.m64 { 0x7c } else { 0x6a }) } }
    fn module(&self) -> M { let mut m = M::new(); m.mem(memty(self.m64, if self.idx == 0 { N as u64 } else { 3 }, None, 0)); m.mem(memty(self.m64, if self.idx == 1 { N as u64 } else { 3 }, None, 0)); m.export("m", KM, self.idx as u32); m.func(&[self.at()], &[self.at()], &[], c().get(0)); m }
    fn ins(&self, st: &mut Store, m: &M) -> (ModuleInstance, Memory) { let i = inst(st, m, self.opt, None); let mem = i.memory("m").unwrap(); (i, mem) }
    fn memop(&self, c: C, fd: bool, op: u64, al: u8) -> C { match (fd, self.m64) { (true, false) => c.memfd(op, al, self.idx, self.off), (true, true) => c.memfd_w(op, al, self.idx, self.off), (_, false) => c.mem(op as u8, al, self.idx, self.off), _ => c.mem_w(op as u8, al, self.idx, self.off) } }
}
fn loads(m64: bool) {
    let o = &LOADS[choose("op", LOADS.len() as u64) as usize]; let e = env(m64); let b: [u8; N] = sym::bytes("mem");
    let mut m = e.module(); let shape = if e.form == 0 { choose("use", 4) } else { 0 };
    let code = e.memop(e.address(), o.fd, o.op, o.al);
    let code = match shape { 0 => code, 1 => code.set(1).get(1), 2 => code.tee(1).drop().get(1), _ => code.tee(1) };
    let f = m.func(&[e.at()], &[o.t], &[(1, o.t)], code); m.export("f", KF, f);
    let mut st = Store::default(); let (ins, mem) = e.ins(&mut st, &m); mem.copy_from_slice(&mut st, 0, &b).unwrap();
    let (oc, v) = call1(&mut st, &ins, "f", &[val(e.at(), e.addr as u128)]);
    let r = RefMem(b.to_vec()); let inb = r.inb(e.ea(), o.n);
    check((oc == OK) == inb, "a load traps exactly when it leaves the memory"); check(oc == OK || oc == OOB, "the trap of a load names the memory");
    if oc == OK { check(v == (o.f)(r.load(e.ea() as u64, o.n)), "value of a load"); cover("value") } else { cover("trap") }
    check(r.eq(&mem.read_vec(&st, 0, N).unwrap()), "a load changes no memory");
}
fn stores(m64: bool) {
    let o = STORES[choose("op", STORES.len() as u64) as usize]; let e = env(m64); let b: [u8; N] = sym::bytes("mem"); let v = symbits("v", o.4);
    let mut m = e.module(); let vf = choose("vform", 3);
    let code = e.address(); let code = match vf { 0 => code.get(1), 1 => konst(code, o.4, v), _ => code.get(1).tee(2) };
    let code = e.memop(code, o.1, o.0, o.2);
    let f = m.func(&[e.at(), o.4], &[], &[(1, o.4)], code); m.export("f", KF, f);
    let mut st = Store::default(); let (ins, mem) = e.ins(&mut st, &m); mem.copy_from_slice(&mut st, 0, &b).unwrap();
    let (oc, _) = call(&mut st, &ins, "f", &[val(e.at(), e.addr as u128), val(o.4, v)]);
    let mut r = RefMem(b.to_vec()); let inb = r.inb(e.ea(), o.3);
    check((oc == OK) == inb, "a store traps exactly when it leaves the memory"); check(oc == OK || oc == OOB, "the trap of a store names the memory");
    if oc == OK { r.store(e.ea() as u64, o.3, v); cover("value") } else { cover("trap") }
    check(r.eq(&mem.read_vec(&st, 0, N).unwrap()), "a store writes its bytes and no others");
}
/// lane loads and stores
fn lanes(m64: bool) {
    let w = choose("width", 4); let n = 1u64 << w; let store = choose("store", 2) == 1; let e = env(m64); let b: [u8; N] = sym::bytes("mem"); let v = u128v("v");
    let lane = { let k = choose("lane", 3); [0, (16 / n) / 2, 16 / n - 1][k as usize] };
    let mut m = e.module(); let code = e.memop(e.address().get(1), true, if store { 88 } else { 84 } + w, w as u8).op(lane as u8);
    let f = m.func(&[e.at(), V128], if store { &[] } else { &[V128] }, &[], code); m.export("f", KF, f);
    let mut st = Store::default(); let (ins, mem) = e.ins(&mut st, &m); mem.copy_from_slice(&mut st, 0, &b).unwrap();
    let (oc, res) = call(&mut st, &ins, "f", &[val(e.at(), e.addr as u128), val(V128, v)]);
    let mut r = RefMem(b.to_vec()); let inb = r.inb(e.ea(), n);
    check((oc == OK) == inb, "a lane access traps exactly when it leaves the memory"); check(oc == OK || oc == OOB, "the trap of a lane access names the memory");
    if oc == OK {
        let sh = lane * n * 8; let msk = (if n == 8 { u64::MAX as u128 } else { (1u128 << (n * 8)) - 1 }) << sh;
        if store { r.store(e.ea() as u64, n, (v & msk) >> sh); cover("store") } else { check(bits(&res[0]) == (v & !msk) | r.load(e.ea() as u64, n) << sh, "lane load replaces one lane"); cover("load") }
    } else { cover("trap") }
    check(r.eq(&mem.read_vec(&st, 0, N).unwrap()), "memory after a lane access");
}
h!(h_c04_load32, { loads(false) });
h!(h_c04_load64, { loads(true) });
h!(h_c04_store32, { stores(false) });
h!(h_c04_store64, { stores(true) });
h!(h_c04_lane32, { lanes(false) });
h!(h_c04_lane64, { lanes(true) });
/// a place that is read, changed and written back; addresses, offsets and constants that agree or not
const RN: usize = 10;
fn rmw(m64: bool) {
    let wide = choose("wide", 2) == 1; let float = choose("float", if wide { 1 } else { 2 }) == 1; let n = if wide { 8u64 } else { 4 }; let (t, ld, st_, add) = match (wide, float) { (false, false) => (I32, 0x28u8, 0x36u8, 0x6au8), (true, false) => (I64, 0x29, 0x37, 0x7c), (false, true) => (F32, 0x2a, 0x38, 0), _ => (F64, 0x2b, 0x39, 0) };
    let at = if m64 { I64 } else { I32 }; let (a, b) = if m64 { (u64v("a"), u64v("b")) } else { (u32v("a") as u64, u32v("b") as u64) }; let same = choose("same address", 2) == 1; let (oa, ob) = [(0u64, 0u64), (3, 3), (2, 5), (0xffff_ffff, 0xffff_ffff)][choose("offsets", 4) as usize]; let (sm, lm) = [(0u64, 0u64), (1, 1), (1, 0)][choose("memories", 3) as usize];
    let inc = [1u64, 2][choose("constant", if float { 1 } else { 2 }) as usize]; let buf: [u8; RN] = sym::bytes("mem"); let opt = choose("opt", 2) == 1;
    let mut m = M::new(); m.mem(memty(m64, RN as u64, None, 0)); m.mem(memty(m64, RN as u64, None, 0)); m.export("m", KM, 0); m.export("n", KM, 1);
    let mop = |c: C, op, mem, off| if m64 { c.mem_w(op, 0, mem, off) } else { c.mem(op, 0, mem, off) }; let code = mop(c().get(0).get(if same { 0 } else { 1 }), ld, lm, ob); let code = if float { code } else { konst(code, t, inc as u128).op(add) }; let code = mop(code, st_, sm, oa);
    let f = m.func(&[at, at], &[], &[], code); m.export("f", KF, f); let mut st = Store::default(); let i = inst(&mut st, &m, opt, None); let (x, y) = (i.memory("m").unwrap(), i.memory("n").unwrap()); x.copy_from_slice(&mut st, 0, &buf).unwrap();
    let (oc, _) = call(&mut st, &i, "f", &[val(at, a as u128), val(at, b as u128)]); let mut r = [RefMem(buf.to_vec()), RefMem(vec![0; RN])]; let (ea, eb) = (a as u128 + oa as u128, if same { a } else { b } as u128 + ob as u128);
    let inb = r[0].inb(ea, n) && r[0].inb(eb, n); check((oc == OK) == inb, "a read-modify-write traps exactly when it leaves the memory"); check(oc == OK || oc == OOB, "the trap names the memory");
    if inb { let v = r[lm as usize].load(eb as u64, n); let v = if float { v } else if wide { (v as u64).wrapping_add(inc) as u128 } else { (v as u32).wrapping_add(inc as u32) as u128 }; r[sm as usize].store(ea as u64, n, v); cover("value") } else { cover("trap") }
    check(r[0].eq(&x.read_vec(&st, 0, RN).unwrap()) && r[1].eq(&y.read_vec(&st, 0, RN).unwrap()), "memories after a read-modify-write");
}
h!(h_c04_rmw32, { rmw(false) });
h!(h_c04_rmw64, { rmw(true) });
// a 64 KiB page: every access that straddles or touches its end, and the far end of the address space
h!(h_c04_page, {
    let m64 = choose("m64", 2) == 1; let at = if m64 { I64 } else { I32 };
    let (op, al, n, t): (u8, u8, u64, u8) = [(0x28, 2, 4, I32), (0x31, 0, 1, I64), (0x29, 3, 8, I64), (0x36, 2, 4, I32), (0x3d, 1, 2, I64), (0x37, 3, 8, I64)][choose("op", 6) as usize];
    let addr = [65527u64, 65528, 65529, 65530, 65531, 65532, 65533, 65534, 65535, 65536, 0xffff_fffc, 0xffff_ffff, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff_ffff_fff8, 0xffff_ffff_ffff_ffff][choose("addr", if m64 { 16 } else { 14 }) as usize];
    let off = [0u64, 1, 8, 0xffff_ffff][choose("off", 4) as usize];
    let store = op >= 0x36; let v = u64v("v"); let mut m = M::new(); m.mem(memty(m64, 1, Some(2), 16)); m.export("m", KM, 0);
    let code = if store { c().get(0).get(1).mem(op, al, 0, off) } else { c().get(0).mem(op, al, 0, off) };
    let f = m.func(&[at, t], if store { &[] } else { std::slice::from_ref(&t) }, &[], code); m.export("f", KF, f);
    let mut st = Store::default(); let ins = inst(&mut st, &m, true, None);
    let (oc, _) = call(&mut st, &ins, "f", &[val(at, addr as u128), val(t, v as u128)]);
    check((oc == OK) == (addr as u128 + off as u128 + n as u128 <= 65536), "page end"); cover(if oc == OK { "in" } else { "out" });
    if store && oc == OK { let d = ins.memory("m").unwrap().read_vec(&st, (addr + off) as usize, n as usize).unwrap(); for k in 0..n { check(d[k as usize] == (v >> (8 * k)) as u8, "bytes at the page end") } }
});
