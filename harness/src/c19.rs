//! C19: saved modules load back identical, everything else is rejected.
use crate::ops;
use crate::rt::*;
const HEADER: [u8; 16] = *b"TWAS04\0\0\0\0\0\0\0\0\0\0";
fn save(m: &Module) -> Vec<u8> { match m.serialize_twasm() { Ok(b) => b, Err(_) => { check(false, "a module can be saved"); vec![] } } }
fn load(b: &[u8]) -> Option<Module> { Module::try_from_twasm(b).ok() }
fn same_bytes(a: &[u8], b: &[u8]) -> bool { if a.len() != b.len() { return false } let mut e = true; for k in 0..a.len() { e &= a[k] == b[k] } e }
/// saves, loads, compares the modules and what they would be saved as
fn trip(m: &Module, eq: bool) -> Module { let b = save(m); check(b.len() >= 16 && b[..16] == HEADER, "the header"); match load(&b) { Some(n) => { check(!eq || n == *m, "the loaded module is equal"); check(same_bytes(&save(&n), &b), "it would be saved the same"); n } None => { check(false, "a saved module loads"); m.clone() } } }
/// a module with something of everything; x, y are arbitrary constants in it
fn rich(k: u64, x: u32, y: u64, z: u128) -> M {
    let mut m = M::new(); let n = k == 1;
    m.ty(&[F64, V128, FUNCREF, EXTERNREF], &[]); let hf = m.imp_func("env", "f\u{e9}\u{1f600}", &[I32], &[I64, F32]); if n { m.imp_mem("env", "m", &memty(true, 1, Some(5), 0)); m.imp_table("env", "t", EXTERNREF, &limits(0, 2, Some(300))); m.imp_global("env", "g", I64, false); m.imp_global("", "", F32, true); }
    let mm = if n { m.mem(memty(false, 3, None, 0)) } else { m.mem(memty(false, 4, Some(70000), 0)) }; let t = m.table(FUNCREF, 3, Some(9)); let e = m.table(EXTERNREF, 2, None);
    let g0 = m.global(I32, true, c().i32c(x as i32)); let g1 = m.global(I64, false, if n { c().gget(0).i64c(y as i64).op(0x7c) } else { c().i64c(y as i64) }); m.global(F32, true, c().f32c(x)); m.global(F64, false, c().f64c(y)); m.global(V128, true, c().v128c(z)); m.global(EXTERNREF, true, c().op(0xd0).op(EXTERNREF)); m.global(FUNCREF, false, c().op(0xd2).u(hf as u64));
    let f = m.func(&[I32], &[I32], &[], c().get(0).gget(g0 as u64).op(0x6a).i32c(x as i32).op(0x73)); let f2 = m.func(&[I32, I64], &[I64, I32], &[(3, V128), (300, I32), (1, F32)], c().get(1).i64c(y as i64).op(0x7c).get(0).set(200).get(200));
    let sw = m.func(&[I32], &[I32], &[], c().block(VOID).block(VOID).block(VOID).get(0).brtable(&[1, 0, 2, 0], 1).end().i32c(10).ret().end().i32c(x as i32).ret().end().i32c(30)); let v = m.func(&[V128], &[V128], &[], c().get(0).v128c(z).ops(&[0xfd, 81]).v128c(!z).ops(&[0xfd, 0xce, 1]));
    let st = m.func(&[I32], &[I32], &[], c().get(0).i32c(x as i32).mem(0x36, 0, mm as u64, 0).i32c(0).mem(0x2d, 0, mm as u64, 1)); let ti = m.ty(&[I32], &[I32]); let ci = m.func(&[I32, I32], &[I32], &[], c().get(0).get(1).calli(ti as u64, t as u64)); let rc = m.func(&[I32], &[I32], &[], c().get(0).i32c(1).op(0x6b).tee(0).rcall(f as u64));
    let fl = m.func(&[F32, F64], &[F64], &[], c().get(1).op(0xbd).f64c(y).op(0xbd).op(0x85).get(0).op(0xbc).f32c(x).op(0xbc).op(0x6a).op(0xad).op(0x7c).op(0xbf)); let up = m.func(&[], &[I64], &[], c().gget(g1 as u64)); let start = m.func(&[], &[], &[], c().gget(g0 as u64).i32c(1).op(0x6a).gset(g0 as u64)); m.start = Some(start);
    m.elem(t, c().i32c(1), &[f, rc]); m.elem_mode(1, &[f, sw, hf]); m.elem_mode(3, &[f2]); m.elem_exprs(FUNCREF, &[c().op(0xd0).op(FUNCREF), c().op(0xd2).u(f as u64)]); m.elem_active_exprs(e, EXTERNREF, c().i32c(0), &[c().op(0xd0).op(EXTERNREF)]);
    m.data(mm, c().i32c(1), &[x as u8, (y >> 8) as u8]); m.data_passive(&[]); m.data_passive(&[y as u8, 255, 0]);
    let mi = m.func(&[I32], &[I32], &[], c().get(0).i32c(0).i32c(3).fc(8).u(2).u(mm as u64).get(0).mem(0x2d, 0, mm as u64, 0));
    for (i, (f, k)) in [(f, KF), (f2, KF), (sw, KF), (v, KF), (st, KF), (ci, KF), (rc, KF), (fl, KF), (up, KF), (mi, KF), (g0, KG), (g1, KG), (mm, KM), (t, KT), (hf, KF)].iter().enumerate() { m.export(["0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "g0", "g1", "m", "t", "h\u{e9}"][i], *k, *f); }
    m
}
const FT: &[&[u8]] = &[&[I32], &[I32, I64], &[I32], &[V128], &[I32], &[I32, I32], &[I32], &[F32, F64], &[], &[I32]];
/// how an instance of the module answers two calls
fn run(md: &Module, k: u64, which: [usize; 2], a: &[Vec<WasmValue>; 2]) -> (u32, Vec<u128>) {
    let mut s = Store::default(); let h = HostFunction::from(&mut s, |_, n: i32| Ok((n as i64, 1.5f32))); let mut im = Imports::new(); im.define("env", "f\u{e9}\u{1f600}", h);
    if k == 1 { let m = Memory::new(&mut s, MemoryType::new(MemoryArch::I64, 1, Some(5), Some(1))).unwrap(); let t = Table::new(&mut s, TableType::new(WasmType::RefExtern, 2, Some(300)), WasmValue::RefExtern(ExternRef::null())).unwrap(); let g = Global::new(&mut s, GlobalType::new(WasmType::I64, false), l(77)).unwrap(); let f = Global::new(&mut s, GlobalType::new(WasmType::F32, true), val(F32, 0)).unwrap(); im.define("env", "m", m); im.define("env", "t", t); im.define("env", "g", g); im.define("", "", f); }
    let i = match ModuleInstance::instantiate(&mut s, md, Some(im)) { Ok(i) => i, Err(e) => return (errcode(&e), vec![]) }; let mut out = Vec::new();
    for n in 0..2 { let (oc, v) = call(&mut s, &i, ["0", "1", "2", "3", "4", "5", "6", "7", "8", "9"][which[n]], &a[n]); out.push(oc as u128); for x in v { out.push(vty(&x) as u128); out.push(bits(&x)) } }
    out.push(bits(&i.global_get(&s, "g0").unwrap())); out.push(bits(&i.global_get(&s, "g1").unwrap())); let m = i.memory("m").unwrap(); for b in m.read_vec(&s, 0, m.len(&s).unwrap()).unwrap() { out.push(b as u128) } out.push(i.table("t").unwrap().size(&s).unwrap() as u128); (OK, out)
}
fn pick() -> (u32, u64, u128) { match choose("constants", 3) { 0 => (u32v("x"), 0x8000_0000_0000_0001, 3), 1 => (0x7f7f_fff0, u64v("y"), u128::MAX - 5), _ => (7, 1 << 40, u128v("z")) } }
fn module(two: bool) {
    let k = choose("module", 2); let opt = !two || choose("optimizer", 2) == 1; let (x, y, z) = pick(); let m = rich(k, x, y, z); let md = if opt { parse(&m.bytes()) } else { parse_no(&m.bytes()) }; let n = trip(&md, (x & 0x7fff_ffff <= 0x7f80_0000) & (y & (u64::MAX >> 1) <= 0x7ff0 << 48)); /* a NaN constant is not == to itself */
    let which = [choose("first", 10) as usize, if two { choose("second", 10) as usize } else { 0 }]; let mut a = [vec![], vec![]]; for q in 0..2 { for t in FT[which[q]] { a[q].push(val(*t, symbits(["a", "b"][q], *t))) } }
    let (r1, r2) = (run(&md, k, which, &a), run(&n, k, which, &a)); check(r1.0 == OK && r2.0 == OK, "both are instantiated"); check(r1.1.len() == r2.1.len(), "the same number of results"); let mut e = true; for q in 0..r1.1.len() { e &= r1.1[q] == r2.1[q] } check(e, "it behaves the same"); cover("value")
}
h!(h_c19_module, { module(false) });
h!(h_c19_modulex, { module(true) });
// ---- every instruction
h!(h_c19_ops, {
    let k = choose("instruction", 256 + 8 + 276); let (op, code) = if k < 256 { (ops::scalar(k), c().op(k as u8)) } else if k < 264 { (ops::sat(k - 256), c().fc(k - 256)) } else { (ops::vector(k - 264), c().fd(k - 264)) }; let Some(op) = op else { return };
    let lane = match op.imm { ops::Imm::Lane(n) | ops::Imm::MemLane(_, n) => n - 1, _ => 0 }; let mut sh = [0u8; 16]; for (i, x) in sh.iter_mut().enumerate() { *x = (i * 7 % 32) as u8 } let code = ops::imm(code, op.imm, lane, &sh, 1000 * k, u128v("constant") * matches!(op.imm, ops::Imm::Const) as u128);
    let mut m = M::new(); m.mem(memty(false, 1, None, 16)); let mut b = c(); for i in 0..op.p.len() { b = b.get(i as u64) } b = b.cat(&code); let f = if op.r == VOID { m.func(op.p, &[], &[], b) } else { m.func(op.p, &[op.r], &[(1, op.r)], b.tee(op.p.len() as u64)) }; m.export("f", KF, f);
    for opt in [true, false] { let md = if opt { parse(&m.bytes()) } else { parse_no(&m.bytes()) }; trip(&md, true); } cover("value")
});
// ---- operands of stack, memory and control instructions, and what the optimizer makes of them
h!(h_c19_imms, {
    let k = choose("program", 14); let x = u32v("x"); let y = u64v("y"); let mut m = M::new(); let g = m.global(I64, true, c().i64c(0)); m.mem(memty(false, 1, None, 0)); m.mem(memty(true, 1, None, 0)); m.table(FUNCREF, 1, None); m.data_passive(&[1, 2]); let f0 = m.func(&[I32, I64], &[I32], &[(1, I32)], c().get(0)); m.elem_mode(1, &[f0]);
    let b = match k { 0 => c().get(0).i32c(x as i32).op(0x6a), 1 => c().get(0).i32c(x as i32).op(0x6c).set(2).get(2), 2 => c().get(1).i64c(y as i64).op(0x7c).op(0xa7), 3 => c().get(0).mem_w(0x28, 2, 0, (x & 0xffff_ffff) as u64), 4 => c().i64c(0).mem_w(0x28, 0, 1, y), 5 => c().get(0).get(1).mem_w(0x37, 3, 0, x as u64).get(2),
        6 => c().get(1).mem_w(0x35, 2, 1, y).gset(g as u64).get(0), 7 => c().get(0).i32c(x as i32).op(0x46).iff(I32).i32c(x as i32).els().get(2).end(), 8 => c().block(VOID).lp(VOID).get(0).i32c(x as i32).op(0x48).brif(1).get(0).i32c(1).op(0x6a).tee(0).brif(0).end().end().get(0), 9 => c().i64c(y as i64).set(1).get(0).i32c(0).i32c(0).i32c(2).fc(8).u(0).u(0),
        10 => c().i32c(0).i32c(0).i32c(0).fc(12).u(0).u(0).fc(13).u(0).fc(9).u(0).get(0), 11 => c().get(0).get(1).call(f0 as u64).i32c(x as i32).op(0x77), 12 => c().get(0).i32c(x as i32).mem(0x36, 2, 0, 5).i32c(x as i32).op(0x6b + 0).op(0x45).op(0x45), _ => c().get(0).get(0).mem(0x28, 2, 0, 0).i32c(x as i32).op(0x6a).mem(0x36, 2, 0, 0).get(0) };
    let b = match k { 12 => c().get(0).i32c(x as i32).mem(0x36, 2, 0, 5).get(0).i32c(x as i32).op(0x6b).op(0x45).op(0x45), 9 => c().i64c(y as i64).set(1).i32c(0).i32c(0).i32c(2).fc(8).u(0).u(0).get(0), _ => b };
    m.func(&[I32, I64], &[I32], &[(1, I32)], b); for opt in [true, false] { let md = if opt { parse(&m.bytes()) } else { parse_no(&m.bytes()) }; trip(&md, true); } cover("value")
});
// ---- the header
h!(h_c19_header, {
    let m = parse(&rich(0, 5, 6, 7).bytes()); let good = save(&m); let at = choose("place", 19) as usize; let mut b = good.clone();
    if at < 16 { b[at] = u8v("byte"); let ok = b[at] == HEADER[at]; let r = Module::try_from_twasm(&b); if ok { check(matches!(r, Ok(ref n) if *n == m), "the current header") } else { check(r.is_err(), "another header"); cover("rejected") } }
    else if at == 16 { let h = sym::bytes::<16>("header"); b[..16].copy_from_slice(&h); let r = Module::try_from_twasm(&b); let ok = h == HEADER; check(r.is_ok() == ok, "any header"); cover(if ok { "accepted" } else { "rejected" }) }
    else if at == 17 { let n = choose("length", 17) as usize; let h = sym::bytes::<16>("header"); check(Module::try_from_twasm(&h[..n]).is_err(), "nothing behind the header"); cover("rejected") }
    else { let r = Module::try_from_twasm(&rich(0, 5, 6, 7).bytes()); check(r.is_err(), "a WebAssembly module"); cover("rejected") }
});
// ---- truncation at every place
fn trunc(k: u64) { let (x, y, z) = (u32v("x"), 0x1234_5678_9abc_def0, 9); let m = parse(&match k { 0 => M::new(), _ => rich(k - 1, x, y, z) }.bytes()); let b = save(&m); let n = choose("length", b.len() as u64) as usize; check(Module::try_from_twasm(&b[..n]).is_err(), "a truncated archive"); cover("rejected") }
h!(h_c19_trunc, { trunc(choose("module", 2)) });
h!(h_c19_truncx, { trunc(2) });
// ---- one byte is another one: an error or some module, no panic
fn corrupt(k: u64) { let m = parse(&match k { 0 => { let mut m = M::new(); let f = m.func(&[I32], &[I32], &[], c().get(0).i32c(5).op(0x6a)); m.export("f", KF, f); m.mem(memty(false, 1, None, 0)); m.data0(c().i32c(0), &[1]); m.global(I64, true, c().i64c(3)); m } _ => rich(k - 1, 5, 6, 7) }.bytes()); let mut b = save(&m); let at = 16 + choose("place", b.len() as u64 - 16) as usize; b[at] = u8v("byte"); match Module::try_from_twasm(&b) { Ok(n) => { cover("accepted"); let s = save(&n); match Module::try_from_twasm(&s) { Ok(o) => check(save(&o) == s, "what was loaded can be saved and loaded"), Err(_) => check(false, "what was loaded can be saved and loaded") } } Err(_) => cover("rejected") } }
h!(h_c19_corrupt, { corrupt(0) });
h!(h_c19_corruptx, { corrupt(1) });
