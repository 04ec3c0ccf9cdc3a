//! C17: instantiation copies segments in order, each bounds-checked, then runs the start function once; a failed one leaves the store usable.

use crate::rt::*;
use std::cell::Cell;
use std::rc::Rc;
const ML: usize = 5; const OL: usize = 4; const TL: usize = 4; const QL: usize = 3;
/// where a segment goes: .0 own (or imported), .1 kind of offset expression
struct Env { st: Store, b: ModuleInstance, g: u32, gv: Global, m: Memory, t: Table, pre: [u8; ML], f0: u128, null: u128, runs: Rc<Cell<u32>>, trap_on: Rc<Cell<bool>>, h: Function }
fn env() -> Env {
    let mut st = Store::default(); let g = u32v("g"); let gv = Global::new(&mut st, GlobalType::new(WasmType::I32, false), i(g as i32)).unwrap();
    let mut bm = M::new(); let f = bm.func(&[], &[I32], &[], c().i32c(900)); let ty = bm.ty(&[], &[I32]); bm.table(FUNCREF, TL as u64, None); bm.elem(0, c().i32c(0), &[f]); bm.mem(memty(false, ML as u64, None, 0));
    let ci = bm.func(&[I32], &[I32], &[], c().get(0).calli(ty as u64, 0)); let rf = bm.func(&[], &[FUNCREF], &[], c().op(0xd2).u(f as u64)); bm.export("ci", KF, ci).export("m", KM, 0).export("t", KT, 0).export("f", KF, f).export("rf", KF, rf);
    let b = inst(&mut st, &bm, true, None); let m = b.memory("m").unwrap(); let t = b.table("t").unwrap(); let pre = sym::bytes::<ML>("pre"); m.copy_from_slice(&mut st, 0, &pre).unwrap();
    let (_, f0) = call1(&mut st, &b, "rf", &[]); let runs = Rc::new(Cell::new(0)); let trap_on = Rc::new(Cell::new(false)); let (r2, t2) = (runs.clone(), trap_on.clone());
    let h = HostFunction::from_untyped(&mut st, &FuncType::new(&[], &[]), move |_, _| { r2.set(r2.get() + 1); if t2.get() { Err(Error::Other(String::from("start"))) } else { Ok(vec![]) } });
    Env { st, b, g, gv, m, t, pre, f0, null: bits(&WasmValue::RefFunc(FuncRef::new(None))), runs, trap_on, h }
}
fn imports(e: &Env) -> Imports { let mut im = Imports::new(); im.define("h", "g", e.gv.clone()); im.define("h", "h", e.h.clone()); if im.link_module("b", e.b.clone()).is_err() { panic!("link") } im }
fn module() -> (M, u32) { let mut m = M::new(); let h = m.imp_func("h", "h", &[], &[]); m.imp_func("b", "f", &[], &[I32]); m.imp_mem("b", "m", &memty(false, 1, None, 0)); m.imp_table("b", "t", FUNCREF, &limits(0, 1, None)); m.imp_global("h", "g", I32, false); m.mem(memty(false, OL as u64, Some(6), 0)); m.table(FUNCREF, QL as u64, Some(5)); m.export("om", KM, 1).export("ot", KT, 1); (m, h) }
/// an offset expression and its value
fn offset(kind: u64, n: &str, g: u32) -> (C, u64) {
    if kind == 0 { return (c().gget(0), g as u64) } let x = u32v(n);
    match kind { 1 => (c().i32c(x as i32), x as u64), 2 => (c().gget(0).i32c(x as i32).op(0x6a), g.wrapping_add(x) as u64), 3 => (c().i32c(x as i32).gget(0).op(0x6b), x.wrapping_sub(g) as u64), _ => (c().i32c(x as i32).gget(0).i32c(3).op(0x6c).op(0x6a), x.wrapping_add(g.wrapping_mul(3)) as u64) }
}
fn outcome(r: &tinywasm::Result<ModuleInstance>, want: u32) { check(code(r) == want, "outcome of the instantiation"); cover(if want == OK { "value" } else { "trap" }) }
fn put(m: &mut [u64], at: u64, b: &[u64]) -> bool { if at + b.len() as u64 > m.len() as u64 { return false } for (k, x) in b.iter().enumerate() { for j in 0..m.len() { m[j] = sym::ite(at + k as u64 == j as u64, *x, m[j]) } } true }
fn memory_is(m: &Memory, st: &Store, want: &[u64], n: &str) { let got = m.read_vec(st, 0, want.len()).unwrap(); let mut e = true; for (a, b) in got.iter().zip(want) { e &= *a as u64 == *b } check(e, n); check(m.len(st).unwrap() == want.len(), "memory size") }
fn table_is(t: &Table, st: &Store, want: &[u64], n: &str) { let mut e = true; for (a, b) in t.load(st, 0, want.len()).unwrap().zip(want) { e &= bits(&a) as u64 == *b } check(e, n); check(t.size(st).unwrap() == want.len(), "table size") }
fn w(b: &[u8]) -> Vec<u64> { b.iter().map(|x| *x as u64).collect() }
// ---- data segments
fn data(kinds: &[u64], lens: &[usize]) {
    let mut e = env(); let (mut m, _) = module(); let (mut im, mut own) = (w(&e.pre), vec![0u64; OL]); let mut want = OK;
    for k in 0..2 {
        let mem = choose(["m0", "m1"][k], 2); let kind = kinds[choose(["k0", "k1"][k], kinds.len() as u64) as usize]; let n = lens[choose(["n0", "n1"][k], lens.len() as u64) as usize]; let (c, at) = offset(kind, ["x0", "x1"][k], e.g);
        let b: Vec<u8> = (0..n).map(|_| u8v("byte")).collect(); if mem == 0 && kind < 2 { m.data0(c, &b) } else { m.data(mem as u32, c, &b) } if k == 0 { m.data_passive(&[7, 8, 9]) }
        if want == OK && !put(if mem == 0 { &mut im } else { &mut own }, at, &w(&b)) { want = OOB }
    }
    let md = parse(&m.bytes()); let i = imports(&e); let r = ModuleInstance::instantiate(&mut e.st, &md, Some(i)); outcome(&r, want); memory_is(&e.m, &e.st, &im, "the imported memory");
    if let Ok(a) = r { memory_is(&a.memory("om").unwrap(), &e.st, &own, "the own memory") } table_is(&e.t, &e.st, &[e.f0 as u64, e.null as u64, e.null as u64, e.null as u64], "the table is untouched");
}
h!(h_c17_data, { data(&[0, 1, 2], &[0, 2]) });
h!(h_c17_datax, { data(&[0, 1, 2, 3, 4], &[0, 1, 3]) });
// ---- element segments
fn elem(kinds: &[u64]) {
    let mut e = env(); let (mut m, _) = module(); let f: Vec<u32> = (0..3).map(|k| m.func(&[], &[I32], &[], c().i32c(100 + k))).collect(); let lead = choose("lead", 2) == 1; if lead { m.elem_mode(3, &[f[0], f[1], f[2], 1]) }
    let rf = |k: u32| c().op(0xd2).u(k as u64); let refs = m.func(&[], &[FUNCREF; 4], &[], c().cat(&rf(1)).cat(&rf(f[0])).cat(&rf(f[1])).cat(&rf(f[2]))); m.export("refs", KF, refs);
    // placeholders stand for the functions' references until they are known
    let (mut im, mut own) = (vec![1u64, 0, 0, 0], vec![0u64; QL]); let mut want = OK;
    for k in 0..2 {
        let t = choose(["t0", "t1"][k], 2) as u32; let kind = kinds[choose(["k0", "k1"][k], kinds.len() as u64) as usize]; let (c0, at) = offset(kind, ["x0", "x1"][k], e.g); let form = choose(["f0", "f1"][k], 3);
        let items: Vec<u64> = match form { 0 => { let s = [f[k], 1]; if t == 0 { m.elem0(c0, &s) } else { m.elem(t, c0, &s) } vec![2 + k as u64, 1] } 1 => { let s = [rf(f[2]), c().op(0xd0).op(FUNCREF), rf(1)]; m.elem_active_exprs(t, FUNCREF, c0, &s); vec![4, 0, 1] } _ => { m.elem(t, c0, &[]); vec![] } };
        if k == 0 && lead { m.elem_mode(1, &f) } if want == OK && !put(if t == 0 { &mut im } else { &mut own }, at, &items) { want = TOOB }
    }
    if !lead { m.elem_mode(3, &[f[0], f[1], f[2], 1]) } let md = parse(&m.bytes()); let i = imports(&e); let r = ModuleInstance::instantiate(&mut e.st, &md, Some(i)); outcome(&r, want);
    // what was written can be called by the other module, whether or not the instantiation succeeded
    let j = choose("probe", TL as u64); let (oc, v) = call1(&mut e.st, &e.b, "ci", &[i32w(j)]); let x = im[j as usize]; let mut id = 0u64; for (q, y) in [0u64, 900, 100, 101, 102].iter().enumerate() { id = sym::ite(x == q as u64, *y, id) }
    check((oc == OK) == (id != 0), "an element of the imported table"); if oc == OK { check(v as u64 == id, "the function in the imported table") } else { check(oc == UNINIT, "null") }
    if let Ok(a) = r { let (_, v) = call(&mut e.st, &a, "refs", &[]); let v: Vec<u128> = v.iter().map(bits).collect(); check(v[0] == e.f0, "the imported function"); let real = |x: &u64| { let mut r = e.null as u64; for q in 0..4 { r = sym::ite(*x == 1 + q as u64, v[q] as u64, r) } r }; let im: Vec<u64> = im.iter().map(real).collect(); let own: Vec<u64> = own.iter().map(real).collect(); table_is(&e.t, &e.st, &im, "the imported table"); table_is(&a.table("ot").unwrap(), &e.st, &own, "the own table") }
    memory_is(&e.m, &e.st, &w(&e.pre), "the memory is untouched");
}
fn i32w(v: u64) -> WasmValue { i(v as i32) }
h!(h_c17_elem, { elem(&[0, 1]) });
h!(h_c17_elemx, { elem(&[0, 1, 2, 4]) });
// ---- elements, then data, then the start function; what a failed instance left behind
fn order(own: u32, opt: bool) {
    let mut e = env(); let (mut m, h) = module(); let start = choose("start", 4); let again = choose("again", 2) == 1;
    // the function that ends up in the shared table: it copies from the segment chosen by its instance's own memory
    m.global(I32, true, c().i32c(41)); let bump = c().gget(1).i32c(1).op(0x6a).gset(1); let (d, q, n) = (u32v("d"), u32v("q"), u32v("n")); let which = choose("segment", 3);
    let init = c().i32c(d as i32).i32c(q as i32).i32c(n as i32).fc(8).u(which).u(1); let f = m.func(&[], &[I32], &[], init.cat(&bump).gget(1)); m.elem_mode(3, &[f]);
    let tinit = m.func(&[], &[I32], &[], c().i32c(d as i32).i32c(q as i32).i32c(n as i32).fc(12).u(if which == 1 { 3 } else { 2 }).u(1).i32c(5)); let om = m.func(&[I32], &[I32], &[], c().get(0).mem(0x2d, 0, 1, 0)); m.export("om8", KF, om);
    // segment 1 puts f and tinit at 1 and 2 of the shared table
    m.elem(0, c().i32c(1), &[f, tinit]); let (c0, x0) = offset(1, "x0", e.g); m.elem(own, c0, &[f, f]); m.elem_mode(1, &[f]);
    let bytes = sym::bytes::<3>("byte"); m.data0(c().i32c(0), &bytes[..1]); let (c1, x1) = offset(1, "x1", e.g); m.data(0, c1, &bytes[..2]); m.data_passive(&bytes);
    match start { 0 => {} 1 => m.start = Some(h), 2 => { let s = m.func(&[], &[], &[], bump.clone().i32c(3).i32c(77).mem(0x3a, 0, 0, 0).call(h as u64)); m.start = Some(s) } _ => { let s = m.func(&[], &[], &[], bump.call(h as u64).gget(0).iff(VOID).unreachable().end()); m.start = Some(s) } }
    let trap = u8v("start traps") & 1 == 1; e.trap_on.set(trap);
    let md = if opt { parse(&m.bytes()) } else { parse_no(&m.bytes()) };
    let mut tab = [1u64, 2, 3, 0]; let mut ot = [0u64; QL]; let mut im = w(&e.pre);
    let mut want = OK; if !put(if own == 0 { &mut tab } else { &mut ot }, x0, &[2, 2]) { want = TOOB }
    let edone = want == OK; let mut ddone = 0; if edone { im[0] = bytes[0] as u64; ddone = 1; if put(&mut im, x1, &w(&bytes[..2])) { ddone = 2 } else { want = OOB } }
    let mut ran = 0; if want == OK && start > 0 { ran = 1; if start == 2 { im[3] = 77 } if trap { want = HOSTERR } else if start == 3 && e.g != 0 { want = UNREACHABLE } }
    let i = imports(&e); let r = if again { let r = ModuleInstance::instantiate_no_start(&mut e.st, &md, Some(i)); check(e.runs.get() == 0, "the start function has not run yet"); match r { Ok(a) => match a.start(&mut e.st) { Ok(s) => { check(s.is_some() == (start > 0), "whether there is a start function"); Ok(a) } Err(x) => Err(x) }, Err(x) => Err(x) } } else { ModuleInstance::instantiate(&mut e.st, &md, Some(i)) };
    let hosterr = want == HOSTERR; if hosterr { check(r.is_err(), "an error of the start function is passed on"); cover("trap") } else { outcome(&r, want) }
    check(e.runs.get() == ran, "the start function runs exactly once"); memory_is(&e.m, &e.st, &im, "the imported memory");
    // calls through the shared table reach the new instance, failed or not
    let j = choose("probe", 3) + 1; let x = sym::concretize(tab[j as usize]); let (oc, v) = call1(&mut e.st, &e.b, "ci", &[i32w(j)]);
    let seg: Vec<u8> = match which { 0 if ddone >= 1 => vec![], 0 => bytes[..1].to_vec(), 1 if ddone >= 2 => vec![], 1 => bytes[..2].to_vec(), _ => bytes.to_vec() };
    match x {
        0 => check(oc == UNINIT, "null"), 1 => check(oc == OK && v == 900, "the other module's function"),
        2 => if (d as u64 + n as u64 <= OL as u64) & (q as u64 + n as u64 <= seg.len() as u64) { check(oc == OK, "a function of the new instance"); check(v == 42 + (start > 1 && ran == 1) as u128, "its global"); cover("called"); if let Ok(a) = &r { for k in 0..OL { let mut x = 0u64; for (s, b) in seg.iter().enumerate() { x = sym::ite((k as u64 >= d as u64) & ((k as u64) < d as u64 + n as u64) & (k as u64 == (d as u64).wrapping_add(s as u64).wrapping_sub(q as u64)), *b as u64, x) } let (_, y) = call1(&mut e.st, a, "om8", &[i32w(k as u64)]); check(y == x as u128, "memory.init afterwards") } } } else { check(oc == OOB, "memory.init is bounds-checked") },
        _ => { let len = if which == 1 { 1u64 } else if edone { 0 } else { 2 }; if (d as u64 + n as u64 <= QL as u64) & (q as u64 + n as u64 <= len) { check(oc == OK && v == 5, "table.init of the new instance") } else { check(oc == TOOB, "table.init is bounds-checked") } }
    }
    // and the store goes on working
    if choose("then", 2) == 1 { let mut m2 = M::new(); let f = m2.func(&[], &[I32], &[], c().i32c(0).i32c(1).i32c(1).fc(8).u(0).u(0).i32c(0).mem(0x2d, 0, 0, 0)); m2.mem(memty(false, 1, None, 0)); m2.data_passive(&[5, 66]); m2.export("f", KF, f); let a = inst(&mut e.st, &m2, opt, None); let (oc, v) = call1(&mut e.st, &a, "f", &[]); check(oc == OK && v == 66, "another module of the store") }
}
h!(h_c17_order, { order(0, true) });
h!(h_c17_orderx, { order(1, false) });
// ---- the same module twice: separate state
h!(h_c17_twice, {
    let mut e = env(); let (mut m, h) = module(); m.global(I32, true, c().gget(0)); m.start = Some(h); let (c0, x0) = offset(1, "x", e.g); let b = sym::bytes::<2>("byte"); m.data(1, c0, &b); m.data_passive(&[1, 2, 3]); let ty = m.ty(&[], &[I32]);
    let f = m.func(&[], &[I32], &[], c().gget(1).i32c(1).op(0x6a).gset(1).gget(1)); m.elem(1, c().i32c(1), &[f]); m.elem_mode(1, &[f, f]);
    let g = m.func(&[I32], &[I32], &[], c().get(0).calli(ty as u64, 1)); m.export("ci", KF, g); let st8 = m.func(&[I32, I32], &[], &[], c().get(0).get(1).mem(0x3a, 0, 1, 0)); m.export("st8", KF, st8);
    let dr = m.func(&[], &[], &[], c().fc(9).u(1).fc(13).u(1)); m.export("drop", KF, dr); let ini = m.func(&[I32], &[I32], &[], c().i32c(0).i32c(0).get(0).fc(8).u(1).u(1).i32c(0).i32c(0).get(0).fc(12).u(1).u(1).i32c(1)); m.export("init", KF, ini);
    let md = parse(&m.bytes()); let (i1, i2) = (imports(&e), imports(&e)); let a = ModuleInstance::instantiate(&mut e.st, &md, Some(i1)); outcome(&a, if x0 + 2 <= OL as u64 { OK } else { OOB }); let Ok(a) = a else { check(e.runs.get() == 0, "no start"); return }; check(e.runs.get() == 1, "one start");
    let v = u32v("v"); let k = u32v("k"); assume(k < OL as u32); call(&mut e.st, &a, "st8", &[i(k as i32), i(v as i32)]); let (oc, n) = call1(&mut e.st, &a, "ci", &[i(1)]); check(oc == OK && n as u32 == e.g.wrapping_add(1), "a global starting with an imported one's value"); call(&mut e.st, &a, "drop", &[]);
    let Ok(b2) = ModuleInstance::instantiate(&mut e.st, &md, Some(i2)) else { check(false, "the second instance"); return }; check(e.runs.get() == 2, "each instance runs its start function");
    let mut own = vec![0u64; OL]; put(&mut own, x0, &w(&b)); memory_is(&b2.memory("om").unwrap(), &e.st, &own, "a fresh memory"); own[..].iter_mut().enumerate().for_each(|(j, x)| *x = sym::ite(j as u32 == k, v as u8 as u64, *x)); memory_is(&a.memory("om").unwrap(), &e.st, &own, "the first instance's memory");
    let (_, n) = call1(&mut e.st, &b2, "ci", &[i(1)]); check(n as u32 == e.g.wrapping_add(1), "a fresh global"); let z = u32v("n"); let (oc, _) = call1(&mut e.st, &b2, "init", &[i(z as i32)]); check(oc == if z <= 2 { OK } else if z <= 3 { TOOB } else { OOB }, "fresh segments"); let (oc, _) = call1(&mut e.st, &a, "init", &[i(z as i32)]); check(oc == if z == 0 { OK } else { OOB }, "dropped segments"); cover("twice");
});
// ---- tables whose elements start out as an expression says
h!(h_c17_tableinit, {
    let mut st = Store::default(); let mut m = M::new(); let f = m.func(&[], &[I32], &[], c().i32c(u32v("v") as i32)); let ty = m.ty(&[], &[I32]); let kind = choose("init", 2);
    m.table_init(FUNCREF, 2, if kind == 0 { c().op(0xd0).op(FUNCREF) } else { c().op(0xd2).u(f as u64) }); m.elem_mode(3, &[f]); let ci = m.func(&[I32], &[I32], &[], c().get(0).calli(ty as u64, 0)); m.export("ci", KF, ci);
    if parse_opt(&m.bytes(), true).is_err() { cover("value"); return } let a = inst(&mut st, &m, true, None); let j = u32v("j"); let (oc, _) = call1(&mut st, &a, "ci", &[i(j as i32)]);
    if j >= 2 { check(oc == UNDEF, "an index out of bounds") } else if kind == 0 { check(oc == UNINIT, "a table starts out with null"); cover("value") } else { check(oc == OK, "a table starts out as its initialiser says") }
});
