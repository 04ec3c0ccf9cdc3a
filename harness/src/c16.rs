//! C16: an import is linked only if an item of the right kind and a matching type is provided, and then it is that very item.
use crate::rt::*;
use tinywasm::types::{GlobalType, MemoryArch, MemoryType, TableType};
use std::cell::Cell;
use std::rc::Rc;
fn wt(t: u8) -> WasmType { match t { I32 => WasmType::I32, I64 => WasmType::I64, F32 => WasmType::F32, F64 => WasmType::F64, V128 => WasmType::V128, EXTERNREF => WasmType::RefExtern, _ => WasmType::RefFunc } }
fn wts(t: &[u8]) -> Vec<WasmType> { t.iter().map(|t| wt(*t)).collect() }
#[derive(PartialEq, Clone, Copy)]
enum Got { Linked, Unknown, Incompatible, Other }
fn got(r: &tinywasm::Result<ModuleInstance>) -> Got { match r { Ok(_) => Got::Linked, Err(Error::Linker(LinkingError::UnknownImport { .. })) => Got::Unknown, Err(Error::Linker(LinkingError::IncompatibleImportType { .. })) => Got::Incompatible, Err(_) => Got::Other } }
fn outcome(r: &tinywasm::Result<ModuleInstance>, want: Got) { let g = got(r); check(g == want, "outcome of linking"); cover(match want { Got::Linked => "linked", Got::Unknown => "unknown", _ => "refused" }) }
/// limits whose numbers may be symbolic
fn lim(flags: u8, min: u64, max: Option<u64>, page: Option<u8>) -> Vec<u8> { let mut v = vec![flags | max.is_some() as u8 | if page.is_some() { 8 } else { 0 }]; let n = if flags & 4 != 0 { 10 } else { 5 }; uleb_n(&mut v, min, n); if let Some(m) = max { uleb_n(&mut v, m, n) } if let Some(p) = page { v.push(p) } v }
fn word(n: &str, wide: bool) -> u64 { if wide { u64v(n) } else { u32v(n) as u64 } }
fn some(n: &str, v: &str, wide: bool) -> Option<u64> { if choose(n, 2) == 1 { Some(word(v, wide)) } else { None } }
// ---- memories: index type, page size, current size, maximum
fn memory(guest: bool) {
    let (a64, p64) = (choose("declared i64", 2) == 1, choose("provided i64", 2) == 1); let pages: [(u8, u64); 2] = [(0, 1), (16, 65536)]; let (ap, pp) = (pages[choose("declared page", 2) as usize], pages[choose("provided page", 2) as usize]);
    let bound = |w: bool, p: u64| if w { u64::MAX / p } else { (1u64 << 32) / p - (p == 1) as u64 };
    let min = word("min", a64); let max = some("has max", "max", a64); assume(min <= bound(a64, ap.1) && max.is_none_or(|m| m >= min && m <= bound(a64, ap.1)));
    let has = choose("size", 3); let pmax = some("provided has max", "provided max", p64); assume(pmax.is_none_or(|m| m >= has && m <= bound(p64, pp.1))); let grown = if choose("grown", 2) == 1 { 1 } else { 0 }; assume(pmax.is_none_or(|m| m >= has + grown)); let size = has + grown;
    let mut st = Store::default(); let mut im = Imports::new();
    let mem = if guest { let mut b = M::new(); b.mem(lim(if p64 { 4 } else { 0 }, has, pmax, if pp.0 == 16 { None } else { Some(pp.0) })); b.export("m", KM, 0); let b = inst(&mut st, &b, true, None); let m = b.memory("m").unwrap(); if im.link_module("a", b).is_err() { panic!() } m }
        else { let m = Memory::new(&mut st, MemoryType::new(if p64 { MemoryArch::I64 } else { MemoryArch::I32 }, has, pmax, Some(pp.1))).unwrap(); im.define("a", "m", m); m };
    if grown == 1 { check(m_ok(mem.grow(&mut st, 1)), "growing") }
    let mut m = M::new(); m.imp_mem("a", "m", &lim(if a64 { 4 } else { 0 }, min, max, if ap.0 == 16 { None } else { Some(ap.0) })); let f = m.func(&[], &[if a64 { I64 } else { I32 }], &[], c().op(0x3f).u(0)); m.export("size", KF, f).export("again", KM, 0);
    let fits = a64 == p64 && ap.1 == pp.1 && size >= min && match (pmax, max) { (_, None) => true, (None, Some(_)) => false, (Some(p), Some(m)) => p <= m };
    let md = parse(&m.bytes()); let r = ModuleInstance::instantiate(&mut st, &md, Some(im)); outcome(&r, if fits { Got::Linked } else { Got::Incompatible });
    if let Ok(a) = r { if size > 0 { let b = u8v("byte"); mem.copy_from_slice(&mut st, 0, &[b]).unwrap(); check(a.memory("again").unwrap().read_vec(&st, 0, 1).unwrap()[0] == b, "the same memory") } let (_, n) = call1(&mut st, &a, "size", &[]); check(n == size as u128, "its size") }
}
fn m_ok(r: tinywasm::Result<Option<i64>>) -> bool { matches!(r, Ok(Some(_))) }
h!(h_c16_mem, { memory(true) });
h!(h_c16_memhost, { memory(false) });
// ---- tables: element type, index type, current size, maximum
fn table(guest: bool) {
    let (a64, p64) = (choose("declared i64", 2) == 1, choose("provided i64", 2) == 1); let (at, pt) = ([FUNCREF, EXTERNREF][choose("declared type", 2) as usize], [FUNCREF, EXTERNREF][choose("provided type", 2) as usize]);
    let min = word("min", a64); let max = some("has max", "max", a64); assume(max.is_none_or(|m| m >= min)); let has = choose("size", 3); let pmax = some("provided has max", "provided max", p64); let grown = if choose("grown", 2) == 1 { 1 } else { 0 }; assume(pmax.is_none_or(|m| m >= has + grown)); let size = has + grown;
    // the validator's own limit on the initial size of a table
    assume(min <= 10_000_000);
    let mut st = Store::default(); let mut im = Imports::new(); let null = WasmValue::default_for(wt(pt));
    let tab = if guest { let mut b = M::new(); let mut d = vec![pt]; d.extend_from_slice(&lim(if p64 { 4 } else { 0 }, has, pmax, None)); b.tables.push(d); b.export("t", KT, 0); let b = inst(&mut st, &b, true, None); let t = b.table("t").unwrap(); if im.link_module("a", b).is_err() { panic!() } t }
        else { let t = Table::new(&mut st, if p64 { TableType::new64(wt(pt), has, pmax) } else { TableType::new(wt(pt), has, pmax) }, null).unwrap(); im.define("a", "t", t); t };
    if grown == 1 { check(tab.grow(&mut st, 1, null).is_ok(), "growing") }
    let mut m = M::new(); m.imp_table("a", "t", at, &lim(if a64 { 4 } else { 0 }, min, max, None)); let f = m.func(&[], &[if a64 { I64 } else { I32 }], &[], c().fc(16).u(0)); m.export("size", KF, f).export("again", KT, 0);
    let fits = a64 == p64 && at == pt && size >= min && match (pmax, max) { (_, None) => true, (None, Some(_)) => false, (Some(p), Some(m)) => p <= m };
    let md = parse(&m.bytes()); let r = ModuleInstance::instantiate(&mut st, &md, Some(im)); outcome(&r, if fits { Got::Linked } else { Got::Incompatible });
    if let Ok(a) = r { if size > 0 && at == EXTERNREF { let x = u32v("ref"); assume(x != u32::MAX); let x = WasmValue::RefExtern(ExternRef::new(Some(x))); check(tab.set(&mut st, 0, x).is_ok(), "set"); check(bits(&a.table("again").unwrap().get(&st, 0).unwrap()) == bits(&x), "the same table") } let (_, n) = call1(&mut st, &a, "size", &[]); check(n == size as u128, "its size") }
}
h!(h_c16_table, { table(true) });
h!(h_c16_tablehost, { table(false) });
// ---- functions
const SIGS: [(&[u8], &[u8]); 16] = [(&[], &[]), (&[I32], &[]), (&[I64], &[]), (&[F32], &[]), (&[F64], &[]), (&[V128], &[]), (&[FUNCREF], &[]), (&[EXTERNREF], &[]), (&[], &[I32]), (&[], &[I64]), (&[I32, I64], &[]), (&[I64, I32], &[]), (&[I32], &[I64]), (&[], &[I32, I64]), (&[], &[I64, I32]), (&[], &[I32, I64, I32])];
fn zeros(t: &[u8]) -> C { let mut k = c(); for t in t { k = match *t { I32 => k.i32c(7), I64 => k.i64c(7), F32 => k.f32c(7), F64 => k.f64c(7), V128 => k.v128c(7), r => k.op(0xd0).op(r) } } k }
h!(h_c16_func, {
    let (d, p) = (choose("declared", 16) as usize, choose("provided", 16) as usize); let how = choose("how", 3); let mut st = Store::default(); let mut im = Imports::new(); let ran = Rc::new(Cell::new(0)); let r2 = ran.clone();
    match how {
        0 => { let ty = FuncType::new(&wts(SIGS[p].0), &wts(SIGS[p].1)); let out: Vec<WasmValue> = SIGS[p].1.iter().map(|t| WasmValue::default_for(wt(*t))).collect(); let f = HostFunction::from_untyped(&mut st, &ty, move |_, _| { r2.set(r2.get() + 1); Ok(out.clone()) }); im.define("a", "f", f); }
        k => { // another module's; differently numbered types; k = 2: only the handle is provided
            let mut b = M::new(); b.ty(&[F64, F64], &[]); b.ty(SIGS[d].0, SIGS[d].1); b.global(I32, true, c().i32c(0)); let f = b.func(SIGS[p].0, SIGS[p].1, &[], c().gget(0).i32c(1).op(0x6a).gset(0).cat(&zeros(SIGS[p].1))); b.func(SIGS[d].0, SIGS[d].1, &[], zeros(SIGS[d].1)); b.export("f", KF, f).export("n", KG, 0); let b = inst(&mut st, &b, true, None);
            if k == 1 { if im.link_module("a", b.clone()).is_err() { panic!() } } else { let f = b.func_untyped(&st, "f").unwrap(); im.define("a", "f", f); } im.define("n", "n", b.global("n").unwrap()); }
    }
    let mut m = M::new(); m.ty(&[], &[F32, F32]); m.imp_func("a", "f", SIGS[d].0, SIGS[d].1); if how > 0 { m.imp_global("n", "n", I32, true); } let g = { let mut k = zeros(SIGS[d].0).call(0); for _ in SIGS[d].1 { k = k.drop() } k }; let s = m.func(&[], &[], &[], g); m.export("go", KF, s); if how > 0 { m.export("n", KG, 0); }
    let md = parse(&m.bytes()); let r = ModuleInstance::instantiate(&mut st, &md, Some(im)); outcome(&r, if d == p { Got::Linked } else { Got::Incompatible });
    if let Ok(a) = r { let (oc, _) = call(&mut st, &a, "go", &[]); check(oc == OK, "calling the import"); let n = if how == 0 { ran.get() } else { match a.global_get(&st, "n") { Ok(WasmValue::I32(n)) => n as u32, _ => 99 } }; check(n == 1, "exactly that function ran once") }
});
// ---- globals
const GT: [u8; 7] = [I32, I64, F32, F64, V128, FUNCREF, EXTERNREF];
h!(h_c16_global, {
    let (d, p) = (GT[choose("declared", 7) as usize], GT[choose("provided", 7) as usize]); let (dm, pm) = (choose("declared mutable", 2) == 1, choose("provided mutable", 2) == 1); let guest = choose("guest", 2) == 1; let mut st = Store::default(); let mut im = Imports::new();
    let v = if p == FUNCREF || p == EXTERNREF { WasmValue::default_for(wt(p)) } else { val(p, symbits("value", p)) };
    if guest { let mut b = M::new(); let init = if p == FUNCREF || p == EXTERNREF { c().op(0xd0).op(p) } else { konst(c(), p, bits(&v)) }; b.global(I32, true, c().i32c(1)); b.global(p, pm, init); b.export("g", KG, 1); let b = inst(&mut st, &b, true, None); if im.link_module("a", b).is_err() { panic!() } } else { let g = Global::new(&mut st, GlobalType::new(wt(p), pm), v).unwrap(); im.define("a", "g", g); }
    let mut m = M::new(); m.imp_global("a", "g", d, dm); let f = m.func(&[], &[d], &[], c().gget(0)); m.export("get", KF, f).export("g", KG, 0); let md = parse(&m.bytes()); let r = ModuleInstance::instantiate(&mut st, &md, Some(im)); outcome(&r, if d == p && dm == pm { Got::Linked } else { Got::Incompatible });
    if let Ok(a) = r { let (oc, x) = call1(&mut st, &a, "get", &[]); check(oc == OK && x == bits(&v), "its value") }
});
// ---- kinds, names, several imports, several sources
h!(h_c16_names, {
    let mut st = Store::default(); let mut im = Imports::new(); let kind = choose("declared kind", 4); let item = choose("provided kind", 5); let how = choose("how", 4); let v = u32v("value"); let w = u32v("other"); assume(v != w);
    // two of everything under similar names; x is what is asked for, the others must not be taken
    let mut b = M::new(); let f0 = b.func(&[], &[I32], &[], c().i32c(w as i32)); let f1 = b.func(&[], &[I32], &[], c().i32c(v as i32)); for k in 0..2 { b.mem(memty(false, 1, None, 0)); b.table(FUNCREF, 2, None); b.global(I32, false, c().i32c([w, v][k] as i32)); } b.data(1, c().i32c(0), &[v as u8]); b.data(0, c().i32c(0), &[!(v as u8)]); b.elem(1, c().i32c(1), &[f1]); b.elem(0, c().i32c(0), &[f0]);
    for n in ["xx", "", "X", "x "] { b.export(n, KF, f0); } match item { 0 => { b.export("x", KF, f1); } 1 => { b.export("x", KT, 1); } 2 => { b.export("x", KM, 1); } 3 => { b.export("x", KG, 1); } _ => {} }
    let bi = inst(&mut st, &b, true, None); let decoy = { let mut d = M::new(); let f = d.func(&[], &[I32], &[], c().i32c(5)); d.export("x", KF, f).export("y", KF, f); inst(&mut st, &d, true, None) };
    match how {
        0 => { im.link_module("a", bi.clone()).ok(); im.link_module("b", decoy).ok(); } // from a module
        1 => { im.link_module("a", decoy.clone()).ok(); im.link_module("a", bi.clone()).ok(); } // the later module of a name counts
        _ => { // a defined item comes before a module's, the later definition of a name counts
            let other = HostFunction::from(&mut st, |_, _: ()| Ok(6i32)); im.define("a", "y", other.clone()); im.define("A", "x", other.clone()); im.define("", "x", other.clone()); im.define("ax", "", other.clone()); if item < 4 { im.define("a", "x", other.clone()); match bi.extern_item("x").unwrap() { ExternItem::Func(f) => { im.define("a", "x", f); } ExternItem::Table(t) => { im.define("a", "x", t); } ExternItem::Memory(m) => { im.define("a", "x", m); } ExternItem::Global(g) => { im.define("a", "x", g); } } }
            if how == 3 { let mut first = Imports::new(); first.define("a", "x", other); im = first.merge(im); if item < 4 { im.link_module("a", decoy).ok(); } } }
    }
    let mut m = M::new(); match kind { 0 => { m.imp_func("a", "x", &[], &[I32]); } 1 => { m.imp_table("a", "x", FUNCREF, &limits(0, 1, None)); } 2 => { m.imp_mem("a", "x", &memty(false, 1, None, 0)); } _ => { m.imp_global("a", "x", I32, false); } }
    let ty = m.ty(&[], &[I32]) as u64; let f = m.func(&[], &[I32], &[], match kind { 0 => c().call(0), 1 => c().i32c(1).calli(ty, 0), 2 => c().i32c(0).mem(0x2d, 0, 0, 0), _ => c().gget(0) }); m.export("v", KF, f);
    let md = parse(&m.bytes()); let r = ModuleInstance::instantiate(&mut st, &md, Some(im));
    if item == 4 && how == 3 { // only the first set's definition is there
        outcome(&r, if kind == 0 { Got::Linked } else { Got::Incompatible }); if let Ok(a) = r { let (_, x) = call1(&mut st, &a, "v", &[]); check(x == 6, "the merged definition") } return }
    outcome(&r, if item == 4 { Got::Unknown } else if item == kind { Got::Linked } else { Got::Incompatible });
    if let Ok(a) = r { let (oc, x) = call1(&mut st, &a, "v", &[]); check(oc == OK && x == if kind == 2 { v as u8 as u128 } else { v as u128 }, "exactly the named item") }
});
// ---- nothing is instantiated when one import of several is missing; order of several imports of a kind
h!(h_c16_none, {
    let mut st = Store::default(); let mut im = Imports::new(); let bad = choose("bad", 8) as usize; let ran = Rc::new(Cell::new(0)); let r2 = ran.clone(); let x = [u32v("v0"), u32v("v1"), u32v("v2")]; let pre = sym::bytes::<2>("pre");
    let h = HostFunction::from(&mut st, move |_, _: ()| { r2.set(r2.get() + 1); Ok(()) }); let mem = Memory::new(&mut st, MemoryType::new(MemoryArch::I32, 2, None, Some(1))).unwrap(); mem.copy_from_slice(&mut st, 0, &pre).unwrap(); let tab = Table::new(&mut st, TableType::new(WasmType::RefFunc, 2, None), WasmValue::default_for(WasmType::RefFunc)).unwrap();
    for k in 0..3 { let g = Global::new(&mut st, GlobalType::new(if bad == 4 + k { WasmType::F32 } else { WasmType::I32 }, false), if bad == 4 + k { WasmValue::F32(0.0) } else { i(x[k] as i32) }).unwrap(); im.define("a", ["g0", "g1", "g2"][k], g); }
    if bad != 1 { im.define("a", "h", h); } if bad != 2 { im.define("a", "m", mem); } if bad != 3 { im.define("a", "t", tab); }
    let mut m = M::new(); m.imp_global("a", "g1", I32, false); m.imp_mem("a", "m", &memty(false, 1, None, 0)); m.imp_global("a", "g0", I32, false); let s = m.imp_func("a", "h", &[], &[]); m.imp_table("a", "t", FUNCREF, &limits(0, 1, None)); m.imp_global("a", "g2", I32, false); if bad == 7 { m.imp_global("a", "g3", I32, false); }
    m.start = Some(s); m.data0(c().i32c(0), &[0xaa]); let f = m.func(&[], &[I32, I32, I32], &[], c().gget(0).gget(1).gget(2)); m.elem0(c().i32c(0), &[f]); m.export("f", KF, f);
    let md = parse(&m.bytes()); let r = ModuleInstance::instantiate(&mut st, &md, Some(im)); outcome(&r, if bad == 0 { Got::Linked } else if bad >= 4 && bad < 7 { Got::Incompatible } else { Got::Unknown });
    let b = mem.read_vec(&st, 0, 2).unwrap(); check(b[0] == if bad == 0 { 0xaa } else { pre[0] } && b[1] == pre[1], "memory is written only by an instantiation"); check(ran.get() == (bad == 0) as u32, "the start function"); check((bits(&tab.get(&st, 0).unwrap()) != bits(&WasmValue::default_for(WasmType::RefFunc))) == (bad == 0), "the table");
    if let Ok(a) = r { let (oc, v) = call(&mut st, &a, "f", &[]); check(oc == OK && bits(&v[0]) as u32 == x[1] && bits(&v[1]) as u32 == x[0] && bits(&v[2]) as u32 == x[2], "imports are bound by name, in the declared order") }
    let mut m2 = M::new(); let f = m2.func(&[], &[I32], &[], c().i32c(3)); m2.export("f", KF, f); let a = inst(&mut st, &m2, true, None); let (oc, v) = call1(&mut st, &a, "f", &[]); check(oc == OK && v == 3, "the store goes on working");
});
