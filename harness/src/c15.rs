//! C15: handles only work with the store they belong to, and go on meaning the same object.
use crate::rt::*;
use tinywasm::types::{GlobalType, MemoryArch, MemoryType, TableType};
use std::cell::Cell;
use std::rc::Rc;
struct W { st: Store, a: ModuleInstance, f: Function, h: Function, m: Memory, t: Table, g: Global, ran: Rc<Cell<u32>>, v: u32, b: [u8; 2], x: u32 }
fn ext(x: u32) -> WasmValue { WasmValue::RefExtern(ExternRef::new(Some(x))) }
/// the same objects under the same numbers in every store, with different contents
fn world(k: usize) -> W {
    let mut st = Store::default(); let ran = Rc::new(Cell::new(0)); let r2 = ran.clone(); let v = u32v(["v0", "v1"][k]); let b = sym::bytes::<2>(["b0", "b1"][k]); let x = u32v(["x0", "x1"][k]); assume(x != u32::MAX);
    let h = HostFunction::from(&mut st, move |_, n: i32| { r2.set(r2.get() + 1); Ok(n) }); let m = Memory::new(&mut st, MemoryType::new(MemoryArch::I32, 2, Some(3), Some(1))).unwrap(); m.copy_from_slice(&mut st, 0, &b).unwrap(); let t = Table::new(&mut st, TableType::new(WasmType::RefExtern, 2, Some(3)), ext(x)).unwrap(); let g = Global::new(&mut st, GlobalType::new(WasmType::I32, true), i(v as i32)).unwrap();
    let mut md = M::new(); let hf = md.imp_func("e", "h", &[I32], &[I32]); md.imp_mem("e", "m", &memty(false, 1, None, 0)); md.imp_table("e", "t", EXTERNREF, &limits(0, 1, None)); md.imp_global("e", "g", I32, true);
    let f = md.func(&[I32], &[I32], &[], c().get(0).call(hf as u64).gset(0).i32c(0).i32c(0x55).mem(0x3a, 0, 0, 0).gget(0)); md.export("f", KF, f).export("m", KM, 0).export("t", KT, 0).export("g", KG, 0).export("h", KF, hf); let s = md.func(&[], &[], &[], c().gget(0).i32c(1).op(0x6a).gset(0)); md.start = Some(s);
    let mut im = Imports::new(); im.define("e", "h", h.clone()); im.define("e", "m", m); im.define("e", "t", t); im.define("e", "g", g); let mo = parse(&md.bytes()); let a = match ModuleInstance::instantiate_no_start(&mut st, &mo, Some(im)) { Ok(a) => a, Err(_) => panic!("world") }; let f = a.func_untyped(&st, "f").unwrap();
    W { st, a, f, h, m, t, g, ran, v, b, x }
}
fn untouched(w: &W, n: &str) {
    let b = w.m.read_vec(&w.st, 0, 2).unwrap(); check(b[0] == w.b[0] && b[1] == w.b[1] && w.m.len(&w.st).unwrap() == 2, n); check(bits(&w.g.get(&w.st).unwrap()) as u32 == w.v, n);
    check(w.t.size(&w.st).unwrap() == 2 && bits(&w.t.get(&w.st, 0).unwrap()) as u32 == w.x && bits(&w.t.get(&w.st, 1).unwrap()) as u32 == w.x, n); check(w.ran.get() == 0, n);
}
fn refused<T>(r: tinywasm::Result<T>) -> bool { matches!(r, Err(Error::Trap(Trap::InvalidStore))) }
fn refused_t<T>(r: core::result::Result<T, Trap>) -> bool { matches!(r, Err(Trap::InvalidStore)) }
const OPS: u64 = 50;
fn op(k: u64, s: &mut Store, o: &W) -> bool {
    use std::io::{Read, Write}; let mut buf = [0u8; 1]; let n = u32v("number") as usize;
    match k {
        0 => refused(o.f.call(s, &[i(1)])), 1 => refused(o.f.call_resumable(s, &[i(1)]).map(|_| ())), 2 => refused(o.h.call(s, &[i(1)])), 3 => refused(o.h.call_resumable(s, &[i(1)]).map(|_| ())),
        4 => refused(o.a.func::<i32, i32>(&o.st, "f").unwrap().call(s, 1)), 5 => refused(o.a.func::<i32, i32>(&o.st, "f").unwrap().call_resumable(s, 1).map(|_| ())),
        6 => refused(o.m.read_vec(s, 0, 1)), 7 => refused(o.m.read(s, 0, &mut buf)), 8 => refused(o.m.read_exact(s, n, &mut buf)), 9 => refused(o.m.write(s, 0, &[1])), 10 => refused(o.m.copy_from_slice(s, n, &[1])), 11 => refused(o.m.fill(s, n, 1, 7)), 12 => refused(o.m.copy_within(s, 0, 1, 1)), 13 => refused(o.m.grow(s, 1)), 14 => refused(o.m.len(s)), 15 => refused(o.m.page_count(s)), 16 => refused(o.m.ty(s)),
        17 => match o.m.cursor(s) { Ok(mut c) => { let _ = c.write(&[1]); let _ = c.read(&mut buf); false } Err(e) => matches!(e, Error::Trap(Trap::InvalidStore)) }, 18 => refused(o.m.cursor_at(s, 1).map(|_| ())), 19 => refused(o.m.read_string(s, 0, 1)), 20 => refused(o.m.read_cstring(s, 0, 1)), 21 => refused(o.m.read_cstring_until_null(s, 0, 1)), 22 => refused(o.m.read_js_string(s, 0, 2)), 23 => refused(o.m.write_cstring_bytes(s, 0, "a")),
        24 => refused(o.t.get(s, n as u32)), 25 => refused(o.t.load(s, 0, 1)), 26 => refused_t(o.t.set(s, 0, ext(1))), 27 => refused_t(o.t.copy_within(s, 0, 1, 1)), 28 => refused(o.t.grow(s, 1, ext(1))), 29 => refused(o.t.size(s)), 30 => refused(o.t.ty(s)),
        31 => refused(o.g.get(s)), 32 => refused(o.g.set(s, i(5))), 33 => refused(o.g.ty(s)),
        34 => refused(o.a.func_untyped(s, "f")), 35 => refused(o.a.func::<i32, i32>(s, "f").map(|_| ())), 36 => refused(o.a.global_get(s, "g")), 37 => refused(o.a.global_set(s, "g", i(9))), 38 => refused(o.a.start(s)), 39 => refused(o.a.start_func(s)), 40 => refused(o.a.func_untyped(s, "h")),
        // as an import
        41..=46 => {
            let mut m = M::new(); let mut im = Imports::new();
            match k { 41 => { m.imp_func("e", "f", &[I32], &[I32]); im.define("e", "f", o.f.clone()); } 42 => { m.imp_mem("e", "m", &memty(false, 1, None, 0)); m.data0(c().i32c(0), &[1]); im.define("e", "m", o.m); } 43 => { m.imp_table("e", "t", EXTERNREF, &limits(0, 1, None)); im.define("e", "t", o.t); } 44 => { m.imp_global("e", "g", I32, true); im.define("e", "g", o.g); } 45 => { m.imp_global("e", "g", I32, true); im.link_module("e", o.a.clone()).ok(); } _ => { m.imp_func("e", "h", &[I32], &[I32]); im.define("e", "h", o.h.clone()); } }
            refused(ModuleInstance::instantiate(s, &parse(&m.bytes()), Some(im)))
        }
        // inside a host function
        _ => {
            let r = Rc::new(Cell::new(false)); let r2 = r.clone(); let (f, h, t) = (o.f.clone(), o.h.clone(), o.a.func::<i32, i32>(&o.st, "f").unwrap());
            let host = HostFunction::from(s, move |mut c: FuncContext<'_>, _: ()| { r2.set(match k { 47 => refused(c.call_untyped(&f, &[i(1)])), 48 => refused(c.call_untyped(&h, &[i(1)])), _ => refused(c.call(&t, 1)) }); Ok(()) });
            let mut m = M::new(); let hf = m.imp_func("e", "x", &[], &[]); let go = m.func(&[], &[], &[], c().call(hf as u64)); m.export("go", KF, go); let mut im = Imports::new(); im.define("e", "x", host); let a = inst(s, &m, true, Some(im)); let (oc, _) = call(s, &a, "go", &[]); check(oc == OK, "the call itself"); r.get()
        }
    }
}
h!(h_c15_foreign, { let mut a = world(0); let b = world(1); let k = choose("operation", OPS); check(op(k, &mut a.st, &b), "a handle of another store is refused"); untouched(&a, "the store it was used with"); untouched(&b, "its own store"); cover("value") });
// dropping the owner first changes nothing
h!(h_c15_gone, { let b = world(1); let keep = (b.f.clone(), b.m, b.t, b.g, b.a.clone()); let k = choose("operation", 6); drop(b.st); let mut a = world(0); let s = &mut a.st;
    check(match k { 0 => refused(keep.0.call(s, &[i(1)])), 1 => refused(keep.1.read_vec(s, 0, 1)), 2 => refused(keep.2.get(s, 0)), 3 => refused(keep.3.get(s)), 4 => refused(keep.4.start(s)), _ => refused(keep.1.fill(s, 0, 1, 3)) }, "a handle of a store that is gone is refused"); untouched(&a, "the store it was used with"); cover("value") });
// ---- later instantiations, failed or not, do not change what a handle means
h!(h_c15_stable, {
    let mut w = world(0); let n = choose("more", 3);
    for k in 0..n { let mut m = M::new(); let f = m.func(&[I32], &[I32], &[], c().i32c(1)); m.mem(memty(false, 2, None, 0)); m.data0(c().i32c(0), &[0x77]); let mut d = vec![EXTERNREF]; d.extend_from_slice(&limits(0, 2, None)); m.tables.push(d); m.global(I32, true, c().i32c(1)); m.export("f", KF, f).export("m", KM, 0); let trap = choose(["t0", "t1", "t2"][k as usize], 3); if trap == 1 { m.data0(c().i32c(2), &[1]) } if trap == 2 { m.imp_func("no", "no", &[], &[]); }
        if trap == 2 { let r = ModuleInstance::instantiate(&mut w.st, &parse(&{ let mut m = M::new(); m.imp_func("no", "no", &[], &[]); m.mem(memty(false, 2, None, 0)); m }.bytes()), None); check(code(&r) == LINK, "an unknown import") } else { let r = ModuleInstance::instantiate(&mut w.st, &parse(&m.bytes()), None); check(code(&r) == if trap == 1 { OOB } else { OK }, "another instance") } HostFunction::from(&mut w.st, |_, _: ()| Ok(2i32)); }
    untouched(&w, "contents after further instantiations"); let y = u32v("argument"); let r = w.f.call(&mut w.st, &[i(y as i32)]); check(matches!(r, Ok(ref v) if v.len() == 1 && bits(&v[0]) as u32 == y), "the function"); check(w.ran.get() == 1, "its host function"); check(bits(&w.g.get(&w.st).unwrap()) as u32 == y, "its global"); let b = w.m.read_vec(&w.st, 0, 2).unwrap(); check(b[0] == 0x55 && b[1] == w.b[1], "its memory");
    let r = w.h.call(&mut w.st, &[i(y as i32)]); check(matches!(r, Ok(ref v) if bits(&v[0]) as u32 == y) && w.ran.get() == 2, "the host function"); check(bits(&w.a.global_get(&w.st, "g").unwrap()) as u32 == y, "the instance"); let z = u32v("element"); assume(z != u32::MAX); check(w.t.set(&mut w.st, 1, ext(z)).is_ok() && bits(&w.a.table("t").unwrap().get(&w.st, 1).unwrap()) as u32 == z, "the table"); cover("value");
});
