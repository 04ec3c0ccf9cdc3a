//! C22: a global holds the bits last written, through whichever route; immutable ones keep their initial value; initialisers are evaluated as specified.

use crate::rt::*;
use crate::prog::wt;
const T: [u8; 7] = [I32, I64, F32, F64, V128, FUNCREF, EXTERNREF];
/// a value of a type: arbitrary bits; for references an arbitrary host reference, null or one of two functions
fn value(n: &str, t: u8, fs: &[u128]) -> u128 {
    match t {
        EXTERNREF => { let v = u32v(n); assume(v != u32::MAX); let k = choose("null", 2); if k == 0 { v as u128 } else { null(EXTERNREF) } }
        FUNCREF => fs[choose(n, fs.len() as u64) as usize],
        _ => symbits(n, t),
    }
}
fn null(t: u8) -> u128 { if t == FUNCREF { bits(&WasmValue::RefFunc(FuncRef::new(None))) } else { bits(&WasmValue::RefExtern(ExternRef::new(None))) } }
fn wv(t: u8, b: u128) -> WasmValue { match t { FUNCREF => WasmValue::RefFunc(FuncRef::from_raw(b as u32)), EXTERNREF => WasmValue::RefExtern(ExternRef::from_raw(b as u32)), _ => val(t, b) } }
const GN: [&str; 4] = ["g0", "g1", "g2", "g3"]; const GET: [&str; 4] = ["get0", "get1", "get2", "get3"]; const SET: [&str; 4] = ["set0", "set1", "set2", "set3"];
fn zero(t: u8) -> C { match t { FUNCREF | EXTERNREF => c().op(0xd0).op(t), _ => konst(c(), t, 0) } }
struct E { st: Store, a: ModuleInstance, b: ModuleInstance, t: [u8; 3], v: [u128; 3], fs: Vec<u128>, types: usize }
/// three mutable globals of two types next to each other in module A, shared with B, where they have other indices
fn setup(ta: u8, tb: u8, opt: bool) -> E {
    let t = [ta, tb, ta]; let mut st = Store::default(); let mut m = M::new(); let f: Vec<u32> = (0..2).map(|k| m.func(&[], &[I32], &[], c().i32c(7 + k))).collect(); m.elem_mode(3, &f); let rf = |k: u32| c().op(0xd2).u(k as u64);
    let refs = m.func(&[], &[FUNCREF; 2], &[], c().cat(&rf(f[0])).cat(&rf(f[1]))); m.export("refs", KF, refs);
    // the initial values are symbolic constants in the module's text
    let mut v = [0u128; 3]; for k in 0..3 { let init = if t[k] >= V128 { v[k] = symbits("init", t[k]); konst(c(), t[k], v[k]) } else { v[k] = null(t[k]); zero(t[k]) }; m.global(t[k], true, init); }
    fn acc(m: &mut M, t: &[u8; 3], base: u64, swap: bool) {
        for k in 0..3 { let g = m.func(&[], &[t[k]], &[], c().gget(base + k as u64)); m.export(GET[k], KF, g); let s = m.func(&[t[k]], &[], &[], c().get(0).gset(base + k as u64)); m.export(SET[k], KF, s); }
        // swap the two of the same type; copy one through a local and a tee, and through an identity function
        let s = m.func(&[], &[], &[], c().gget(base).gget(base + 2).gset(base).gset(base + 2)); m.export("swap", KF, s);
        let id = m.func(&[t[0]], &[t[0]], &[], c().get(0)); let y = m.func(&[], &[t[0]], &[(1, t[0])], c().gget(base + if swap { 2 } else { 0 }).tee(0).call(id as u64).gset(base + if swap { 0 } else { 2 }).get(0)); m.export("copy", KF, y);
    }
    acc(&mut m, &t, 0, false); for k in 0..3 { m.export(GN[k], KG, k as u32); }
    let a = inst(&mut st, &m, opt, None); let (_, r) = call(&mut st, &a, "refs", &[]); let fs = vec![null(FUNCREF), bits(&r[0]), bits(&r[1])]; check(fs[1] != fs[2] && fs[0] != fs[1], "references to two functions differ");
    let mut m2 = M::new(); for k in [1, 0, 2] { m2.imp_global("a", GN[k], t[k], true); } // order 1 0 2
    m2.global(I64, true, c().i64c(1)); let map = [1u64, 0, 2];
    for k in 0..3 { let g = m2.func(&[], &[t[k]], &[], c().gget(map[k])); m2.export(GET[k], KF, g); let s = m2.func(&[t[k]], &[t[k]], &[], c().get(0).tee(0).gset(map[k]).gget(map[k])); m2.export(SET[k], KF, s); m2.export(GN[k], KG, map[k] as u32); }
    let s = m2.func(&[], &[], &[], c().gget(2).gget(1).gset(2).gset(1)); m2.export("swap", KF, s);
    let mut im = Imports::new(); if im.link_module("a", a.clone()).is_err() { panic!("link") } let b = inst(&mut st, &m2, !opt, Some(im));
    E { st, a, b, t, v, fs, types: 0 }
}
fn state(e: &mut E) {
    for k in 0..3 {
        let t = e.t[k]; let (oc, v) = call(&mut e.st, &e.a, GET[k], &[]); check(oc == OK && vty(&v[0]) == t && bits(&v[0]) == e.v[k], "the defining module reads what was written");
        let (oc, v) = call(&mut e.st, &e.b, GET[k], &[]); check(oc == OK && bits(&v[0]) == e.v[k], "the importing module reads what was written");
        let v = e.a.global(GN[k]).unwrap().get(&e.st).unwrap(); check(vty(&v) == t && bits(&v) == e.v[k], "the host reads what was written"); let v = e.b.global_get(&e.st, GN[k]).unwrap(); check(vty(&v) == t && bits(&v) == e.v[k], "the host reads what was written through a re-export");
        let g = e.b.global(GN[k]).unwrap().ty(&e.st).unwrap(); check(g.mutable && g.ty == wt(t), "type of the global");
    }
}
fn write(e: &mut E, step: usize) {
    let n = ["v0", "v1", "v2"][step]; let route = choose(["r0", "r1", "r2"][step], 6); let k = if route == 5 { 0 } else { choose(["k0", "k1", "k2"][step], 3) as usize }; let t = e.t[k]; let fs = e.fs.clone();
    match route {
        0 => { let v = value(n, t, &fs); let (oc, _) = call(&mut e.st, &e.a, SET[k], &[wv(t, v)]); check(oc == OK, "a write by the defining module"); e.v[k] = v }
        1 => { let v = value(n, t, &fs); let (oc, r) = call(&mut e.st, &e.b, SET[k], &[wv(t, v)]); check(oc == OK && bits(&r[0]) == v, "a write by the importing module"); e.v[k] = v }
        2 => { let v = value(n, t, &fs); check(e.a.global(GN[k]).unwrap().set(&mut e.st, wv(t, v)).is_ok(), "a write by the host"); e.v[k] = v }
        3 => { let v = value(n, t, &fs); check(e.b.global_set(&mut e.st, GN[k], wv(t, v)).is_ok(), "a write by the host through a re-export"); e.v[k] = v }
        4 => { let (o, x) = (T[(e.types + k + 1) % 7], e.fs[1]); let o = if o == t { T[(e.types + k + 2) % 7] } else { o }; e.types += 1; let v = if o == FUNCREF { wv(o, x) } else if o == EXTERNREF { wv(o, 5) } else { val(o, symbits(n, o)) }; check(e.a.global(GN[k]).unwrap().set(&mut e.st, v).is_err(), "a value of another type is refused"); check(e.b.global_set(&mut e.st, GN[k], v).is_err(), "a value of another type is refused by name") }
        _ => { let b = choose("who", 3); match b { 0 => { let (oc, _) = call(&mut e.st, &e.a, "swap", &[]); check(oc == OK, "swap"); e.v.swap(0, 2) } 1 => { let (oc, _) = call(&mut e.st, &e.b, "swap", &[]); check(oc == OK, "swap"); e.v.swap(0, 2) } _ => { let (oc, r) = call1(&mut e.st, &e.a, "copy", &[]); check(oc == OK && r == e.v[0], "copy"); e.v[2] = e.v[0] } } }
    }
}
fn writes(n: usize, opt: bool) { const P: [(u8, u8); 7] = [(I32, I64), (I64, V128), (F32, F64), (F64, I32), (V128, F32), (FUNCREF, EXTERNREF), (EXTERNREF, FUNCREF)]; let (a, b) = P[choose("types", 7) as usize]; let mut e = setup(a, b, opt); for k in 0..n { write(&mut e, k) } state(&mut e); cover("value") }
h!(h_c22_write, { writes(2, true) });
h!(h_c22_writex, { writes(3, false) });
// ---- immutable globals
h!(h_c22_const, {
    let t = T[choose("type", 5) as usize]; let mut st = Store::default(); let v = symbits("v", t); let x = symbits("x", t); let mut m = M::new(); m.global(t, false, konst(c(), t, v)); m.global(t, true, konst(c(), t, x)); m.export("g0", KG, 0).export("g1", KG, 1); let g = m.func(&[], &[t], &[], c().gget(0)); m.export("get0", KF, g);
    let a = inst(&mut st, &m, choose("opt", 2) == 1, None); let own = choose("own", 2) == 1; let g = if own { Global::new(&mut st, GlobalType::new(wt(t), false), val(t, v)).unwrap() } else { a.global("g0").unwrap() };
    check(g.set(&mut st, val(t, x)).is_err(), "an immutable global can not be set by handle"); if !own { check(a.global_set(&mut st, "g0", val(t, x)).is_err(), "an immutable global can not be set by name") } check(a.global_set(&mut st, "g1", val(t, v)).is_ok(), "its neighbour can");
    let r = g.get(&st).unwrap(); check(vty(&r) == t && bits(&r) == v, "it keeps its value"); check(!g.ty(&st).unwrap().mutable, "it is immutable"); let (oc, r) = call1(&mut st, &a, "get0", &[]); check(oc == OK && r == v, "the guest sees its value");
    let o = T[(choose("other", 4) as usize + 1 + T.iter().position(|y| *y == t).unwrap()) % 5]; check(Global::new(&mut st, GlobalType::new(wt(t), true), val(o, 0)).is_err(), "a global can not be created with a value of another type"); cover("value");
    // a write to an immutable global is not a valid module
    let mut m = M::new(); m.global(t, false, konst(c(), t, 0)); m.func(&[t], &[], &[], c().get(0).gset(0)); check(parse_opt(&m.bytes(), true).is_err(), "writing an immutable global is rejected");
});
// ---- initialisers
fn init(steps: usize) {
    let wide = choose("wide", 2) == 1; let t = if wide { I64 } else { I32 }; let opt = choose("opt", 2) == 1; let mut st = Store::default(); let g: [u128; 2] = [symbits("g0", t), symbits("g1", t)];
    let gs: Vec<Global> = g.iter().map(|x| Global::new(&mut st, GlobalType::new(wt(t), false), val(t, *x)).unwrap()).collect();
    let mut m = M::new(); m.imp_global("h", "a", t, false); m.imp_global("h", "x", if wide { I32 } else { I64 }, false); m.imp_global("h", "b", t, false); let x = Global::new(&mut st, GlobalType::new(wt(if wide { I32 } else { I64 }), false), if wide { i(5) } else { l(5) }).unwrap();
    let leaf = |k: u64| -> (C, u128) { match k { 0 => (c().gget(0), g[0]), 1 => (c().gget(2), g[1]), _ => { let v = symbits("c", t); (konst(c(), t, v), v) } } };
    let (mut e, mut v) = leaf(choose("l0", 3)); let base = if wide { 0x7c } else { 0x6a };
    for s in 0..steps { let (r, w) = leaf(choose(["l1", "l2", "l3"][s], 3)); let left = choose(["left1", "left2", "left3"][s], 2) == 1; let o = choose(["o1", "o2", "o3"][s], 3); let (x, y) = if left { (w, v) } else { (v, w) }; e = if left { r.cat(&e) } else { e.cat(&r) }.op(base + o as u8); v = match o { 0 => x.wrapping_add(y), 1 => x.wrapping_sub(y), _ => (x as u64).wrapping_mul(y as u64) as u128 } & mask(t) }
    m.global(t, choose("mutable", 2) == 1, e.clone()); m.global(t, true, konst(c(), t, 3)); m.export("g", KG, 3).export("n", KG, 4); let f = m.func(&[], &[t], &[], c().gget(3)); m.export("get", KF, f);
    let mut im = Imports::new(); im.define("h", "a", gs[0].clone()); im.define("h", "b", gs[1].clone()); im.define("h", "x", x);
    let a = inst(&mut st, &m, opt, Some(im)); let (oc, r) = call1(&mut st, &a, "get", &[]); check(oc == OK && r == v, "the value of the initialiser"); let r = a.global_get(&st, "g").unwrap(); check(vty(&r) == t && bits(&r) == v, "the host sees the value of the initialiser"); let r = a.global_get(&st, "n").unwrap(); check(bits(&r) == 3, "the neighbour"); cover("value");
}
h!(h_c22_init, { init(1) });
h!(h_c22_initx, { init(2) });
h!(h_c22_copy, {
    // a global that starts with the value of an imported or an earlier one of each type; function references are those of the importing module
    let t = T[choose("type", 7) as usize]; let mut st = Store::default(); let mut bm = M::new(); let f: Vec<u32> = (0..2).map(|k| bm.func(&[], &[I32], &[], c().i32c(7 + k))).collect(); bm.elem_mode(3, &f); let rf = |k: u32| c().op(0xd2).u(k as u64); let refs = bm.func(&[], &[FUNCREF], &[], rf(f[1])); bm.export("ref", KF, refs).export("f", KF, f[1]); let b = inst(&mut st, &bm, true, None);
    let (_, r1) = call1(&mut st, &b, "ref", &[]); let v = value("v", t, &[null(FUNCREF), r1]); let h = Global::new(&mut st, GlobalType::new(wt(t), false), wv(t, v)).unwrap();
    let mut m = M::new(); m.imp_func("b", "f", &[], &[I32]); m.imp_global("h", "h", t, false); let own = m.func(&[], &[I32], &[], c().i32c(55)); m.elem_mode(3, &[0, own]); m.global(t, true, c().gget(0)); m.global(FUNCREF, false, rf(0)); m.global(FUNCREF, true, rf(own)); m.table(FUNCREF, 2, None); m.export("c", KG, 1).export("rf", KG, 2).export("ro", KG, 3);
    let ty = m.ty(&[], &[I32]); let ci = m.func(&[I32], &[I32], &[], c().i32c(0).gget(2).op(0x26).u(0).i32c(1).gget(3).op(0x26).u(0).get(0).calli(ty as u64, 0)); m.export("ci", KF, ci); let own_ref = m.func(&[], &[FUNCREF], &[], rf(own)); m.export("ref", KF, own_ref);
    let mut im = Imports::new(); im.define("h", "h", h); if im.link_module("b", b.clone()).is_err() { panic!("link") } let a = inst(&mut st, &m, choose("opt", 2) == 1, Some(im)); let r = a.global_get(&st, "c").unwrap(); check(vty(&r) == t && bits(&r) == v, "the copied value");
    check(bits(&a.global_get(&st, "rf").unwrap()) == r1, "a reference to an imported function"); let (_, o) = call1(&mut st, &a, "ref", &[]); check(bits(&a.global_get(&st, "ro").unwrap()) == o && o != r1, "a reference to an own function"); let (oc, x) = call1(&mut st, &a, "ci", &[i(0)]); check(oc == OK && x == 8, "it calls the imported function"); let (oc, x) = call1(&mut st, &a, "ci", &[i(1)]); check(oc == OK && x == 55, "it calls the own function"); cover("value");
});
