//! C24: references keep their identity, null stays null, and a function reference calls its function.
use crate::rt::*;
use std::cell::RefCell;
use std::rc::Rc;
fn rv(t: u8, r: Option<u32>) -> WasmValue { if t == EXTERNREF { WasmValue::RefExtern(ExternRef::new(r)) } else { WasmValue::RefFunc(FuncRef::new(r)) } }
/// the reference as the host sees it
fn seen(t: u8, v: &WasmValue) -> Option<u32> { check(vty(v) == t, "type of the reference"); match v { WasmValue::RefExtern(r) => { let a = r.addr(); check(r.is_null() == a.is_none(), "is_null and addr agree"); a } WasmValue::RefFunc(r) => { let a = r.addr(); check(r.is_null() == a.is_none(), "is_null and addr agree"); a } _ => None } }
fn nullc(t: u8) -> C { c().op(0xd0).op(t) }
const HOPS: u64 = 26;
/// functions "0".. of type [t] -> [t], each sending the reference another way; conditions come from the global `cond`
fn hops(m: &mut M, t: u8, e: (u32, u32, u32, u32), shared: u32, own: u32, own2: u32, gl: u32, cond: u32, only: u64) -> Vec<u32> {
    let (echo, echou, peer, peerput) = e; let ty = m.ty(&[t], &[t]); let ts = m.ty(&[t, I64], &[I64, t]); let tv = m.ty(&[V128, t], &[t, V128]); let g = |x: C| x; let mut out = Vec::new();
    let id = m.func(&[t], &[t], &[], c().get(0)); let mix = m.func(&[I64, t, V128, t, I32], &[I32, t, V128], &[(1, F64), (2, t)], c().get(1).set(6).get(4).get(6).get(2)); let swap = m.func(&[t, I64], &[I64, t], &[], c().get(1).get(0)); let _ = (ts, tv);
    for k in 0..HOPS {
        if k != only { out.push(id); continue }
        let body = match k {
            0 => c().get(0), 1 => c().get(0).set(1).get(1), 2 => c().get(0).gset(gl as u64).gget(gl as u64), 3 => c().i32c(1).get(0).op(0x26).u(own as u64).i32c(1).op(0x25).u(own as u64), 4 => c().i32c(2).get(0).op(0x26).u(shared as u64).i32c(2).op(0x25).u(shared as u64),
            5 => c().get(0).get(0).gget(cond as u64).op(0x1c).u(1).op(t), 6 => c().get(0).cat(&nullc(t)).gget(cond as u64).op(0x45).gget(cond as u64).op(0x72).op(0x1c).u(1).op(t), 7 => c().cat(&nullc(t)).get(0).i32c(0).op(0x1c).u(1).op(t),
            8 => c().block(t).i64c(7).get(0).br(0).end(), 9 => c().block(t).block(t).block(t).get(0).gget(cond as u64).brtable(&[0, 1], 2).end().set(1).get(1).end().set(2).get(2).end(), 10 => c().gget(cond as u64).iff(t).get(0).els().get(0).set(1).get(1).end(), 11 => c().get(0).op(3).u(ty as u64).set(1).gget(cond as u64).iff(VOID).i32c(0).gset(cond as u64).get(1).br(1).end().get(1).end(),
            12 => c().i64c(-1).get(0).v128c(5).cat(&nullc(t)).i32c(3).call(mix as u64).drop().set(1).drop().get(1), 13 => c().get(0).i64c(-1).call(swap as u64).set(1).drop().get(1), 14 => c().get(0).call(echo as u64), 15 => c().get(0).call(echou as u64), 16 => c().get(0).rcall(echo as u64),
            17 => c().i32c(0).get(0).i32c(3).fc(17).u(own as u64).i32c(2).op(0x25).u(own as u64), 18 => c().get(0).i32c(1).fc(15).u(own2 as u64).drop().fc(16).u(own2 as u64).i32c(1).op(0x6b).op(0x25).u(own2 as u64),
            19 => c().i32c(0).get(0).op(0x26).u(own as u64).i32c(1).i32c(0).i32c(1).fc(14).u(shared as u64).u(own as u64).i32c(1).op(0x25).u(shared as u64), 20 => c().get(0).call(peer as u64), 21 => c().get(0).rcall(id as u64), 22 => c().get(0).tee(1).drop().get(1).tee(2),
            23 => c().get(0).call(peerput as u64).i32c(3).op(0x25).u(shared as u64), 24 => c().get(0).gget(cond as u64).brif(0).set(2).get(2).ret(), _ => c().get(0).set(1).lp(VOID).get(1).set(2).gget(cond as u64).iff(VOID).i32c(0).gset(cond as u64).br(1).end().end().get(2),
        };
        out.push(m.func(&[t], &[t], &[(2, t)], g(body)));
    }
    out
}
struct Two { st: Store, a: ModuleInstance, b: ModuleInstance, log: Rc<RefCell<Vec<Option<u32>>>>, refs: Vec<Option<u32>> }
/// two instances sharing a table; B's function, global and table numbers differ from A's; every function gives its own number
fn two(t: u8, ha: u64, hb: u64, cond: [u32; 2]) -> Two {
    let mut st = Store::default(); let log = Rc::new(RefCell::new(Vec::new())); let (l1, l2) = (log.clone(), log.clone());
    let lim = TableType::new(wt(t), 4, None); let sh = Table::new(&mut st, lim, rv(t, None)).unwrap();
    let (echo, echou) = if t == EXTERNREF { (HostFunction::from(&mut st, move |_, x: ExternRef| { l1.borrow_mut().push(x.addr()); Ok(x) }), ()) } else { (HostFunction::from(&mut st, move |_, x: FuncRef| { l1.borrow_mut().push(x.addr()); Ok(x) }), ()) }; let _ = echou;
    let ft = FuncType::new(&[wt(t)], &[wt(t)]); let echou = HostFunction::from_untyped(&mut st, &ft, move |_, a| { l2.borrow_mut().push(match a[0] { WasmValue::RefExtern(r) => r.addr(), WasmValue::RefFunc(r) => r.addr(), _ => None }); Ok(vec![a[0]]) });
    let num = HostFunction::from(&mut st, |_, _: ()| Ok(500i32));
    let mut build = |k: u32, st: &mut Store, other: Option<&ModuleInstance>| {
        let mut m = M::new(); if k == 1 { m.ty(&[F64], &[F64]); }
        let n0 = m.imp_func("e", "num", &[], &[I32]); let (e, eu) = (m.imp_func("e", "echo", &[t], &[t]), m.imp_func("e", "echou", &[t], &[t])); let (peer, put, pf) = if other.is_some() { (m.imp_func("a", "peer", &[t], &[t]), m.imp_func("a", "put", &[t], &[]), m.imp_func("a", "f0", &[], &[I32])) } else { (u32::MAX, u32::MAX, n0) }; let s = m.imp_table("e", "t", t, &limits(0, 4, None));
        if k == 1 { m.table(t, 1, None); m.global(I64, true, c().i64c(1)); } let (own, own2) = (m.table(t, 5, None), m.table(t, 2, None)); let calls = m.table(FUNCREF, 1, None); let gl = m.global(t, true, nullc(t)); let cn = m.global(I32, true, c().i32c(cond[k as usize] as i32)); let vty = m.ty(&[], &[I32]); if k == 1 { m.func(&[], &[], &[], c()); }
        let f0 = m.func(&[], &[I32], &[], c().i32c(100 * (k as i32 + 1))); let f1 = m.func(&[], &[I32], &[], c().i32c(100 * (k as i32 + 1) + 1)); let idp = m.func(&[t], &[t], &[], c().get(0)); let putp = m.func(&[t], &[], &[], c().i32c(3).get(0).op(0x26).u(s as u64)); let h = hops(&mut m, t, (e, eu, if other.is_some() { peer } else { idp }, if other.is_some() { put } else { putp }), s, own, own2, gl, cn, if k == 0 { ha } else { hb });
        m.export("hop", KF, h[if k == 0 { ha } else { hb } as usize]).export("peer", KF, idp).export("put", KF, putp).export("f0", KF, f0);
        let f = m.func(&[t], &[I32], &[], c().get(0).op(0xd1)); m.export("isnull", KF, f); if t == FUNCREF { let f = m.func(&[FUNCREF], &[I32], &[], c().i32c(0).get(0).op(0x26).u(calls as u64).i32c(0).calli(vty as u64, calls as u64)); m.export("call", KF, f); }
        let fs = [f0, f1, n0, pf]; m.elem_mode(3, &fs); for (i, x) in fs.iter().enumerate() { if t == FUNCREF { let f = m.func(&[], &[FUNCREF], &[], c().op(0xd2).u(*x as u64)); m.export(["r0", "r1", "r2", "r3"][i], KF, f); let g = m.global(FUNCREF, false, c().op(0xd2).u(*x as u64)); m.export(["g0", "g1", "g2", "g3"][i], KG, g); } }
        if t == FUNCREF { let tb = m.table(FUNCREF, 4, None); m.elem(tb, c().i32c(0), &fs); m.export("tb", KT, tb); let f = m.func(&[], &[FUNCREF], &[], nullc(FUNCREF)); m.export("rn", KF, f); }
        let mut im = Imports::new(); im.define("e", "num", num.clone()); im.define("e", "echo", echo.clone()); im.define("e", "echou", echou.clone()); im.define("e", "t", sh.clone()); if let Some(o) = other { im.link_module("a", o.clone()).ok(); } inst(st, &m, true, Some(im))
    };
    let a = build(0, &mut st, None); let b = build(1, &mut st, Some(&a)); Two { st, a, b, log, refs: Vec::new() }
}
fn wt(t: u8) -> WasmType { if t == EXTERNREF { WasmType::RefExtern } else { WasmType::RefFunc } }
fn through(t: u8, n: usize) {
    let h0 = choose("hop0", HOPS); let h1 = choose("hop1", if n > 1 { HOPS } else { 1 }); let first = choose("first", 2); let cond = [u32v("cond0"), u32v("cond1")]; let (ha, hb) = if first == 0 { (h0, h1) } else { (h1, h0) }; let mut w = two(t, ha, hb, cond);
    let r = if t == EXTERNREF { let x = u32v("reference"); if x == u32::MAX { None } else { Some(x) } } else { let k = choose("function", 5); let o = if choose("maker", 2) == 0 { &w.a } else { &w.b }; let (oc, v) = call(&mut w.st, o, ["r0", "r1", "r2", "r3", "rn"][k as usize], &[]); check(oc == OK, "ref.func"); let r = seen(t, &v[0]); check(r.is_none() == (k == 4), "null exactly for ref.null"); if k < 4 { check(seen(t, &o.global_get(&w.st, ["g0", "g1", "g2", "g3"][k as usize]).unwrap()) == r, "the same in a global"); check(seen(t, &o.table("tb").unwrap().get(&w.st, k as u32).unwrap()) == r, "the same in a table") } r };
    let mut v = rv(t, r); for k in 0..n { let o = if (first as usize + k) % 2 == 0 { &w.a } else { &w.b }; let (oc, x) = call(&mut w.st, o, "hop", &[v]); check(oc == OK && x.len() == 1, "the call"); v = x[0]; let got = seen(t, &v); check(got.is_none() == r.is_none(), "null stays null"); check(got == r, "the same reference"); }
    for x in w.log.borrow().iter() { check(*x == r, "the host saw the same reference") }
    let z = call1(&mut w.st, if first == 0 { &w.b } else { &w.a }, "isnull", &[v]); check(z == (OK, r.is_none() as u128), "ref.is_null"); let _ = &w.refs; cover(if r.is_none() { "null" } else { "value" })
}
h!(h_c24_extern, { through(EXTERNREF, 1) });
h!(h_c24_externx, { through(EXTERNREF, 2) });
h!(h_c24_func, { through(FUNCREF, 1) });
h!(h_c24_funcx, { through(FUNCREF, 2) });
// ---- a reference calls its function, from either instance, whoever made it
h!(h_c24_call, {
    let hop = choose("hop", HOPS); let mut w = two(FUNCREF, hop, 0, [u32v("cond0"), 0]); let k = choose("function", 5); let maker = choose("maker", 2); let how = choose("from", 3); let o = if maker == 0 { &w.a } else { &w.b };
    let v = if k == 4 { call(&mut w.st, o, "rn", &[]).1[0] } else { match how { 0 => call(&mut w.st, o, ["r0", "r1", "r2", "r3"][k as usize], &[]).1[0], 1 => o.global_get(&w.st, ["g0", "g1", "g2", "g3"][k as usize]).unwrap(), _ => o.table("tb").unwrap().get(&w.st, k as u32).unwrap() } }; let v = call(&mut w.st, &w.a, "hop", &[v]).1[0];
    let m = maker as u128; let want = match k { 0 => 100 * (m + 1), 1 => 100 * (m + 1) + 1, 2 => 500, 3 => if maker == 0 { 500 } else { 100 }, _ => 0 };
    for x in 0..2 { let o = if x == 0 { &w.a } else { &w.b }; let (oc, y) = call1(&mut w.st, o, "call", &[v]); if k == 4 { check(oc == UNINIT, "calling null"); cover("null") } else { check(oc == OK && y == want, "the function it was made from"); cover("value") } }
    if k == 3 && maker == 1 { let a0 = call(&mut w.st, &w.a, "r0", &[]).1[0]; check(bits(&a0) == bits(&v), "the same function is the same reference in either module") }
});
