//! C20: signatures are checked and values cross the boundary exactly.
use crate::rt::*;
use std::cell::{Cell, RefCell};
use std::rc::Rc;
fn rv(t: u8, b: u128) -> WasmValue { match t { EXTERNREF => WasmValue::RefExtern(ExternRef::new(if b as u32 == u32::MAX { None } else { Some(b as u32) })), FUNCREF => WasmValue::RefFunc(FuncRef::new(if b as u32 == u32::MAX { None } else { Some(b as u32) })), _ => val(t, b) } }
fn sb(n: &str, t: u8) -> u128 { match t { EXTERNREF | FUNCREF => u32v(n) as u128, _ => symbits(n, t) } }
fn wt(t: u8) -> WasmType { match t { I32 => WasmType::I32, I64 => WasmType::I64, F32 => WasmType::F32, F64 => WasmType::F64, V128 => WasmType::V128, FUNCREF => WasmType::RefFunc, _ => WasmType::RefExtern } }
fn wts(t: &[u8]) -> Vec<WasmType> { t.iter().map(|t| wt(*t)).collect() }
const T: [u8; 7] = [I32, I64, F32, F64, V128, FUNCREF, EXTERNREF];
const SIGS: &[(&[u8], &[u8])] = &[
    (&[], &[]), (&[I32], &[I32]), (&[I64], &[I64]), (&[F32], &[F32]), (&[F64], &[F64]), (&[V128], &[V128]), (&[FUNCREF], &[FUNCREF]), (&[EXTERNREF], &[EXTERNREF]), (&[I32, I64], &[I64, I32]), (&[V128, I32], &[I32, V128]), (&[F32, EXTERNREF, F64], &[F64, F32, EXTERNREF]),
    (&[FUNCREF, EXTERNREF], &[EXTERNREF, FUNCREF]), (&[I32, I32, I32], &[]), (&[], &[I32, V128, F64]), (&[I64, V128, F32, EXTERNREF], &[V128, EXTERNREF, I64, F32]),
];
const PN: [&str; 5] = ["p0", "p1", "p2", "p3", "p4"];
const RN: [&str; 5] = ["r0", "r1", "r2", "r3", "r4"];
const GONE: u128 = 1 << 100;
/// how a function is called
fn enter(s: &mut Store, how: u64, f: &Function, a: &[WasmValue]) -> tinywasm::Result<Vec<WasmValue>> {
    match how {
        0 => f.call(s, a),
        1 => { let mut e = f.call_resumable(s, a)?; match e.resume_with_fuel(100_000)? { ExecProgress::Completed(v) => Ok(v), _ => panic!("fuel") } }
        _ => { let (f, a) = (f.clone(), a.to_vec()); let out = Rc::new(RefCell::new(None)); let o = out.clone(); let h = HostFunction::from(s, move |mut c: FuncContext<'_>, _: ()| { *o.borrow_mut() = Some(c.call_untyped(&f, &a)); Ok(()) }); h.call(s, &[])?; let r = out.borrow_mut().take().unwrap(); r }
    }
}
/// the results a function of the signature gives: by type, the matching parameter, otherwise a constant
fn results(p: &[u8], r: &[u8], a: &[u128]) -> Vec<u128> { r.iter().map(|t| match p.iter().position(|x| x == t) { Some(k) => a[k], None => 0x0807_0605_0403_0201_1817_1615_1413_1211u128 & mask(*t) }).collect() }
fn untyped(long: bool) {
    let (p, r) = SIGS[choose("signature", SIGS.len() as u64) as usize]; let kind = choose("function", 3); let how = choose("how", 3);
    let mut s = Store::default(); let ran = Rc::new(Cell::new(0u32)); let r2 = ran.clone(); let seen = Rc::new(RefCell::new(Vec::new())); let sn = seen.clone(); let (pv, rvv) = (p.to_vec(), r.to_vec());
    let mut m = M::new(); let hf = m.imp_func("e", "h", p, r); m.global(I32, true, c().i32c(0)); m.export("g", KG, 0).export("h", KF, hf);
    let mut code = c().i32c(1).gset(0); for t in r { code = match p.iter().position(|x| x == t) { Some(k) => code.get(k as u64), None => match *t { I32 => code.i32c(0x14131211), F64 => code.f64c(0x1817_1615_1413_1211), _ => code.v128c(0x0807_0605_0403_0201_1817_1615_1413_1211) } } }
    let own = m.func(p, r, &[], code); m.export("own", KF, own); let mut code = c().i32c(1).gset(0); for k in 0..p.len() { code = code.get(k as u64) } let thr = m.func(p, r, &[], code.call(hf as u64)); m.export("through", KF, thr);
    let host = HostFunction::from_untyped(&mut s, &FuncType::new(&wts(p), &wts(r)), move |_, a| { r2.set(r2.get() + 1); let b: Vec<u128> = a.iter().map(bits).collect(); sn.borrow_mut().extend(a.iter().map(|v| (vty(v), bits(v)))); Ok(results(&pv, &rvv, &b).iter().zip(&rvv).map(|(b, t)| rv(*t, *b)).collect()) });
    let mut im = Imports::new(); im.define("e", "h", host.clone()); let a = inst(&mut s, &m, true, Some(im));
    let f = match kind { 0 => a.func_untyped(&s, "own").unwrap(), 1 => a.func_untyped(&s, "through").unwrap(), _ => host };
    // the arguments: as declared, one of another type, too few or too many
    let n = p.len(); let mut ts: Vec<u8> = p.to_vec(); let bad = choose("change", if long { 4 } else { 3 });
    match bad { 1 => { if n == 0 { return } let k = choose("place", n as u64) as usize; let t = T[choose("type", 7) as usize]; if t == ts[k] { return } ts[k] = t } 2 => { if choose("fewer", 2) == 1 { if n == 0 { return } ts.pop(); } else { ts.push(T[choose("type", 7) as usize]) } } 3 => { if n < 2 { return } let k = 1 + choose("place", n as u64 - 1) as usize; if ts[0] == ts[k] { return } ts.swap(0, k) } _ => {} }
    let b: Vec<u128> = ts.iter().enumerate().map(|(k, t)| sb(PN[k], *t)).collect(); let av: Vec<WasmValue> = ts.iter().zip(&b).map(|(t, b)| rv(*t, *b)).collect();
    let res = enter(&mut s, how, &f, &av); let g = bits(&a.global_get(&s, "g").unwrap());
    if bad != 0 { check(matches!(res, Err(Error::Other(_))), "an error"); check(g == 0 && ran.get() == 0, "nothing ran"); cover("error"); return }
    check(g == (kind < 2) as u128 && ran.get() == (kind > 0) as u32, "what ran, ran once"); let want = results(p, r, &b);
    if kind > 0 { let sn = seen.borrow(); check(sn.len() == n, "arguments seen by the host"); let mut e = true; for k in 0..n { e &= (sn[k].0 == p[k]) & (sn[k].1 == b[k]) } check(e, "arguments seen by the host") }
    match res { Ok(v) => { check(v.len() == r.len(), "number of results"); let mut e = true; for k in 0..r.len() { e &= (vty(&v[k]) == r[k]) & (bits(&v[k]) == want[k]) } check(e, "results") } Err(_) => check(false, "a matching call runs") } cover("value");
}
h!(h_c20_untyped, { untyped(false) });
h!(h_c20_untypedx, { untyped(true) });
// ---- typed handles
trait Sh: 'static { fn ty() -> Vec<u8>; fn make(b: &mut dyn Iterator<Item = u128>) -> Self; fn bits(self, out: &mut Vec<u128>); }
macro_rules! sc { ($($t:ty, $w:expr, $b:ident => $mk:expr, $v:ident => $un:expr;)*) => { $(impl Sh for $t { fn ty() -> Vec<u8> { vec![$w] } fn make(b: &mut dyn Iterator<Item = u128>) -> Self { let $b = b.next().unwrap(); $mk } fn bits(self, out: &mut Vec<u128>) { let $v = self; out.push($un) } })* } }
sc! { i32, I32, b => b as i32, v => v as u32 as u128; i64, I64, b => b as i64, v => v as u64 as u128; f32, F32, b => f32::from_bits(b as u32), v => v.to_bits() as u128; f64, F64, b => f64::from_bits(b as u64), v => v.to_bits() as u128;
    FuncRef, FUNCREF, b => FuncRef::new(if b as u32 == u32::MAX { None } else { Some(b as u32) }), v => v.raw() as u128; ExternRef, EXTERNREF, b => ExternRef::new(if b as u32 == u32::MAX { None } else { Some(b as u32) }), v => v.raw() as u128; }
impl Sh for () { fn ty() -> Vec<u8> { vec![] } fn make(_: &mut dyn Iterator<Item = u128>) -> Self {} fn bits(self, _: &mut Vec<u128>) {} }
macro_rules! tu { ($($($t:ident)*;)*) => { $(#[allow(non_snake_case)] impl<$($t: Sh),*> Sh for ($($t,)*) { fn ty() -> Vec<u8> { let mut v = Vec::new(); $(v.extend($t::ty());)* v } fn make(b: &mut dyn Iterator<Item = u128>) -> Self { ($($t::make(b),)*) } fn bits(self, o: &mut Vec<u128>) { let ($($t,)*) = self; $($t.bits(o);)* } })* } }
tu! { A; A B; A B D; A B D E; A B D E F; A B D E F G H I J K L O; }
impl<X: Sh, Y: Sh> Sh for WasmTupleChain<X, Y> { fn ty() -> Vec<u8> { let mut v = X::ty(); v.extend(Y::ty()); v } fn make(b: &mut dyn Iterator<Item = u128>) -> Self { let x = X::make(b); WasmTupleChain::new(x, Y::make(b)) } fn bits(self, o: &mut Vec<u128>) { let (x, y) = self.into_inner(); x.bits(o); y.bits(o) } }
type Tw = (i32, i64, f32, f64, FuncRef, ExternRef, i32, i32, i64, f64, f32, i32);
macro_rules! shapes { ($go:ident $k:expr; $($t:ty),*) => { { let mut _n = 0u64; $(if $k == _n { type S = $t; fn go() { $go!(S) } return go() } _n += 1;)* } } }
macro_rules! each { ($go:ident $k:expr) => { shapes! { $go $k; (), i32, i64, f32, f64, FuncRef, ExternRef, (i32,), (f64,), (i32, i64), (i64, i32), (f32, f64), (f32, i32), (i32, i32, i32), (FuncRef, ExternRef), (ExternRef, FuncRef), (i64, f32, f64, i32), (i32, f32, i64, f64, ExternRef), WasmTupleChain<(i32, i64), f32>, WasmTupleChain<i32, (i64, f32)>, WasmTupleChain<(), i32>, WasmTupleChain<i32, ()>, WasmTupleChain<WasmTupleChain<i32, i64>, WasmTupleChain<f32, f64>>, Tw, WasmTupleChain<Tw, (i64, f32)> } } }
const SHAPES: u64 = 25;
const LISTS: &[&[u8]] = &[&[], &[I32], &[I64], &[F32], &[F64], &[V128], &[FUNCREF], &[EXTERNREF], &[I32, I64], &[I64, I32], &[F32, F64], &[F32, I32], &[I32, I32], &[I32, I32, I32], &[I32, I32, I32, I32], &[FUNCREF, EXTERNREF], &[EXTERNREF, FUNCREF], &[I64, F32, F64, I32], &[I64, F32, F64, I64], &[I32, F32, I64, F64, EXTERNREF], &[I32, I64, F32], &[I32, I64, F64], &[I32, I64, F32, F64], &[I32, V128],
    &[I32, I64, F32, F64, FUNCREF, EXTERNREF, I32, I32, I64, F64, F32, I32], &[I32, I64, F32, F64, FUNCREF, EXTERNREF, I32, I32, I64, F64, F32, I64], &[I32, I64, F32, F64, FUNCREF, EXTERNREF, I32, I32, I64, F64, F32, I32, I64, F32], &[I32, I64, F32, F64, FUNCREF, EXTERNREF, I32, I32, I64, F64, F32, I32, F32, I64]];
macro_rules! typed_ok { ($S:ident) => { {
    let l = LISTS[choose("list", LISTS.len() as u64) as usize]; let mut m = M::new(); let f = m.func(l, &[], &[], c()); m.export("p", KF, f); let f = m.func(&[], l, &[], c().unreachable()); m.export("r", KF, f); let f = m.func(l, &[I32], &[], c().unreachable()); m.export("q", KF, f); let mut s = Store::default(); let a = inst(&mut s, &m, true, None); let eq = l == &$S::ty()[..];
    check(a.func::<$S, ()>(&s, "p").is_ok() == eq && a.func::<(), $S>(&s, "r").is_ok() == eq, "a typed handle exactly when the types are equal"); check(a.func::<$S, i32>(&s, "q").is_ok() == eq && a.func::<$S, i64>(&s, "q").is_err() && a.func::<$S, ()>(&s, "q").is_err(), "both sides count");
    cover(if eq { "equal" } else { "refused" })
} } }
h!(h_c20_typed, { let k = choose("shape", SHAPES); each!(typed_ok k) });
fn names(n: usize) -> &'static str { ["b0", "b1", "b2", "b3", "b4", "b5", "b6", "b7", "b8", "b9", "b10", "b11", "b12", "b13"][n] }
macro_rules! typed_call { ($S:ident) => { {
    let how = choose("how", 5); let l = $S::ty(); let b: Vec<u128> = l.iter().enumerate().map(|(k, t)| sb(names(k), *t)).collect(); let mut s = Store::default(); let sn = Rc::new(RefCell::new(Vec::new())); let s2 = sn.clone(); let b2 = b.clone();
    let host = HostFunction::from(&mut s, move |_, p: $S| { p.bits(&mut s2.borrow_mut()); Ok($S::make(&mut b2.iter().copied())) });
    let mut m = M::new(); let hf = m.imp_func("e", "h", &l, &l); let mut code = c(); for k in 0..l.len() { code = code.get(k as u64) } let f = m.func(&l, &l, &[], code.clone()); let g = m.func(&l, &l, &[], code.call(hf as u64)); m.export("f", KF, f).export("g", KF, g).export("h", KF, hf);
    let mut im = Imports::new(); im.define("e", "h", host); let a = inst(&mut s, &m, true, Some(im)); let which = choose("function", 3); let f = match a.func::<$S, $S>(&s, ["f", "g", "h"][which as usize]) { Ok(f) => f, Err(_) => { check(false, "a typed handle"); return } };
    let p = $S::make(&mut b.iter().copied());
    let r: tinywasm::Result<$S> = match how {
        0 => f.call(&mut s, p), 1 => match f.call_resumable(&mut s, p) { Ok(mut e) => match e.resume_with_fuel(100_000) { Ok(ExecProgress::Completed(v)) => Ok(v), Ok(_) => panic!("fuel"), Err(e) => Err(e) }, Err(e) => Err(e) },
        2 => match f.call_resumable(&mut s, p) { Ok(mut e) => loop { match e.resume_with_fuel(1) { Ok(ExecProgress::Completed(v)) => break Ok(v), Ok(_) => {} Err(e) => break Err(e) } }, Err(e) => Err(e) },
        3 => match f.call_resumable(&mut s, p) { Ok(mut e) => match e.resume_with_time_budget(core::time::Duration::from_secs(1_000_000)) { Ok(ExecProgress::Completed(v)) => Ok(v), Ok(_) => panic!("time"), Err(e) => Err(e) }, Err(e) => Err(e) },
        _ => { let out = Rc::new(RefCell::new(None)); let o = out.clone(); let b3 = b.clone(); let h = HostFunction::from(&mut s, move |mut c: FuncContext<'_>, _: ()| { *o.borrow_mut() = Some(c.call(&f, $S::make(&mut b3.iter().copied()))); Ok(()) }); h.call(&mut s, &[]).unwrap(); let r = out.borrow_mut().take().unwrap(); r }
    };
    let mut got = Vec::new(); match r { Ok(v) => v.bits(&mut got), Err(_) => { check(false, "the call"); return } }
    check(got.len() == b.len(), "number of results"); let mut e = true; for k in 0..b.len() { e &= got[k] == b[k] } check(e, "results bit for bit"); let sn = sn.borrow(); if which > 0 { check(sn.len() == b.len(), "arguments at the host"); let mut e = true; for k in 0..b.len() { e &= sn[k] == b[k] } check(e, "arguments at the host") } else { check(sn.is_empty(), "not called") } cover("value")
} } }
h!(h_c20_marshal, { sym::set_clock(false); let k = choose("shape", SHAPES); each!(typed_call k) });
// ---- what an untyped host function returns
fn hostret(long: bool) {
    let lists: &[&[u8]] = &[&[], &[I32], &[I64], &[F32], &[V128], &[FUNCREF], &[EXTERNREF], &[I32, I64], &[F64, V128, I32]]; let r = lists[choose("declared", lists.len() as u64) as usize];
    // what it returns instead
    let mut ts = r.to_vec(); let n = ts.len(); let bad = choose("change", 4); match bad { 1 => { if n == 0 { return } let k = choose("place", n as u64) as usize; let t = T[choose("type", 7) as usize]; if t == ts[k] { return } ts[k] = t } 2 => { if n == 0 { return } ts.pop(); } 3 => { let t = T[choose("type", if long { 7 } else { 2 }) as usize]; let at = choose("at", 2) as usize * n; ts.insert(at, t); } _ => {} } if bad == 3 && ts.is_empty() { return }
    let b: Vec<u128> = ts.iter().enumerate().map(|(k, t)| sb(RN[k], *t)).collect(); let (tv, bv) = (ts.clone(), b.clone()); let mut s = Store::default(); let once = Rc::new(Cell::new(0u32)); let o2 = once.clone(); let declared = FuncType::new(&wts(&[I32]), &wts(r)); let good: Vec<u8> = r.to_vec();
    let host = HostFunction::from_untyped(&mut s, &declared, move |_, _| { o2.set(o2.get() + 1); let t = if o2.get() == 1 { &tv } else { &good }; Ok(t.iter().enumerate().map(|(k, t)| rv(*t, if k < bv.len() { bv[k] & if matches!(*t, FUNCREF | EXTERNREF) { 0xffff_ffff } else { mask(*t) } } else { 0 })).collect()) });
    let mut m = M::new(); let hf = m.imp_func("e", "h", &[I32], r); let ty = m.ty(&[I32], r); m.table(FUNCREF, 1, None); m.elem0(c().i32c(0), &[hf]); m.global(I32, true, c().i32c(0)); m.export("g", KG, 0).export("h", KF, hf); let mut rr = vec![I64, V128]; rr.extend_from_slice(r);
    let (x, y) = (u64v("below"), u128v("below2")); let below = c().get(0).get(1); let after = c().i32c(7).gset(0);
    let f = m.func(&[I64, V128], &rr, &[], below.clone().i32c(1).call(hf as u64).cat(&after)); m.export("direct", KF, f); let f = m.func(&[I64, V128], &rr, &[], below.clone().i32c(1).i32c(0).calli(ty as u64, 0).cat(&after)); m.export("indirect", KF, f);
    let t1 = m.func(&[I32], r, &[], c().get(0).rcall(hf as u64)); let t2 = m.func(&[I32], r, &[], c().get(0).i32c(0).rcalli(ty as u64, 0)); let f = m.func(&[I64, V128], &rr, &[], below.clone().i32c(1).call(t1 as u64).cat(&after)); m.export("tail", KF, f); let f = m.func(&[I64, V128], &rr, &[], below.clone().i32c(1).call(t2 as u64).cat(&after)); m.export("tail indirect", KF, f);
    let mut im = Imports::new(); im.define("e", "h", host.clone()); let a = inst(&mut s, &m, true, Some(im)); let how = choose("how", 7); let bl = vec![val(I64, x as u128), val(V128, y)];
    let (res, skip) = match how { 0..=3 => (a.func_untyped(&s, ["direct", "indirect", "tail", "tail indirect"][how as usize]).unwrap().call(&mut s, &bl), 2), 4 => (host.call(&mut s, &[i(1)]), 0), 5 => (enter(&mut s, 2, &host, &[i(1)]), 0), _ => { let f = a.func_untyped(&s, "direct").unwrap(); (enter(&mut s, 1, &f, &bl), 2) } };
    check(once.get() == 1, "the host function ran once"); let g = bits(&a.global_get(&s, "g").unwrap());
    if bad != 0 { check(match res { Err(Error::InvalidHostFnReturn { .. }) => how == 4 || how == 5, Err(Error::Trap(Trap::HostFunction(ref e))) => how != 4 && how != 5 && matches!(e.downcast_ref::<Error>(), Some(Error::InvalidHostFnReturn { .. })), _ => false }, "an error"); check(g == 0, "the guest did not go on"); let r2 = a.func_untyped(&s, "direct").unwrap().call(&mut s, &bl); check(matches!(r2, Ok(ref v) if v.len() == 2 + n && bits(&v[0]) == x as u128 && bits(&v[1]) == y), "the next call"); cover("error"); return }
    check(g == if how < 4 || how == 6 { 7 } else { 0 }, "the guest went on");
    match res { Ok(v) => { check(v.len() == skip + n, "number of results"); let mut e = true; if skip == 2 { e &= (bits(&v[0]) == x as u128) & (bits(&v[1]) == y) } for k in 0..n { e &= (vty(&v[skip + k]) == r[k]) & (bits(&v[skip + k]) == b[k]) } check(e, "results") } Err(_) => check(false, "matching results are taken") } cover("value");
}
h!(h_c20_hostret, { hostret(false) });
h!(h_c20_hostretx, { hostret(true) });
// ---- exports: by name, as items, in order; the types of functions imported and exported again
h!(h_c20_exports, {
    let mut s = Store::default(); let h0 = HostFunction::from(&mut s, |_, (a, b): (i32, i64)| Ok((b, a))); let h1 = HostFunction::from(&mut s, |_, a: f32| Ok(a)); let (x, y) = (u32v("x"), u64v("y"));
    // the order of the types differs from the order of the functions
    let mut m = M::new(); m.ty(&[F64], &[F64]); m.ty(&[], &[I64]); let i0 = m.imp_func("e", "1", &[F32], &[F32]); let i1 = m.imp_func("e", "0", &[I32, I64], &[I64, I32]); m.global(I64, true, c().i64c(y as i64)); m.global(I32, false, c().i32c(x as i32)); m.mem(memty(false, 1, Some(3), 0)); m.mem(memty(false, 2, Some(3), 0)); m.table(EXTERNREF, 2, None); m.table(FUNCREF, 3, None);
    let f0 = m.func(&[], &[I64], &[], c().gget(0)); let f1 = m.func(&[F64], &[F64], &[], c().get(0)); let f2 = m.func(&[I32], &[], &[], c());
    let ex: [(&str, u8, u32); 13] = [("a", KF, f1), ("b", KG, 1), ("c", KF, i1), ("d", KM, 1), ("e", KF, f0), ("f", KT, 1), ("g", KF, i0), ("h", KG, 0), ("i", KM, 0), ("j", KT, 0), ("k", KF, f2), ("l", KF, i1), ("", KF, f0)]; for (n, k, i) in ex { m.export(n, k, i); }
    let mut im = Imports::new(); im.define("e", "0", h0); im.define("e", "1", h1); let mut k = 0; let a = inst(&mut s, &m, true, Some(im)); let at = choose("export", 14) as usize; let via = choose("via", 3);
    if at == 13 { check(a.extern_item("zz").is_err() && a.func_untyped(&s, "zz").is_err() && a.func::<(), ()>(&s, "zz").is_err() && a.memory("zz").is_err() && a.table("zz").is_err() && a.global("zz").is_err() && a.export_addr("zz").is_none(), "an unknown name"); cover("error"); return }
    let (n, kind, _) = ex[at]; let mut found = None; for (nm, it) in a.exports() { check(nm == ex[k].0, "exports in order"); if k == at { found = Some(it) } k += 1 } check(k == 13, "every export");
    let item = match via { 0 => found.unwrap(), 1 => a.extern_item(n).unwrap(), _ => match kind { KF => ExternItem::Func(a.func_untyped(&s, n).unwrap()), KM => ExternItem::Memory(a.memory(n).unwrap()), KT => ExternItem::Table(a.table(n).unwrap()), _ => ExternItem::Global(a.global(n).unwrap()) } };
    check((kind == KF) == a.func_untyped(&s, n).is_ok() && (kind == KM) == a.memory(n).is_ok() && (kind == KT) == a.table(n).is_ok() && (kind == KG) == a.global(n).is_ok(), "only as its kind");
    let fl = u32v("float"); let d = u64v("double");
    match item {
        ExternItem::Func(f) => { check(kind == KF, "kind"); let sets = [vec![], vec![val(F64, d as u128)], vec![i(x as i32)], vec![val(F32, fl as u128)], vec![i(x as i32), l(y as i64)]]; let k = choose("arguments", 5) as usize; let want = match n { "a" => 1, "c" | "l" => 4, "e" | "" => 0, "g" => 3, _ => 2 };
            match f.call(&mut s, &sets[k]) { Ok(v) => { check(k == want, "a call with other types"); let b: Vec<u128> = v.iter().map(bits).collect(); check(match want { 0 => b == [y as u128], 1 => b == [d as u128], 2 => b.is_empty(), 3 => b == [fl as u128], _ => b == [y as u128, x as u128] }, "it is that function"); cover("value") } Err(e) => { check(k != want && matches!(e, Error::Other(_)), "a call with its own types"); cover("error") } } }
        ExternItem::Memory(o) => { check(kind == KM && o.len(&s).unwrap() == if n == "d" { 2 } else { 1 }, "it is that memory"); cover("value") }
        ExternItem::Table(t) => { check(kind == KT && t.size(&s).unwrap() == if n == "f" { 3 } else { 2 }, "it is that table"); cover("value") }
        ExternItem::Global(g) => { let v = g.get(&s).unwrap(); check(kind == KG && if n == "b" { (vty(&v) == I32) & (bits(&v) == x as u128) } else { (vty(&v) == I64) & (bits(&v) == y as u128) }, "it is that global"); cover("value") }
    }
});
// ---- a host function sees the instance that called it
h!(h_c20_context, {
    let mut s = Store::default(); let (x, y) = (u32v("x"), u32v("y")); let seen = Rc::new(RefCell::new(Vec::new())); let sn = seen.clone();
    let host = HostFunction::from(&mut s, move |mut c: FuncContext<'_>, n: i32| { let g = bits(&c.global_get("g")?) as u32; let m = c.memory("m")?.len(c.store())?; let t = c.table("t")?.size(c.store())?; let id = c.module().id(); sn.borrow_mut().push((id, g, m, t)); c.global_set("g", i(n))?; Ok(()) });
    let build = |k: u32, v: u32| { let mut m = M::new(); let hf = m.imp_func("e", "h", &[I32], &[]); let ty = m.ty(&[I32], &[]); if k == 1 { m.global(I64, true, c().i64c(5)); m.mem(memty(false, 5, None, 0)); m.table(FUNCREF, 4, None); } let g = m.global(I32, true, c().i32c(v as i32)); let me = m.mem(memty(false, 1 + k as u64, None, 0)); let tt = m.table(FUNCREF, 1 + k as u64, None); m.elem(tt, c().i32c(0), &[hf]); m.export("g", KG, g).export("m", KM, me).export("t", KT, tt).export("h", KF, hf);
        let f = m.func(&[I32], &[], &[], c().get(0).call(hf as u64)); m.export("0", KF, f); let f = m.func(&[I32], &[], &[], c().get(0).i32c(0).calli(ty as u64, tt as u64)); m.export("1", KF, f); let f = m.func(&[I32], &[], &[], c().get(0).rcall(hf as u64)); m.export("2", KF, f); let f = m.func(&[I32], &[], &[], c().get(0).i32c(0).rcalli(ty as u64, tt as u64)); m.export("3", KF, f); m };
    let mut im = Imports::new(); im.define("e", "h", host); let a = inst(&mut s, &build(0, x), true, Some(im.clone())); let b = inst(&mut s, &build(1, y), true, Some(im)); let first = choose("first", 2); let p = [u32v("p0"), u32v("p1")]; let mut cur = [x, y]; let how = [choose("how0", 5), choose("how1", 5)];
    for k in 0..2 { let w = (first as usize + k) % 2; let o = if w == 0 { &a } else { &b }; let (oc, _) = call(&mut s, o, ["0", "1", "2", "3", "h"][how[k] as usize], &[i(p[k] as i32)]); check(oc == OK, "the call"); let sn = seen.borrow(); check(sn.len() == k + 1, "called once"); let q = sn[k]; check(q.0 == o.id() && q.1 == cur[w] && q.2 == 1 + w && q.3 as usize == 1 + w, "the caller's instance"); cur[w] = p[k]; }
    check(bits(&a.global_get(&s, "g").unwrap()) as u32 == cur[0] && bits(&b.global_get(&s, "g").unwrap()) as u32 == cur[1], "the caller's global was set"); cover("value");
});
