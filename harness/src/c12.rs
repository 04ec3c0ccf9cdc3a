//! Calls, tail calls, calls into other instances and to the host.
use crate::prog::*;
use crate::rt::*;
const P: [u8; 5] = [I32, I64, V128, F64, I32];
const PS: [&[u8]; 8] = [&[], &[I32], &[V128], &[I64, I32], &[F32, I64, F64], &[V128, I32, V128], &[I32, I32, I64, I64, I32], &[F64, V128, I64, F32, I32]];
const RS: [&[u8]; 6] = [&[], &[I64], &[V128, I32], &[F32], &[I32, I64, I32], &[F64, V128, I32, I64]];
fn args(ts: &[u8], k: u128) -> Vec<I> { ts.iter().enumerate().flat_map(|(j, t)| match *t { I32 => vec![Get(if j % 2 == 0 { 0 } else { 4 }), K(I32, k + j as u128), Add(I32)], I64 => vec![Get(1), K(I64, k + j as u128), Add(I64)], V128 => vec![Get(2), K(V128, k + j as u128), Add(V128)], F64 => vec![Get(3)], t => vec![K(t, 0x7fa0_0000 + k + j as u128)] }).collect() }
/// a function whose results depend on each of its parameters and, for every type, on a local that must start out as zero
fn mix(p: &[u8], r: &[u8], k: u128) -> Fun {
    let l = vec![I32, I64, V128, F64, F32]; let n = p.len() as u32; let mut b = vec![];
    for (j, t) in r.iter().enumerate() {
        let own: Vec<u32> = p.iter().chain(&l).enumerate().filter(|(_, x)| *x == t).map(|(i, _)| i as u32).collect();
        if matches!(*t, F32 | F64) { b.push(Get(own[j % own.len()])) } else { b.push(K(*t, k + 16 * j as u128)); for o in own { b.extend([Get(o), Add(*t)]) } }
    }
    // leaves values behind in its locals and parameters
    for (i, t) in p.iter().chain(&l).enumerate() { b.extend([K(*t, 0x5555 + k), Set(i as u32)]) }
    b.extend([GGet(0), K(I32, k), Add(I32), GSet(0)]); let _ = n;
    Fun { p: p.to_vec(), r: r.to_vec(), l, b }
}
/// mix, calling a function with locals of its own before and after reading its parameters
fn mixing(p: &[u8], r: &[u8], k: u128, helper: u32) -> Fun { let mut f = mix(p, r, k); let call = |n: u128| vec![K(V128, n), K(I32, n), Call(helper), GGet(0), Add(I32), GSet(0)]; f.b.splice(0..0, call(3)); f.b.extend(call(5)); f }
fn helper() -> Fun { Fun { p: vec![V128, I32], r: vec![I32], l: vec![I64, V128, F32], b: vec![K(I64, 11), Set(2), K(V128, 12), Set(3), Get(1), GGet(0), Add(I32)] } }
fn cat(a: Vec<I>, b: Vec<I>) -> Vec<I> { let mut a = a; a.extend(b); a }
const LOCALS: [u8; 2] = [I64, I32];
/// main: junk, arguments, a call, then its own parameters and locals
fn main_of(junk: &[u8], callee_r: &[u8], pre: Vec<I>, call: Vec<I>) -> Fun {
    let mut b = cat(args(junk, 500), pre); b.splice(0..0, [Get(1), K(I64, 9), Add(I64), Set(5), K(I32, 1234), Set(6)]); b.extend(call);
    if let Some(t) = callee_r.last() { if !matches!(*t, F32 | F64) { b.extend([K(*t, 3), Add(*t)]) } }
    for i in 0..7 { b.push(Get(i)) }
    let r: Vec<u8> = junk.iter().chain(callee_r).chain(&P).chain(&LOCALS).copied().collect();
    Fun { p: P.to_vec(), r, l: LOCALS.to_vec(), b }
}
// ---- one call of each kind, over parameter and result lists
h!(h_c12_call, {
    let p = PS[choose("params", 8) as usize]; let r = RS[choose("results", 6) as usize]; let kind = choose("kind", 4); let opt = choose("opt", 2) == 1; let junk: &[u8] = if choose("below", 2) == 1 { &[V128, I32, I64] } else { &[] };
    let hosts = vec![(vec![I32], vec![]), (p.to_vec(), r.to_vec())];
    let f = match kind { 0 | 2 => 3, _ => 1 }; // main is 2, the callee 3, the host's 1
    let call = if kind < 2 { vec![Call(f)] } else { vec![K(I32, 1), CallI(p.to_vec(), r.to_vec())] };
    let pr = Prog { hosts, funs: vec![main_of(junk, r, args(p, 40), call), mixing(p, r, 7, 4), helper()], globals: vec![(I32, 0)], table: vec![None, Some(f)], mem: 0, ..Default::default() };
    compare(&pr, opt, &symargs(&P), &[]);
});
// ---- tail calls: a function with operands and locals of its own hands over to one of another type
h!(h_c12_tail, {
    let (pm, p) = (PS[choose("middle", 8) as usize], PS[choose("params", 8) as usize]); let r = RS[choose("results", 6) as usize]; let kind = choose("kind", 4);
    let opt = (pm.len() + p.len() + r.len() + kind as usize) % 2 == 0;
    let hosts = vec![(vec![I32], vec![]), (p.to_vec(), r.to_vec())]; let f = match kind { 0 | 2 => 4, _ => 1 };
    let call = if kind < 2 { vec![RCall(f)] } else { vec![K(I32, 0), RCallI(p.to_vec(), r.to_vec())] };
    let n = pm.len() as u32; let l = vec![I64, I32, V128];
    let mut b = vec![K(I64, 77), Set(n), K(I32, 78), Set(n + 1), Get(n + 2), K(V128, 5), Add(V128), Get(n), Get(n + 1)];
    // the arguments come from the parameters where there are any of the type
    for (j, t) in p.iter().enumerate() { match pm.iter().rposition(|x| x == t) { Some(i) => b.push(Get(i as u32)), None => b.push(K(*t, 90 + j as u128)) } }
    b.extend(call);
    let mid = Fun { p: pm.to_vec(), r: r.to_vec(), l, b };
    let pr = Prog { hosts, funs: vec![main_of(&[I32, V128], r, args(pm, 40), vec![Call(3)]), mid, mixing(p, r, 7, 5), helper()], globals: vec![(I32, 0)], table: vec![Some(f)], mem: 0, ..Default::default() };
    compare(&pr, opt, &symargs(&P), &[]);
});
// ---- recursion, direct and mutual, with imports before the functions; the self call is recognised by its index
h!(h_c12_recur, {
    let nh = choose("imports", 3) as usize; let which = choose("at", 2) as u32; let kind = choose("kind", 6); let opt = choose("opt", 2) == 1; let (ha, hb) = (nh as u32, nh as u32 + 1);
    let hosts = vec![(vec![I32, I64], vec![I64]); nh]; let (me, other) = if which == 0 { (ha, hb) } else { (hb, ha) };
    let dec = vec![Get(0), K(I32, 0xffff_ffff), Add(I32), Get(1), Get(0), Ext, Add(I64)];
    let tail = kind % 2 == 1; let step = |f: u32| if tail { cat(dec.clone(), vec![RCall(f)]) } else { cat(vec![Get(1)], cat(dec.clone(), vec![Call(f), Add(I64), Get(0), Ext, Add(I64)])) };
    let stepi = |i: u128| if tail { cat(dec.clone(), vec![K(I32, i), RCallI(vec![I32, I64], vec![I64])]) } else { cat(vec![Get(1)], cat(dec.clone(), vec![K(I32, i), CallI(vec![I32, I64], vec![I64]), Add(I64), Get(0), Ext, Add(I64)])) };
    let base = if nh > 0 && kind < 4 { vec![Get(0), Get(1), Call(nh as u32 - 1)] } else { vec![Get(1)] };
    let (s1, s2) = match kind / 2 { 0 => (step(me), step(other)), 1 => (step(other), step(me)), _ => (stepi(1), stepi(0)) };
    let body = |s: Vec<I>, c: u128| vec![Get(0), Eqz(I32), If(vec![], vec![I64], cat(base.clone(), vec![K(I64, c), Add(I64)]), Some(s))];
    let (f1, f2) = (Fun { p: vec![I32, I64], r: vec![I64], l: vec![], b: body(s1, 3) }, Fun { p: vec![I32, I64], r: vec![I64], l: vec![], b: body(s2, 50) });
    let funs = if which == 0 { vec![f1, f2] } else { vec![f2, f1] };
    let p = Prog { hosts, funs, table: vec![Some(me), Some(other)], ..Default::default() };
    let n = u32v("n"); assume(n < 6); let acc = u64v("acc");
    compare(&p, opt, &[n as u128, acc as u128], &[]);
});
// ---- a chain of tail calls needs no room
h!(h_c12_tailroom, {
    let kind = choose("kind", 3); let opt = choose("opt", 2) == 1; let big = choose("wide", 2) == 1;
    let call = |f: u32| match kind { 0 => vec![RCall(f)], 1 => vec![RCall(1 - f)], _ => vec![K(I32, f as u128), RCallI(vec![I32, I64], vec![I64])] };
    let mk = |f: u32| Fun { p: vec![I32, I64], r: vec![I64], l: if big && f == 0 { vec![V128, I32, I64, V128] } else { vec![] }, b: vec![Get(0), Eqz(I32), If(vec![], vec![], vec![Get(1), Ret], None), Get(1), Get(1), Get(0), Get(0), K(I32, 0xffff_ffff), Add(I32), Get(1), Get(0), Ext, Add(I64)].into_iter().chain(call(f)).collect() };
    let p = Prog { funs: vec![mk(0), mk(1)], table: vec![Some(0), Some(1)], ..Default::default() };
    let n = u32v("n"); assume(n < 20); let acc = u64v("acc");
    use tinywasm::engine::{Config, StackConfig};
    let cfg = Config::new().with_call_stack(StackConfig::fixed(2)).with_value_stack(StackConfig::fixed(12));
    let mut r = real(&p, opt, Some(cfg), &[]); let mut w = W::new(&p, &[]);
    let (oc, res) = call4(&mut r, n, acc); let want = w.call(0, vec![n as u128, acc as u128]); same(&r, &w, oc, &res, &want, &[I64]);
});
fn call4(r: &mut R, n: u32, acc: u64) -> (u32, Vec<WasmValue>) { call(&mut r.st, &r.ins, "0", &[i(n as i32), l(acc as i64)]) }
// ---- two instances, each with its own memory, global, table and data; calls in both directions
fn side(base: u64, nf: u32) -> M { let mut m = M::new(); let _ = (base, nf); m.ty(&[I32], &[I32]); m }
h!(h_c12_cross, {
    let kind = choose("kind", 5); let back = choose("back", 4); let opt = choose("opt", 2) == 1; let x = u32v("x"); let (ga, gb) = (u32v("ga"), u32v("gb")); let (ma, mb) = (u8v("ma"), u8v("mb"));
    let mut st = Store::default();
    // the state of a module, mixed: g + load8(0) + (x)
    let state = |g: u64, m: u64| c().gget(g).i32c(0).mem(0x2d, 0, m, 0).op(0x73);
    // B: f(x) = its state + x, adds 1 to its global, writes x to its memory, then perhaps calls back through the shared table
    let mut b = side(0, 0); let ti = b.ty(&[I32], &[I32]) as u64;
    let lead = |m: C| m.cat(&state(0, 0)).get(0).op(0x73).set(1).gget(0).i32c(1).op(0x6a).gset(0).i32c(0).get(0).mem(0x3a, 0, 0, 0);
    let fin = c().get(1).cat(&state(0, 0)).op(0x73);
    let code = match back { 0 => lead(c()).cat(&fin), 1 => lead(c()).get(1).i32c(1).calli(ti, 0).get(1).op(0x73).set(1).cat(&fin), 2 => lead(c()).get(1).i32c(1).rcalli(ti, 0), _ => lead(c()).get(1).call(1).get(1).op(0x73).set(1).cat(&fin) };
    let f = b.func(&[I32], &[I32], &[(1, I32)], code); let g = b.func(&[I32], &[I32], &[], c().get(0).gget(0).op(0x73)); let _ = g;
    b.table(FUNCREF, 4, None); b.mem(memty(false, 4, None, 0)); b.global(I32, true, c().i32c(gb as i32)); b.data(0, c().i32c(0), &[mb]); b.elem(0, c().i32c(0), &[f]);
    b.export("f", KF, f).export("t", KT, 0).export("m", KM, 0).export("g", KG, 0);
    let bi = inst(&mut st, &b, opt, None);
    // A imports f and the table, keeps a table of its own holding f, puts a call-back into the shared one
    let mut a = M::new(); let bf = a.imp_func("b", "f", &[I32], &[I32]); a.imp_table("b", "t", FUNCREF, &limits(0, 4, None)); let ti = a.ty(&[I32], &[I32]) as u64;
    let cb = a.nif; let mid = cb + 1; let main = cb + 2;
    a.func(&[I32], &[I32], &[], c().cat(&state(0, 0)).get(0).op(0x73).gget(0).i32c(5).op(0x6a).gset(0).i32c(1).get(0).mem(0x3a, 0, 0, 0));
    a.func(&[I32], &[I32], &[(1, V128)], match kind { 3 => c().i32c(9).get(0).rcall(bf as u64), _ => c().i32c(9).get(0).i32c(2).rcalli(ti, 1) });
    a.func(&[I32], &[I32, I32], &[(1, I32)], { let k = c().get(0).i32c(3).op(0x73).set(1).i32c(100).get(0); let k = match kind { 0 => k.call(bf as u64), 1 => k.i32c(2).calli(ti, 1), 2 => k.i32c(0).calli(ti, 0), _ => k.call(mid as u64) }; k.op(0x73).get(1).op(0x73).cat(&state(0, 0)) });
    a.table(FUNCREF, 3, None); a.mem(memty(false, 5, None, 0)); a.global(I32, true, c().i32c(ga as i32)); a.data(0, c().i32c(0), &[ma]); a.elem(1, c().i32c(2), &[bf]); a.elem(0, c().i32c(1), &[cb]);
    a.export("main", KF, main).export("m", KM, 0).export("g", KG, 0);
    let mut im = Imports::new(); match im.link_module("b", bi.clone()) { Ok(_) => {} Err(_) => panic!("link") }
    let ai = inst(&mut st, &a, opt, Some(im));
    let (oc, res) = call(&mut st, &ai, "main", &[i(x as i32)]);
    // reference
    let (mut rga, mut rgb) = (ga, gb); let (mut rma, mut rmb) = ([ma, 0], mb);
    let w = |a: u32, b: u32| a ^ b; let p = u32::wrapping_add; let mut loc = w(w(rgb, rmb as u32), x); rgb = p(rgb, 1); rmb = x as u8; let mut tail = None;
    match back { 1 | 2 => { let r = w(w(rga, rma[0] as u32), loc); rga = p(rga, 5); rma[1] = loc as u8; if back == 1 { loc = w(r, loc) } else { tail = Some(r) } } 3 => loc = w(w(loc, rgb), loc), _ => {} }
    let fr = match tail { Some(r) => r, None => w(loc, w(rgb, rmb as u32)) };
    let want = [w(w(100, fr), w(x, 3)), w(rga, rma[0] as u32)];
    check(oc == OK, "the call completes"); if oc == OK { check(res.len() == 2, "number of results"); check(bits(&res[0]) == want[0] as u128, "result of a call across instances"); check(bits(&res[1]) == want[1] as u128, "the caller continues with its own global and memory"); cover("value") }
    check(bits(&ai.global_get(&st, "g").unwrap()) == rga as u128, "global of the caller"); check(bits(&bi.global_get(&st, "g").unwrap()) == rgb as u128, "global of the callee");
    let v = ai.memory("m").unwrap().read_vec(&st, 0, 5).unwrap(); check(v[0] == rma[0] && v[1] == rma[1] && v[2] == 0, "memory of the caller"); let v = bi.memory("m").unwrap().read_vec(&st, 0, 4).unwrap(); check(v[0] == rmb && v[1] == 0, "memory of the callee");
});
