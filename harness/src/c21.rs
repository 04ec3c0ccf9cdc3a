//! Traps anywhere, in the guest, in a host function or in a nested call: what was done stays done, and nothing else does.
use crate::prog::*;
use crate::rt::*;
use tinywasm::{ExecProgress, engine::{Config, StackConfig}};
fn cat(v: Vec<Vec<I>>) -> Vec<I> { v.into_iter().flatten().collect() }
const P: [u8; 2] = [I32, I64];
/// hosts: 0 calls mid, 1 fails on odd arguments; functions: 2 main, 3 direct, 4 mid, 5 endless recursion
fn prog(kind: u64, swallow: bool, typed: bool, via: u64) -> Prog {
    let (p, r) = (P.to_vec(), vec![I64]);
    let boom = match kind {
        0 => vec![Trap], 1 => vec![K(I32, 7), Ld(10), Drop], 2 => vec![K(I32, 1), GGet(2), DivU, Drop], 3 => vec![K(I32, 3), K(I64, 3), K(I32, 0), CallI(p.clone(), r.clone()), Drop],
        4 => vec![K(V128, 1), K(I32, 3), K(I64, 3), Call(1), Drop, Drop], 5 => vec![Get(0), Get(1), Call(5), Drop], 6 => vec![K(I64, 9), K(I32, 5), Get(0), St(0), Drop], _ => vec![K(V128, 1), Get(0), Get(1), RCall(5)],
    };
    let at = |k: u128| vec![Get(0), K(I32, k), Xor(I32), Eqz(I32), If(vec![], vec![], boom.clone(), None)];
    let inc = |g: u32| vec![GGet(g), K(I32, 1), Add(I32), GSet(g)];
    let f = |l: Vec<u8>, b: Vec<I>| Fun { p: p.clone(), r: r.clone(), l, b };
    let main = f(vec![I64, V128, I32], cat(vec![
        inc(0), at(0), vec![K(V128, 7), K(I64, 5), Get(0), Get(1), K(I64, 9), Xor(I64), Call(if via == 0 { 0 } else { 3 }), Xor(I64), Set(2), Set(3)], at(1),
        vec![K(I32, 0), Get(2), Wrap, St(0)], inc(0), vec![Get(2), Get(3), K(V128, 7), Xor(V128), Set(3), Get(1), Xor(I64)],
    ]));
    let direct = f(vec![V128], cat(vec![vec![Get(1), K(I32, 4), Get(0), St(0), Get(0), Get(1)], if via == 2 { vec![RCall(0)] } else { vec![Call(0), Add(I64)] }]));
    let deep = vec![K(I32, 7), Get(0), Ltu, If(vec![], vec![], cat(vec![vec![K(V128, 3), Get(0), K(I32, 8u128 | 0), Xor(I32), Get(1), Call(0), Set(2), Drop], inc(1)]), None)];
    let mid = f(vec![I64, I32], cat(vec![inc(1), at(2), deep, vec![K(I64, 8), Get(0), Get(2), Call(6), Xor(I64), Set(2), Get(0), Get(2), Call(1), Get(1), Xor(I64), Set(2)], at(3), vec![K(I32, 2), Get(0), St(0)], inc(1), vec![Get(2)]]));
    let spin = f(vec![I64], vec![Get(1), Get(0), Get(1), Call(5), Xor(I64)]);
    Prog { hosts: vec![(p.clone(), r.clone()), (p.clone(), r.clone())], nest: vec![Nest::Calls(4, swallow, typed), Nest::Plain], spin: Some(5), funs: vec![main, direct, mid, spin, f(vec![V128, V128], vec![Get(1), Get(0), Ext, Xor(I64)])], globals: vec![(I32, 0), (I32, 0), (I32, 0)], table: vec![None], mem: 8 }
}
fn enter(r: &mut R, how: u64, a: u32, y: u64) -> (u32, Vec<WasmValue>) {
    let args = [i(a as i32), l(y as i64)];
    let x = match how {
        0 => { let f = r.ins.func_untyped(&r.st, "0").unwrap(); f.call(&mut r.st, &args) }
        1 => { let f = r.ins.func_untyped(&r.st, "0").unwrap(); match f.call_resumable(&mut r.st, &args) { Ok(mut e) => loop { match e.resume_with_fuel(20) { Ok(ExecProgress::Completed(v)) => break Ok(v), Ok(ExecProgress::Suspended) => {} Err(e) => break Err(e) } }, Err(e) => Err(e) } }
        2 => { let f = r.hosts[0].clone(); f.call(&mut r.st, &args) }
        3 => { let f = r.ins.func::<(i32, i64), i64>(&r.st, "0").unwrap(); f.call(&mut r.st, (a as i32, y as i64)).map(|x| vec![l(x)]) }
        _ => { let f = r.hosts[0].clone(); match f.call_resumable(&mut r.st, &args) { Ok(mut e) => match e.resume_with_fuel(1) { Ok(ExecProgress::Completed(v)) => Ok(v), _ => { check(false, "a host function is done when called"); Ok(vec![]) } }, Err(e) => Err(e) } }
    };
    match x { Ok(v) => (OK, v), Err(e) => { let mut c = errcode(&e); if c == VALUESTACK { c = CALLSTACK } (c, vec![]) } }
}
fn step(r: &mut R, w: &mut W, how: u64, a: u32, y: u64) {
    let (oc, res) = enter(r, how, a, y); let direct = how == 2 || how == 4;
    let mut want = w.call(if direct { 0 } else { 2 }, vec![a as u128, y as u128]);
    // called directly, a host function's own error comes back as it is
    if direct { if let Err(c) = &mut want { if oc != OK && *c == HOSTERR { *c = oc; check(Some(&(oc as u128)) == w.trace.last(), "the error of the host function") } } }
    same(r, w, oc, &res, &want, &[I64]);
}
fn run(kinds: &[u64], all: bool) {
    let kind = kinds[choose("kind", kinds.len() as u64) as usize]; let swallow = choose("swallow", 2) == 1; let via = choose("via", 3); let how = choose("first", 3); let next = choose("next", if all { 5 } else { 2 });
    let next = if all { next } else { next * 2 + (kind + via) % 2 }; let opt = (kind + via + how) % 2 == 0; let typed = (kind + how) % 2 == 0;
    let mut p = prog(kind, swallow, typed, via); if kind == 4 { p.nest[1] = Nest::Odd }
    let (a, y) = (u32v("a"), u64v("y")); assume(a < 16); let (b, z) = (u32v("b"), u64v("z")); assume(b < 16); if !all { assume(b < 3 || b == 6 || b == 14 || b == 11) }
    let cfg = if kind == 5 || kind == 7 { Some(Config::new().with_call_stack(StackConfig::fixed(14))) } else { None };
    let mut r = real(&p, opt, cfg, &[9; 8]); let mut w = W::new(&p, &[9; 8]);
    step(&mut r, &mut w, how, a, y); step(&mut r, &mut w, next, b, z);
}
h!(h_c21_guest, { run(&[0, 1, 2, 3, 6], false) });
h!(h_c21_guestx, { run(&[0, 1, 2, 3, 6], true) });
h!(h_c21_host, { run(&[4], false) });
h!(h_c21_hostx, { run(&[4], true) });
h!(h_c21_stack, { run(&[5], false) });
h!(h_c21_stackx, { run(&[5], true) });
