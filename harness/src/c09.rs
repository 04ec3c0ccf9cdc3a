//! Indirect calls: which function is reached, and that its whole signature is compared.
use crate::rt::*;
const SIGS: [(&[u8], &[u8]); 20] = [
    (&[], &[]), (&[I32], &[]), (&[I64], &[]), (&[F32], &[]), (&[F64], &[]), (&[V128], &[]), (&[FUNCREF], &[]), (&[EXTERNREF], &[]), (&[], &[I32]), (&[], &[F32]), (&[], &[I64]),
    (&[I32], &[I32]), (&[I32, I32], &[]), (&[I32, I64], &[]), (&[I64, I32], &[]), (&[], &[I32, I64]), (&[], &[I64, I32]), (&[I32, I64, F32], &[F64, I32]), (&[I32, I64, F32], &[F64, I64]), (&[I32, I64, I32], &[F64, I32]),
];
const N: usize = SIGS.len();
fn zero(c: C, t: u8) -> C { match t { FUNCREF | EXTERNREF => c.op(0xd0).op(t), t => konst(c, t, 0) } }
/// a function of signature k that leaves its number in global 0
fn body(k: usize, id: i32) -> C { let mut b = c().i32c(id).gset(0); for t in SIGS[k].1 { b = konst(b, *t, 7) } b }
// ---- a table holding one function of every signature, of this module, another one or the host; every type, every index
fn table(who: u64, all: bool) {
    let ex = choose("type", N as u64) as usize; let tail = choose("tail", 2) == 1; let second = choose("numbering", 2) == 1;
    let (opt, w64, rev) = if all { (choose("opt", 2) == 1, choose("w64", 2) == 1, choose("reverse", 2) == 1) } else { ((ex % 2 == 0) ^ second, ex % 4 == 1 && who == 0, second) }; let x = u64v("i");
    let mut st = Store::default();
    // the other module numbers its types from the back
    let mut o = M::new(); for k in (0..N).rev() { o.ty(SIGS[k].0, SIGS[k].1); } let of: Vec<u32> = (0..N).rev().map(|k| o.func(SIGS[k].0, SIGS[k].1, &[], body(k, 1 + k as i32))).collect();
    o.global(I32, true, c().i32c(-1)); o.export("g", KG, 0); for k in 0..N { o.export(NM[k], KF, of[N - 1 - k]); } let oi = inst(&mut st, &o, opt, None);
    let mut im = Imports::new(); if who == 1 { if im.link_module("o", oi.clone()).is_err() { panic!("link") } }
    let log: std::rc::Rc<core::cell::Cell<u32>> = std::rc::Rc::new(core::cell::Cell::new(u32::MAX));
    if who == 2 { for k in 0..N { let l2 = log.clone(); let rs = SIGS[k].1; let f = HostFunction::from_untyped(&mut st, &crate::prog::fty(SIGS[k].0, SIGS[k].1), move |_, _| { l2.set(1 + k as u32); Ok(rs.iter().map(|t| val(*t, if *t == I32 || *t == I64 || *t == F32 || *t == F64 { 7 } else { 0 })).collect()) }); im.define("o", NM[k], f); } }
    // this module has every type twice, so that equal types have different numbers
    let mut m = M::new(); let dup = |m: &mut M, k: usize| { m.types.push((SIGS[k].0.to_vec(), SIGS[k].1.to_vec())); };
    if rev { for k in (0..N).rev() { dup(&mut m, k) } } for k in 0..N { dup(&mut m, k) } let first = m.types.len() - N + ex; let alt = if rev { N - 1 - ex } else { ex };
    let fs: Vec<u32> = if who == 0 { (0..N).map(|k| m.func(SIGS[k].0, SIGS[k].1, &[], body(k, 1 + k as i32))).collect() } else { (0..N).map(|k| m.imp_func("o", NM[k], SIGS[k].0, SIGS[k].1)).collect() };
    let mut d = vec![FUNCREF]; d.extend_from_slice(&limits(if w64 { 4 } else { 0 }, N as u64 + 3, None)); m.tables.push(d); m.table(FUNCREF, 2, None);
    m.elem(0, if w64 { c().i64c(1) } else { c().i32c(1) }, &fs); m.global(I32, true, c().i32c(-1));
    let (p, r) = SIGS[ex]; let it = if w64 { I64 } else { I32 };
    let mut args = c(); for t in p { args = zero(args, *t) }
    let ty = if second { alt } else { first } as u64;
    let main = if tail { let t = m.func(&[it], r, &[(2, I64)], c().i64c(9).cat(&args).get(0).rcalli(ty, 0)); m.func(&[it], &[I32], &[], { let k = c().i32c(5).get(0).call(t as u64); let mut k = k; for _ in r { k = k.drop() } k }) }
        else { let mut k = c().i32c(5).cat(&args).get(0).calli(ty, 0); for _ in r { k = k.drop() } m.func(&[it], &[I32], &[], k) };
    m.export("main", KF, main).export("g", KG, 0); let ai = inst(&mut st, &m, opt, Some(im));
    let (oc, v) = call1(&mut st, &ai, "main", &[if w64 { l(x as i64) } else { i(x as u32 as i32) }]);
    let x = if w64 { x } else { x & 0xffff_ffff };
    let got = match who { 0 => bits(&ai.global_get(&st, "g").unwrap()) as u32, 1 => bits(&oi.global_get(&st, "g").unwrap()) as u32, _ => log.get() };
    if x >= N as u64 + 3 { check(oc == UNDEF, "undefined element"); cover("undefined") } else if (x == 0) | (x > N as u64) { check(oc == UNINIT, "uninitialized element"); cover("null") }
    else if x == 1 + ex as u64 { check(oc == OK && v == 5, "a function of the expected type is called, what lay below stays"); check(got == 1 + ex as u32, "and it is the one at that index"); cover("value"); return }
    else { check(oc == SIGMISMATCH, "type mismatch"); cover("mismatch") }
    check(got == u32::MAX, "no function ran");
}
const NM: [&str; N] = ["a", "b", "c", "d", "e", "f", "g1", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t"];
h!(h_c09_own, { table(0, false) });
h!(h_c09_ownx, { table(0, true) });
h!(h_c09_other, { table(1, false) });
h!(h_c09_otherx, { table(1, true) });
h!(h_c09_host, { table(2, false) });
h!(h_c09_hostx, { table(2, true) });
// ---- parameters and results of an indirect call, and the table used, changed while running
h!(h_c09_which, {
    let opt = choose("opt", 2) == 1; let tail = choose("tail", 2) == 1; let tb = choose("table", 2); let change = choose("change", 4); let (x, a) = (u32v("i"), u64v("a")); let at = u32v("at"); let other = choose("other", 3);
    let mut st = Store::default(); let mut m = M::new(); let (p, r): (&[u8], &[u8]) = (&[I32, I64, V128], &[I64, I32]);
    let fs: Vec<u32> = (0..4).map(|k| m.func(p, r, &[], c().get(1).i64c(k + 1).op(0x85).get(0).i32c(k as i32).op(0x73))).collect(); let bad = m.func(&[I32], &[], &[], c());
    m.table(FUNCREF, 4, Some(8)); m.table(FUNCREF, 4, Some(8)); m.elem(0, c().i32c(0), &[fs[0], bad, fs[1]]); m.elem(1, c().i32c(1), &[fs[2], fs[3], bad]); m.elem_mode(3, &[fs[0], fs[3], bad]); m.elem_mode(1, &[fs[3], fs[0]]);
    let t = m.ty(p, r) as u64; let tix = tb;
    let rf = |k: u64| match k { 0 => c().op(0xd2).u(fs[3] as u64), 1 => c().op(0xd2).u(bad as u64), _ => c().op(0xd0).op(FUNCREF) };
    // the table is changed between two calls of one function
    let ch = match change { 0 => c(), 1 => c().get(2).cat(&rf(other)).op(0x26).u(tix), 2 => c().i32c(0).i32c(0).i32c(2).fc(12).u(3).u(tix), _ => c().cat(&rf(other)).i32c(1).fc(15).u(tix).drop() };
    let args = c().i32c(3).i32c(4).op(0x6a).get(1).i64c(0).op(0x85).v128c(9); let body = args.clone().get(0);
    let f = if tail { let g = m.func(&[I32, I64], r, &[(3, V128)], c().i32c(1).drop().cat(&body).rcalli(t, tix)); m.func(&[I32, I64, I32], r, &[], ch.clone().get(0).get(1).call(g as u64)) } else { m.func(&[I32, I64, I32], r, &[], ch.clone().cat(&body).calli(t, tix)) };
    m.export("f", KF, f); let ai = inst(&mut st, &m, opt, None);
    let mut tab: Vec<Option<u32>> = if tb == 0 { vec![Some(0), Some(9), Some(1), None] } else { vec![None, Some(2), Some(3), Some(9)] }; let oth = match other { 0 => Some(3), 1 => Some(9), _ => None };
    for round in 0..2 {
        let (oc, res) = call(&mut st, &ai, "f", &[i(x as i32), l(a as i64), i(at as i32)]);
        match change { 1 => { if at as usize >= tab.len() { check(oc == TOOB, "out of bounds traps"); cover("trap"); return } for k in 0..tab.len() { if at as usize == k { tab[k] = oth } } } 2 => { tab[0] = Some(3); tab[1] = Some(0) } 3 => tab.push(oth), _ => {} }
        let _ = round; if x as usize >= tab.len() { check(oc == UNDEF, "undefined element"); continue }
        let mut want = Some(99); for k in 0..tab.len() { if x as usize == k { want = tab[k] } }
        match want { None => check(oc == UNINIT, "null"), Some(9) => check(oc == SIGMISMATCH, "mismatch"), Some(k) => { check(oc == OK && res.len() == 2, "completes"); if oc == OK { check(bits(&res[0]) == (a ^ (k as u64 + 1)) as u128 && bits(&res[1]) == (7 ^ k) as u128, "result of the function now at that index"); cover("value") } } }
    }
});
