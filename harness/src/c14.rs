//! Execution in slices against uninterrupted execution.
use crate::prog::*;
use crate::rt::*;
use std::time::Duration;
use tinywasm::{ExecProgress, FuncExecution};
use tinywasm::engine::{Config, FuelPolicy};
fn cat(a: Vec<I>, b: Vec<I>) -> Vec<I> { let mut a = a; a.extend(b); a }
/// programs that run for several chunks of 128 instructions: main(n, x, v) counts n down
fn menu(k: u64, trap: bool) -> Prog {
    let dec = vec![Get(0), K(I32, u32::MAX as u128), Add(I32), Set(0)];
    let work = |c: u128| vec![Get(1), Get(0), Ext, Add(I64), K(I64, c), Xor(I64), Set(1), Get(2), K(V128, 3), Add(V128), Set(2), GGet(0), K(I32, 1), Add(I32), GSet(0)];
    let fin: Vec<I> = if trap { vec![K(I32, 77), Ld(0), Drop] } else { vec![] };
    let p = vec![I32, I64, V128]; let r = vec![I64, V128];
    let lp = |body: Vec<I>| vec![Block(vec![], vec![], vec![Loop(vec![], vec![], cat(vec![Get(0), Eqz(I32), BrIf(1)], cat(body, cat(dec.clone(), vec![Br(0)]))))])];
    let res = vec![Get(1), Get(2)];
    let f = |b: Vec<I>| Fun { p: p.clone(), r: r.clone(), l: vec![I32, V128], b };
    let hosts = vec![(vec![I32, I64], vec![I64])];
    // one host function: index 0; main 1, others 2...
    let funs = match k {
        0 => vec![f(cat(lp(cat(work(5), vec![Get(0), Get(1), Call(0), Set(1), K(I32, 4), GGet(0), St(0)])), cat(fin, res)))],
        1 => { // recursion, work before and after the call, values kept on the stack
            let b = vec![Get(0), Eqz(I32), If(vec![], r.clone(), cat(fin, res.clone()), Some(cat(work(9), vec![Get(2), Get(1), Get(0), K(I32, u32::MAX as u128), Add(I32), Get(1), Get(2), Call(1), Set(2), Get(1), Add(I64), Set(1), Get(0), Get(1), Call(0), Add(I64), Set(1), Get(2), Add(V128), Set(2), Get(1), Get(2)])))];
            vec![f(b)]
        }
        2 => { // a chain of tail calls between three functions, one through the table
            let step = |c: u128, call: Vec<I>| vec![Get(0), Eqz(I32), If(vec![], r.clone(), cat(fin.clone(), res.clone()), Some(cat(work(c), cat(dec.clone(), cat(vec![Get(0), Get(1), Get(2)], call)))))];
            vec![f(step(1, vec![RCall(2)])), f(step(2, vec![K(I32, 1), RCallI(p.clone(), r.clone())])), f(step(4, vec![RCall(1)]))]
        }
        _ => { // calls of a function that itself loops and calls the host
            let inner = Fun { p: vec![I32, I64], r: vec![I64], l: vec![I32], b: cat(vec![Block(vec![], vec![], vec![Loop(vec![], vec![], vec![Get(2), K(I32, 3), Ltu, Eqz(I32), BrIf(1), Get(2), K(I32, 1), Add(I32), Set(2), Get(1), Get(2), Ext, Add(I64), Set(1), GGet(0), K(I32, 1), Add(I32), GSet(0), Br(0)])])], vec![Get(0), Get(1), Call(0)]) };
            vec![f(cat(lp(vec![Get(2), Get(0), Get(1), K(I32, 0), CallI(vec![I32, I64], vec![I64]), Set(1), K(V128, 3), Add(V128), Set(2)]), cat(fin, res))), inner]
        }
    };
    let table = match k { 2 => vec![Some(1), Some(3)], 3 => vec![Some(2)], _ => vec![] };
    Prog { hosts, funs, globals: vec![(I32, 0)], table, mem: 8, ..Default::default() }
}
const TURNS: [u32; 4] = [22, 15, 24, 9];
fn policy(w: u64) -> Config { Config::new().with_fuel_policy(if w == 1 { FuelPolicy::Weighted } else { FuelPolicy::PerInstruction }) }
type Out = Option<core::result::Result<Vec<WasmValue>, u32>>;
fn slice(e: &mut FuncExecution<'_>, time: bool, amount: u64) -> Out {
    let r = if time { e.resume_with_time_budget(Duration::new(amount >> 32, amount as u32)) } else { e.resume_with_fuel(amount as u32) };
    match r { Ok(ExecProgress::Completed(v)) => Some(Ok(v)), Ok(ExecProgress::Suspended) => { None } Err(e) => Some(Err(errcode(&e))) }
}
const FU: [&str; 3] = ["fuel0", "fuel1", "fuel2"]; const BN: [&str; 3] = ["nanos0", "nanos1", "nanos2"]; const BU: [&str; 3] = ["budget0", "budget1", "budget2"];
fn finish(r: &mut R, w: &mut W, oc: u32, res: &[WasmValue], want: &core::result::Result<Vec<u128>, u32>) {
    same(r, w, oc, res, want, &[I64, V128]);
}
/// the program in slices: the first ones of any size, the rest just enough; then another call
fn sliced(k: u64, slices: usize, time: u64) {
    let trap = choose("end", 2) == 1; let opt = choose("opt", 2) == 1; let p = menu(k, trap);
    let (x, v) = (u64v("x"), u128v("v")); let n = TURNS[k as usize];
    let mut r = real(&p, opt, Some(policy((k + opt as u64) % 2)), &[0; 8]); let mut w = W::new(&p, &[0; 8]);
    let args = [i(n as i32), l(x as i64), val(V128, v)]; let want = w.call(1, vec![n as u128, x as u128, v]);
    sym::set_clock(true);
    let f = r.ins.func_untyped(&r.st, "0").unwrap(); let mut out: Out = None; let mut count = 0;
    {
        let mut e = match f.call_resumable(&mut r.st, &args) { Ok(e) => e, Err(_) => { check(false, "a resumable call starts"); return } };
        for s in 0..slices { if out.is_none() { let t = (time >> s) & 1 == 1; let a = if t { let (a, b) = (sym::u8v(BU[s]), u32v(BN[s])); assume(b < 1_000_000_000); (a as u64) << 32 | b as u64 } else { u32v(FU[s]) as u64 }; out = slice(&mut e, t, a); if a == 0 { check(out.is_none(), "without fuel or time nothing runs") } } }
        while out.is_none() { count += 1; assert!(count < 40); out = slice(&mut e, false, 1) }
        sym::set_clock(false);
        check(count <= 14, "every slice makes progress");
        let again = slice(&mut e, false, 1); check(matches!(again, Some(Err(_))), "an execution that has ended does not run again");
        let again = slice(&mut e, true, 1000); check(matches!(again, Some(Err(_))), "an execution that has ended does not run again");
    }
    let (oc, res) = match out { Some(Ok(v)) => (OK, v), Some(Err(c)) => (c, vec![]), None => unreachable!() };
    finish(&mut r, &mut w, oc, &res, &want);
    let (oc, res) = call(&mut r.st, &r.ins, "0", &[i(2), l(x as i64), val(V128, v)]); let want = w.call(1, vec![2, x as u128, v]); finish(&mut r, &mut w, oc, &res, &want);
}
h!(h_c14_loop, { sliced(0, 3, 0) });
h!(h_c14_recur, { sliced(1, 3, 0) });
h!(h_c14_tail, { sliced(2, 3, 0) });
h!(h_c14_nested, { sliced(3, 3, 0) });
h!(h_c14_time, { sliced(choose("program", 4), 1, 1) });
h!(h_c14_timex, { sliced(choose("program", 4), 2, 1 + choose("slices", 3)) });
// ---- an execution that is given up leaves its effects so far and nothing else
h!(h_c14_abandon, {
    let k = choose("program", 4); let opt = choose("opt", 2) == 1; let p = menu(k, false); let (x, v) = (u64v("x"), u128v("v")); let n = TURNS[k as usize];
    let mut r = real(&p, opt, None, &[0; 8]); let mut w = W::new(&p, &[0; 8]); let args = [i(n as i32), l(x as i64), val(V128, v)];
    let f = r.ins.func_untyped(&r.st, "0").unwrap(); let full = { let mut w2 = w.clone(); let _ = w2.call(1, vec![n as u128, x as u128, v]); w2.trace };
    { let mut e = f.call_resumable(&mut r.st, &args).unwrap(); if choose("started", 2) == 1 { if slice(&mut e, false, u32v("fuel") as u64).is_some() { return } } if choose("forget", 2) == 1 { std::mem::forget(e) } }
    { let t = r.tr.borrow(); let mut e = t.len() <= full.len(); if e { for (a, b) in t.iter().zip(&full) { e &= a == b } } check(e, "the effects of an abandoned execution are the first ones of the whole"); }
    w.trace = r.tr.borrow().clone(); w.g[0] = bits(&r.ins.global_get(&r.st, "g0").unwrap()); w.mem.0 = r.ins.memory("m").unwrap().read_vec(&r.st, 0, 8).unwrap();
    let m = choose("next", 3) as u32; let (oc, res) = if m == 2 { let mut e = f.call_resumable(&mut r.st, &[i(2), l(x as i64), val(V128, v)]).unwrap(); let mut o; loop { o = slice(&mut e, false, 1); if o.is_some() { break } } match o { Some(Ok(v)) => (OK, v), _ => (99, vec![]) } } else { call(&mut r.st, &r.ins, "0", &[i(m as i32), l(x as i64), val(V128, v)]) };
    let want = w.call(1, vec![m as u128, x as u128, v]); finish(&mut r, &mut w, oc, &res, &want);
});
// ---- a program that never ends does no more work than it was given fuel for, and some
h!(h_c14_endless, {
    let kind = choose("loop", 5); let weighted = choose("weighted", 2) == 1; let opt = choose("opt", 2) == 1;
    let count = |g: u32| vec![GGet(g), K(I32, 1), Add(I32), GSet(g)]; let t0: (Vec<u8>, Vec<u8>) = (vec![], vec![]);
    let body = match kind { 0 => cat(count(0), vec![]), 1 => cat(count(0), vec![Call(2)]), 2 => cat(count(0), vec![K(I32, 0), CallI(t0.0.clone(), t0.1.clone())]), _ => vec![] };
    let f = |b: Vec<I>| Fun { p: vec![], r: vec![], l: vec![I32, I32, I64], b };
    let funs = match kind { 3 => vec![f(cat(count(0), vec![RCall(2)])), f(cat(count(1), vec![K(I32, 0), RCallI(vec![], vec![])]))], 4 => vec![f(cat(count(0), vec![RCall(1)])), f(vec![])], _ => vec![f(vec![Loop(vec![], vec![], cat(body, vec![Br(0)]))]), f(count(1))] };
    let p = Prog { hosts: vec![(vec![], vec![])], funs, globals: vec![(I32, 0), (I32, 0)], table: vec![Some(if kind == 3 { 1 } else { 2 })], mem: 0, ..Default::default() };
    let mut r = real(&p, opt, Some(policy(weighted as u64)), &[]); let f = r.ins.func_untyped(&r.st, "0").unwrap();
    let (fa, fb) = (u32v("fuel0"), u32v("fuel1")); assume(fa <= 900 && fb <= 600);
    { let mut e = f.call_resumable(&mut r.st, &[]).unwrap(); let a = slice(&mut e, false, fa as u64); check(a.is_none(), "suspended"); }
    let n = bits(&r.ins.global_get(&r.st, "g0").unwrap()) as u32;
    check(n <= fa + 128, "no more work than fuel"); check(fa == 0 || n > 0, "some work"); check(fa != 0 || n == 0, "no work without fuel");
    if weighted && kind > 0 { check(5 * n <= fa + 5 * 128, "calls cost what the policy says") }
    if !weighted { check(n >= fa / 40, "work in proportion to fuel") }
    { let mut o = real(&p, opt, Some(policy(!weighted as u64)), &[]); let f = o.ins.func_untyped(&o.st, "0").unwrap(); let mut e = f.call_resumable(&mut o.st, &[]).unwrap(); check(slice(&mut e, false, fa as u64).is_none(), "suspended"); drop(e);
      let q = bits(&o.ins.global_get(&o.st, "g0").unwrap()) as u32; let (one, more) = if weighted { (q, n) } else { (n, q) }; check(more <= one && (kind == 0 || fa < 700 || more < one), "weights add to the cost of calls") }
    // and in two slices
    r.ins.global_set(&mut r.st, "g0", i(0)).unwrap();
    { let mut e = f.call_resumable(&mut r.st, &[]).unwrap(); let a = slice(&mut e, false, fa as u64); check(a.is_none(), "suspended"); let a = slice(&mut e, false, fb as u64); check(a.is_none(), "suspended"); }
    let m = bits(&r.ins.global_get(&r.st, "g0").unwrap()) as u32; check(m >= n && m - n <= fb + 128, "the second slice continues with its own fuel"); check(fb == 0 || m > n, "and gets further"); check(fb != 0 || m == n, "no work without fuel"); cover("value");
});
// ---- fuel seen and charged by host functions; a nested call inside a slice
h!(h_c14_host, {
    use std::rc::Rc; use std::cell::RefCell;
    let opt = choose("opt", 2) == 1; let nested = choose("nested", 2) == 1; let (fuel, extra) = (u32v("fuel"), u32v("extra"));
    let mut st = Store::default(); let log: Rc<RefCell<Vec<(u32, u32)>>> = Default::default(); let l2 = log.clone();
    let h = HostFunction::from_untyped(&mut st, &fty(&[], &[]), move |mut cx, _| {
        if nested { let f = cx.module().func_untyped(cx.store(), "inner").unwrap(); let r = cx.call_untyped(&f, &[i(3)])?; check(r.len() == 1 && bits(&r[0]) == 3 + 60, "a nested call completes") }
        let a = cx.remaining_fuel(); cx.charge_fuel(extra); let b = cx.remaining_fuel(); l2.borrow_mut().push((a, b)); Ok(vec![])
    });
    let mut m = M::new(); m.imp_func("h", "h", &[], &[]);
    // f: calls the host 3 times with 150 instructions between
    let mut code = c(); for _ in 0..3 { code = code.call(0); for _ in 0..40 { code = code.gget(0).i32c(3).op(0x6a).gset(0) } } let f = m.func(&[], &[], &[], code); m.export("f", KF, f);
    let mut code = c().get(0); for _ in 0..60 { code = code.i32c(0).gget(1).op(0x73).op(0x6a) } let g = m.func(&[I32], &[I32], &[], code); m.export("inner", KF, g); m.global(I32, true, c().i32c(0)); m.global(I32, true, c().i32c(1)); m.export("g", KG, 0);
    let mut im = Imports::new(); im.define("h", "h", h); let ins = inst(&mut st, &m, opt, Some(im)); let f = ins.func_untyped(&st, "f").unwrap();
    let mut n = 0; let mut given = vec![fuel];
    { let mut e = f.call_resumable(&mut st, &[]).unwrap(); let mut o = slice(&mut e, false, fuel as u64); while o.is_none() { n += 1; assert!(n < 20); given.push(1); o = slice(&mut e, false, 1) } check(matches!(o, Some(Ok(_))), "completes") }
    check(bits(&ins.global_get(&st, "g").unwrap()) == 360, "every instruction once"); let lg = log.borrow();
    check(lg.len() == 3, "every call of the host once"); if lg.len() == 3 { check(lg[0].0 <= fuel || fuel == 0, "remaining fuel is what was given at most");
        for (a, b) in lg.iter() { check(*b == a.saturating_sub(extra), "the host's charge is subtracted") }
        if n == 0 { check(lg[1].0 <= lg[0].1 && lg[2].0 <= lg[1].1, "fuel only goes down"); } }
    if n > 0 { cover("suspended") } else { cover("at once") }
    // the host's charge counts: what remains can not carry the program further than one more chunk
    if lg.len() == 3 && lg[0].1 == 0 && fuel > 0 { check(n > 0, "an exhausted slice ends") }
    drop(lg);
    // outside of a slice there is no fuel
    log.borrow_mut().clear(); let (oc, _) = call(&mut st, &ins, "f", &[]); check(oc == OK, "completes"); let lg = log.borrow(); check(lg.len() == 3 && lg[0].0 == 0 && lg[1].0 == 0, "no fuel is left for a call that does not use fuel");
});
