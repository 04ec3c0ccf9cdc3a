//! Stack limits: the depth reached, the trap beyond it, and the store afterwards.
use crate::rt::*;
use tinywasm::engine::{Config, StackConfig};
/// a policy with maximum n: fixed, or growing from one of several sizes
fn policy(n: usize, k: u64) -> StackConfig { match k { 0 => StackConfig::fixed(n), 1 => StackConfig::dynamic(0, n), 2 => StackConfig::dynamic(n / 2, n), 3 => StackConfig::dynamic(n.min(1), n), _ => StackConfig::dynamic(n, n) } }
fn cfg(w: u8, n: usize, k: u64) -> Config {
    let c = Config::new().with_call_stack(StackConfig::fixed(64)).with_value_stack(StackConfig::fixed(300));
    match w { 0 => c.with_call_stack(policy(n, k)), I32 => c.with_value_stack_32(policy(n, k)), I64 => c.with_value_stack_64(policy(n, k)), _ => c.with_value_stack_128(policy(n, k)) }
}
fn exhausted(oc: u32) -> bool { oc == CALLSTACK || oc == VALUESTACK }
/// a call chain of d calls: f(d, v) -> v combined with every local on the way back. `own` locals of type w besides the parameters
fn chain(kind: u64, w: u8, own: usize) -> M {
    let mut m = M::new(); let h = m.imp_func("h", "h", &[I64, w], &[w]); let ct = I64; let p = [ct, w]; let t = m.ty(&p, &[w]) as u64; let f0 = h + 1;
    let comb: &[u8] = match w { I32 => &[0x73], I64 => &[0x85], _ => &[0xfd, 81] };
    for k in 0..2u32 {
        let to = match kind { 0 => f0 + k, _ => f0 + 1 - k } as u64;
        let mut c0 = c().get(0).op(0x50).iff(VOID).get(1).ret().end(); for j in 0..own { c0 = c0.get(1).set(2 + j as u64) }
        let args = c().get(0).i64c(1).op(0x7d).get(1); let call = match kind { 0 | 1 => args.call(to), 2 => args.i32c(1 - k as i32).calli(t, 0), 3 => args.call(h as u64), _ => args.get(0).op(0xa7).i32c(1).op(0x71).iff(0x40).end().call(to) };
        c0 = c0.cat(&call); for j in 0..own { c0 = c0.get(2 + j as u64).ops(comb) } c0 = c0.get(1).ops(comb); m.func(&p, &[w], &[(own as u32, w)], c0);
    }
    m.table(FUNCREF, 2, None); m.elem(0, c().i32c(0), &[f0, f0 + 1]); m.export("f", KF, f0).export("g", KF, f0 + 1); m
}
/// v combined (own + 1) times per level
fn want(d: u64, v: u128, own: usize) -> u128 { if (d * (own as u64 + 1)) % 2 == 0 { v } else { 0 } }
struct Z { st: Store, ins: ModuleInstance }
fn start(m: &M, c: Config, opt: bool, w: u8) -> Z {
    let mut st = cfg_store(c); let mut im = Imports::new();
    // calls back into the guest
    let h = HostFunction::from_untyped(&mut st, &crate::prog::fty(&[I64, w], &[w]), |mut cx, a| { let f = cx.module().func_untyped(cx.store(), "f")?; cx.call_untyped(&f, a) }); im.define("h", "h", h);
    let ins = inst(&mut st, m, opt, Some(im)); Z { st, ins }
}
fn run(z: &mut Z, w: u8, d: u64, v: u128) -> (u32, u128) { call1(&mut z.st, &z.ins, "f", &[l(d as i64), val(w, v)]) }
// ---- the number of calls in progress
h!(h_c13_depth, {
    let kind = choose("kind", 3); let n = choose("max", 6) as usize; let pol = choose("policy", 5); let opt = (n + kind as usize + pol as usize) % 2 == 0; let d = u64v("d"); assume(d < 9); let v = u64v("v") as u128; let e = u64v("e"); assume(e < 9);
    let mut z = start(&chain(kind, I64, 1), cfg(0, n, pol), opt, I64);
    for d in [d, e] { let (oc, r) = run(&mut z, I64, d, v); if d <= n as u64 { check(oc == OK, "a program within the call depth is not stopped"); if oc == OK { check(r == want(d, v, 1), "its result"); cover("value") } } else { check(exhausted(oc), "beyond the call depth it traps"); cover("trap") } }
});
// ---- the slots of one value stack, taken by parameters and locals alone
fn frame(w: u8, all: bool) {
    let kind = choose("kind", 4); let own = if all { choose("locals", 4) } else { 1 + choose("locals", 2) } as usize; let n = choose("max", 13) as usize; let pol = choose("policy", if all { 5 } else { 3 }); let opt = (n + kind as usize) % 2 == 0; let d = u64v("d"); assume(d < 8); let v = symbits("v", w); let e = u64v("e"); assume(if all { e < 8 } else { e < 2 });
    let mut z = start(&chain(kind, w, own), cfg(w, n, pol), opt, w);
    for (k, d) in [d, e].into_iter().enumerate() {
        // the frame holds its locals, and one parameter of this width (two where the counter has it); at most two more while it runs
        let size = own as u128 + 1 + (w == I64) as u128; let _ = k;
        let (oc, r) = run(&mut z, w, d, v); let d = sym::concretize(d); let least = (d as u128 + 1) * size; let most = least + 2 + (w == I64) as u128;
        if oc == OK { check(least <= n as u128, "no stack grows beyond its maximum"); check(r == want(d, v, own), "its result"); cover("value") } else { let host = kind == 3 && d > 0 && oc == HOSTERR; check(exhausted(oc) || host, "beyond its size it traps"); check(most > n as u128, "a program within the stack size is not stopped"); cover("trap") }
    }
}
h!(h_c13_frame32, { frame(I32, false) });
h!(h_c13_frame64, { frame(I64, false) });
h!(h_c13_frame128, { frame(V128, false) });
h!(h_c13_frame32x, { frame(I32, true) });
h!(h_c13_frame64x, { frame(I64, true) });
h!(h_c13_frame128x, { frame(V128, true) });
// ---- a fixed stack and one that grows to the same size stop the same programs
h!(h_c13_same, {
    let w = [0, I32, I64, V128][choose("stack", 4) as usize]; let kind = choose("kind", 4); let n = choose("max", 9) as usize; let pol = 1 + choose("policy", 4); let opt = choose("opt", 2) == 1; let ty = if w == 0 { I64 } else { w };
    let d = u64v("d"); assume(d < 6); let v = symbits("v", ty); let m = chain(kind, ty, 1); let mut a = start(&m, cfg(w, n, 0), opt, ty); let mut b = start(&m, cfg(w, n, pol), opt, ty);
    let x = run(&mut a, ty, d, v); let y = run(&mut b, ty, d, v); check(x.0 == y.0, "fixed and growing stacks have the same limit"); check(x.1 == y.1, "same result"); if x.0 == OK { cover("value") } else { cover("trap") }
});
// ---- operands, arguments from the host, results of the host
fn operands(all: bool) {
    let w = [I32, I64, V128][choose("width", 3) as usize]; let k = 1 + choose("operands", 6) as usize; let n = choose("max", 9) as usize; let pol = choose("policy", 3); let opt = if all { choose("opt", 2) == 1 } else { (k + n + pol as usize) % 2 == 0 }; let from = choose("from", 4); let v = symbits("v", w); let u = symbits("u", w);
    let comb: &[u8] = match w { I32 => &[0x73], I64 => &[0x85], _ => &[0xfd, 81] };
    let mut m = M::new(); let tys = [w, w, w, w, w, w]; let h = m.imp_func("h", "h", &[w], &tys[..k]);
    // k operands at once: of a local, passed by the host, returned by the host, results of a call
    let mut code = c(); match from { 0 => for j in 0..k { code = code.get((j % 2) as u64) }, 1 => for j in 0..k { code = code.get(j as u64) }, 2 => code = code.get(0).call(h as u64), _ => code = code.get(0).call(h as u64 + 1) }
    for _ in 1..k { code = code.ops(comb) }
    if from == 3 { let mut g = c(); for j in 0..k { g = if j % 2 == 0 { g.get(0) } else { konst(g, w, j as u128) } } m.func(&[w], &tys[..k], &[], g); }
    let f = match from { 0 => m.func(&[w, w], &[w], &[], code), 1 => m.func(&tys[..k], &[w], &[], code), _ => m.func(&[w], &[w], &[], code) }; m.export("f", KF, f);
    let mut st = cfg_store(cfg(w, n, pol)); let mut im = Imports::new(); let hf = HostFunction::from_untyped(&mut st, &crate::prog::fty(&[w], &tys[..k]), move |_, a| Ok((0..k).map(|j| val(w, bits(&a[0]) ^ j as u128)).collect())); im.define("h", "h", hf); let ins = inst(&mut st, &m, opt, Some(im));
    let (locals, args) = match from { 0 => (2, vec![val(w, v), val(w, u)]), 1 => (k, (0..k).map(|j| val(w, if j % 2 == 0 { v } else { u })).collect()), _ => (1, vec![val(w, v)]) };
    let odd = k % 2 == 1; let x = |c: bool, a: u128| if c { a } else { 0 };
    let (e, least, most) = match from { 0 | 1 => (x((k + 1) / 2 % 2 == 1, v) ^ x(k / 2 % 2 == 1, u), locals, locals + k), 2 => { let mut e = x(odd, v); for j in 0..k { e ^= j as u128 } (e, 1 + k, 2 + k) } _ => { let mut e = x((k + 1) / 2 % 2 == 1, v); for j in 0..k { if j % 2 == 1 { e ^= j as u128 } } (e, 1 + k, 2 + k) } };
    let least = if opt && from == 3 { 1 } else { least };
    for _ in 0..2 { let (oc, r) = call1(&mut st, &ins, "f", &args);
        if oc == OK { check(least <= n, "no stack grows beyond its maximum"); if !opt && from < 2 { check(most <= n + 1, "no stack grows beyond its maximum") } check(r == e, "result"); cover("value") } else { check(exhausted(oc), "a stack that is full traps"); check(most > n, "a program within the stack size is not stopped"); cover("trap") } }
}
h!(h_c13_operands, { operands(false) });
h!(h_c13_operandsx, { operands(true) });
