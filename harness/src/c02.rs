//! C02: floating-point instructions and conversions against their definition on bit patterns.
use crate::{num::{self, Out}, ops, rt::*};
fn ins(o: &ops::Op, a: u64, b: u64, op: u64) -> Vec<u64> { match op { 0xb6 => vec![if num::D.nan(a) { if num::D.mag(a) == num::D.cnan() { num::S.cnan() } else { num::S.inf + 1 } } else { 0 }], 0xbb => vec![if num::S.nan(a) { if num::S.mag(a) == num::S.cnan() { num::D.cnan() } else { num::D.inf + 1 } } else { 0 }], _ => if o.p.len() == 2 { vec![a, b] } else { vec![a] } } }
/// one instruction: op is a one byte opcode, or 0x100 and a saturating truncation
fn one(op: u64, form: u64, opt: bool) {
    let o = match if op < 256 { ops::scalar(op) } else { ops::sat(op - 256) } { Some(o) => o, None => panic!("opcode") }; let two = o.p.len() == 2; let (a, b) = (symbits("a", o.p[0]) as u64, if two { symbits("b", o.p[1]) as u64 } else { 0 });
    let body = |x: C| if op < 256 { x.op(op as u8) } else { x.fc(op - 256) }; let k = |x: C, t: u8, v: u64| konst(x, t, v as u128); let mut m = M::new();
    let code = match (form, two) { (0, false) => c().get(0), (1, false) => k(c(), o.p[0], a), (_, false) => c().get(0).tee(1), (0, _) => c().get(0).get(1), (1, _) => k(c().get(0), o.p[1], b), (2, _) => c().get(0).tee(2).get(1).tee(3), (3, _) => k(c(), o.p[0], a).get(1), _ => k(k(c(), o.p[0], a), o.p[1], b) };
    let lt: Vec<(u32, u8)> = o.p.iter().map(|t| (1, *t)).collect(); let f = m.func(o.p, &[o.r], &lt, body(code)); m.export("f", KF, f);
    let mut st = Store::default(); let x = inst(&mut st, &m, opt, None); let mut args = vec![val(o.p[0], a as u128)]; if two { args.push(val(o.p[1], b as u128)) }
    let (oc, r) = call1(&mut st, &x, "f", &args); let r = r as u64; let want = if op < 256 { num::scalar(op, a, b) } else { Some(num::sat(op - 256, a)) };
    match want { Some(Out::Bits(v)) => { check(oc == OK, "no trap"); check(r == v, "bits of a result"); cover("value") } Some(Out::Float(v)) => { check(oc == OK, "no trap"); check(num::fl(if o.r == F32 { 32 } else { 64 }).fits(r, v, &ins(&o, a, b, op)), "a floating-point result"); cover("value") } Some(Out::Trap(t)) => { check(oc == t, "trap of a conversion"); cover("trap") } _ => panic!("no reference") }
}
fn any(list: &[u64], forms: u64) { let op = list[choose("op", list.len() as u64) as usize]; let form = choose("form", forms); one(op, form, choose("opt", 2) == 1) }
/// without the standard library the square root is a loop over the digits, too much for the solver
fn roots(list: &[u64]) -> &[u64] { if cfg!(feature = "lean") { &list[1..] } else { list } }
h!(h_c02_arith32, { any(roots(&[0x91, 0x92, 0x93, 0x94, 0x95]), 5) });
h!(h_c02_arith64, { any(roots(&[0x9f, 0xa0, 0xa1, 0xa2, 0xa3]), 5) });
h!(h_c02_cmp, { any(&[0x5b, 0x5c, 0x5d, 0x5e, 0x5f, 0x60, 0x61, 0x62, 0x63, 0x64, 0x65, 0x66], 4) });
h!(h_c02_sign, { any(&[0x8b, 0x8c, 0x98, 0x99, 0x9a, 0xa6, 0xbc, 0xbd, 0xbe, 0xbf], 4) });
h!(h_c02_minmax, { any(&[0x96, 0x97, 0xa4, 0xa5], 3) });
h!(h_c02_round32, { any(&[0x8d, 0x8e, 0x8f], 1) });
h!(h_c02_nearest32, { any(&[0x90], 1) });
h!(h_c02_round64, { any(&[0x9b, 0x9c, 0x9d], 1) });
h!(h_c02_nearest64, { any(&[0x9e], 1) });
h!(h_c02_trunc32, { any(&[0xa8, 0xa9, 0xae, 0xaf], 2) });
h!(h_c02_trunc64, { any(&[0xaa, 0xab, 0xb0, 0xb1], 2) });
h!(h_c02_sat32, { any(&[0x100, 0x101, 0x104, 0x105], 2) });
h!(h_c02_sat64, { any(&[0x102, 0x103, 0x106, 0x107], 2) });
h!(h_c02_int32, { any(&[0xb2, 0xb3, 0xb7, 0xb8], 2) });
h!(h_c02_int64, { any(&[0xb4, 0xb5, 0xb9, 0xba], 2) });
h!(h_c02_width, { any(&[0xb6, 0xbb], 2) });
