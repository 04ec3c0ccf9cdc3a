//! Integer instructions against their definition.
use crate::rt::*;
#[derive(Clone, Copy)]
struct Op { code: &'static [u8], a: u8, b: u8, r: u8, f: fn(u64, u64) -> (u32, u64) }
fn ok(v: u64) -> (u32, u64) { (OK, v) }
fn b(v: bool) -> (u32, u64) { (OK, v as u64) }
fn w(a: u64) -> u32 { a as u32 }
fn s(a: u64) -> i32 { a as u32 as i32 }
fn u(a: i32) -> u64 { a as u32 as u64 }
/// counts written out bit by bit, in terms of selects, so that the reference shares nothing with the implementation
fn clz(v: u64, n: u32) -> u64 { let mut r = n as u64; for k in 0..n { r = sym::ite(v >> k & 1 == 1, (n - 1 - k) as u64, r) } r }
fn ctz(v: u64, n: u32) -> u64 { let mut r = n as u64; for k in (0..n).rev() { r = sym::ite(v >> k & 1 == 1, k as u64, r) } r }
fn pop(v: u64, n: u32) -> u64 { let mut r = 0; for k in 0..n { r += v >> k & 1 } r }
macro_rules! o { ($c:expr, $a:expr, $b:expr, $r:expr, $f:expr) => { Op { code: &[$c], a: $a, b: $b, r: $r, f: $f } } }
const NO: u8 = 0;
static OPS: &[Op] = &[
    o!(0x45, I32, NO, I32, |a, _| b(a == 0)),
    o!(0x46, I32, I32, I32, |x, y| b(x == y)), o!(0x47, I32, I32, I32, |x, y| b(x != y)),
    o!(0x48, I32, I32, I32, |x, y| b(s(x) < s(y))), o!(0x49, I32, I32, I32, |x, y| b(x < y)),
    o!(0x4a, I32, I32, I32, |x, y| b(s(x) > s(y))), o!(0x4b, I32, I32, I32, |x, y| b(x > y)),
    o!(0x4c, I32, I32, I32, |x, y| b(s(x) <= s(y))), o!(0x4d, I32, I32, I32, |x, y| b(x <= y)),
    o!(0x4e, I32, I32, I32, |x, y| b(s(x) >= s(y))), o!(0x4f, I32, I32, I32, |x, y| b(x >= y)),
    o!(0x50, I64, NO, I32, |a, _| b(a == 0)),
    o!(0x51, I64, I64, I32, |x, y| b(x == y)), o!(0x52, I64, I64, I32, |x, y| b(x != y)),
    o!(0x53, I64, I64, I32, |x, y| b((x as i64) < y as i64)), o!(0x54, I64, I64, I32, |x, y| b(x < y)),
    o!(0x55, I64, I64, I32, |x, y| b(x as i64 > y as i64)), o!(0x56, I64, I64, I32, |x, y| b(x > y)),
    o!(0x57, I64, I64, I32, |x, y| b(x as i64 <= y as i64)), o!(0x58, I64, I64, I32, |x, y| b(x <= y)),
    o!(0x59, I64, I64, I32, |x, y| b(x as i64 >= y as i64)), o!(0x5a, I64, I64, I32, |x, y| b(x >= y)),
    o!(0x67, I32, NO, I32, |a, _| ok(clz(a, 32))), o!(0x68, I32, NO, I32, |a, _| ok(ctz(a, 32))), o!(0x69, I32, NO, I32, |a, _| ok(pop(a, 32))),
    o!(0x6a, I32, I32, I32, |x, y| ok(u(s(x).wrapping_add(s(y))))), o!(0x6b, I32, I32, I32, |x, y| ok(u(s(x).wrapping_sub(s(y))))), o!(0x6c, I32, I32, I32, |x, y| ok(u(s(x).wrapping_mul(s(y))))),
    o!(0x6d, I32, I32, I32, |x, y| if y == 0 { (DIV0, 0) } else if s(x) == i32::MIN && s(y) == -1 { (OVERFLOW, 0) } else { ok(u(s(x).wrapping_div(s(y)))) }),
    o!(0x6e, I32, I32, I32, |x, y| if y == 0 { (DIV0, 0) } else { ok((w(x) / w(y)) as u64) }),
    o!(0x6f, I32, I32, I32, |x, y| if y == 0 { (DIV0, 0) } else { ok(u(s(x).wrapping_rem(s(y)))) }),
    o!(0x70, I32, I32, I32, |x, y| if y == 0 { (DIV0, 0) } else { ok((w(x) % w(y)) as u64) }),
    o!(0x71, I32, I32, I32, |x, y| ok(x & y)), o!(0x72, I32, I32, I32, |x, y| ok(x | y)), o!(0x73, I32, I32, I32, |x, y| ok(x ^ y)),
    o!(0x74, I32, I32, I32, |x, y| ok((w(x) << (y & 31)) as u64)), o!(0x75, I32, I32, I32, |x, y| ok(u(s(x) >> (y & 31)))), o!(0x76, I32, I32, I32, |x, y| ok((w(x) >> (y & 31)) as u64)),
    o!(0x77, I32, I32, I32, |x, y| { let k = (y & 31) as u32; ok((x << k | x << k >> 32) as u32 as u64) }),
    o!(0x78, I32, I32, I32, |x, y| { let k = (y & 31) as u32; let d = x | x << 32; ok((d >> k) as u32 as u64) }),
    o!(0x79, I64, NO, I64, |a, _| ok(clz(a, 64))), o!(0x7a, I64, NO, I64, |a, _| ok(ctz(a, 64))), o!(0x7b, I64, NO, I64, |a, _| ok(pop(a, 64))),
    o!(0x7c, I64, I64, I64, |x, y| ok(x.wrapping_add(y))), o!(0x7d, I64, I64, I64, |x, y| ok(x.wrapping_sub(y))), o!(0x7e, I64, I64, I64, |x, y| ok(x.wrapping_mul(y))),
    o!(0x7f, I64, I64, I64, |x, y| if y == 0 { (DIV0, 0) } else if x as i64 == i64::MIN && y as i64 == -1 { (OVERFLOW, 0) } else { ok((x as i64).wrapping_div(y as i64) as u64) }),
    o!(0x80, I64, I64, I64, |x, y| if y == 0 { (DIV0, 0) } else { ok(x / y) }),
    o!(0x81, I64, I64, I64, |x, y| if y == 0 { (DIV0, 0) } else { ok((x as i64).wrapping_rem(y as i64) as u64) }),
    o!(0x82, I64, I64, I64, |x, y| if y == 0 { (DIV0, 0) } else { ok(x % y) }),
    o!(0x83, I64, I64, I64, |x, y| ok(x & y)), o!(0x84, I64, I64, I64, |x, y| ok(x | y)), o!(0x85, I64, I64, I64, |x, y| ok(x ^ y)),
    o!(0x86, I64, I64, I64, |x, y| ok(x << (y & 63))), o!(0x87, I64, I64, I64, |x, y| ok((x as i64 >> (y & 63)) as u64)), o!(0x88, I64, I64, I64, |x, y| ok(x >> (y & 63))),
    o!(0x89, I64, I64, I64, |x, y| { let d = (x as u128) << (y & 63); ok(d as u64 | (d >> 64) as u64) }),
    o!(0x8a, I64, I64, I64, |x, y| { let d = x as u128 | (x as u128) << 64; ok((d >> (y & 63)) as u64) }),
    o!(0xa7, I64, NO, I32, |a, _| ok(a & 0xffff_ffff)), o!(0xac, I32, NO, I64, |a, _| ok(s(a) as i64 as u64)), o!(0xad, I32, NO, I64, |a, _| ok(a)),
    o!(0xc0, I32, NO, I32, |a, _| ok(u(a as u8 as i8 as i32))), o!(0xc1, I32, NO, I32, |a, _| ok(u(a as u16 as i16 as i32))),
    o!(0xc2, I64, NO, I64, |a, _| ok(a as u8 as i8 as i64 as u64)), o!(0xc3, I64, NO, I64, |a, _| ok(a as u16 as i16 as i64 as u64)), o!(0xc4, I64, NO, I64, |a, _| ok(a as u32 as i32 as i64 as u64)),
];
fn konst(c: C, t: u8, v: u64) -> C { if t == I32 { c.i32c(v as i32) } else { c.i64c(v as i64) } }
/// every instruction, operands from locals / constants / the stack, optimizer on and off; result compared for all operand values
fn ops(opt: bool, forms: u64) {
    let o = OPS[choose("op", OPS.len() as u64) as usize];
    let form = if o.b == NO { 3 * choose("form", 2) } else { choose("form", forms) };
    let (a, y) = (symbits("a", o.a) as u64, if o.b == NO { 0 } else { symbits("b", o.b) as u64 });
    let mut m = M::new(); let p: Vec<u8> = if o.b == NO { vec![o.a] } else { vec![o.a, o.b] };
    let body = |c: C| c.ops(o.code);
    let code = match (form, o.b == NO) {
        (0, true) => body(c().get(0)),
        (_, true) => body(konst(c(), o.a, a)),
        (0, _) => body(c().get(0).get(1)),
        (1, _) => body(konst(c().get(0), o.b, y)),
        (2, _) => body(konst(c(), o.a, a).get(1)),
        (3, _) => body(konst(konst(c(), o.a, a), o.b, y)),
        (4, _) => body(c().op(2).u(1).get(0).get(1).end()), // operands are block results
        (5, _) => body(c().get(0).tee(2).get(1).tee(3)),
        (_, _) => { let c0 = c().get(1).set(3).get(0); body(c0.get(3)) }
    };
    let bt = m.ty(&[o.r], &[o.r]); let _ = bt;
    if form == 4 { m.types.clear(); m.ty(&p, &[o.r]); m.ty(&[], &p); }
    let locals: Vec<(u32, u8)> = if o.b == NO { vec![] } else { vec![(1, o.a), (1, o.b)] };
    let f = m.func(&p, &[o.r], &locals, code); m.export("f", KF, f);
    let mut st = Store::default(); let ins = inst(&mut st, &m, opt, None);
    let args: Vec<WasmValue> = if o.b == NO { vec![val(o.a, a as u128)] } else { vec![val(o.a, a as u128), val(o.b, y as u128)] };
    let (c, v) = call1(&mut st, &ins, "f", &args);
    let (ec, ev) = (o.f)(a, y);
    check(c == ec, "outcome of an integer instruction");
    if ec == OK { check(v == ev as u128, "result of an integer instruction"); cover("value"); } else { cover("trap"); }
}
h!(h_c01_ops_opt, { ops(true, 7) });
h!(h_c01_ops_plain, { ops(false, 4) });
h!(h_c01_wide, {
    let k = choose("op", 4); let opt = boolv("opt"); let opt = sym::concretize(opt as u64) != 0;
    let n = if k < 2 { 4 } else { 2 };
    let v: Vec<u64> = (0..n).map(|_| u64v("x")).collect();
    let mut m = M::new(); let p = vec![I64; n]; let mut cd = c(); for j in 0..n { cd = cd.get(j as u64) }
    let f = m.func(&p, &[I64, I64], &[], cd.fc(19 + k)); m.export("f", KF, f);
    let mut st = Store::default(); let ins = inst(&mut st, &m, opt, None);
    let args: Vec<WasmValue> = v.iter().map(|x| l(*x as i64)).collect();
    let (oc, r) = call(&mut st, &ins, "f", &args);
    let j = |lo: u64, hi: u64| lo as u128 | (hi as u128) << 64;
    let e: u128 = match k {
        0 => j(v[0], v[1]).wrapping_add(j(v[2], v[3])), 1 => j(v[0], v[1]).wrapping_sub(j(v[2], v[3])),
        2 => (v[0] as i64 as i128).wrapping_mul(v[1] as i64 as i128) as u128, _ => (v[0] as u128).wrapping_mul(v[1] as u128),
    };
    check(oc == OK && r.len() == 2, "wide arithmetic gives two values");
    check(bits(&r[0]) == e as u64 as u128, "low half of a wide result"); check(bits(&r[1]) == e >> 64, "high half of a wide result"); cover("wide");
});
