//! The same program with and without the rewriting optimisation.
use crate::rt::*;
pub struct Fam { t: u8, ops: &'static [&'static [u8]], fops: &'static [&'static [u8]], add: &'static [u8], load: (u8, u8), store: (u8, u8) }
const I32F: Fam = Fam { t: I32, ops: &[&[0x6a], &[0x6b], &[0x6c], &[0x71], &[0x72], &[0x73], &[0x74], &[0x75], &[0x76], &[0x77], &[0x78], &[0x46], &[0x47], &[0x48], &[0x49], &[0x4a], &[0x4b], &[0x4c], &[0x4d], &[0x4e], &[0x4f]], fops: &[&[0x6b], &[0x6a], &[0x74], &[0x71]], add: &[0x6a], load: (0x28, 2), store: (0x36, 2) };
const I64F: Fam = Fam { t: I64, ops: &[&[0x7c], &[0x7d], &[0x7e], &[0x83], &[0x84], &[0x85], &[0x86], &[0x87], &[0x88], &[0x89], &[0x8a]], fops: &[&[0x7d], &[0x7c], &[0x86], &[0x83]], add: &[0x7c], load: (0x29, 3), store: (0x37, 3) };
const F32F: Fam = Fam { t: F32, ops: &[&[0x92], &[0x93], &[0x94], &[0x95], &[0x96], &[0x97], &[0x98]], fops: &[&[0x93], &[0x94]], add: &[0x92], load: (0x2a, 2), store: (0x38, 2) };
const F64F: Fam = Fam { t: F64, ops: &[&[0xa0], &[0xa1], &[0xa2], &[0xa3], &[0xa4], &[0xa5], &[0xa6]], fops: &[&[0xa1], &[0xa2]], add: &[0xa0], load: (0x2b, 3), store: (0x39, 3) };
const V128F: Fam = Fam { t: V128, ops: &[&[0xfd, 78], &[0xfd, 79], &[0xfd, 80], &[0xfd, 81], &[0xfd, 0xce, 1], &[0xfd, 0xd5, 1], &[0xfd, 0xd1, 1], &[0xfd, 0xae, 1]], fops: &[&[0xfd, 79], &[0xfd, 0xce, 1]], add: &[0xfd, 0xce, 1], load: (0, 4), store: (11, 4) };
fn load(c: C, f: &Fam) -> C { if f.t == V128 { c.memfd(f.load.0 as u64, f.load.1, 0, 1) } else { c.mem(f.load.0, f.load.1, 0, 1) } }
fn store(c: C, f: &Fam) -> C { if f.t == V128 { c.memfd(f.store.0 as u64, f.store.1, 0, 1) } else { c.mem(f.store.0, f.store.1, 0, 1) } }
// locals: 0 a, 1 b, 2 d of the family's type; 3 address, 4 condition (i32); 5 scratch of the family's type. global 0: family type
const NPROD: u64 = 15;
fn producer(f: &Fam, which: u64, k: u128, to: u64, bt: u64) -> C {
    match which {
        0 => c().get(0), 1 => c().get(1), 2 => konst(c(), f.t, k), 3 => c().get(1).call(0), 4 => c().get(1).call(0).tee(to),
        5 => c().get(0).tee(to), 6 => konst(c(), f.t, k).tee(to), 7 => c().get(0).get(1).ops(f.add).tee(to), 8 => konst(c().get(1), f.t, k).ops(f.add).tee(to),
        9 => load(c().get(3), f), 10 => load(c().get(3), f).tee(to), 11 => c().gget(0), 12 => c().get(0).call(0).set(to).get(to),
        13 => c().op(2).op(f.t).get(0).get(4).brif(0).drop().get(1).end(),
        _ => { let _ = bt; c().get(4).iff(f.t).get(1).els().get(0).end() }
    }
}
const NCONS: u64 = 12;
fn consumer(f: &Fam, which: u64, to: u64, k: u128) -> C {
    match which {
        0 => c().set(5), 1 => c().set(to), 2 => c().tee(to).set(5), 3 => c().tee(to).drop(), 4 => c().set(to).get(to).set(5),
        5 => c().get(to).ops(f.add).set(to), 6 => konst(c(), f.t, k).ops(f.add).set(to), 7 => c().gset(0),
        8 => store(c().set(5).get(3).get(5), f), 9 => c().gget(0).ops(f.add).tee(to).set(5),
        10 => konst(c(), f.t, k).ops(f.fops[0]).tee(to).set(5), _ => c().drop(),
    }
}
pub struct Prog { pub t: u8, pub code: C, pub extra: Vec<(u32, u8)>, pub m64: bool }
/// runs the program both ways and compares everything observable
pub fn compare(p: &Prog, vals: &[u128; 4], addr: u64, cond: i32, memb: &[u8]) {
    let mut obs: Vec<(u32, Vec<u128>)> = Vec::new();
    let at = if p.m64 { I64 } else { I32 };
    let mut m = M::new();
    let ident = m.ty(&[p.t], &[p.t]); let _ = ident;
    let idf = m.func(&[p.t], &[p.t], &[], c().get(0)); let _ = idf;
    m.mem(memty(p.m64, 24, Some(24), 0)); m.export("m", KM, 0);
    let g = m.global(p.t, true, konst(c(), p.t, 0)); m.export("g", KG, g);
    let mut locals = vec![(1, p.t)]; locals.extend_from_slice(&p.extra);
    let body = p.code.clone().get(0).get(1).get(2).get(5).get(3).get(4);
    let f = m.func(&[p.t, p.t, p.t, at, I32], &[p.t, p.t, p.t, p.t, at, I32], &locals, body); m.export("f", KF, f);
    let bytes = m.bytes();
    for opt in [false, true] {
        let md = match parse_opt(&bytes, opt) { Ok(m) => m, Err(_) => panic!("harness module rejected") };
        let mut st = Store::default();
        let ins = match ModuleInstance::instantiate(&mut st, &md, None) { Ok(i) => i, Err(_) => panic!("no instance") };
        let mem = ins.memory("m").unwrap(); let _ = mem.copy_from_slice(&mut st, 0, memb);
        let gl = ins.global("g").unwrap(); let _ = gl.set(&mut st, val(p.t, vals[3]));
        let a = if p.m64 { l(addr as i64) } else { i(addr as i32) };
        let args = [val(p.t, vals[0]), val(p.t, vals[1]), val(p.t, vals[2]), a, i(cond)];
        let (oc, r) = call(&mut st, &ins, "f", &args);
        let mut o: Vec<u128> = r.iter().map(bits).collect();
        o.push(bits(&gl.get(&st).unwrap()));
        for b in mem.read_vec(&st, 0, 24).unwrap() { o.push(b as u128) }
        obs.push((oc, o));
    }
    check(obs[0].0 == obs[1].0, "same outcome with and without optimisation");
    let mut eq = obs[0].1.len() == obs[1].1.len(); check(eq, "same number of values");
    let fl = p.t == F32 || p.t == F64; // the payload of a computed NaN is not determined
    let nan = |v: u128| if p.t == F32 { v as u32 & 0x7fff_ffff > 0x7f80_0000 } else { v as u64 & (u64::MAX >> 1) > 0x7ff0_0000_0000_0000 };
    for (j, (x, y)) in obs[0].1.iter().zip(obs[1].1.iter()).enumerate() { eq &= (x == y) | (fl && j < 7 && j != 4 && j != 5 && nan(*x) & nan(*y)) }
    check(eq, "same values with and without optimisation");
    if obs[0].0 == OK { cover("value") } else { cover("trap") }
}
fn syms(t: u8) -> ([u128; 4], u128) { ([symbits("a", t), symbits("b", t), symbits("d", t), symbits("g", t)], symbits("k", t)) }
fn membytes() -> [u8; 24] { sym::bytes("mem") }
/// producer, producer, operator, consumer; level 0: every operator, few shapes; 1: few operators, many shapes; 2: all combinations
fn binop(f: &Fam, level: u32) {
    let op: &[u8]; let (p1, p2, cons, t1, t2, t3);
    let tee = |p: u64| matches!(p, 4..=8 | 10 | 12);
    match level {
        0 => { op = f.ops[choose("op", f.ops.len() as u64) as usize]; p1 = [0, 2, 9][choose("p1", 3) as usize]; p2 = [1, 2, 11, 0][choose("p2", 4) as usize]; cons = [0, 1, 2, 5][choose("cons", if f.t == F32 || f.t == F64 { 3 } else { 4 }) as usize]; t1 = 0; t2 = 0; t3 = if cons == 0 { 0 } else { [0, 2][choose("t3", 2) as usize] }; }
        1 => {
            op = f.fops[if f.t == I32 { choose("op", 2) as usize } else { 0 }]; p1 = choose("p1", NPROD); p2 = choose("p2", NPROD); cons = [0, 1, 2, 5, 6, 7, 9][choose("cons", 7) as usize];
            t1 = 0; t2 = if tee(p2) { [0, 2][choose("t2", 2) as usize] } else { 0 }; t3 = if matches!(cons, 0 | 7) { 0 } else if tee(p1) || tee(p2) { 0 } else { [2, 0][choose("t3", 2) as usize] };
        }
        _ => {
            op = f.fops[choose("op", f.fops.len() as u64) as usize]; p1 = choose("p1", NPROD); p2 = choose("p2", NPROD); cons = choose("cons", NCONS);
            t1 = if tee(p1) { [0, 2][choose("t1", 2) as usize] } else { 0 }; t2 = if tee(p2) { [1, 2, 0][choose("t2", 3) as usize] } else { 0 };
            t3 = if matches!(cons, 0 | 7 | 8 | 11) { 0 } else { [2, 0][choose("t3", 2) as usize] };
        }
    }
    let (vals, k) = syms(f.t); let k2 = symbits("k2", f.t);
    let code = producer(f, p1, k, t1, 0).cat(&producer(f, p2, k2, t2, 0)).ops(op).cat(&consumer(f, cons, t3, k));
    let p = Prog { t: f.t, code, extra: vec![], m64: false };
    let mut memb = membytes(); if level > 0 { for (j, b) in memb.iter_mut().enumerate() { *b = j as u8 * 7 } }
    let addr = if level > 0 || f.t == F32 || f.t == F64 { 4 } else { u32v("addr") as u64 };
    compare(&p, &vals, addr, i32v("cond"), &memb);
}
h!(h_c10_bin32, { binop(&I32F, 1) });
h!(h_c10_bin64, { binop(&I64F, 1) });
h!(h_c10_binv, { binop(&V128F, 1) });
h!(h_c10_bin32x, { binop(&I32F, 2) });
h!(h_c10_bin64x, { binop(&I64F, 2) });
h!(h_c10_binvx, { binop(&V128F, 2) });
h!(h_c10_ops32, { binop(&I32F, 0) });
h!(h_c10_ops64, { binop(&I64F, 0) });
h!(h_c10_opsf32, { binop(&F32F, 0) });
h!(h_c10_opsf64, { binop(&F64F, 0) });
h!(h_c10_opsv, { binop(&V128F, 0) });
/// two shifts by constants, which may be a sign extension
fn shifts(f: &Fam) {
    let (vals, k) = syms(f.t); let k2 = symbits("k2", f.t); let w = f.t == I64; let op = [0x75u8, 0x76, 0x74][choose("op2", 3) as usize] + if w { 0x12 } else { 0 };
    let code = konst(konst(c().get(0), f.t, k).op(if w { 0x86 } else { 0x74 }), f.t, k2).op(op);
    let code = match choose("use", 3) { 0 => code.set(5), 1 => code.tee(0).set(5), _ => code.gset(0) };
    compare(&Prog { t: f.t, code, extra: vec![], m64: false }, &vals, 4, 0, &[0; 24]);
}
h!(h_c10_shift32, { shifts(&I32F) });
h!(h_c10_shift64, { shifts(&I64F) });
/// every sequence of `n` instructions from a small menu on top of two values the optimizer knows nothing about
fn window(f: &Fam, n: u32, menu: u64) {
    let (vals, k) = syms(f.t); let mut depth = 2i32;
    let mut code = c().get(0).call(0).get(1).call(0);
    for _ in 0..n {
        code = match choose("ins", menu) {
            0 => { assume(depth >= 2); depth -= 1; code.ops(f.fops[0]) }
            1 => { depth += 1; code.get(0) }
            2 => { assume(depth >= 1); code.tee(1) }
            3 => { assume(depth >= 1); depth -= 1; code.set(0) }
            4 => { assume(depth >= 1); code.tee(0) }
            5 => { depth += 1; konst(code, f.t, k) }
            6 => { assume(depth >= 1); depth -= 1; code.drop() }
            7 => { depth += 1; code.get(1) }
            8 => { assume(depth >= 1); depth -= 1; code.set(1) }
            9 => { depth += 1; code.gget(0) }
            10 => { assume(depth >= 2); depth -= 1; code.ops(f.fops[1]) }
            _ => { assume(depth >= 1); code.op(2).u(0).end() } // a label: nothing may be fused across it
        };
        sym::assume(depth <= 4);
    }
    for _ in 0..depth { code = code.set(5).get(5).gset(0) }
    let p = Prog { t: f.t, code, extra: vec![], m64: false };
    compare(&p, &vals, 4, i32v("cond"), &[0; 24]);
}
h!(h_c10_win32, { window(&I32F, 4, 11) });
h!(h_c10_win64, { window(&I64F, 4, 7) });
h!(h_c10_winv, { window(&V128F, 4, 7) });
h!(h_c10_winf, { window(&F32F, 4, 7) });
h!(h_c10_win32x, { window(&I32F, 5, 11) });
h!(h_c10_win64x, { window(&I64F, 5, 11) });
h!(h_c10_winvx, { window(&V128F, 5, 11) });
/// two operators in a row over three operands
fn tri(f: &Fam) {
    let (vals, k) = syms(f.t); let fl = f.t == F32 || f.t == F64;
    // add, mul, sub, and / or a division, resp. min
    let ops: [&[u8]; 4] = match f.t { I32 => [&[0x6a], &[0x6c], &[0x6b], &[0x71]], I64 => [&[0x7c], &[0x7e], &[0x7d], &[0x83]], F32 => [&[0x92], &[0x94], &[0x93], &[0x98]], F64 => [&[0xa0], &[0xa2], &[0xa1], &[0xa6]], _ => [&[0xfd, 0xce, 1], &[0xfd, 0xd5, 1], &[0xfd, 78], &[0xfd, 79]] };
    let (o1, o2) = (ops[choose("op1", 4) as usize], ops[choose("op2", if fl { 3 } else { 4 }) as usize]);
    let z = match choose("z", 6) { 0 => c().get(0), 1 => c().get(1), 2 => c().get(2), 3 => konst(c(), f.t, k), 4 => c().gget(0), _ => c().get(5).tee(2) };
    let xy = match choose("xy", 3) { 0 => c().get(0).call(0).get(1).call(0), 1 => c().get(0).get(1), _ => c().get(0).call(0).get(2) };
    let code = if choose("order", 2) == 0 { xy.ops(o1).cat(&z).ops(o2) } else { z.cat(&xy).ops(o1).ops(o2) };
    let code = match choose("use", 4) { 0 => code.set(0), 1 => code.set(2), 2 => code.tee(1).gset(0), _ => code.set(1).get(1).set(5) };
    compare(&Prog { t: f.t, code, extra: vec![], m64: false }, &vals, 4, 0, &[0; 24]);
}
h!(h_c10_tri32, { tri(&I32F) });
h!(h_c10_tri64, { tri(&I64F) });
h!(h_c10_trif32, { tri(&F32F) });
h!(h_c10_trif64, { tri(&F64F) });
h!(h_c10_triv, { tri(&V128F) });
/// conditions: operand, operand, comparison, optional eqz, jump
fn branch(wide: bool) {
    let t = if wide { I64 } else { I32 };
    let (vals, k) = syms(t); let base = if wide { 0x51 } else { 0x46 };
    let form = choose("form", 9); let mut code = c();
    let konst32 = |c: C| { if form == 7 { konst(c, t, (k as i32) as i64 as u128 & mask(t)) } else { konst(c, t, k) } };
    code = match form {
        0 => code.get(0), 1 => code.get(0).call(0), 2 => code.get(0).get(1), 3 => konst32(code.get(0)), 4 => konst32(code.get(0).call(0)),
        5 => konst(code.get(0), t, 0), 6 => konst(code.get(0).call(0), t, 0), 7 => konst32(code.get(0)), _ => konst(code, t, k).get(1),
    };
    if form >= 2 { let op = (base + choose("cmp", 10)) as u8; code = code.op(op) } else if wide { code = code.op(0x50) }
    for _ in 0..choose("eqz", 3) { code = code.op(0x45) }
    // the condition is on the stack
    let mark = |c: C, n: u128| konst(c, t, n).set(5);
    code = match choose("jump", 7) {
        0 => mark(c().op(2).op(VOID).cat(&code).brif(0), 1).end(),
        1 => mark(mark(code.iff(VOID), 2).els(), 3).end(),
        2 => mark(code.iff(VOID), 2).end(),
        3 => { // a loop that runs once more when the condition holds
            let inc = konst(c().get(5), t, 1).ops(if wide { &[0x7c] } else { &[0x6a] }).set(5);
            let g = c().get(4).op(0x45).brif(1); // leave when the second condition is zero
            c().op(2).op(VOID).lp(VOID).cat(&inc).cat(&g).i32c(0).set(4).cat(&code).brif(0).end().end()
        }
        4 => c().get(0).get(1).cat(&code).select().set(5),
        5 => konst(c().op(2).op(t).get(0).cat(&code).brif(0).drop(), t, 9).end().set(5), // branch with a value
        _ => { // loop whose exit test comes first and which jumps back to it
            let inc = konst(c().get(5), t, 1).ops(if wide { &[0x7c] } else { &[0x6a] }).set(5);
            c().op(2).op(VOID).lp(VOID).cat(&code).brif(1).cat(&inc).get(5).ops(if wide { &[0xa7] } else { &[] }).i32c(2).op(0x4a).brif(1).br(0).end().end()
        }
    };
    let p = Prog { t, code, extra: vec![], m64: false };
    compare(&p, &vals, 4, i32v("cond"), &[0; 24]);
}
h!(h_c10_branch32, { branch(false) });
h!(h_c10_branch64, { branch(true) });
/// memory instructions: address and value operands from everywhere, read-modify-write sequences, two memories, both index types
fn memops(m64: bool) {
    let at = if m64 { I64 } else { I32 };
    let addr = if m64 { u64v("addr") } else { u32v("addr") as u64 }; let v = u64v("v"); let w = u64v("w"); let k = if m64 { u64v("k") } else { u32v("k") as u64 };
    let off = choose("off", 2) * 2;
    let ac = |c: C| -> C { konst(c, at, k as u128) };
    // locals: 0 address, 1 address, 2 i32, 3 i64, 4 f32, 5 f64, 6 v128, 7 second address
    let loc = |t: u8| -> u64 { match t { I32 => 2, I64 => 3, F32 => 4, F64 => 5, _ => 6 } };
    let a = |which: u64| -> C { match which { 0 => c().get(0), 1 => ac(c()), 2 => c().get(0).call(0), 3 => c().get(1), _ => ac(c().get(0)).op(if m64 { 0x7c } else { 0x6a }) } };
    let mut code = c(); let mut m = M::new(); let tys = m.ty(&[I32], &[I32]) as u64; for t in [I64, F32, F64, V128] { m.ty(&[t], &[t]); }
    let shape = choose("shape", 6); let mem = if shape < 2 { 1 - off / 2 } else { choose("memory", 2) };
    match shape {
        0 => { // load, then use
            let (op, al, t): (u8, u8, u8) = [(0x28, 2, I32), (0x29, 3, I64), (0x2a, 2, F32), (0x2b, 3, F64), (0x2c, 0, I32), (0x2d, 0, I32), (0x2e, 1, I32), (0x2f, 1, I32), (0x30, 0, I64), (0x35, 2, I64), (0, 4, V128)][choose("load", 11) as usize];
            let ld = |x: C| if t == V128 { x.memfd(op as u64, al, mem, off) } else { x.mem(op, al, mem, off) };
            code = ld(a(choose("a", 5)));
            code = match choose("use", 5) { 0 => code.set(loc(t)), 1 => code.tee(loc(t)).drop(), 2 => code.set(loc(t)).get(loc(t)).set(loc(t)),
                3 => { if t == I32 && at == I32 { ld(code.tee(1)).tee(0).set(2) } else { code.drop() } } _ => { if t == I32 { code.i32c(1).op(0x6a).tee(2).drop() } else if t == I64 { code.i64c(1).op(0x7c).set(3) } else { code.tee(loc(t)).set(loc(t)) } } };
        }
        1 => { // store
            let (op, al, t): (u8, u8, u8) = [(0x36, 2, I32), (0x37, 3, I64), (0x38, 2, F32), (0x39, 3, F64), (0x3a, 0, I32), (0x3b, 1, I32), (0x3c, 0, I64), (0x3e, 2, I64), (11, 4, V128)][choose("store", 9) as usize];
            let st = |x: C| if t == V128 { x.memfd(op as u64, al, mem, off) } else { x.mem(op, al, mem, off) };
            code = a(choose("a", 5));
            code = match choose("val", 3) { 0 => code.get(loc(t)), 1 => konst(code, t, w as u128), _ => code.get(loc(t)).op(2).u(tys + match t { I32 => 0, I64 => 1, F32 => 2, F64 => 3, _ => 4 }).end() }; // through a block
            code = st(code);
        }
        2 => { // read, add, write back; every part may differ from the pattern
            let wide = choose("wide", 2) == 1; let mem2 = choose("mem2", 2); let off2 = [off, 1][choose("off2", 2) as usize];
            let (ldo, sto, al, add) = if wide { (0x29, 0x37, 3, 0x7c) } else { (0x28, 0x36, 2, 0x6a) };
            let inc = [1u64, 2, u64::MAX][choose("inc", 3) as usize];
            code = a([0, 3, 2][choose("a", 3) as usize]).cat(&a([0, 3][choose("a2", 2) as usize]));
            code = code.mem(ldo, al, mem2, off2);
            code = konst(code, if wide { I64 } else { I32 }, inc as u128).op(add).mem(sto, al, mem, off);
        }
        3 => { // x*y+z stored
            let wide = choose("wide", 2) == 1; let o = choose("ord", 3);
            let (mul, add, st, al, lo) = if wide { (0xa2, 0xa0, 0x39, 3, 5) } else { (0x94, 0x92, 0x38, 2, 4) };
            let x = konst(c(), if wide { F64 } else { F32 }, if wide { 0x4008_0000_0000_0000 } else { 0x4040_0000 });
            code = a(choose("a", 3));
            code = match o { 0 => code.get(lo).get(lo).cat(&x).op(mul).op(add), 1 => code.get(lo).cat(&x).op(mul).get(lo).op(add), _ => code.get(lo).get(lo).op(mul).get(lo).op(add).tee(lo) };
            code = code.mem(st, al, mem, off);
        }
        4 => { // fill
            let ln = |c: C, x: u64| konst(c, at, x as u128);
            code = a(choose("a", 3));
            code = if choose("val", 2) == 0 { code.i32c(w as i32) } else { code.get(2) };
            code = match choose("len", 3) { 0 => ln(code, k), 1 => code.get(1), _ => ln(code, 3) };
            code = code.fc(11).u(mem);
        }
        _ => { // two loads feeding an operation
            let o = [0x6a, 0x6b][choose("op", 2) as usize];
            code = a(choose("a", 3)).mem(0x28, 2, mem, off).tee(2).cat(&a([3, 1][choose("a2", 2) as usize])).mem(0x28, 2, 0, 0);
            if choose("tee", 2) == 1 { code = code.tee(8) }
            code = code.op(o).set(2);
        }
    }
    let memt = memty(m64, 18, Some(18), 0); m.mem(memt.clone()); m.mem(memty(m64, 20, Some(20), 0)); m.export("m", KM, 0); m.export("n", KM, 1);
    m.func(&[at], &[at], &[], c().get(0));
    let ps = [at, at, I32, I64, F32, F64, V128, at]; let mut rs = ps.to_vec(); rs.push(I32);
    let body = code.clone().get(0).get(1).get(2).get(3).get(4).get(5).get(6).get(7).get(8);
    let f = m.func(&ps, &rs, &[(1, I32)], body); m.export("f", KF, f);
    let bytes = m.bytes();
    let (b1, b2): ([u8; 18], [u8; 20]) = (sym::bytes("m1"), sym::bytes("m2"));
    let args = [val(at, addr as u128), val(at, addr.wrapping_add(w) as u128 & mask(at)), i(v as i32), l(w as i64), val(F32, (v >> 32) as u128), val(F64, v as u128), val(V128, v as u128 | (w as u128) << 64), val(at, 3)];
    let mut obs: Vec<(u32, Vec<u128>)> = Vec::new();
    for opt in [false, true] {
        let md = match parse_opt(&bytes, opt) { Ok(m) => m, Err(_) => panic!("harness module rejected") };
        let mut st = Store::default(); let ins = ModuleInstance::instantiate(&mut st, &md, None).unwrap();
        let (x, y) = (ins.memory("m").unwrap(), ins.memory("n").unwrap());
        x.copy_from_slice(&mut st, 0, &b1).unwrap(); y.copy_from_slice(&mut st, 0, &b2).unwrap();
        let (oc, r) = call(&mut st, &ins, "f", &args);
        let mut o: Vec<u128> = r.iter().map(bits).collect();
        for b in x.read_vec(&st, 0, 18).unwrap() { o.push(b as u128) } for b in y.read_vec(&st, 0, 20).unwrap() { o.push(b as u128) }
        obs.push((oc, o));
    }
    check(obs[0].0 == obs[1].0, "same outcome with and without optimisation");
    let mut eq = obs[0].1.len() == obs[1].1.len();
    for (x, y) in obs[0].1.iter().zip(obs[1].1.iter()) { eq &= x == y }
    check(eq, "same values and memory with and without optimisation");
    if obs[0].0 == OK { cover("value") } else { cover("trap") }
}
h!(h_c10_mem32, { memops(false) });
h!(h_c10_mem64, { memops(true) });
// ---- functions with more locals than fit eight bits
fn many(m64: bool) {
    // (load opcode, alignment, type)
    const LD: [(u8, u8); 8] = [(0x28, I32), (0x2c, I32), (0x2d, I32), (0x2e, I32), (0x2f, I32), (0x2a, F32), (0x29, I64), (0x00, V128)];
    const N: u32 = 300; const KS: [u32; 6] = [1, 33, 254, 255, 256, 289];
    let at = if m64 { I64 } else { I32 };
    let lane = |t: u8, k: u64| -> u64 { 5 + k + match t { I32 => 0, I64 => N as u64, F32 => 2 * N as u64, _ => 2 * N as u64 + 40 } };
    let kind = choose("kind", 6); let li = choose("load", 8) as usize; let (op, t) = LD[li]; let (ka, kd) = (KS[choose("addr", 6) as usize] as u64, KS[choose("dst", 6) as usize] as u64);
    let kt = |t: u8, k: u64| if t == F32 { k % 40 } else { k };
    let (a, d) = (lane(at, ka), lane(t, kt(t, kd))); let load = |c: C| if t == V128 { c.memfd(0, 0, 0, 1) } else { c.mem(op, 0, 0, 1) };
    let store = |c: C| match t { V128 => c.memfd(11, 0, 0, 1), I64 => c.mem(0x37, 0, 0, 1), F32 => c.mem(0x38, 0, 0, 1), _ => c.mem(0x36, 0, 0, 1) };
    let v = |t: u8| match t { I32 => 1u64, I64 => 2, F32 => 3, _ => 4 };
    let mut code = c().get(0).set(a).get(v(t)).set(d);
    let bin: &[u8] = match t { I32 => &[0x6a], I64 => &[0x7c], F32 => &[0x98], _ => &[0xfd, 81] };
    match kind {
        0 => code = load(code.get(a)).set(d), 1 => code = load(code.get(a)).tee(d).drop(), 2 => code = store(code.get(a).get(d)),
        3 => { if t == F32 || t == V128 { return } code = store(load(code.get(a).get(a)).ops(if t == I64 { &[0x42, 1] } else { &[0x41, 1] }).ops(bin)) }
        4 => code = code.get(d).get(v(t)).ops(bin).set(d), _ => code = load(code.get(a)).get(d).ops(bin).tee(d).drop(),
    }
    let mut rs = vec![]; for t in [I32, I64, V128] { for k in [0u64, 1, 33, 254, 255, 256, 289, 33 + 256 - 256] { code = code.get(lane(t, k)); rs.push(t) } } for k in 0..4 { code = code.get(lane(F32, kt(F32, KS[k] as u64))); rs.push(F32) }
    let mut m = M::new(); m.mem(memty(m64, 24, Some(24), 0)); m.export("m", KM, 0);
    let ps = [at, I32, I64, F32, V128]; let f = m.func(&ps, &rs, &[(N, I32), (N, I64), (40, F32), (N, V128)], code); m.export("f", KF, f); let bytes = m.bytes();
    let addr = u64v("at") & mask(at) as u64; let x = u64v("x"); let memb = membytes(); let args = [val(at, addr as u128), val(I32, x as u32 as u128), val(I64, x as u128), val(F32, x as u32 as u128), val(V128, (x as u128) << 32 | 5)];
    let mut obs: Vec<(u32, Vec<u128>)> = Vec::new();
    for opt in [false, true] {
        let md = match parse_opt(&bytes, opt) { Ok(m) => m, Err(_) => panic!("harness module rejected") };
        let mut st = Store::default(); let ins = match ModuleInstance::instantiate(&mut st, &md, None) { Ok(i) => i, Err(_) => panic!("no instance") };
        let mem = ins.memory("m").unwrap(); let _ = mem.copy_from_slice(&mut st, 0, &memb);
        let (oc, r) = call(&mut st, &ins, "f", &args); let mut o: Vec<u128> = r.iter().map(bits).collect(); for b in mem.read_vec(&st, 0, 24).unwrap() { o.push(b as u128) } obs.push((oc, o));
    }
    check(obs[0].0 == obs[1].0, "same outcome with and without optimisation"); let mut eq = obs[0].1.len() == obs[1].1.len(); if eq { for (x, y) in obs[0].1.iter().zip(&obs[1].1) { eq &= x == y } } check(eq, "same values with and without optimisation"); if obs[0].0 == OK { cover("value") } else { cover("trap") }
}
h!(h_c10_many32, { many(false) });
h!(h_c10_many64, { many(true) });
