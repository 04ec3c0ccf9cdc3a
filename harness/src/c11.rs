//! Structured control flow against a structured evaluation.
use crate::prog::*;
use crate::rt::*;
// parameters shared by the templates: 0 i32, 1 i64, 2 v128, 3 f64, 4 condition, 5 index; locals 6 i32 counter, 7 i64
const P: [u8; 6] = [I32, I64, V128, F64, I32, I32];
const L: [u8; 2] = [I32, I64];
/// a value of each type, distinguishable from the others
fn push(t: u8, k: u128) -> Vec<I> { match t { I32 => vec![Get(0), K(I32, k), Add(I32)], I64 => vec![Get(1), K(I64, k), Add(I64)], V128 => vec![Get(2), K(V128, k | k << 70), Add(V128)], F64 => vec![Get(3)], _ => vec![K(t, 0x7fa0_0001 + k)] } }
fn pushes(ts: &[u8], k: u128) -> Vec<I> { ts.iter().enumerate().flat_map(|(i, t)| push(*t, k + i as u128)).collect() }
const CARRY: [&[u8]; 9] = [&[], &[I32], &[I64], &[V128], &[F64], &[I32, I64], &[V128, I32], &[I32, F64, I32], &[I64, V128, I64, I32]];
const JUNK: [&[u8]; 6] = [&[], &[I32], &[I64, V128, I32], &[V128], &[I64], &[F32]];
fn cat(a: Vec<I>, b: Vec<I>) -> Vec<I> { let mut a = a; a.extend(b); a }
/// changes the carried values after the construct, so that running the tail twice or not at all shows
fn bump(ts: &[u8]) -> Vec<I> { match ts.last() { Some(t) if *t != F64 && *t != F32 => { let mut v = push(*t, 1 << 20); v.push(Add(*t)); v } _ => vec![K(I32, 1), GGet(0), Add(I32), GSet(0)] } }
fn prog(r: &[u8], b: Vec<I>) -> Prog { Prog { funs: vec![Fun { p: P.to_vec(), r: r.to_vec(), l: L.to_vec(), b }], globals: vec![(I32, 0)], ..Default::default() } }
/// a branch out of two nested constructs, carrying values over discarded ones
fn carry(kinds: u64, full: bool) { carry2(kinds, if full { 1 } else { 0 }) }
fn carry2(kinds: u64, mode: u32) {
    let full = mode == 1; let (ko, ki) = (kinds % 3, kinds / 3);
    let ts = CARRY[choose("carried", CARRY.len() as u64) as usize]; let how = choose("branch", 4);
    let js = if mode == 2 { let t = 3 + choose("only", 3) as usize; [[2, 0, t], [2, t, 0]][choose("where", 2) as usize] } else if full { [choose("below", 2) as usize * 2, choose("outer", 2) as usize * 2, choose("inner", 2) as usize * 2] } else { [[1, 0, 2], [0, 2, 0], [2, 1, 1]][choose("junk", 3) as usize] };
    let (j0, j1, j2) = (JUNK[js[0]], JUNK[js[1]], JUNK[js[2]]);
    let r: Vec<u8> = j0.iter().chain(ts).copied().collect();
    // the labels a branch in the innermost code may name, innermost first, with the types each expects
    let mut labels: Vec<Vec<u8>> = vec![]; for k in [ki, ko] { if k == 2 { labels.push(vec![]) } labels.push(ts.to_vec()) } labels.push(r.clone());
    let depth = choose("depth", labels.len() as u64) as u32; let want = labels[depth as usize].clone();
    let opt = if full { choose("opt", 2) == 1 } else { (how + depth as u64 + ts.len() as u64 + j2.len() as u64) % 2 == 1 };
    let others: Vec<u32> = (0..labels.len() as u32).rev().filter(|k| labels[*k as usize] == want).collect();
    let br = match how { 0 => vec![Br(depth)], 1 => vec![Get(4), BrIf(depth)], 2 => vec![Get(5), BrT(others, depth)], _ => vec![Get(4), If(want.clone(), want.clone(), cat(bump(&want), vec![Br(depth + 1)]), None)] };
    let wrap = |kind: u64, b: Vec<I>| -> Vec<I> { match kind { 0 => vec![Block(vec![], ts.to_vec(), b)], 1 => vec![Get(4), If(vec![], ts.to_vec(), cat(b.clone(), vec![]), Some(cat(pushes(ts, 40), vec![K(I32, 5), GSet(0)])))], _ => vec![Block(vec![], ts.to_vec(), vec![Loop(vec![], ts.to_vec(), cat(b, vec![Br(1)]))])] } };
    // leaves a loop after its second turn
    let leave = |kind: u64, local: u32, n: u128, k: u128, b: Vec<I>| -> Vec<I> { if kind != 2 { return b } let t = L[(local - 6) as usize]; let mut v = vec![Get(local), K(t, 1), Add(t), Tee(local)]; if t == I64 { v.push(Wrap) } v.extend(vec![K(I32, n), Ltu, Eqz(I32), If(vec![], vec![], cat(pushes(ts, k), vec![Br(2)]), None)]); cat(v, b) };
    let fall = cat(pushes(ts, 60), cat(bump(ts), if ki != 2 { vec![Br(0)] } else { vec![] }));
    let inner = cat(cat(pushes(j2, 1), pushes(&want, 10)), cat(br, if how == 0 || how == 2 { vec![] } else { fall }));
    let mid = cat(pushes(j1, 4), cat(wrap(ki, leave(ki, 6, 2, 30, inner)), cat(bump(ts), if ko != 2 { vec![Br(0)] } else { vec![] })));
    let b = cat(pushes(j0, 20), cat(wrap(ko, leave(ko, 7, 3, 50, mid)), bump(ts)));
    compare(&prog(&r, b), opt, &symargs(&P), &[]);
}
// ---- discarded values of a single type
h!(h_c11_only, { carry2([0, 4, 8, 5][choose("kinds", 4) as usize], 2) });
h!(h_c11_carry0, { carry(0, false) });
h!(h_c11_carry0x, { carry(0, true) });
h!(h_c11_carry1, { carry(1, false) });
h!(h_c11_carry1x, { carry(1, true) });
h!(h_c11_carry2, { carry(2, false) });
h!(h_c11_carry2x, { carry(2, true) });
h!(h_c11_carry3, { carry(3, false) });
h!(h_c11_carry3x, { carry(3, true) });
h!(h_c11_carry4, { carry(4, false) });
h!(h_c11_carry4x, { carry(4, true) });
h!(h_c11_carry5, { carry(5, false) });
h!(h_c11_carry5x, { carry(5, true) });
h!(h_c11_carry6, { carry(6, false) });
h!(h_c11_carry6x, { carry(6, true) });
h!(h_c11_carry7, { carry(7, false) });
h!(h_c11_carry7x, { carry(7, true) });
h!(h_c11_carry8, { carry(8, false) });
h!(h_c11_carry8x, { carry(8, true) });

// ---- statements: every program of the given shape over branches, loops and conditionals
fn assign(k: u128) -> Vec<I> { vec![Get(0), K(I32, k), Add(I32), Set(0), Get(1), Get(0), Ext, Add(I64), Set(1)] }
/// a statement with `n` labels in scope (all without values; the outermost is the function, whose results are pushed first)
fn stmt(n: u32, depth: u32, k: u128) -> Vec<I> {
    let leaves = 1 + 2 * (n as u64 - 1) + 3; let c = choose("s", leaves + if depth > 0 { 4 } else { 0 });
    if c == 0 { return assign(k) }
    if c < n as u64 { return cat(assign(k), vec![Br(c as u32 - 1)]) }
    if c < 2 * n as u64 - 1 { return cat(vec![Get(4), Get(0), Xor(I32), BrIf(c as u32 - n)], assign(k)) }
    let c = c - (2 * n as u64 - 1);
    if c == 0 { return if n == 1 { assign(k) } else { vec![Get(5), BrT((0..n - 1).collect(), n - 2)] } }
    if c == 1 { return vec![Get(0), Get(1), Ret] }
    if c == 2 { return vec![Get(4), If(vec![], vec![], vec![Get(0), Get(1), Br(n)], None)] }
    let c = c - 3; let lc = 6;
    match c {
        0 => cat(vec![Block(vec![], vec![], cat(stmt(n + 1, depth - 1, k * 3), assign(k)))], assign(k + 1)),
        1 => cat(vec![Block(vec![], vec![], vec![Loop(vec![], vec![], { let mut v = vec![Get(lc), K(I32, 1), Add(I32), Tee(lc), K(I32, 3), Ltu, Eqz(I32), BrIf(1)]; v.extend(stmt(n + 2, depth - 1, k * 5)); v.extend(assign(k)); v.push(Br(0)); v })])], assign(k + 2)),
        2 => vec![Get(4), If(vec![], vec![], stmt(n + 1, depth - 1, k * 7), Some(assign(k)))],
        _ => vec![Get(5), Eqz(I32), If(vec![], vec![], assign(k * 11), Some(stmt(n + 1, depth - 1, k * 7)))],
    }
}
fn stmts(opt: bool, b: Vec<I>) { let b = cat(b, vec![Get(0), Get(1)]); compare(&prog(&[I32, I64], b), opt, &symargs(&P), &[]) }
h!(h_c11_stmt_block, { let k = choose("opt", 2) == 1; stmts(k, { let mut v = stmt(2, 1, 3); v.extend(stmt(2, 0, 100)); v.extend(assign(9)); vec![Block(vec![], vec![], v)] }) });
h!(h_c11_stmt_loop, { stmts(true, vec![Block(vec![], vec![], vec![Loop(vec![], vec![], { let mut v = vec![Get(7), K(I64, 1), Add(I64), Tee(7), Wrap, K(I32, 3), Ltu, Eqz(I32), BrIf(1)]; v.extend(stmt(3, 1, 3)); v.extend(stmt(3, 0, 100)); v })])]) });
h!(h_c11_stmt_if, { stmts(true, vec![Get(0), If(vec![], vec![], { let mut v = stmt(2, 0, 3); v.extend(assign(5)); v }, Some({ let mut v = stmt(2, 1, 30); v.extend(assign(9)); v }))]) });
h!(h_c11_stmt_seq, { let opt = choose("opt", 2) == 1; let mut v = stmt(1, 1, 3); v.extend(stmt(1, 1, 100)); stmts(opt, v) });
h!(h_c11_stmt_2x, { let opt = choose("opt", 2) == 1; let mut v = stmt(1, 2, 3); v.extend(assign(100)); stmts(opt, v) });
// ---- br_table as a switch
fn switch(ls: Vec<u32>, d: u32, ts: &[u8], opt: bool, inv: u64) {
    let idx = match inv { 0 => vec![Get(5)], 1 => vec![Get(5), K(I32, 0xffff_ffff), Add(I32)], _ => vec![Get(1), Wrap] };
    let mut b = cat(cat(pushes(&[I64, I32], 3), pushes(ts, 8)), cat(idx, vec![BrT(ls, d)]));
    for k in 0..3u128 { b = vec![Block(vec![], ts.to_vec(), b)]; b.extend(bump(ts)); b.extend([GGet(0), K(I32, 1 << (4 * k)), Add(I32), GSet(0)]); if k == 1 { b.extend([Get(4), BrIf(0)]) } }
    compare(&prog(ts, b), opt, &symargs(&P), &[]);
}
h!(h_c11_switch, {
    let n = choose("targets", 4); let d = choose("default", 4) as u32; let ls: Vec<u32> = (0..n).map(|k| choose(["t0", "t1", "t2"][k as usize], if k == 2 { 2 } else { 4 }) as u32).collect();
    let m = ls.iter().sum::<u32>() as u64 + n + d as u64; switch(ls, d, [&[][..], &[I64], &[V128, I32]][(m % 3) as usize], m / 3 % 2 == 0, m % 5 % 3);
});
h!(h_c11_switchx, {
    let n = choose("targets", 4); let d = choose("default", 4) as u32; let ls: Vec<u32> = (0..n).map(|k| choose(["t0", "t1", "t2"][k as usize], 4) as u32).collect();
    switch(ls, d, [&[][..], &[I64], &[V128, I32]][choose("carried", 3) as usize], choose("opt", 2) == 1, choose("index", 3));
});
h!(h_c11_switchlong, {
    let n = 40; let d = choose("default", 3) as u32; let m = choose("pattern", 4) as u32; switch((0..n).map(|k| (k * (m + 1) + k / 7) % 4).collect(), d, [&[][..], &[I64]][choose("carried", 2) as usize], m % 2 == 0, 0);
});
// one label named once among many
h!(h_c11_switchone, {
    let (a, b) = (choose("the others", 4) as u32, choose("the one", 4) as u32); let n = [2u64, 9, 17, 33, 65, 130][choose("targets", 6) as usize]; let q = n - 1 - choose("place", 2) * (n / 2); let x = choose("default", 2) as u32; let m = (a + b + x) as usize;
    switch((0..n).map(|k| if k == q { b } else { a }).collect(), if x == 0 { a } else { (b + 1) % 4 }, [&[][..], &[I64], &[V128, I32]][m % 3], m % 2 == 0, (m % 2) as u64);
});
// ---- select
h!(h_c11_select, {
    let t = [I32, I64, F32, F64, V128][choose("type", 5) as usize]; let typed = choose("typed", 2) == 1; let opt = choose("opt", 2) == 1; let (pa, pb) = (choose("first", 4), choose("second", 3)); let cond = choose("cond", 7); let used = choose("use", 3);
    let v = |w: u64, l: u32, k: u128| -> Vec<I> { match w { 0 => vec![Get(l)], 1 => vec![K(t, k)], 2 => vec![Get(l), Call(1)], _ => vec![Get(l), Tee(5)] } };
    let mut b = vec![Get(1)]; b.extend(v(pa, 0, 0x1234_5678_9abc)); b.extend(v(pb, 1, 77));
    b.extend(match cond { 0 => vec![Get(2)], 1 => vec![Get(2), Eqz(I32)], 2 => vec![Get(2), Get(3), Ltu], 3 => vec![K(I32, 0)], 4 => vec![K(I32, 256)], 5 => vec![Get(4), Eqz(I64)], _ => vec![Get(2), Get(3), Xor(I32), Tee(2)] });
    b.push(if typed { SelT(t) } else { Sel });
    b.extend(match used { 0 => vec![], 1 => vec![Set(5), Get(5)], _ => vec![Tee(0), Drop, Get(0)] }); b.extend([Get(5), Get(0)]);
    let p = Prog { funs: vec![Fun { p: vec![t, t, I32, I32, I64], r: vec![t, t, t, t], l: vec![t], b }, Fun { p: vec![t], r: vec![t], l: vec![], b: vec![Get(0)] }], ..Default::default() };
    compare(&p, opt, &symargs(&p.funs[0].p), &[]);
});
// ---- code that cannot be reached has no effect, wherever it stands
fn dead(w: u64) -> Vec<I> {
    match w {
        0 => vec![Drop], 1 => vec![Add(I32), Drop], 2 => vec![Sel, Drop], 3 => vec![SelT(V128), Drop], 4 => vec![Block(vec![], vec![I64], vec![K(I64, 1)]), Drop], 5 => vec![If(vec![], vec![I32], vec![K(I32, 1)], Some(vec![K(I32, 2)])), Drop],
        6 => vec![Tee(1), Drop], 7 => vec![Call(0), Drop], 8 => vec![GSet(0)], 9 => vec![St(0)], 10 => vec![K(I32, 9), Set(0)], 11 => vec![Loop(vec![], vec![], vec![Br(0)])], 12 => vec![Trap], 13 => vec![Block(vec![], vec![], vec![Trap, BrT(vec![0, 0], 0), Drop])], 14 => vec![Block(vec![I32], vec![V128], vec![Drop, Trap]), Drop], _ => vec![If(vec![], vec![], vec![Br(0)], None)],
    }
}
fn unreach(full: bool) {
    let place = choose("place", 6); let term = choose("by", 6); let (d1, d2) = (choose("d1", 16), if full { choose("d2", 17) } else { 16 }); let ts: &[u8] = [&[][..], &[I32], &[I64, V128]][choose("carried", 3) as usize]; let opt = if full { choose("opt", 2) == 1 } else { (place + d1) % 2 == 1 };
    if place == 3 && (term == 1 || term == 4) { return } // would repeat the loop for ever
    let live = cat(vec![K(I32, 1), GSet(0)], cat(pushes(&[I32], 6), pushes(ts, 2)));
    let t = match term { 0 => vec![Br(0)], 1 => vec![Br(1)], 2 => vec![Ret], 3 => vec![Trap], 4 => vec![Get(5), BrT(vec![1, 0], 1)], _ => vec![Loop(vec![], vec![], vec![Trap]), Trap] };
    let body = cat(live, cat(t, cat(dead(d1), if d2 < 16 { dead(d2) } else { vec![] })));
    let alt = pushes(ts, 70); let tv = ts.to_vec();
    let mut b = match place {
        0 => vec![Block(vec![], tv.clone(), vec![Block(vec![], tv.clone(), body)])], 1 => vec![Block(vec![], tv.clone(), vec![Get(4), If(vec![], tv.clone(), body, Some(alt))])], 2 => vec![Block(vec![], tv.clone(), vec![Get(4), If(vec![], tv.clone(), alt, Some(body))])],
        3 => vec![Block(vec![], tv.clone(), vec![Block(vec![], tv.clone(), vec![Loop(vec![], tv.clone(), cat(vec![Block(vec![], tv.clone(), body)], vec![Br(1)]))])])], 4 => vec![Block(vec![], tv.clone(), vec![Get(4), If(vec![], tv.clone(), body.clone(), Some(body))])],
        _ => vec![Block(vec![], tv.clone(), vec![Block(vec![], tv.clone(), body)]), Block(tv.clone(), tv.clone(), vec![Get(4), BrIf(1)])],
    };
    b.extend(bump(ts));
    let mut p = prog(ts, b); p.mem = 8; p.funs[0].p = P.to_vec(); p.hosts = vec![(vec![], vec![I32])]; 
    compare(&p, opt, &symargs(&P), &[1, 2, 3, 4, 5, 6, 7, 8]);
}
h!(h_c11_dead, { unreach(false) });
h!(h_c11_deadx, { unreach(true) });
// ---- parameters and results of blocks, loops and conditionals
h!(h_c11_params, {
    let ts = CARRY[choose("params", CARRY.len() as u64) as usize]; let rs = CARRY[choose("results", CARRY.len() as u64) as usize]; let kind = choose("kind", 5); let opt = choose("opt", 2) == 1; let junk = JUNK[choose("below", 2) as usize * 2]; let (tv, rv) = (ts.to_vec(), rs.to_vec());
    if kind == 4 && ts != rs { return }
    let conv = cat(vec![Nop], cat(ts.iter().rev().enumerate().flat_map(|(_, t)| if *t == I32 { vec![GGet(0), Add(I32), GSet(0)] } else { vec![Drop] }).collect(), pushes(rs, 17)));
    let mut b = cat(pushes(junk, 5), pushes(ts, 9));
    match kind {
        0 => b.push(Block(tv, rv, conv)),
        1 => b.extend([Get(4), If(tv.clone(), rv.clone(), conv.clone(), Some(cat(bump(&tv), cat(conv, bump(&rv)))))]),
        2 => { let turn = cat(bump(&tv), vec![Get(6), K(I32, 1), Add(I32), Tee(6), K(I32, 3), Ltu, BrIf(0)]); b.push(Loop(tv, rv, cat(turn, conv))) }
        3 => b.push(Block(tv.clone(), rv.clone(), cat(bump(&tv), vec![Get(4), If(tv.clone(), tv.clone(), cat(bump(&tv), cat(conv.clone(), vec![Br(1)])), Some(bump(&tv))), Block(tv, rv, conv)]))),
        _ => b.extend([Get(4), If(tv.clone(), tv.clone(), cat(bump(&tv), bump(&tv)), None)]),
    }
    let r: Vec<u8> = junk.iter().chain(rs).copied().collect(); compare(&prog(&r, b), opt, &symargs(&P), &[]);
});
