//! Table instructions and the host's table access against a list of references.
use crate::rt::*;
/// B fills the store first, so that function numbers of A are not store numbers; it owns the shared table
fn b() -> M {
    let mut m = M::new(); let t = m.ty(&[], &[I32]) as u64;
    let f: Vec<u32> = (0..3).map(|k| m.func(&[], &[I32], &[], c().i32c(200 + k))).collect();
    let ci = m.func(&[I32], &[I32], &[], c().get(0).calli(t, 0)); m.table(FUNCREF, 4, Some(6)); m.elem(0, c().i32c(0), &[f[1]]); m.elem(0, c().i32c(2), &[f[0]]);
    m.export("s", KT, 0).export("ci", KF, ci); m
}
fn tableop(c: C, op: u64, a: &[u64]) -> C { let mut c = c.fc(op); for x in a { c = c.u(*x) } c }
#[derive(Clone, Copy, PartialEq)]
enum O { Get(u64), Set(u64), Fill(u64), Copy(u64, u64), Init(u64, u64), Grow(u64), DropInit(u64, u64) }
use O::*;
const FOPS: [O; 19] = [Get(1), Set(1), Fill(1), Copy(1, 1), Copy(1, 2), Copy(2, 1), Copy(0, 1), Copy(1, 0), Init(1, 0), Init(1, 1), Init(1, 2), DropInit(1, 0), Init(0, 0), Grow(1), Grow(2), Get(0), Set(0), Fill(0), Set(2)];
const XOPS: [O; 7] = [Get(3), Set(3), Fill(3), Copy(3, 3), Init(3, 4), Grow(3), DropInit(3, 4)];
struct S { st: Store, bi: ModuleInstance, ai: ModuleInstance, f: Vec<u128>, null: u128, b: [u128; 3], t: [Vec<u128>; 4], x: Vec<u128> }
fn ext(x: u32) -> WasmValue { WasmValue::RefExtern(ExternRef::new(Some(x))) }
fn fref(v: u128, null: u128) -> WasmValue { WasmValue::RefFunc(FuncRef::new(if v == null { None } else { Some(v as u32) })) }
fn setup(wide: bool, opt: bool, op: O, value: u64) -> S {
    let mut st = Store::default(); let bi = inst(&mut st, &b(), opt, None);
    let mut m = M::new(); m.imp_table("b", "s", FUNCREF, &limits(0, 2, Some(9)));
    let t = m.ty(&[], &[I32]) as u64; let w = |k: u64| if wide && (k == 1 || k == 3) { I64 } else { I32 }; let fl = |k: u64| if w(k) == I64 { 4 } else { 0 };
    let off = |k: u64, v: i32| if w(k) == I64 { c().i64c(v as i64) } else { c().i32c(v) };
    let f: Vec<u32> = (0..6).map(|k| m.func(&[], &[I32], &[], c().i32c(100 + k))).collect();
    for (k, et, min, max) in [(1, FUNCREF, 5, Some(7)), (2, FUNCREF, 4, None), (3, EXTERNREF, 4, Some(6))] { let mut d = vec![et]; d.extend_from_slice(&limits(fl(k), min, max)); m.tables.push(d); }
    let rf = |k: u32| c().op(0xd2).u(k as u64); let rn = |t: u8| c().op(0xd0).op(t);
    m.elem_mode(1, &[f[0], f[1], f[2], f[3], f[4]]); m.elem(1, off(1, 1), &[f[2], f[3]]); m.elem_exprs(FUNCREF, &[rn(FUNCREF), rf(f[4]), rn(FUNCREF)]); m.elem_mode(3, &f); m.elem_exprs(EXTERNREF, &[rn(EXTERNREF), rn(EXTERNREF)]); m.elem(2, c().i32c(0), &[f[5], f[1]]);
    let refs = m.func(&[], &[FUNCREF; 9], &[], { let mut k = c(); for j in &f { k = k.cat(&rf(*j)) } k.i32c(2).op(0x25).u(0).i32c(0).op(0x25).u(0).op(0xd0).op(FUNCREF) }); m.export("refs", KF, refs);
    for k in 0..3u64 { let n = ["ci0", "ci1", "ci2"][k as usize]; let i = m.func(&[w(k)], &[I32], &[], c().get(0).calli(t, k)); m.export(n, KF, i); let n = ["sz0", "sz1", "sz2"][k as usize]; let i = m.func(&[], &[w(k)], &[], tableop(c(), 16, &[k])); m.export(n, KF, i); m.export(["t0", "t1", "t2"][k as usize], KT, k as u32); }
    m.export("t3", KT, 3);
    // the operation under test, over a value that must survive
    let v = match op { Set(3) | Fill(3) | Grow(3) => if value == 0 { rn(EXTERNREF) } else { c().get(3) }, _ => match value { 0 => rn(FUNCREF), 1 => rf(f[1]), _ => c().i32c(2).op(0x25).u(0) } };
    let (pt, code, mut rt) = match op {
        Get(k) => ([w(k), I32, I32], c().get(0).op(0x25).u(k), vec![if k == 3 { EXTERNREF } else { FUNCREF }]),
        Set(k) => ([w(k), I32, I32], c().get(0).cat(&v).op(0x26).u(k), vec![]),
        Fill(k) => ([w(k), I32, w(k)], tableop(c().get(0).cat(&v).get(2), 17, &[k]), vec![]),
        Copy(d, s) => ([w(d), w(s), if w(d) == I64 && w(s) == I64 { I64 } else { I32 }], tableop(c().get(0).get(1).get(2), 14, &[d, s]), vec![]),
        Init(d, e) => ([w(d), I32, I32], tableop(c().get(0).get(1).get(2), 12, &[e, d]), vec![]),
        DropInit(d, e) => ([w(d), I32, I32], tableop(tableop(c(), 13, &[e]).get(0).get(1).get(2), 12, &[e, d]), vec![]),
        Grow(k) => ([I32, I32, w(k)], tableop(c().cat(&v).get(2), 15, &[k]), vec![w(k)]),
    };
    rt.insert(0, I64); let i = m.func(&[pt[0], pt[1], pt[2], EXTERNREF], &rt, &[], c().i64c(0x1122_3344_5566).cat(&code)); m.export("op", KF, i);
    let mut im = Imports::new(); if im.link_module("b", bi.clone()).is_err() { panic!("link") }
    let ai = inst(&mut st, &m, opt, Some(im)); let (oc, r) = call(&mut st, &ai, "refs", &[]); check(oc == OK && r.len() == 9, "references"); let r: Vec<u128> = r.iter().map(bits).collect();
    for a in 0..9 { for b in 0..a { check(r[a] != r[b], "references to different functions differ") } }
    let x: Vec<u128> = (0..4).map(|k| { let v = u32v(["x0", "x1", "x2", "x3"][k]); assume(v != u32::MAX); v as u128 }).collect(); let null = bits(&WasmValue::RefExtern(ExternRef::new(None)));
    let t = ai.table("t3").unwrap(); for k in 0..3 { check(t.set(&mut st, k, ext(x[k as usize] as u32)).is_ok(), "the host sets an element") }
    let (f, n) = (r[..6].to_vec(), r[8]);
    S { st, bi, ai, null, b: [r[6], r[7], 0], t: [vec![r[7], n, r[6], n], vec![n, f[2], f[3], n, n], vec![f[5], f[1], n, n], vec![x[0], x[1], x[2], null]], x, f: r[..6].iter().cloned().chain([n]).collect() }
}
impl S {
    /// every element as the host sees it, and as an indirect call does
    fn state(&mut self, calls: Option<u64>) {
        for k in 0..4 {
            let t = self.ai.table(["t0", "t1", "t2", "t3"][k]).unwrap(); let want = &self.t[k]; let n = t.size(&self.st).unwrap(); check(n == want.len(), "table size"); if n != want.len() { return }
            match t.load(&self.st, 0, n) { Ok(v) => { let mut e = true; let mut ty = true; for (a, b) in v.zip(want) { e &= bits(&a) == *b; ty &= vty(&a) == if k == 3 { EXTERNREF } else { FUNCREF } } check(ty, "type of an element"); check(e, "table contents afterwards") } Err(_) => check(false, "the whole table can be read") }
        }
        let Some(k) = calls else { return }; let k = k as usize; if k > 2 { return }
        let j = u32v("probe"); assume((j as usize) < self.t[k].len()); let mut want = 0u128; for (q, x) in self.t[k].iter().enumerate() { want = sym::ite(j as usize == q, *x as u64, want as u64) as u128 }
        let mut id = 0u64; for q in 0..6 { id = sym::ite(want == self.f[q], 100 + q as u64, id) } id = sym::ite(want == self.b[0], 200, id); id = sym::ite(want == self.b[1], 201, id);
        let a = if self.ai.table(["t0", "t1", "t2"][k]).unwrap().ty(&self.st).unwrap().arch() == MemoryArch::I64 { l(j as i64) } else { i(j as i32) };
        let (oc, r) = call1(&mut self.st, &self.ai, ["ci0", "ci1", "ci2"][k], &[a]); check((oc == OK) == (id != 0), "a call through the table"); if oc == OK { check(r == id as u128, "a call through the table reaches the function stored there") } else { check(oc == UNINIT, "null element") }
        if k == 0 { let (o2, r2) = call1(&mut self.st, &self.bi, "ci", &[i(j as i32)]); check(o2 == oc && r2 == r, "the other module sees the shared table") }
    }
    /// the reference semantics: Some(values) or None for a trap
    fn apply(&mut self, op: O, d: u128, s: u128, n: u128, v: u128, dropped: bool) -> Option<Vec<u128>> {
        let null = if matches!(op, Init(3, _)) { self.null } else { self.f[6] };
        let seg: Vec<u128> = match op { Init(_, 0) => self.f[..5].to_vec(), Init(_, 2) => vec![null, self.f[4], null], Init(_, 4) => vec![null, null], _ => vec![] };
        let seg = if dropped { vec![] } else { seg };
        let pick = |t: &Vec<u128>, at: u128| { let mut r = 0u128; for (k, x) in t.iter().enumerate() { r = sym::ite(at == k as u128, *x as u64, r as u64) as u128 } r };
        let put = |t: &mut Vec<u128>, at: u128, on: bool, v: u128| for k in 0..t.len() { let e = on & (at == k as u128); t[k] = sym::ite(e, v as u64, t[k] as u64) as u128 };
        match op {
            Get(k) => { let t = &self.t[k as usize]; if d < t.len() as u128 { Some(vec![pick(t, d)]) } else { None } }
            Set(k) => { let t = &mut self.t[k as usize]; if d < t.len() as u128 { put(t, d, true, v); Some(vec![]) } else { None } }
            Fill(k) => { let t = &mut self.t[k as usize]; let len = t.len() as u128; if d + n <= len { for j in 0..len { put(t, j, (j >= d) & (j < d + n), v) } Some(vec![]) } else { None } }
            Copy(a, b) => { let src = self.t[b as usize].clone(); let t = &mut self.t[a as usize]; if (d + n <= t.len() as u128) & (s + n <= src.len() as u128) { for j in 0..src.len() as u128 { let x = pick(&src, s + j); put(t, d + j, j < n, x) } Some(vec![]) } else { None } }
            Init(a, _) => { let t = &mut self.t[a as usize]; if (d + n <= t.len() as u128) & (s + n <= seg.len() as u128) { for j in 0..seg.len() as u128 { let x = pick(&seg, s + j); put(t, d + j, j < n, x) } Some(vec![]) } else { None } }
            DropInit(a, e) => self.apply(Init(a, e), d, s, n, v, true),
            Grow(k) => { let t = &mut self.t[k as usize]; let old = t.len() as u128; let max = match k { 1 => 7, 3 => 6, _ => 1 << 20 }; if old + n <= max { let n = sym::concretize(n as u64); for _ in 0..n { t.push(v) } Some(vec![old]) } else { Some(vec![u128::MAX]) } }
        }
    }
}
fn run(ops: &[O], wide: bool, opt: bool) {
    let op = ops[choose("op", ops.len() as u64) as usize]; let x = matches!(op, Get(3) | Set(3) | Fill(3) | Copy(3, _) | Init(3, _) | Grow(3) | DropInit(3, _));
    let value = if matches!(op, Set(_) | Fill(_) | Grow(_)) { choose("value", if x { 2 } else { 3 }) } else { 0 };
    let mut s = setup(wide, opt, op, value); let w = |k: u64| wide && (k == 1 || k == 3);
    let (wd, ws, wn) = match op { Get(k) | Set(k) => (w(k), false, false), Fill(k) => (w(k), false, w(k)), Copy(d, q) => (w(d), w(q), w(d) && w(q)), Init(d, _) | DropInit(d, _) => (w(d), false, false), Grow(k) => (false, false, w(k)) };
    let arg = |n: &str, w: bool| if w { let v = u64v(n); (l(v as i64), v as u128) } else { let v = u32v(n); (i(v as i32), v as u128) };
    let ((d, dv), (sr, sv), (n, nv)) = (arg("d", wd), arg("s", ws), arg("n", wn));
    if op == Grow(2) { assume(nv < 4 || nv >= 0xffff_fffc) }
    let v = match (x, value) { (true, 0) => s.null, (true, _) => s.x[3], (_, 0) => s.f[6], (_, 1) => s.f[1], _ => s.b[0] };
    let e = ext(s.x[3] as u32); let (oc, res) = call(&mut s.st, &s.ai, "op", &[d, sr, n, e]);
    match s.apply(op, dv, sv, nv, v, false) {
        Some(r) => { check(oc == OK, "the instruction completes"); if oc != OK { return } check(res.len() == 1 + r.len() && bits(&res[0]) == 0x1122_3344_5566, "the values below are kept"); if let Some(y) = r.first() { let y = if matches!(op, Grow(_)) { y & if wn { u64::MAX as u128 } else { u32::MAX as u128 } } else { *y }; check(bits(&res[1]) == y, "result") } cover("value") }
        None => { check(oc == TOOB, "out of bounds traps"); cover("trap") }
    }
    s.state(match op { Get(_) => None, Set(k) | Fill(k) | Copy(k, _) | Init(k, _) | Grow(k) | DropInit(k, _) => Some(k) });
}
h!(h_c08_ops32, { run(&FOPS, false, true) });
h!(h_c08_ops32x, { run(&FOPS, false, false) });
h!(h_c08_ops64, { run(&FOPS, true, false) });
h!(h_c08_ops64x, { run(&FOPS, true, true) });
h!(h_c08_ext32, { run(&XOPS, false, true) });
h!(h_c08_ext32x, { run(&XOPS, false, false) });
h!(h_c08_ext64, { run(&XOPS, true, false) });
h!(h_c08_ext64x, { run(&XOPS, true, true) });
// ---- two operations in a row on the shared and the own table
h!(h_c08_pairs, {
    const P: [O; 6] = [Set(0), Fill(1), Copy(0, 1), Copy(1, 0), Copy(1, 1), Init(0, 0)];
    let a = P[choose("first", 6) as usize]; let b = P[choose("second", 6) as usize]; let opt = true;
    let mut s = setup(false, opt, a, 1);
    // the second one belongs to a second instance of the same module text, importing the same shared table; its own tables are its own
    let (d, q, n) = (u32v("d0"), u32v("s0"), u32v("n0")); let e = ext(s.x[3] as u32);
    let (oc, _) = call(&mut s.st, &s.ai, "op", &[i(d as i32), i(q as i32), i(n as i32), e]); let v = s.f[1]; let r = s.apply(a, d as u128, q as u128, n as u128, v, false); check((oc == OK) == r.is_some(), "the first instruction"); if r.is_none() { return }
    let first = s.t[0].clone(); let own = s.t[1].clone(); drop(own);
    let mut m2 = M::new(); m2.imp_table("b", "s", FUNCREF, &limits(0, 2, Some(9))); let rf = |k: u32| c().op(0xd2).u(k as u64);
    let f: Vec<u32> = (0..3).map(|k| m2.func(&[], &[I32], &[], c().i32c(300 + k))).collect(); m2.table(FUNCREF, 5, Some(7)); m2.elem_mode(1, &f); m2.elem(1, c().i32c(1), &[f[2]]); m2.elem_mode(3, &f);
    let refs = m2.func(&[], &[FUNCREF; 3], &[], c().cat(&rf(f[0])).cat(&rf(f[1])).cat(&rf(f[2]))); m2.export("refs", KF, refs); m2.export("t1", KT, 1);
    let code = match b { Set(k) => c().get(0).cat(&rf(f[0])).op(0x26).u(k), Fill(k) => tableop(c().get(0).cat(&rf(f[0])).get(2), 17, &[k]), Copy(x, y) => tableop(c().get(0).get(1).get(2), 14, &[x, y]), Init(x, y) => tableop(c().get(0).get(1).get(2), 12, &[y, x]), _ => c() };
    let o = m2.func(&[I32, I32, I32], &[], &[], code); m2.export("op", KF, o);
    let mut im = Imports::new(); if im.link_module("b", s.bi.clone()).is_err() { panic!("link") } let i2 = inst(&mut s.st, &m2, opt, Some(im));
    let (_, r) = call(&mut s.st, &i2, "refs", &[]); let g: Vec<u128> = r.iter().map(bits).collect(); let keep = s.t.clone(); let null = s.f[6];
    s.t[1] = vec![null, g[2], null, null, null]; let fs = s.f.clone(); for k in 0..3 { s.f[k] = g[k] } for k in 3..5 { s.f[k] = u64::MAX as u128 }
    let (d, q, n) = (u32v("d1"), u32v("s1"), u32v("n1")); let (oc, _) = call(&mut s.st, &i2, "op", &[i(d as i32), i(q as i32), i(n as i32)]);
    let init = matches!(b, Init(..)); let inb = !init || q as u128 + n as u128 <= 3; let r = if inb { s.apply(b, d as u128, q as u128, n as u128, g[0], false) } else { None };
    check(oc == if r.is_some() { OK } else { TOOB }, "the second instruction"); let t2 = i2.table("t1").unwrap(); let mut e = true; for (a, b) in t2.load(&s.st, 0, 5).unwrap().zip(&s.t[1]) { e &= bits(&a) == *b } check(e, "the second instance's own table");
    s.t[1] = keep[1].clone(); s.f = fs; s.state(None); let _ = first; cover("value");
});
// ---- the host's own access
h!(h_c08_host, {
    let mut s = setup(false, true, Get(1), 0); let what = choose("what", 6); let t = s.ai.table("t1").unwrap(); let len = 5u128;
    match what {
        0 => { let k = u32v("i"); match t.get(&s.st, k) { Ok(v) => { check((k as u128) < len, "in bounds"); let w = s.apply(Get(1), k as u128, 0, 0, 0, false); check(w == Some(vec![bits(&v)]), "the element") } Err(e) => { check(k as u128 >= len, "out of bounds"); check(errcode(&e) == TOOB, "out of bounds is reported") } } }
        1 => { let k = u32v("i"); let f = s.f[choose("v", 2) as usize * 6]; let v = fref(f, s.f[6]); let r = t.set(&mut s.st, k, v); check(r.is_ok() == ((k as u128) < len), "set within bounds"); let _ = s.apply(Set(1), k as u128, 0, 0, f, false); }
        2 => { let k = u32v("i"); let r = t.set(&mut s.st, k, if choose("v", 2) == 0 { ext(5) } else { i(1) }); check(r.is_err(), "a value of another type is refused"); }
        3 => { let (a, b, n) = (u64v("s"), u64v("d"), u64v("n")); let r = t.copy_within(&mut s.st, a as usize, b as usize, n as usize); let w = s.apply(Copy(1, 1), b as u128, a as u128, n as u128, 0, false); check(r.is_ok() == w.is_some(), "copy within bounds"); }
        4 => { let n = u32v("n") as i32; let r = t.grow(&mut s.st, n, fref(s.f[2], s.f[6])); if n >= 0 && n <= 2 { check(matches!(r, Ok(5)), "growing returns the old size"); s.apply(Grow(1), 0, 0, n as u128, s.f[2], false); } else { check(r.is_err(), "no growth beyond the maximum") } }
        _ => { let (a, n) = (u64v("s"), u64v("n")); match t.load(&s.st, a as usize, n as usize) { Ok(v) => { check(a as u128 + n as u128 <= len, "in bounds"); let mut k = 0; for x in v { let w = s.apply(Get(1), a as u128 + k, 0, 0, 0, false); check(w == Some(vec![bits(&x)]), "the element"); k += 1 } check(k == n as u128, "as many as asked for") } Err(_) => check(a as u128 + n as u128 > len, "out of bounds") } }
    }
    s.state(Some(1)); cover("value");
});
