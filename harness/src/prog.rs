//! Small programs as syntax trees: an encoder to WebAssembly bytes and a reference evaluation written from the
//! specification (structured, over a list of values), which may run on symbolic values.
#![allow(dead_code)]
use crate::rt::*;
use std::cell::RefCell;
use std::rc::Rc;
#[derive(Clone)]
pub enum I {
    K(u8, u128), Get(u32), Set(u32), Tee(u32), Drop, Sel, SelT(u8), Nop, Trap, Add(u8), Xor(u8), Eqz(u8), Ltu, Wrap, Ext,
    Block(Vec<u8>, Vec<u8>, Vec<I>), Loop(Vec<u8>, Vec<u8>, Vec<I>), If(Vec<u8>, Vec<u8>, Vec<I>, Option<Vec<I>>),
    Br(u32), BrIf(u32), BrT(Vec<u32>, u32), Ret, Call(u32), RCall(u32), CallI(Vec<u8>, Vec<u8>), RCallI(Vec<u8>, Vec<u8>), GGet(u32), GSet(u32), Ld(u32), St(u32), DivU,
}
pub use I::*;
#[derive(Clone, Default)]
pub struct Fun { pub p: Vec<u8>, pub r: Vec<u8>, pub l: Vec<u8>, pub b: Vec<I> }
/// what a host function does besides recording its arguments
#[derive(Clone, Copy, PartialEq, Default)]
pub enum Nest { #[default] Plain, /// fails when its first argument is odd
    Odd, /// calls function .0 of the program (typed if .2) with its arguments; an error is passed on, or swallowed if .1
    Calls(u32, bool, bool) }
#[derive(Clone, Default)]
pub struct Prog { pub nest: Vec<Nest>, pub spin: Option<u32>, pub hosts: Vec<(Vec<u8>, Vec<u8>)>, pub funs: Vec<Fun>, pub globals: Vec<(u8, u128)>, pub table: Vec<Option<u32>>, pub mem: usize }
fn addop(t: u8) -> &'static [u8] { match t { I32 => &[0x6a], I64 => &[0x7c], V128 => &[0xfd, 0xce, 1], _ => panic!() } }
fn xorop(t: u8) -> &'static [u8] { match t { I32 => &[0x73], I64 => &[0x85], V128 => &[0xfd, 81], _ => panic!() } }
fn bt(c: C, m: &mut M, op: u8, p: &[u8], r: &[u8]) -> C { let c = c.op(op); if p.is_empty() && r.is_empty() { c.op(VOID) } else if p.is_empty() && r.len() == 1 { c.op(r[0]) } else { let t = m.ty(p, r); assert!(t < 64); c.op(t as u8) } }
pub fn enc(m: &mut M, mut c: C, b: &[I]) -> C {
    for x in b {
        c = match x {
            K(t, v) => konst(c, *t, *v), Get(i) => c.get(*i as u64), Set(i) => c.set(*i as u64), Tee(i) => c.tee(*i as u64), Drop => c.drop(), Sel => c.select(), SelT(t) => c.op(0x1c).u(1).op(*t), Nop => c.op(1), Trap => c.unreachable(),
            Add(t) => c.ops(addop(*t)), Xor(t) => c.ops(xorop(*t)), Eqz(t) => c.op(if *t == I32 { 0x45 } else { 0x50 }), Ltu => c.op(0x49), Wrap => c.op(0xa7), Ext => c.op(0xad),
            Block(p, r, b) => { let c = bt(c, m, 2, p, r); enc(m, c, b).end() } Loop(p, r, b) => { let c = bt(c, m, 3, p, r); enc(m, c, b).end() }
            If(p, r, a, e) => { let c = bt(c, m, 4, p, r); let c = enc(m, c, a); let c = match e { Some(e) => enc(m, c.els(), e), None => c }; c.end() }
            Br(l) => c.br(*l as u64), BrIf(l) => c.brif(*l as u64), BrT(ls, d) => { let v: Vec<u64> = ls.iter().map(|x| *x as u64).collect(); c.brtable(&v, *d as u64) } Ret => c.ret(),
            Call(f) => c.call(*f as u64), RCall(f) => c.rcall(*f as u64), CallI(p, r) => { let t = m.ty(p, r); c.calli(t as u64, 0) } RCallI(p, r) => { let t = m.ty(p, r); c.rcalli(t as u64, 0) }
            GGet(g) => c.gget(*g as u64), GSet(g) => c.gset(*g as u64), Ld(o) => c.mem(0x28, 0, 0, *o as u64), St(o) => c.mem(0x36, 0, 0, *o as u64), DivU => c.op(0x6e),
        }
    }
    c
}
pub fn build(p: &Prog) -> M {
    let mut m = M::new();
    for (k, h) in p.hosts.iter().enumerate() { m.imp_func("h", NAMES[k], &h.0, &h.1); }
    for (k, f) in p.funs.iter().enumerate() {
        let c = enc(&mut m, c(), &f.b); let l: Vec<(u32, u8)> = f.l.iter().map(|t| (1, *t)).collect();
        let i = m.func(&f.p, &f.r, &l, c); m.export(NAMES[k], KF, i);
    }
    if !p.table.is_empty() { m.table(FUNCREF, p.table.len() as u64, None); for (k, t) in p.table.iter().enumerate() { if let Some(f) = t { m.elem(0, c().i32c(k as i32), &[*f]) } } m.export("t", KT, 0); }
    if p.mem > 0 { m.mem(memty(false, p.mem as u64, None, 0)); m.export("m", KM, 0); }
    for (k, g) in p.globals.iter().enumerate() { m.global(g.0, true, konst(c(), g.0, g.1)); m.export(GN[k], KG, k as u32); }
    m
}
pub const NAMES: [&str; 10] = ["0", "1", "2", "3", "4", "5", "6", "7", "8", "9"];
pub const GN: [&str; 6] = ["g0", "g1", "g2", "g3", "g4", "g5"];
/// what host function k does: it records its arguments; result j is argument j (cyclically) xor k+1+j
pub fn host_results(k: usize, p: &[u8], r: &[u8], a: &[u128]) -> Vec<u128> { let _ = p; r.iter().enumerate().map(|(j, t)| { let x = if a.is_empty() { 77 } else { a[j % a.len()] }; (x ^ (k + 1 + j) as u128) & mask(*t) }).collect() }
pub fn wt(t: u8) -> WasmType { match t { I32 => WasmType::I32, I64 => WasmType::I64, F32 => WasmType::F32, F64 => WasmType::F64, V128 => WasmType::V128, FUNCREF => WasmType::RefFunc, _ => WasmType::RefExtern } }
pub fn fty(p: &[u8], r: &[u8]) -> FuncType { let p: Vec<_> = p.iter().map(|t| wt(*t)).collect(); let r: Vec<_> = r.iter().map(|t| wt(*t)).collect(); FuncType::new(&p, &r) }
pub type Trace = Rc<RefCell<Vec<u128>>>;
pub fn host(st: &mut Store, k: usize, p: &[u8], r: &[u8], tr: &Trace) -> Function {
    let (tr, p, r) = (tr.clone(), p.to_vec(), r.to_vec());
    HostFunction::from_untyped(st, &fty(&p, &r), move |_, a| {
        for (x, t) in a.iter().zip(&p) { check(vty(x) == *t, "a host function receives values of its parameter types") }
        let a: Vec<u128> = a.iter().map(bits).collect(); tr.borrow_mut().push(1000 + k as u128); tr.borrow_mut().extend_from_slice(&a);
        Ok(host_results(k, &p, &r, &a).iter().zip(&r).map(|(v, t)| val(*t, *v)).collect())
    })
}
/// a host function of the given kind; the instance it calls into is put into `ins` afterwards
pub fn host_nest(st: &mut Store, k: usize, p: &[u8], r: &[u8], tr: &Trace, nest: Nest, nh: u32, ins: &Rc<RefCell<Option<ModuleInstance>>>) -> Function {
    if nest == Nest::Plain { return host(st, k, p, r, tr) }
    let (tr, p, r, ins) = (tr.clone(), p.to_vec(), r.to_vec(), ins.clone());
    HostFunction::from_untyped(st, &fty(&p, &r), move |mut cx, a| {
        let av: Vec<u128> = a.iter().map(bits).collect(); tr.borrow_mut().push(1000 + k as u128); tr.borrow_mut().extend_from_slice(&av);
        match nest {
            Nest::Calls(g, swallow, typed) => {
                let m = ins.borrow().clone().unwrap(); let name = NAMES[(g - nh) as usize];
                let x = if typed { match m.func::<(i32, i64), i64>(cx.store(), name) { Ok(f) => cx.call(&f, (av[0] as i32, av[1] as i64)).map(|x| vec![WasmValue::I64(x)]), Err(e) => Err(e) } } else { match m.func_untyped(cx.store(), name) { Ok(f) => cx.call_untyped(&f, a), Err(e) => Err(e) } };
                tr.borrow_mut().push(2000 + k as u128);
                match x { Ok(v) => { check(v.len() == r.len(), "number of results of a nested call"); Ok(v.iter().zip(&r).enumerate().map(|(j, (x, t))| val(*t, (bits(x) ^ (k + 1 + j) as u128) & mask(*t))).collect()) } Err(e) => { let c = errcode(&e); let c = if c == VALUESTACK { CALLSTACK } else { c }; tr.borrow_mut().push(c as u128); if swallow { Ok(r.iter().map(|t| val(*t, 900 + c as u128)).collect()) } else { Err(e) } } }
            }
            _ => if av[0] & 1 == 1 { Err(Error::Other(String::from("odd"))) } else { Ok(host_results(k, &p, &r, &av).iter().zip(&r).map(|(v, t)| val(*t, *v)).collect()) }
        }
    })
}
pub enum Flow { Next, B(u32), R, T(u32, Vec<u128>) }
/// reference machine
#[derive(Clone)]
pub struct W { pub p: Prog, pub g: Vec<u128>, pub mem: RefMem, pub trace: Vec<u128>, pub steps: u32 }
fn b2(b: bool) -> u128 { sym::ite(b, 1, 0) as u128 }
impl W {
    pub fn new(p: &Prog, mem: &[u8]) -> W { W { g: p.globals.iter().map(|x| x.1).collect(), p: p.clone(), mem: RefMem(mem.to_vec()), trace: vec![], steps: 0 } }
    pub fn sig(&self, f: u32) -> (Vec<u8>, Vec<u8>) { let n = self.p.hosts.len() as u32; if f < n { self.p.hosts[f as usize].clone() } else { let x = &self.p.funs[(f - n) as usize]; (x.p.clone(), x.r.clone()) } }
    pub fn call(&mut self, mut f: u32, mut a: Vec<u128>) -> core::result::Result<Vec<u128>, u32> {
        loop {
            let n = self.p.hosts.len() as u32;
            if Some(f) == self.p.spin { return Err(CALLSTACK) }
            if f < n {
                let (p, r) = self.p.hosts[f as usize].clone(); self.trace.push(1000 + f as u128); self.trace.extend_from_slice(&a);
                match self.p.nest.get(f as usize).copied().unwrap_or_default() {
                    Nest::Plain => {} Nest::Odd => if a[0] & 1 == 1 { return Err(HOSTERR) }
                    Nest::Calls(g, swallow, _) => { let x = self.call(g, a.clone()); self.trace.push(2000 + f as u128); match x { Ok(v) => return Ok(v.iter().zip(&r).enumerate().map(|(j, (x, t))| (x ^ (f as usize + 1 + j) as u128) & mask(*t)).collect()), Err(c) => { self.trace.push(c as u128); if swallow { return Ok(r.iter().map(|_| 900 + c as u128).collect()) } return Err(HOSTERR) } } }
                }
                return Ok(host_results(f as usize, &p, &r, &a))
            }
            let fun = self.p.funs[(f - n) as usize].clone(); let mut loc = a.clone(); for _ in &fun.l { loc.push(0) }
            let mut st = Vec::new();
            match self.run(&fun.b, &mut st, &mut loc)? { Flow::T(g, b) => { f = g; a = b } _ => { let k = st.len() - fun.r.len(); return Ok(st.split_off(k)) } }
        }
    }
    fn callee(&mut self, st: &mut Vec<u128>, p: &[u8], r: &[u8]) -> core::result::Result<u32, u32> {
        let x = st.pop().unwrap(); let n = self.p.table.len() as u128; if !(x < n) { return Err(UNDEF) }
        let x = sym::concretize(x as u64); let Some(f) = self.p.table[x as usize] else { return Err(UNINIT) };
        let s = self.sig(f); if s.0 != p || s.1 != r { return Err(SIGMISMATCH) } Ok(f)
    }
    pub fn run(&mut self, b: &[I], st: &mut Vec<u128>, loc: &mut Vec<u128>) -> core::result::Result<Flow, u32> {
        fn keep(st: &mut Vec<u128>, h: usize, n: usize) { let k = st.split_off(st.len() - n); st.truncate(h); st.extend(k) }
        for x in b {
            self.steps += 1; assert!(self.steps < 5000, "the harness program does not end");
            match x {
                K(t, v) => st.push(*v & mask(*t)), Get(i) => st.push(loc[*i as usize]), Set(i) => loc[*i as usize] = st.pop().unwrap(), Tee(i) => loc[*i as usize] = *st.last().unwrap(), Drop => { st.pop(); }
                Sel | SelT(_) => { let c = st.pop().unwrap(); let f = st.pop().unwrap(); let t = st.pop().unwrap(); let k = c != 0; st.push(sym::ite(k, t as u64, f as u64) as u128 | (sym::ite(k, (t >> 64) as u64, (f >> 64) as u64) as u128) << 64) }
                Nop => {} Trap => return Err(UNREACHABLE),
                Add(t) => { let y = st.pop().unwrap(); let x = st.pop().unwrap(); st.push(if *t == V128 { (x as u64).wrapping_add(y as u64) as u128 | (((x >> 64) as u64).wrapping_add((y >> 64) as u64) as u128) << 64 } else { x.wrapping_add(y) & mask(*t) }) }
                Xor(_) => { let y = st.pop().unwrap(); let x = st.pop().unwrap(); st.push(x ^ y) }
                Eqz(_) => { let x = st.pop().unwrap(); st.push(b2(x == 0)) } Ltu => { let y = st.pop().unwrap(); let x = st.pop().unwrap(); st.push(b2(x < y)) } Wrap => { let x = st.pop().unwrap(); st.push(x & 0xffff_ffff) } Ext => {}
                Block(p, r, b) => { let h = st.len() - p.len(); match self.run(b, st, loc)? { Flow::Next => {} Flow::B(0) => keep(st, h, r.len()), Flow::B(n) => return Ok(Flow::B(n - 1)), o => return Ok(o) } }
                Loop(p, _, b) => { let h = st.len() - p.len(); loop { match self.run(b, st, loc)? { Flow::Next => break, Flow::B(0) => keep(st, h, p.len()), Flow::B(n) => return Ok(Flow::B(n - 1)), o => return Ok(o) } } }
                If(p, r, a, e) => { let c = st.pop().unwrap(); let h = st.len() - p.len(); let empty = vec![]; let b = if c != 0 { a } else { e.as_ref().unwrap_or(&empty) }; match self.run(b, st, loc)? { Flow::Next => {} Flow::B(0) => keep(st, h, r.len()), Flow::B(n) => return Ok(Flow::B(n - 1)), o => return Ok(o) } }
                Br(l) => return Ok(Flow::B(*l)), BrIf(l) => { let c = st.pop().unwrap(); if c != 0 { return Ok(Flow::B(*l)) } }
                BrT(ls, d) => { let x = st.pop().unwrap(); let mut t = *d as u64; for (k, l) in ls.iter().enumerate() { t = sym::ite(x == k as u128, *l as u64, t) } return Ok(Flow::B(sym::concretize(t) as u32)) }
                Ret => return Ok(Flow::R),
                Call(f) => { let n = self.sig(*f).0.len(); let a = st.split_off(st.len() - n); let r = self.call(*f, a)?; st.extend(r) }
                RCall(f) => { let n = self.sig(*f).0.len(); let a = st.split_off(st.len() - n); return Ok(Flow::T(*f, a)) }
                CallI(p, r) => { let f = self.callee(st, p, r)?; let a = st.split_off(st.len() - p.len()); let r = self.call(f, a)?; st.extend(r) }
                RCallI(p, r) => { let f = self.callee(st, p, r)?; let a = st.split_off(st.len() - p.len()); return Ok(Flow::T(f, a)) }
                GGet(g) => st.push(self.g[*g as usize]), GSet(g) => self.g[*g as usize] = st.pop().unwrap(),
                Ld(o) => { let a = st.pop().unwrap() + *o as u128; if !self.mem.inb(a, 4) { return Err(OOB) } st.push(self.mem.load(a as u64, 4)) }
                DivU => { let y = st.pop().unwrap(); let x = st.pop().unwrap(); if y == 0 { return Err(DIV0) } st.push(((x as u32) / (y as u32)) as u128) }
                St(o) => { let v = st.pop().unwrap(); let a = st.pop().unwrap() + *o as u128; if !self.mem.inb(a, 4) { return Err(OOB) } self.mem.store(a as u64, 4, v) }
            }
        }
        Ok(Flow::Next)
    }
}
/// the real code, instantiated
pub struct R { pub st: Store, pub ins: ModuleInstance, pub tr: Trace, pub p: Prog, pub hosts: Vec<Function> }
pub fn real(p: &Prog, opt: bool, cfg: Option<tinywasm::engine::Config>, mem: &[u8]) -> R {
    let m = build(p); let md = if opt { parse(&m.bytes()) } else { parse_no(&m.bytes()) };
    let mut st = match cfg { Some(c) => cfg_store(c), None => Store::default() }; let tr: Trace = Default::default(); let mut im = Imports::new(); let cell: Rc<RefCell<Option<ModuleInstance>>> = Default::default(); let mut hosts = vec![];
    for (k, h) in p.hosts.iter().enumerate() { let f = host_nest(&mut st, k, &h.0, &h.1, &tr, p.nest.get(k).copied().unwrap_or_default(), p.hosts.len() as u32, &cell); hosts.push(f.clone()); im.define("h", NAMES[k], f); }
    let ins = match ModuleInstance::instantiate(&mut st, &md, Some(im)) { Ok(i) => i, Err(_) => panic!("harness program does not instantiate") };
    if !mem.is_empty() { ins.memory("m").unwrap().copy_from_slice(&mut st, 0, mem).unwrap(); }
    *cell.borrow_mut() = Some(ins.clone());
    R { st, ins, tr, p: p.clone(), hosts }
}
/// outcome and results agree with the reference's, and so do globals, memory and the calls to the host
pub fn same(r: &R, w: &W, oc: u32, res: &[WasmValue], want: &core::result::Result<Vec<u128>, u32>, types: &[u8]) {
    match want {
        Ok(v) => { check(oc == OK, "the call completes"); if oc == OK { check(res.len() == v.len(), "number of results"); for ((x, y), t) in res.iter().zip(v).zip(types) { check(vty(x) == *t, "type of a result"); check(bits(x) == *y, "a result") } cover("value") } }
        Err(t) => { check(oc == *t, "the call traps as specified"); cover("trap") }
    }
    state(r, w);
}
pub fn state(r: &R, w: &W) {
    let t = r.tr.borrow(); check(t.len() == w.trace.len(), "number of values passed to the host"); if t.len() == w.trace.len() { let mut e = true; for (a, b) in t.iter().zip(&w.trace) { e &= a == b } check(e, "values passed to the host, in order") }
    for k in 0..r.p.globals.len() { check(bits(&r.ins.global_get(&r.st, GN[k]).unwrap()) == w.g[k], "a global afterwards") }
    if r.p.mem > 0 { check(w.mem.eq(&r.ins.memory("m").unwrap().read_vec(&r.st, 0, r.p.mem).unwrap()), "memory afterwards") }
}
/// runs function 0 of the program on the arguments in the real code and in the reference
pub fn compare(p: &Prog, opt: bool, args: &[u128], mem: &[u8]) {
    let mut r = real(p, opt, None, mem); let mut w = W::new(p, mem); let f = &p.funs[0];
    let a: Vec<WasmValue> = args.iter().zip(&f.p).map(|(v, t)| val(*t, *v)).collect();
    let (oc, res) = call(&mut r.st, &r.ins, "0", &a);
    let want = w.call(p.hosts.len() as u32, args.to_vec()); same(&r, &w, oc, &res, &want, &f.r);
}
pub fn symargs(p: &[u8]) -> Vec<u128> { p.iter().enumerate().map(|(k, t)| symbits(["a0", "a1", "a2", "a3", "a4", "a5", "a6", "a7", "a8"][k], *t)).collect() }
