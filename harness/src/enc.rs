//! A small WebAssembly encoder, written for the harnesses alone (nothing is shared with the code under test).
#![allow(dead_code)]
pub const I32: u8 = 0x7f; pub const I64: u8 = 0x7e; pub const F32: u8 = 0x7d; pub const F64: u8 = 0x7c; pub const V128: u8 = 0x7b;
pub const FUNCREF: u8 = 0x70; pub const EXTERNREF: u8 = 0x6f; pub const VOID: u8 = 0x40;
pub const KF: u8 = 0; pub const KT: u8 = 1; pub const KM: u8 = 2; pub const KG: u8 = 3;
pub fn uleb(out: &mut Vec<u8>, mut v: u64) { loop { let b = (v & 0x7f) as u8; v >>= 7; if v == 0 { out.push(b); break } out.push(b | 0x80) } }
/// signed LEB128 of `n` bytes, so that the value may be symbolic
pub fn sleb_n(out: &mut Vec<u8>, v: i64, n: u32) { for i in 0..n { let s = (7 * i).min(63); let b = ((v >> s) as u8) & 0x7f; out.push(if i + 1 < n { b | 0x80 } else { b }) } }
pub fn uleb_n(out: &mut Vec<u8>, v: u64, n: u32) { for i in 0..n { let s = 7 * i; let b = if s < 64 { ((v >> s) as u8) & 0x7f } else { 0 }; out.push(if i + 1 < n { b | 0x80 } else { b }) } }
#[derive(Default, Clone)]
pub struct C(pub Vec<u8>);
pub fn c() -> C { C(Vec::new()) }
impl C {
    pub fn op(mut self, b: u8) -> C { self.0.push(b); self }
    pub fn ops(mut self, b: &[u8]) -> C { self.0.extend_from_slice(b); self }
    pub fn u(mut self, v: u64) -> C { uleb(&mut self.0, v); self }
    pub fn cat(mut self, o: &C) -> C { self.0.extend_from_slice(&o.0); self }
    pub fn get(self, i: u64) -> C { self.op(0x20).u(i) }
    pub fn set(self, i: u64) -> C { self.op(0x21).u(i) }
    pub fn tee(self, i: u64) -> C { self.op(0x22).u(i) }
    pub fn gget(self, i: u64) -> C { self.op(0x23).u(i) }
    pub fn gset(self, i: u64) -> C { self.op(0x24).u(i) }
    pub fn i32c(mut self, v: i32) -> C { self.0.push(0x41); sleb_n(&mut self.0, v as i64, 5); self }
    pub fn i64c(mut self, v: i64) -> C { self.0.push(0x42); sleb_n(&mut self.0, v, 10); self }
    pub fn f32c(mut self, v: u32) -> C { self.0.push(0x43); self.0.extend_from_slice(&v.to_le_bytes()); self }
    pub fn f64c(mut self, v: u64) -> C { self.0.push(0x44); self.0.extend_from_slice(&v.to_le_bytes()); self }
    pub fn v128c(mut self, v: u128) -> C { self.0.extend_from_slice(&[0xfd, 12]); self.0.extend_from_slice(&v.to_le_bytes()); self }
    pub fn fc(self, n: u64) -> C { self.op(0xfc).u(n) }
    pub fn fd(self, n: u64) -> C { self.op(0xfd).u(n) }
    pub fn call(self, i: u64) -> C { self.op(0x10).u(i) }
    pub fn rcall(self, i: u64) -> C { self.op(0x12).u(i) }
    pub fn calli(self, ty: u64, t: u64) -> C { self.op(0x11).u(ty).u(t) }
    pub fn rcalli(self, ty: u64, t: u64) -> C { self.op(0x13).u(ty).u(t) }
    pub fn block(self, t: u8) -> C { self.op(2).op(t) }
    pub fn lp(self, t: u8) -> C { self.op(3).op(t) }
    pub fn iff(self, t: u8) -> C { self.op(4).op(t) }
    pub fn els(self) -> C { self.op(5) }
    pub fn end(self) -> C { self.op(0x0b) }
    pub fn br(self, l: u64) -> C { self.op(0x0c).u(l) }
    pub fn brif(self, l: u64) -> C { self.op(0x0d).u(l) }
    pub fn brtable(mut self, ls: &[u64], d: u64) -> C { self = self.op(0x0e).u(ls.len() as u64); for l in ls { self = self.u(*l) } self.u(d) }
    pub fn ret(self) -> C { self.op(0x0f) }
    pub fn drop(self) -> C { self.op(0x1a) }
    pub fn select(self) -> C { self.op(0x1b) }
    pub fn unreachable(self) -> C { self.op(0) }
    /// load/store with the memory index and the (10 byte) offset spelled out
    pub fn mem(mut self, op: u8, align: u8, mem: u64, off: u64) -> C { self.0.push(op); memarg(&mut self.0, align, mem, off); self }
    /// the same with a 64 bit (10 byte) offset, which may be symbolic
    pub fn mem_w(mut self, op: u8, align: u8, mem: u64, off: u64) -> C { self.0.push(op); memarg_n(&mut self.0, align, mem, off, 10); self }
    pub fn memfd_w(mut self, op: u64, align: u8, mem: u64, off: u64) -> C { self = self.fd(op); memarg_n(&mut self.0, align, mem, off, 10); self }
    pub fn memfd(mut self, op: u64, align: u8, mem: u64, off: u64) -> C { self = self.fd(op); memarg(&mut self.0, align, mem, off); self }
}
fn memarg_n(out: &mut Vec<u8>, align: u8, mem: u64, off: u64, n: u32) { if mem == 0 { out.push(align) } else { out.push(align | 0x40); uleb(out, mem) } uleb_n(out, off, n) }
fn memarg(out: &mut Vec<u8>, align: u8, mem: u64, off: u64) { memarg_n(out, align, mem, off, 5) }
#[derive(Default, Clone)]
pub struct M {
    pub types: Vec<(Vec<u8>, Vec<u8>)>, pub imports: Vec<Vec<u8>>, pub nif: u32, pub nit: u32, pub nim: u32, pub nig: u32,
    pub funcs: Vec<u32>, pub tables: Vec<Vec<u8>>, pub mems: Vec<Vec<u8>>, pub globals: Vec<Vec<u8>>, pub exports: Vec<Vec<u8>>, pub start: Option<u32>,
    pub elems: Vec<Vec<u8>>, pub data: Vec<Vec<u8>>, pub code: Vec<Vec<u8>>,
}
fn name(out: &mut Vec<u8>, s: &str) { uleb(out, s.len() as u64); out.extend_from_slice(s.as_bytes()) }
pub fn limits(flags: u8, min: u64, max: Option<u64>) -> Vec<u8> { let mut v = vec![flags | max.is_some() as u8]; uleb(&mut v, min); if let Some(m) = max { uleb(&mut v, m) } v }
/// memory type: page size 2^log2
pub fn memty(m64: bool, min: u64, max: Option<u64>, page_log2: u8) -> Vec<u8> {
    let mut v = limits(if m64 { 4 } else { 0 } | if page_log2 != 16 { 8 } else { 0 }, min, max); if page_log2 != 16 { uleb(&mut v, page_log2 as u64) } v
}
impl M {
    pub fn new() -> M { M::default() }
    pub fn ty(&mut self, p: &[u8], r: &[u8]) -> u32 {
        for (i, t) in self.types.iter().enumerate() { if t.0 == p && t.1 == r { return i as u32 } }
        self.types.push((p.to_vec(), r.to_vec())); self.types.len() as u32 - 1
    }
    fn imp(&mut self, m: &str, n: &str, kind: u8, d: &[u8]) { let mut v = Vec::new(); name(&mut v, m); name(&mut v, n); v.push(kind); v.extend_from_slice(d); self.imports.push(v) }
    pub fn imp_func(&mut self, m: &str, n: &str, p: &[u8], r: &[u8]) -> u32 { let t = self.ty(p, r); let mut d = Vec::new(); uleb(&mut d, t as u64); self.imp(m, n, 0, &d); self.nif += 1; self.nif - 1 }
    pub fn imp_table(&mut self, m: &str, n: &str, et: u8, lim: &[u8]) -> u32 { let mut d = vec![et]; d.extend_from_slice(lim); self.imp(m, n, 1, &d); self.nit += 1; self.nit - 1 }
    pub fn imp_mem(&mut self, m: &str, n: &str, mt: &[u8]) -> u32 { self.imp(m, n, 2, mt); self.nim += 1; self.nim - 1 }
    pub fn imp_global(&mut self, m: &str, n: &str, t: u8, mutable: bool) -> u32 { self.imp(m, n, 3, &[t, mutable as u8]); self.nig += 1; self.nig - 1 }
    /// adds a function (code without the final `end`); all imports must come first
    pub fn func(&mut self, p: &[u8], r: &[u8], locals: &[(u32, u8)], code: C) -> u32 {
        let t = self.ty(p, r); self.funcs.push(t); let mut b = Vec::new(); uleb(&mut b, locals.len() as u64);
        for (n, t) in locals { uleb(&mut b, *n as u64); b.push(*t) }
        b.extend_from_slice(&code.0); b.push(0x0b); self.code.push(b); self.nif + self.funcs.len() as u32 - 1
    }
    pub fn table(&mut self, et: u8, min: u64, max: Option<u64>) -> u32 { let mut d = vec![et]; d.extend_from_slice(&limits(0, min, max)); self.tables.push(d); self.nit + self.tables.len() as u32 - 1 }
    /// a table whose elements start out as an expression says
    pub fn table_init(&mut self, et: u8, min: u64, init: C) -> u32 { let mut d = vec![0x40, 0, et]; d.extend_from_slice(&limits(0, min, None)); d.extend_from_slice(&init.0); d.push(0x0b); self.tables.push(d); self.nit + self.tables.len() as u32 - 1 }
    pub fn mem(&mut self, mt: Vec<u8>) -> u32 { self.mems.push(mt); self.nim + self.mems.len() as u32 - 1 }
    pub fn global(&mut self, t: u8, mutable: bool, init: C) -> u32 { let mut d = vec![t, mutable as u8]; d.extend_from_slice(&init.0); d.push(0x0b); self.globals.push(d); self.nig + self.globals.len() as u32 - 1 }
    pub fn export(&mut self, n: &str, kind: u8, i: u32) -> &mut M { let mut d = Vec::new(); name(&mut d, n); d.push(kind); uleb(&mut d, i as u64); self.exports.push(d); self }
    /// active element segment of function indices
    pub fn elem(&mut self, table: u32, off: C, fs: &[u32]) { let mut d = vec![2]; uleb(&mut d, table as u64); d.extend_from_slice(&off.0); d.push(0x0b); d.push(0); uleb(&mut d, fs.len() as u64); for f in fs { uleb(&mut d, *f as u64) } self.elems.push(d) }
    /// passive (mode 1) or declarative (mode 3) element segment of function indices
    pub fn elem_mode(&mut self, mode: u8, fs: &[u32]) { let mut d = vec![mode, 0]; uleb(&mut d, fs.len() as u64); for f in fs { uleb(&mut d, *f as u64) } self.elems.push(d) }
    /// passive element segment of expressions
    pub fn elem_exprs(&mut self, et: u8, es: &[C]) { let mut d = vec![5, et]; uleb(&mut d, es.len() as u64); for e in es { d.extend_from_slice(&e.0); d.push(0x0b) } self.elems.push(d) }
    /// active element segment of expressions
    pub fn elem_active_exprs(&mut self, table: u32, et: u8, off: C, es: &[C]) { let short = table == 0 && et == FUNCREF; let mut d = vec![if short { 4 } else { 6 }]; if !short { uleb(&mut d, table as u64) } d.extend_from_slice(&off.0); d.push(0x0b); if !short { d.push(et) } uleb(&mut d, es.len() as u64); for e in es { d.extend_from_slice(&e.0); d.push(0x0b) } self.elems.push(d) }
    /// active element segment of table 0, short form
    pub fn elem0(&mut self, off: C, fs: &[u32]) { let mut d = vec![0]; d.extend_from_slice(&off.0); d.push(0x0b); uleb(&mut d, fs.len() as u64); for f in fs { uleb(&mut d, *f as u64) } self.elems.push(d) }
    /// active data segment of memory 0, short form
    pub fn data0(&mut self, off: C, b: &[u8]) { let mut d = vec![0]; d.extend_from_slice(&off.0); d.push(0x0b); uleb(&mut d, b.len() as u64); d.extend_from_slice(b); self.data.push(d) }
    pub fn data(&mut self, mem: u32, off: C, b: &[u8]) { let mut d = vec![2]; uleb(&mut d, mem as u64); d.extend_from_slice(&off.0); d.push(0x0b); uleb(&mut d, b.len() as u64); d.extend_from_slice(b); self.data.push(d) }
    pub fn data_passive(&mut self, b: &[u8]) { let mut d = vec![1]; uleb(&mut d, b.len() as u64); d.extend_from_slice(b); self.data.push(d) }
    pub fn bytes(&self) -> Vec<u8> {
        let mut o = vec![0, 0x61, 0x73, 0x6d, 1, 0, 0, 0];
        fn sec(o: &mut Vec<u8>, id: u8, items: &[Vec<u8>]) { if items.is_empty() { return } let mut b = Vec::new(); uleb(&mut b, items.len() as u64); for i in items { b.extend_from_slice(i) } raw(o, id, &b) }
        fn raw(o: &mut Vec<u8>, id: u8, b: &[u8]) { o.push(id); uleb(o, b.len() as u64); o.extend_from_slice(b) }
        let tys: Vec<Vec<u8>> = self.types.iter().map(|(p, r)| { let mut v = vec![0x60]; uleb(&mut v, p.len() as u64); v.extend_from_slice(p); uleb(&mut v, r.len() as u64); v.extend_from_slice(r); v }).collect();
        sec(&mut o, 1, &tys); sec(&mut o, 2, &self.imports);
        let fs: Vec<Vec<u8>> = self.funcs.iter().map(|t| { let mut v = Vec::new(); uleb(&mut v, *t as u64); v }).collect();
        sec(&mut o, 3, &fs); sec(&mut o, 4, &self.tables); sec(&mut o, 5, &self.mems); sec(&mut o, 6, &self.globals); sec(&mut o, 7, &self.exports);
        if let Some(s) = self.start { let mut b = Vec::new(); uleb(&mut b, s as u64); raw(&mut o, 8, &b) }
        sec(&mut o, 9, &self.elems);
        if !self.data.is_empty() { let mut b = Vec::new(); uleb(&mut b, self.data.len() as u64); raw(&mut o, 12, &b) }
        let cs: Vec<Vec<u8>> = self.code.iter().map(|b| { let mut v = Vec::new(); uleb(&mut v, b.len() as u64); v.extend_from_slice(b); v }).collect();
        sec(&mut o, 10, &cs); sec(&mut o, 11, &self.data); o
    }
}
