//! C18: arbitrary bytes are accepted or rejected, never fatal.
use crate::rt::*;
use tinywasm::parser::{Parser, ParserOptions};
/// wasmparser's own verdict for the proposals the parser enables
fn valid(b: &[u8]) -> bool {
    use wasmparser::WasmFeatures as F; let f = F::CALL_INDIRECT_OVERLONG | F::BULK_MEMORY_OPT | F::RELAXED_SIMD | F::GC_TYPES | F::REFERENCE_TYPES | F::MUTABLE_GLOBAL | F::MULTI_VALUE | F::FLOATS | F::BULK_MEMORY | F::SATURATING_FLOAT_TO_INT | F::SIGN_EXTENSION | F::EXTENDED_CONST | F::FUNCTION_REFERENCES | F::TAIL_CALL | F::MULTI_MEMORY | F::SIMD | F::MEMORY64 | F::CUSTOM_PAGE_SIZES | F::WIDE_ARITHMETIC;
    wasmparser::Validator::new_with_features(f).validate_all(b).is_ok()
}
fn opts(opt: bool) -> ParserOptions { ParserOptions::default().with_parser_threads(1).with_rewrite_optimization(opt) }
/// what an accepted module does does not matter, as long as it does something
fn run(md: &Module) {
    let mut s = cfg_store(tinywasm::engine::Config::new().with_trap_on_oom(false)); let h = HostFunction::from(&mut s, |_, n: i32| Ok(n)); let mut im = Imports::new(); im.define("e", "h", h.clone()); im.define("e", "f", h);
    if let Ok(m) = Memory::new(&mut s, MemoryType::new(MemoryArch::I32, 1, Some(4), Some(1))) { im.define("e", "m", m); } if let Ok(t) = Table::new(&mut s, TableType::new(WasmType::RefFunc, 2, None), WasmValue::RefFunc(FuncRef::null())) { im.define("e", "t", t); } if let Ok(g) = Global::new(&mut s, GlobalType::new(WasmType::I32, false), i(1)) { im.define("e", "g", g); }
    let Ok(a) = ModuleInstance::instantiate_no_start(&mut s, md, Some(im)) else { cover("not instantiated"); return }; let mut fs = Vec::new(); for (_, x) in a.exports() { if let ExternItem::Func(f) = x { fs.push(f) } } if let Ok(Some(f)) = a.start_func(&s) { fs.push(f) }
    // the arguments: a few of each type list until one fits
    let v = || val(V128, 0x0102); let lists: [Vec<WasmValue>; 8] = [vec![], vec![i(1)], vec![i(1), i(2)], vec![i(0), l(1)], vec![l(3)], vec![v()], vec![val(F32, 0x3f80_0000)], vec![val(F64, 0x3ff0 << 48)]];
    for f in fs { for a in &lists { match f.call_resumable(&mut s, a) { Ok(mut e) => { let _ = e.resume_with_fuel(300); break } Err(Error::Other(_)) => {} Err(_) => break } } } cover("ran")
}
fn judge(b: &[u8], go: bool) {
    let r = Parser::with_options(opts(true)).parse_module_bytes(b);
    match r { Ok(md) => { check(valid(b), "an accepted module is valid"); cover("accepted"); if go { run(&md) } } Err(_) => cover("rejected") }
}
/// small modules; together they have every section
fn base(k: u64) -> Vec<u8> {
    let mut m = M::new();
    match k {
        0 => { let f = m.func(&[I32], &[I32], &[(1, I64)], c().get(0).op(0x41).op(5).op(0x6a)); m.export("f", KF, f); }
        1 => { m.imp_func("e", "h", &[I32], &[I32]); m.mem(memty(false, 1, Some(2), 0)); let f = m.func(&[], &[I32], &[], c().op(0x41).op(0).op(0x28).op(0).op(0).call(0)); m.export("f", KF, f).export("m", KM, 0); m.data0(c().op(0x41).op(1), &[]); }
        2 => { m.table(FUNCREF, 2, None); let g = m.global(I32, true, c().op(0x41).op(3)); let f = m.func(&[], &[], &[], c().gget(g as u64).op(0x41).op(1).op(0x6a).gset(g as u64)); m.elem0(c().op(0x41).op(0), &[f]); m.start = Some(f); }
        3 => { let f = m.func(&[I32, I32], &[I32], &[], c().block(VOID).get(0).brif(0).lp(I32).get(1).iff(VOID).op(0x41).op(0).set(1).br(1).end().get(0).end().ret().end().get(0).get(1).brtable(&[0], 0)); m.export("f", KF, f); }
        4 => { m.imp_mem("e", "m", &memty(false, 1, None, 0)); m.imp_table("e", "t", FUNCREF, &limits(0, 1, None)); m.imp_global("e", "g", I32, false); let f = m.func(&[I32], &[], &[], c().get(0).op(0x11).u(1).op(0)); m.ty(&[], &[]); m.elem_mode(1, &[f]); m.data_passive(&[1]); m.export("f", KF, f); }
        5 => { m.mem(memty(true, 1, None, 0)); let f = m.func(&[I32, I64], &[V128], &[(1, V128)], c().op(0x42).op(0).memfd(0, 0, 0, 0).get(2).ops(&[0xfd, 0xce, 1]).op(0x42).op(0).get(0).op(0x42).op(1).fc(11).op(0)); m.export("f", KF, f); }
        6 => { let f = m.func(&[EXTERNREF, FUNCREF], &[I32], &[], c().get(0).op(0xd1).op(0xd2).u(0).op(0xd1).op(0x6a).op(0xd0).op(0x70).drop()); m.elem_mode(3, &[f]); m.export("f", KF, f); }
        _ => { let f = m.func(&[I64], &[I64], &[], c().get(0).op(0x50).iff(I64).op(0x42).op(1).els().get(0).get(0).op(0x42).op(1).op(0x7d).rcall(0).end()); m.export("f", KF, f); }
    }
    m.bytes()
}
const BASES: u64 = 8;
const RICH: u64 = 4;
fn byte(go: bool, from: u64, to: u64) { let k = from + choose("module", to - from); let mut b = base(k); let at = choose("place", b.len() as u64) as usize; b[at] = u8v("byte"); judge(&b, go) }
h!(h_c18_base, { let b = base(choose("module", BASES)); let ok = valid(&b); check(ok, "the modules are valid"); let r = Parser::with_options(opts(true)).parse_module_bytes(&b); check(r.is_ok(), "and accepted"); run(&r.unwrap()); });
h!(h_c18_byte, { byte(true, 0, RICH) });
h!(h_c18_bytex, { byte(true, RICH, BASES) });
// ---- a byte more, a byte less, the end missing
h!(h_c18_edit, { let k = choose("module", BASES); let mut b = base(k); let n = b.len() as u64; match choose("edit", 3) { 0 => { let at = choose("length", n) as usize; b.truncate(at) } 1 => { let at = choose("place", n) as usize; b.remove(at); } _ => { let at = 8 + choose("place", n - 7) as usize; let d = b[at.min(b.len() - 1)]; b.insert(at, d) } } judge(&b, true) });
// ---- any instruction bytes
fn body(n: usize) { let mut m = M::new(); m.mem(memty(false, 1, None, 0)); m.table(FUNCREF, 1, None); m.global(I32, true, c().i32c(0)); m.data_passive(&[1]); let t = m.ty(&[I32], &[I32]); let _ = t; let mut b = c().get(0); for k in 0..n { b = b.op(u8v(["i0", "i1", "i2", "i3"][k])) } let f = m.func(&[I32], &[I32], &[(1, I64)], b); m.export("f", KF, f); judge(&m.bytes(), true) }
h!(h_c18_body, { body(2) });
h!(h_c18_bodyx, { body(3) });
// ---- the pieces a stream delivers
struct Pieces { b: Vec<u8>, at: usize, first: usize, then: usize }
impl std::io::Read for Pieces { fn read(&mut self, out: &mut [u8]) -> std::io::Result<usize> { let n = if self.at == 0 { self.first } else { self.then }.min(out.len()).min(self.b.len() - self.at); out[..n].copy_from_slice(&self.b[self.at..self.at + n]); self.at += n; Ok(n) } }
fn stream(k: u64, b: Vec<u8>) { let _ = k; let first = 1 + choose("first piece", b.len() as u64 + 1) as usize; let then = [1, 3, 1000][choose("then", 3) as usize]; let p = Parser::with_options(opts(true)); let x = p.parse_module_bytes(&b); let y = p.parse_module_stream(Pieces { b, at: 0, first, then }); match (x, y) { (Ok(x), Ok(y)) => { check(x == y, "the same module"); cover("accepted") } (Err(_), Err(_)) => cover("rejected"), _ => check(false, "the same verdict") } }
h!(h_c18_stream, { let k = choose("module", BASES); let mut b = base(k); match choose("edit", 4) { 0 => {} 1 => b.push(0), 2 => { b.pop(); } _ => { let n = b.len() - 1; b[n] = 0xff } } stream(k, b) });
h!(h_c18_streamx, { let mut b = base(0); let at = choose("place", b.len() as u64) as usize; b[at] = u8v("byte"); let p = Parser::with_options(opts(true)); let x = p.parse_module_bytes(&b); let y = p.parse_module_stream(Pieces { b, at: 0, first: 9, then: 2 }); match (x, y) { (Ok(x), Ok(y)) => { check(x == y, "the same module"); cover("accepted") } (Err(_), Err(_)) => cover("rejected"), _ => check(false, "the same verdict") } });
