//! Helpers that drive the code under test through its public API.
#![allow(dead_code)]
pub use crate::enc::*;
pub use crate::sym::{self, check, choose, cover, i32v, i64v, u32v, u64v, u8v, u128v, boolv, assume};
pub use tinywasm::types::*;
pub use tinywasm::*;
pub use tinywasm::{Function, Memory, Table, Global, Module};
use tinywasm::parser::{Parser, ParserOptions};
pub const OK: u32 = 0; pub const UNREACHABLE: u32 = 1; pub const OOB: u32 = 2; pub const TOOB: u32 = 3; pub const DIV0: u32 = 4; pub const BADCONV: u32 = 5;
pub const BADSTORE: u32 = 6; pub const OVERFLOW: u32 = 7; pub const CALLSTACK: u32 = 8; pub const VALUESTACK: u32 = 9; pub const OOM: u32 = 10; pub const UNDEF: u32 = 11;
pub const UNINIT: u32 = 12; pub const SIGMISMATCH: u32 = 13; pub const HOSTERR: u32 = 14; pub const OTHERTRAP: u32 = 15; pub const LINK: u32 = 16; pub const OTHERERR: u32 = 20;
pub fn trapcode(t: &Trap) -> u32 {
    match t {
        Trap::Unreachable => UNREACHABLE, Trap::MemoryOutOfBounds { .. } => OOB, Trap::TableOutOfBounds { .. } => TOOB, Trap::DivisionByZero => DIV0,
        Trap::InvalidConversionToInt => BADCONV, Trap::InvalidStore => BADSTORE, Trap::IntegerOverflow => OVERFLOW, Trap::CallStackOverflow => CALLSTACK,
        Trap::ValueStackOverflow => VALUESTACK, Trap::OutOfMemory => OOM, Trap::UndefinedElement { .. } => UNDEF, Trap::UninitializedElement { .. } => UNINIT,
        Trap::IndirectCallTypeMismatch { .. } => SIGMISMATCH, Trap::HostFunction(_) => HOSTERR, _ => OTHERTRAP,
    }
}
pub fn errcode(e: &Error) -> u32 { match e { Error::Trap(t) => trapcode(t), Error::Linker(_) => LINK, _ => OTHERERR } }
pub fn code<T>(r: &tinywasm::Result<T>) -> u32 { match r { Ok(_) => OK, Err(e) => errcode(e) } }
pub fn is_trap(c: u32) -> bool { c != OK && c < LINK }
pub fn parse_opt(b: &[u8], opt: bool) -> core::result::Result<Module, tinywasm::parser::ParseError> {
    let o = ParserOptions::default().with_rewrite_optimization(opt); #[cfg(not(feature = "lean"))] let o = o.with_parser_threads(1);
    Parser::with_options(o).parse_module_bytes(b)
}
#[allow(unused_variables)]
fn rejected(e: tinywasm::parser::ParseError, b: &[u8]) -> ! { #[cfg(feature = "native")] eprintln!("rejected: {e} {b:02x?}"); panic!("harness module rejected") }
pub fn parse(b: &[u8]) -> Module { match parse_opt(b, true) { Ok(m) => m, Err(e) => rejected(e, b) } }
pub fn parse_no(b: &[u8]) -> Module { match parse_opt(b, false) { Ok(m) => m, Err(e) => rejected(e, b) } }
pub fn inst(s: &mut Store, m: &M, opt: bool, imports: Option<Imports>) -> ModuleInstance {
    let md = if opt { parse(&m.bytes()) } else { parse_no(&m.bytes()) };
    match ModuleInstance::instantiate(s, &md, imports) { Ok(i) => i, Err(_) => panic!("harness module does not instantiate") }
}
pub fn cfg_store(c: tinywasm::engine::Config) -> Store { Store::new(Engine::new(c)) }
/// small stacks: the same code, less memory to fork
pub fn small() -> tinywasm::engine::Config { tinywasm::engine::Config::new() }
pub fn val(t: u8, b: u128) -> WasmValue {
    match t { I32 => WasmValue::I32(b as i32), I64 => WasmValue::I64(b as i64), F32 => WasmValue::F32(f32::from_bits(b as u32)), F64 => WasmValue::F64(f64::from_bits(b as u64)), V128 => WasmValue::V128(b.to_le_bytes()), _ => panic!() }
}
/// the bits of a value; all ones in the upper half stand for a value of another type
pub fn bits(v: &WasmValue) -> u128 {
    match v { WasmValue::I32(x) => *x as u32 as u128, WasmValue::I64(x) => *x as u64 as u128, WasmValue::F32(x) => x.to_bits() as u128, WasmValue::F64(x) => x.to_bits() as u128, WasmValue::V128(x) => u128::from_le_bytes(*x),
        WasmValue::RefExtern(r) => r.raw() as u128, WasmValue::RefFunc(r) => r.raw() as u128 }
}
pub fn vty(v: &WasmValue) -> u8 { match v { WasmValue::I32(_) => I32, WasmValue::I64(_) => I64, WasmValue::F32(_) => F32, WasmValue::F64(_) => F64, WasmValue::V128(_) => V128, WasmValue::RefExtern(_) => EXTERNREF, WasmValue::RefFunc(_) => FUNCREF } }
pub fn mask(t: u8) -> u128 { match t { I32 | F32 => 0xffff_ffff, I64 | F64 => u64::MAX as u128, _ => u128::MAX } }
/// a symbolic value of the type
pub fn symbits(n: &str, t: u8) -> u128 { match t { I32 | F32 => u32v(n) as u128, I64 | F64 => u64v(n) as u128, _ => u128v(n) } }
pub fn call(s: &mut Store, i: &ModuleInstance, n: &str, a: &[WasmValue]) -> (u32, Vec<WasmValue>) {
    let f = match i.func_untyped(s, n) { Ok(f) => f, Err(_) => panic!("no such function") };
    match f.call(s, a) { Ok(v) => (OK, v), Err(e) => (errcode(&e), Vec::new()) }
}
/// call with one result: outcome, bits of the result (0 on a trap)
pub fn call1(s: &mut Store, i: &ModuleInstance, n: &str, a: &[WasmValue]) -> (u32, u128) {
    let (c, v) = call(s, i, n, a); if c == OK { check(v.len() == 1, "one result"); (c, bits(&v[0])) } else { (c, 0) }
}
pub fn i(v: i32) -> WasmValue { WasmValue::I32(v) }
pub fn l(v: i64) -> WasmValue { WasmValue::I64(v) }
/// A reference byte memory that may be addressed with symbolic addresses (65 bit sums do not wrap here).
#[derive(Clone)]
pub struct RefMem(pub Vec<u8>);
impl RefMem {
    pub fn inb(&self, ea: u128, n: u64) -> bool { ea + n as u128 <= self.0.len() as u128 }
    pub fn get(&self, at: u64) -> u8 { let mut r = 0u64; for (k, b) in self.0.iter().enumerate() { r = sym::ite(at == k as u64, *b as u64, r) } r as u8 }
    /// little endian value of n bytes
    pub fn load(&self, ea: u64, n: u64) -> u128 { let mut r = 0u128; for k in 0..n { r |= (self.get(ea.wrapping_add(k)) as u128) << (8 * k) } r }
    pub fn put(&mut self, at: u64, v: u8) { for k in 0..self.0.len() { self.0[k] = sym::ite(at == k as u64, v as u64, self.0[k] as u64) as u8 } }
    pub fn store(&mut self, ea: u64, n: u64, v: u128) { for k in 0..n { self.put(ea.wrapping_add(k), (v >> (8 * k)) as u8) } }
    pub fn eq(&self, o: &[u8]) -> bool { if self.0.len() != o.len() { return false } let mut e = true; for k in 0..o.len() { e &= self.0[k] == o[k] } e }
}
/// a value that is symbolic but goes through the code as one of few shapes
pub fn konst(c: C, t: u8, v: u128) -> C { match t { I32 => c.i32c(v as i32), I64 => c.i64c(v as i64), F32 => c.f32c(v as u32), F64 => c.f64c(v as u64), _ => c.v128c(v) } }
pub fn sx(v: u128, from: u32) -> u128 { let s = 128 - from; (((v << s) as i128) >> s) as u128 }
