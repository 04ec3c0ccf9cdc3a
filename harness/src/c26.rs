//! C26: what a module says about itself - its imports, exports and their types - is what its bytes declare, and the items of an instance are of those types.
use crate::rt::*;
use tinywasm::parser::{Parser, ParserOptions};
use tinywasm::types::{ExportType, GlobalType, ImportType, MemoryArch, MemoryType, TableType};
fn wt(t: u8) -> WasmType { match t { I32 => WasmType::I32, I64 => WasmType::I64, F32 => WasmType::F32, F64 => WasmType::F64, V128 => WasmType::V128, EXTERNREF => WasmType::RefExtern, _ => WasmType::RefFunc } }
fn wts(t: &[u8]) -> Vec<WasmType> { t.iter().map(|t| wt(*t)).collect() }
const T: [u8; 7] = [I32, I64, F32, F64, V128, FUNCREF, EXTERNREF];
/// limits whose numbers may be symbolic
fn lim(flags: u8, min: u64, max: Option<u64>, page: Option<u8>) -> Vec<u8> { let mut v = vec![flags | max.is_some() as u8 | if page.is_some() { 8 } else { 0 }]; let n = if flags & 4 != 0 { 10 } else { 5 }; uleb_n(&mut v, min, n); if let Some(m) = max { uleb_n(&mut v, m, n) } if let Some(p) = page { v.push(p) } v }
#[derive(Clone, PartialEq)]
enum D { F(Vec<u8>, Vec<u8>), T(u8, bool, u64, Option<u64>), M(bool, u8, u64, Option<u64>), G(u8, bool) }
fn func(f: &FuncType, p: &[u8], r: &[u8]) -> bool { f.params() == &wts(p)[..] && f.results() == &wts(r)[..] }
fn table(t: &TableType, e: u8, a64: bool, min: u64, max: Option<u64>) -> bool { (t.element_type == wt(e)) & ((t.arch() == MemoryArch::I64) == a64) & (t.size_initial == min) & (t.size_max.is_some() == max.is_some()) & (t.size_max.unwrap_or(0) == max.unwrap_or(0)) }
fn memory(t: &MemoryType, a64: bool, page: u8, min: u64, max: Option<u64>) -> bool { ((t.arch() == MemoryArch::I64) == a64) & (t.page_size() == 1 << page) & (t.page_count_initial() == min) & (t.declared_page_count_max().is_some() == max.is_some()) & (t.declared_page_count_max().unwrap_or(0) == max.unwrap_or(0)) & (max.is_none() | (t.page_count_max() == max.unwrap_or(0))) }
fn global(t: &GlobalType, ty: u8, mutable: bool) -> bool { (t.ty == wt(ty)) & (t.mutable == mutable) }
fn is_import(i: &ImportType<'_>, d: &D) -> bool { match (i, d) { (ImportType::Func(f), D::F(p, r)) => func(f, p, r), (ImportType::Table(t), D::T(e, a, min, max)) => table(t, *e, *a, *min, *max), (ImportType::Memory(t), D::M(a, p, min, max)) => memory(t, *a, *p, *min, *max), (ImportType::Global(t), D::G(ty, m)) => global(t, *ty, *m), _ => false } }
fn is_export(i: &ExportType<'_>, d: &D) -> bool { match (i, d) { (ExportType::Func(f), D::F(p, r)) => func(f, p, r), (ExportType::Table(t), D::T(e, a, min, max)) => table(t, *e, *a, *min, *max), (ExportType::Memory(t), D::M(a, p, min, max)) => memory(t, *a, *p, *min, *max), (ExportType::Global(t), D::G(ty, m)) => global(t, *ty, *m), _ => false } }
fn kind(d: &D) -> u8 { match d { D::F(..) => KF, D::T(..) => KT, D::M(..) => KM, D::G(..) => KG } }
fn sig(k: usize) -> (Vec<u8>, Vec<u8>) { [(vec![I32], vec![I64, F32]), (vec![], vec![]), (vec![F64, V128], vec![]), (vec![I64], vec![I32]), (vec![EXTERNREF, FUNCREF, I32], vec![V128]), (vec![I32, I64], vec![F32])][k % 6].clone() }
/// the k-th item of a kind, all different
fn item(kind: u8, k: usize, min: u64, max: Option<u64>) -> D { match kind { KF => { let (p, r) = sig(k); D::F(p, r) } KT => D::T([FUNCREF, EXTERNREF][k % 2], k == 3, min + k as u64, max.map(|m| m + k as u64)), KM => D::M(k % 3 == 1, [16, 0][k % 2], min + k as u64, max.map(|m| m + k as u64)), _ => D::G(T[(3 * k) % 7], k % 2 == 1) } }
fn add_import(m: &mut M, mo: &str, n: &str, d: &D) { match d { D::F(p, r) => { m.imp_func(mo, n, p, r); } D::T(e, a, min, max) => { m.imp_table(mo, n, *e, &lim(if *a { 4 } else { 0 }, *min, *max, None)); } D::M(a, p, min, max) => { m.imp_mem(mo, n, &lim(if *a { 4 } else { 0 }, *min, *max, if *p == 16 { None } else { Some(*p) })); } D::G(t, mu) => { m.imp_global(mo, n, *t, *mu); } } }
fn zero(t: u8) -> C { match t { I32 => c().i32c(7), I64 => c().i64c(7), F32 => c().f32c(7), F64 => c().f64c(7), V128 => c().v128c(7), r => c().op(0xd0).op(r) } }
fn add_local(m: &mut M, d: &D) { match d { D::F(p, r) => { m.func(p, r, &[], c().unreachable()); } D::T(e, a, min, max) => { let mut v = vec![*e]; v.extend(lim(if *a { 4 } else { 0 }, *min, *max, None)); m.tables.push(v); } D::M(a, p, min, max) => { m.mem(lim(if *a { 4 } else { 0 }, *min, *max, if *p == 16 { None } else { Some(*p) })); } D::G(t, mu) => { m.global(*t, *mu, zero(*t)); } } }
fn get(b: &[u8], via: u64) -> Module { match via { 0 => parse(b), 1 => parse_no(b), 2 => Parser::with_options(ParserOptions::default().with_parser_threads(1)).parse_module_stream(b).unwrap_or_else(|_| panic!("stream")), 3 => { let z = parse(b).serialize_twasm().unwrap_or_else(|_| panic!("saving")); Module::try_from_twasm(&z).unwrap_or_else(|_| panic!("loading")) } _ => parse(b).clone() } }
/// three imports of any kinds in any order, two own items of each kind, one export of each kind with any index and another twice
fn lists(n: usize, via: u64) {
    let (min, max) = (300u64, if choose("has max", 2) == 1 { Some(20_000u64) } else { None }); let letter = |n: &str| { let b = u8v(n); assume(b < 0x80); b }; let (l0, l1) = (letter("letter of an import"), letter("letter of an export")); let big = u32v("maximum of a table") as u64; assume(big >= 310); let mut m = M::new(); let mut imps = Vec::new(); let mut all: [Vec<D>; 4] = Default::default(); let n0 = [b'a', l0]; let n1 = [b'x', l1]; let n0 = unsafe { core::str::from_utf8_unchecked(&n0) }; let n1 = unsafe { core::str::from_utf8_unchecked(&n1) }; let names = [("", n0), ("a", "b"), ("a", "\u{e9}\u{20ac}"), ("longer module name", "n")];
    for k in 0..n { let kd = choose(["k0", "k1", "k2", "k3"][k], 4) as u8; let d = item(kd, all[kd as usize].len(), min, max); all[kd as usize].push(d.clone()); imps.push(d) }
    // a type nothing uses comes first
    m.ty(&[F32, F32, F32], &[F32]); for k in 0..n { add_import(&mut m, names[k].0, names[k].1, &imps[k]) }
    for kd in 0..4u8 { for _ in 0..2 { let mut d = item(kd, all[kd as usize].len(), min, max); if let (D::T(_, false, _, Some(mx)), true) = (&mut d, all[1].len() < 2) { *mx = big } add_local(&mut m, &d); all[kd as usize].push(d) } }
    let at = choose("exported kind", 4) as u8; let k = choose("index", all[at as usize].len() as u64) as usize;
    let mut ex: Vec<(String, D)> = Vec::new(); let mut e = |m: &mut M, n: &str, kd: u8, k: usize, all: &[Vec<D>; 4]| { m.export(n, kd, k as u32); ex.push((n.to_string(), all[kd as usize][k].clone())) };
    e(&mut m, "zzzz", at, k, &all); for kd in 0..4u8 { let last = all[kd as usize].len() - 1; e(&mut m, ["f", "", "\u{fc}", "ggggg"][kd as usize], kd, last, &all) } e(&mut m, n1, at, k, &all); e(&mut m, "f0", KF, 0, &all);
    let md = get(&m.bytes(), via); let mut k = 0;
    for i in md.imports() { check(k < n && i.module == names[k].0 && i.name == names[k].1, "imports in order"); check(is_import(&i.ty, &imps[k]), "type of an import"); k += 1 } check(k == n, "every import");
    let mut k = 0; for x in md.exports() { check(k < ex.len() && x.name == ex[k].0, "exports in order"); check(is_export(&x.ty, &ex[k].1), "type of an export"); k += 1 } check(k == ex.len(), "every export");
    cover("described")
}
h!(h_c26_lists, { let v = choose("via", 2); lists(2, if v == 0 { 0 } else { 3 }) });
h!(h_c26_via, { lists(1, choose("via", 5)) });
h!(h_c26_listsx, { lists(3, choose("via", 5)) });
/// any lists of parameter and result types
fn types(np: u64, nr: u64) {
    let (a, b) = (choose("parameters", np), choose("results", nr)); let p: Vec<u8> = (0..a).map(|k| T[choose(["p0", "p1", "p2"][k as usize], 7) as usize]).collect(); let r: Vec<u8> = (0..b).map(|k| T[choose(["r0", "r1"][k as usize], 7) as usize]).collect();
    let mut m = M::new(); m.ty(&r, &p); m.imp_func("e", "i", &p, &r); let f = m.func(&p, &r, &[], c().unreachable()); m.export("f", KF, f); let f = m.func(&r, &p, &[], c().unreachable()); m.export("g", KF, f).export("i", KF, 0);
    let md = parse(&m.bytes()); let i: Vec<_> = md.imports().collect(); check(i.len() == 1 && matches!(i[0].ty, ImportType::Func(t) if func(t, &p, &r)), "type of an import"); let x: Vec<_> = md.exports().collect(); check(x.len() == 3, "every export");
    check(matches!(x[0].ty, ExportType::Func(t) if func(t, &p, &r)) && matches!(x[1].ty, ExportType::Func(t) if func(t, &r, &p)) && matches!(x[2].ty, ExportType::Func(t) if func(t, &p, &r)), "type of an export"); cover("described")
}
h!(h_c26_types, { types(3, 2) });
h!(h_c26_typesx, { types(4, 3) });
// the limits of every kind of memory and table, over their whole range
h!(h_c26_limits, {
    let a64 = choose("i64", 2) == 1; let mem = choose("memory", 2) == 1; let page = if mem { [16u8, 0][choose("page", 2) as usize] } else { 16 }; let min = if a64 { u64v("min") } else { u32v("min") as u64 }; let max = if choose("has max", 2) == 1 { Some(if a64 { u64v("max") } else { u32v("max") as u64 }) } else { None };
    let bound = if !mem { if a64 { u64::MAX } else { u32::MAX as u64 } } else { let p = 1u64 << page; if a64 { u64::MAX / p } else { (1u64 << 32) / p - (p == 1) as u64 } }; assume(min <= bound && max.is_none_or(|m| m >= min && m <= bound)); let imported = choose("imported", 2) == 1; assume(mem || imported || min <= 10_000_000);
    assume(mem || min <= 10_000_000);
    let d = if mem { D::M(a64, page, min, max) } else { D::T(EXTERNREF, a64, min, max) }; let mut m = M::new(); if imported { add_import(&mut m, "a", "b", &d) } else { add_local(&mut m, &d) } m.export("x", kind(&d), 0);
    let md = get(&m.bytes(), [0, 3][choose("via", 2) as usize]); let i: Vec<_> = md.imports().collect(); check(i.len() == imported as usize && (!imported || is_import(&i[0].ty, &d)), "type of an import"); let x: Vec<_> = md.exports().collect(); check(x.len() == 1 && is_export(&x[0].ty, &d), "type of an export"); cover("described")
});
// ---- instances: the exported items are of the types described; items by index
// an exporter of everything, then an importer of any of it
h!(h_c26_instance, {
    let (x, y) = (0x8765_4321u32, 0xfedc_ba98_7654_3210u64); let mut s = Store::default(); let mut b = M::new(); let f = b.func(&[I32], &[I64], &[], c().i64c(y as i64)); b.export("f", KF, f); b.table(EXTERNREF, 3, Some(9)); b.export("t", KT, 0); b.mem(memty(false, 3, Some(9), 0)); b.export("m", KM, 0); b.global(I64, true, c().i64c(y as i64)); b.export("g", KG, 0); let b = inst(&mut s, &b, true, None);
    let mut m = M::new(); let n = 1 + choose("imports", 2) as usize; let mut im = Imports::new(); im.link_module("e", b).unwrap_or_else(|_| panic!("link")); let mut cnt = [0u32; 4];
    for k in 0..n { let kd = choose(["k0", "k1"][k], 4) as u8; cnt[kd as usize] += 1; match kd { KF => { m.imp_func("e", "f", &[I32], &[I64]); } KT => { m.imp_table("e", "t", EXTERNREF, &lim(0, 1, Some(20), None)); } KM => { m.imp_mem("e", "m", &lim(0, 1, Some(20), Some(0))); } _ => { m.imp_global("e", "g", I64, true); } } }
    // own items hold x; imported ones y (or 3 elements, 3 bytes)
    m.func(&[], &[I32], &[], c().i32c(x as i32)); m.func(&[F32], &[F32], &[], c().get(0)); m.table(FUNCREF, 1, Some(2)); m.table(EXTERNREF, 2, None); m.mem(memty(false, 1, Some(2), 0)); m.mem(memty(false, 2, None, 0)); m.global(I32, false, c().i32c(x as i32)); m.global(I32, true, c().i32c(!x as i32));
    let kd = choose("kind", 4) as u8; let total = cnt[kd as usize] + 2; let k = choose("index", total as u64 + 1) as u32; let by = choose("by", 2);
    if k < total { m.export("it", kd, k); } let md = parse(&m.bytes()); let a = ModuleInstance::instantiate(&mut s, &md, Some(im)).unwrap_or_else(|_| panic!("instantiate"));
    if k == total { // and everything above it
        if n != 1 || cnt[kd as usize] != 1 || by != 0 { return }
        let at = u32v("at"); assume(at >= total); check(match kd { KF => a.func_by_index(&s, at).is_err(), KT => a.table_by_index(at).is_err(), KM => a.memory_by_index(at).is_err(), _ => a.global_by_index(at).is_err() }, "an index out of range"); cover("error"); return
    }
    let own = k as i64 - cnt[kd as usize] as i64; let d = md.exports().next().map(|e| match e.ty { ExportType::Table(t) => (t.element_type, t.size_initial, t.size_max), ExportType::Memory(t) => (WasmType::I32, t.page_count_initial(), t.declared_page_count_max()), ExportType::Global(t) => (t.ty, t.mutable as u64, None), ExportType::Func(f) => (WasmType::I32, f.params().len() as u64, Some(f.results().len() as u64)) });
    let Some(d) = d else { check(false, "the export is described"); return };
    match kd {
        KF => { let f = if by == 0 { a.func_by_index(&s, k) } else { a.func_untyped(&s, "it") }; let Ok(f) = f else { check(false, "a function"); return }; let fl = u32v("float");
            let (args, want) = match own { 0 => (vec![], x as u128), 1 => (vec![val(F32, fl as u128)], fl as u128), _ => (vec![i(1)], y as u128) }; check(d.1 == args.len() as u64 && d.2 == Some(1), "described type"); let r = f.call(&mut s, &args); check(matches!(r, Ok(ref v) if v.len() == 1 && bits(&v[0]) == want && vty(&v[0]) == [I64, I32, F32][(own.max(-1) + 1) as usize]), "it is that function");
            if by == 0 { check(match own { 0 => a.func_typed_by_index::<(), i32>(&s, k).is_ok() && a.func_typed_by_index::<i32, i64>(&s, k).is_err(), 1 => a.func_typed_by_index::<f32, f32>(&s, k).is_ok() && a.func_typed_by_index::<(), i32>(&s, k).is_err(), _ => a.func_typed_by_index::<i32, i64>(&s, k).is_ok() && a.func_typed_by_index::<i32, f64>(&s, k).is_err() }, "typed by index") }
        }
        KT => { let t = if by == 0 { a.table_by_index(k) } else { a.table("it") }; let Ok(t) = t else { check(false, "a table"); return }; let (e, n, mx) = match own { 0 => (FUNCREF, 1, Some(2)), 1 => (EXTERNREF, 2, None), _ => (EXTERNREF, 3, Some(9)) };
            check(matches!(t.size(&s), Ok(z) if z == n) && matches!(t.ty(&s), Ok(ref q) if table(q, e, false, n as u64, mx)), "it is that table"); check(d == if own < 0 { (wt(e), 1, Some(20)) } else { (wt(e), n as u64, mx) }, "described type") }
        KM => { let o = if by == 0 { a.memory_by_index(k) } else { a.memory("it") }; let Ok(o) = o else { check(false, "a memory"); return }; let (n, mx) = match own { 0 => (1u64, Some(2)), 1 => (2, None), _ => (3, Some(9)) };
            check(matches!(o.len(&s), Ok(z) if z as u64 == n) && matches!(o.ty(&s), Ok(ref q) if memory(q, false, 0, n, mx)), "it is that memory"); check(d == if own < 0 { (WasmType::I32, 1, Some(20)) } else { (WasmType::I32, n, mx) }, "described type");
            let z = u8v("byte"); check(o.copy_from_slice(&mut s, n as usize - 1, &[z]).is_ok() && matches!(o.read_vec(&s, n as usize - 1, 1), Ok(v) if v[0] == z), "its bytes are there") }
        _ => { let g = if by == 0 { a.global_by_index(k) } else { a.global("it") }; let Ok(g) = g else { check(false, "a global"); return }; let (t, mu, v) = match own { 0 => (I32, false, x as u128), 1 => (I32, true, !x as u128), _ => (I64, true, y as u128) };
            check(matches!(g.ty(&s), Ok(ref q) if global(q, t, mu)) && d == (wt(t), mu as u64, None), "described type"); check(matches!(g.get(&s), Ok(ref w) if (vty(w) == t) & (bits(w) == v)), "it is that global"); let z = u32v("new"); let nv = val(t, z as u128); check(g.set(&mut s, nv).is_ok() == mu, "set when mutable"); check(matches!(g.get(&s), Ok(ref w) if bits(w) == if mu { z as u128 } else { v }), "its value") }
    }
    cover("value")
});
