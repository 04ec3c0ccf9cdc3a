//! C07: sizes follow the declared limits: growth adds exactly what was asked for, zeroed, or changes nothing.
use crate::rt::*;
use crate::prog::wt;
fn backend(k: u64) -> tinywasm::engine::Config { let c = tinywasm::engine::Config::new(); match k { 0 => c, 1 => c.with_memory_backend(tinywasm::engine::MemoryBackend::paged(2)), _ => c.with_memory_backend(tinywasm::engine::MemoryBackend::paged(8)).with_trap_on_oom(true) } }
const CAP: u64 = 6;
const VAR: [(u64, Option<u64>, u64, u64); 7] = [(2, Some(u64::MAX), 0, 0), (0, None, 0, 0), (2, Some(3), 1, 1), (3, Some(6), 2, 0), (2, None, 1, 0), (0, Some(3), 0, 1), (3, Some(3), 1, 0)];
// ---- memories of one byte pages, grown by the guest, another module and the host
fn mem(m64: bool, opt: bool, steps: usize) {
    let (min, max, be, side) = if steps > 2 { ([0u64, 2, 3][choose("min", 3) as usize], [None, Some(3), Some(6)][choose("max", 3) as usize], choose("backend", 3), choose("second", 2)) } else { VAR[choose("variant", 7) as usize] }; let max = max.map(|m| if m == u64::MAX { if m64 { (1 << 33) + 3 } else { u32::MAX as u64 } } else { m }); let mut st = cfg_store(backend(be));
    let t = if m64 { I64 } else { I32 }; let mut m = M::new(); if side == 1 { m.mem(memty(!m64, 1, Some(1), 0)); } let k = m.mem(memty(m64, min, max, 0)) as u64; m.export("m", KM, k as u32);
    let g = m.func(&[t], &[I64, t], &[], c().i64c(0x55).get(0).op(0x40).u(k)); m.export("grow", KF, g); let s = m.func(&[], &[t], &[], c().op(0x3f).u(k)); m.export("size", KF, s);
    // grow and size together, with the delta an expression
    let gs = m.func(&[t], &[t, t], &[], c().get(0).cat(&konst(c(), t, 0)).op(if m64 { 0x7c } else { 0x6a }).op(0x40).u(k).op(0x3f).u(k)); m.export("growsize", KF, gs); let ld = m.func(&[t], &[I32], &[], c().get(0).mem(0x2d, 0, k, 0)); m.export("ld", KF, ld);
    let a = inst(&mut st, &m, opt, None); let mut m2 = M::new(); m2.imp_mem("a", "m", &memty(m64, 0, max, 0)); let s = m2.func(&[], &[t], &[], c().op(0x3f).u(0)); m2.export("size", KF, s); let g = m2.func(&[t], &[I64, t], &[], c().i64c(0x55).get(0).op(0x40).u(0)); m2.export("grow", KF, g); let mut im = Imports::new(); if im.link_module("a", a.clone()).is_err() { panic!("link") } let b = inst(&mut st, &m2, opt, Some(im));
    let h = a.memory("m").unwrap(); let init = sym::bytes::<3>("init"); check(h.copy_from_slice(&mut st, 0, &init[..min as usize]).is_ok(), "initial contents"); let mut want: Vec<u8> = init[..min as usize].to_vec();
    let lim = max.unwrap_or(1 << 32) as u128; let w = |v: u64| if m64 { l(v as i64) } else { i(v as i32) };
    for s in 0..steps {
        let d = if m64 { u64v("delta") } else { u32v("delta") as u64 }; let new = want.len() as u128 + d as u128; let fits = new <= lim;
        let who = if s == 1 && steps == 2 { choose("who1", 2) * 2 + 1 } else { choose(["who0", "who1", "who2"][s], 4) };
        // sizes between the small ones and the limit are outside the bound
        let x = if who == 3 && !m64 { d as i32 as i64 } else { d as i64 }; let neg = x < 0; assume(if fits { new <= CAP as u128 || neg && who == 3 } else { true }); let fits = fits && !(neg && (m64 || who == 3)); if max.is_none() { assume(fits || neg || new > 1 << 62 || !m64 && new > 1 << 32) }
        let old = want.len() as u64; let r = match who { 0 => { let (oc, r) = call(&mut st, &a, "grow", &[w(d)]); check(oc == OK && bits(&r[0]) == 0x55, "growing never traps"); bits(&r[1]) as u64 } 1 => { let (oc, r) = call(&mut st, &a, "growsize", &[w(d)]); check(oc == OK, "growing never traps"); check(bits(&r[1]) as u64 == if fits { new as u64 } else { old }, "the size seen right afterwards"); bits(&r[0]) as u64 } 2 => { let (oc, r) = call(&mut st, &b, "grow", &[w(d)]); check(oc == OK && bits(&r[0]) == 0x55, "growing never traps"); bits(&r[1]) as u64 } _ => { match h.grow(&mut st, x) { Ok(Some(v)) => v as u64, Ok(None) => if m64 { u64::MAX } else { u32::MAX as u64 }, Err(_) => { check(false, "the host's growth reports no error"); return } } } };
        if fits { check(r == old, "growing returns the old size"); cover("value"); let n = sym::concretize(new as u64); want.resize(n as usize, 0) } else { check(r == if m64 { u64::MAX } else { u32::MAX as u64 }, "growth beyond the maximum returns -1"); cover("refused") }
    }
    let n = want.len() as u64; for x in [&a, &b] { let (oc, s) = call1(&mut st, x, "size", &[]); check(oc == OK && s as u64 == n, "memory.size") } check(h.page_count(&st).unwrap() as u64 == n && h.len(&st).unwrap() as u64 == n, "the size seen by the host"); let v = h.read_vec(&st, 0, n as usize).unwrap(); check(v == want, "contents survive, new bytes are zero");
    let p = if m64 { u64v("probe") } else { u32v("probe") as u64 }; let (oc, r) = call1(&mut st, &a, "ld", &[w(p)]); if p < n { check(oc == OK, "the whole memory is accessible"); check(r as u8 == RefMem(want.clone()).get(p), "a byte") } else { check(oc == OOB, "nothing beyond is") }
}
h!(h_c07_mem32, { mem(false, true, 2) });
h!(h_c07_mem64, { mem(true, false, 2) });
h!(h_c07_mem32x, { mem(false, false, 3) });
h!(h_c07_mem64x, { mem(true, true, 3) });
// ---- memories of 64 KiB pages
h!(h_c07_page, {
    let m64 = choose("m64", 2) == 1; let min = choose("min", 2); let max = [None, Some(1), Some(2), Some(65536)][choose("max", 4) as usize]; let mut st = cfg_store(match choose("backend", 2) { 0 => tinywasm::engine::Config::new(), _ => tinywasm::engine::Config::new().with_memory_backend(tinywasm::engine::MemoryBackend::paged(1 << 15)) }); let t = if m64 { I64 } else { I32 };
    let mut m = M::new(); m.mem(memty(m64, min, max, 16)); m.export("m", KM, 0); let g = m.func(&[t], &[t, t], &[], c().get(0).op(0x40).u(0).op(0x3f).u(0)); m.export("g", KF, g); let ld = m.func(&[t], &[I32], &[], c().get(0).mem(0x2d, 0, 0, 0)); m.export("ld", KF, ld); let s8 = m.func(&[t, I32], &[], &[], c().get(0).get(1).mem(0x3a, 0, 0, 0)); m.export("s8", KF, s8);
    let a = inst(&mut st, &m, true, None); let h = a.memory("m").unwrap(); let d = if m64 { u64v("delta") } else { u32v("delta") as u64 }; let new = min as u128 + d as u128; let lim = max.unwrap_or(if m64 { 1 << 48 } else { 65536 }) as u128; let fits = new <= lim; assume(!fits || new <= 2); if m64 && max.is_none() { assume(fits || new > 1 << 48) } let d = if fits { sym::concretize(d) } else { d }; let w = |v: u64| if m64 { l(v as i64) } else { i(v as i32) };
    if min == 1 { call(&mut st, &a, "s8", &[w(65535), i(7)]); }
    let (oc, r) = call(&mut st, &a, "g", &[w(d)]); check(oc == OK, "growing never traps"); let n = if fits { sym::concretize(new as u64) } else { min }; check(bits(&r[0]) as u64 == if fits { min } else if m64 { u64::MAX } else { u32::MAX as u64 }, "result of growing"); check(bits(&r[1]) as u64 == n, "size in pages"); check(h.page_count(&st).unwrap() as u64 == n && h.len(&st).unwrap() as u64 == n * 65536, "the size seen by the host"); cover(if fits { "value" } else { "refused" });
    for p in [0u64, 65535, 65536, 131071, 131072] { let (oc, r) = call1(&mut st, &a, "ld", &[w(p)]); if p < n * 65536 { check(oc == OK && r == if p == 65535 && min == 1 { 7 } else { 0 }, "a byte") } else { check(oc == OOB, "nothing beyond") } }
});
// ---- tables
fn table(steps: usize, opt: bool) {
    let t64 = choose("t64", 2) == 1; let ext = choose("externref", 2) == 1; let et = if ext { EXTERNREF } else { FUNCREF }; let min = [0u64, 2][choose("min", 2) as usize]; let max = [None, Some(3), Some(5), Some(if t64 { (1 << 32) + 3 } else { u32::MAX as u64 })][choose("max", 4) as usize]; let mut st = Store::default(); let t = if t64 { I64 } else { I32 };
    let mut m = M::new(); m.table(FUNCREF, 1, Some(1)); let mut d = vec![et]; d.extend_from_slice(&limits(if t64 { 4 } else { 0 }, min, max)); m.tables.push(d); m.export("t", KT, 1); let f = m.func(&[], &[], &[], c()); m.elem_mode(3, &[f]); let rf = m.func(&[], &[FUNCREF], &[], c().op(0xd2).u(f as u64)); m.export("rf", KF, rf);
    let g = m.func(&[et, t], &[I64, t], &[], c().i64c(0x66).get(0).get(1).fc(15).u(1)); m.export("grow", KF, g); let s = m.func(&[], &[t], &[], c().fc(16).u(1)); m.export("size", KF, s); let ge = m.func(&[t], &[et], &[], c().get(0).op(0x25).u(1)); m.export("get", KF, ge);
    let a = inst(&mut st, &m, opt, None); let h = a.table("t").unwrap(); let (_, f) = call1(&mut st, &a, "rf", &[]); let null = if ext { WasmValue::RefExtern(ExternRef::new(None)) } else { WasmValue::RefFunc(FuncRef::new(None)) }; let x = if ext { let v = u32v("ref"); assume(v != u32::MAX); WasmValue::RefExtern(ExternRef::new(Some(v))) } else { WasmValue::RefFunc(FuncRef::from_raw(f as u32)) };
    let mut want: Vec<u128> = vec![bits(&null); min as usize]; let lim = max.unwrap_or(if t64 { u64::MAX } else { u32::MAX as u64 }) as u128; let w = |v: u64| if t64 { l(v as i64) } else { i(v as i32) };
    for s in 0..steps {
        let v = if choose(["v0", "v1", "v2"][s], 2) == 0 { null } else { x }; let d = if t64 { u64v("delta") } else { u32v("delta") as u64 }; let host = choose(["host0", "host1", "host2"][s], 2) == 1; if host { assume(d <= u32::MAX as u64) }
        // without a maximum: small sizes, or more than any implementation can hold
        let new = want.len() as u128 + d as u128; let fits = new <= lim; if max.is_none_or(|m| m > 5) { assume(new <= 6 || new > if t64 { 1 << 60 } else { 4_000_000_000 } || host && new > 4_000_000_000) } let fits = fits && new <= 6;
        let r = if host { match h.grow(&mut st, d as i32, v) { Ok(n) => n as u64, Err(_) => u64::MAX } } else { let (oc, r) = call(&mut st, &a, "grow", &[v, w(d)]); check(oc == OK && bits(&r[0]) == 0x66, "growing never traps"); bits(&r[1]) as u64 | if t64 || bits(&r[1]) != u32::MAX as u128 { 0 } else { !0 } };
        if fits { check(r == want.len() as u64, "growing returns the old size"); cover("value"); let n = sym::concretize(new as u64); want.resize(n as usize, bits(&v)) } else { check(r == u64::MAX, "growth beyond the maximum returns -1"); cover("refused") }
    }
    let n = want.len(); let (oc, s) = call1(&mut st, &a, "size", &[]); check(oc == OK && s == n as u128, "table.size"); check(h.size(&st).unwrap() == n, "the size seen by the host"); let mut e = true; for (a, b) in h.load(&st, 0, n).unwrap().zip(&want) { e &= bits(&a) == *b } check(e, "elements survive, new ones are the given one");
    let p = if t64 { u64v("probe") } else { u32v("probe") as u64 }; let (oc, r) = call1(&mut st, &a, "get", &[w(p)]); if p < n as u64 { let mut x = 0u64; for (k, y) in want.iter().enumerate() { x = sym::ite(p == k as u64, *y as u64, x) } check(oc == OK && r as u64 == x, "an element") } else { check(oc == TOOB, "nothing beyond") } let ty = h.ty(&st).unwrap(); check(ty.element_type == wt(et), "type of the table");
}
h!(h_c07_table, { table(1, true) });
h!(h_c07_tablex, { table(2, false) });
// ---- memories and tables made by the host
h!(h_c07_host, {
    let min = u64v("min"); let min = if min <= 2 { sym::concretize(min) } else { min }; let max = if choose("has max", 2) == 1 { Some(u64v("max")) } else { None }; let page = [1u64, 65536][choose("page", 2) as usize]; assume(min <= 2 || min as u128 * page as u128 > 1 << 62); let mut st = cfg_store(backend(choose("backend", 2)));
    if choose("table", 2) == 0 {
        let ty = MemoryType::default().with_page_size(Some(page)).with_page_count_initial(min).with_page_count_max(max); match Memory::new(&mut st, ty) {
            Ok(m) => { check(min <= 2 && max.is_none_or(|x| min <= x), "a memory within its maximum"); let min = sym::concretize(min); check(m.page_count(&st).unwrap() as u64 == min && m.len(&st).unwrap() as u64 == min * page, "initial size"); let d = i64v("delta"); let new = min as i128 + d as i128; let top = max.unwrap_or(1 << 32) as i128; assume(d < 0 || new <= 3 || new > top || new > 1 << 62); let fits = d >= 0 && new <= top && new <= 3; let d = if fits { sym::concretize(d as u64) as i64 } else { d }; let r = m.grow(&mut st, d); match r { Ok(Some(o)) => { check(fits && o as u64 == min, "growth within the maximum"); cover("value") } Ok(None) => { check(!fits, "growth within the maximum succeeds"); cover("refused") } Err(_) => check(new > 1 << 40 && d >= 0, "no error") } let n = if fits { new as u64 } else { min }; check(m.page_count(&st).unwrap() as u64 == n && m.len(&st).unwrap() as u64 == n * page, "size afterwards") }
            Err(_) => check(min > 2 || max.is_some_and(|x| min > x), "a memory within its maximum can be made") }
    } else {
        let ext = choose("externref", 2) == 1; let ty = TableType::new(if ext { WasmType::RefExtern } else { WasmType::RefFunc }, min, max); let (good, bad) = (WasmValue::RefExtern(ExternRef::new(Some(9))), WasmValue::RefFunc(FuncRef::new(None))); let (good, bad) = if ext { (good, bad) } else { (bad, good) }; check(Table::new(&mut st, ty, bad).is_err(), "an initial value of another type is refused");
        match Table::new(&mut st, ty, good) { Ok(t) => { check(min <= 2, "a table of a possible size"); let n = sym::concretize(min); check(t.size(&st).unwrap() as u64 == n, "initial size"); if n > 0 { check(bits(&t.get(&st, n as u32 - 1).unwrap()) == bits(&good), "initial element") } check(t.get(&st, n as u32).is_err(), "nothing beyond") } Err(_) => check(min > 2, "a small table can be made") }
    }
});
