//! C23: the host's reads, writes, fills, copies, strings and cursors transfer exactly the requested bytes or report an error.
use crate::rt::*;
use std::io::{Read, Seek, SeekFrom, Write};
const L: usize = 6;
fn backend(k: u64) -> tinywasm::engine::Config { let c = tinywasm::engine::Config::new(); if k == 0 { c } else { c.with_memory_backend(tinywasm::engine::MemoryBackend::paged(4)) } }
fn memory(k: u64) -> (Store, Memory, RefMem) {
    let mut st = cfg_store(backend(k)); let ty = MemoryType::default().with_page_size(Some(1)).with_page_count_initial(L as u64); let Ok(m) = Memory::new(&mut st, ty) else { panic!("memory") }; let b = sym::bytes::<L>("mem");
    check(m.copy_from_slice(&mut st, 0, &b).is_ok(), "the whole memory can be written"); (st, m, RefMem(b.to_vec()))
}
fn same(st: &Store, m: &Memory, r: &RefMem) { let mut b = [0u8; L]; check(m.read_exact(st, 0, &mut b).is_ok(), "the whole memory can be read"); check(r.eq(&b), "memory contents afterwards"); check(m.len(st).unwrap() == L && m.page_count(st).unwrap() == L, "memory size") }
fn inb(at: u64, n: u64) -> bool { at as u128 + n as u128 <= L as u128 }
/// near the memory, one path per value
fn pin(v: u64) -> u64 { if v <= L as u64 { sym::concretize(v) } else { v } }
/// the bytes are those of the memory from `at` on
fn bytes_are(r: &RefMem, at: u64, b: &[u8], n: &str) { let mut e = true; for (k, x) in b.iter().enumerate() { e &= *x == r.get(at.wrapping_add(k as u64)) } check(e, n) }
fn oob<T>(r: &tinywasm::Result<T>) -> bool { code(r) == OOB }
// ---- handle operations, contiguous or chunked
fn access(k: u64) {
    let (mut st, m, mut r) = memory(k); let mut at = u64v("at"); if k == 1 { at = pin(at) } let src = sym::bytes::<8>("src");
    match choose("op", 7) {
        0 => { let n = choose("n", 8); let mut d = src; let o = m.read_exact(&st, at as usize, &mut d[..n as usize]); if inb(at, n) { check(o.is_ok(), "read_exact within bounds"); bytes_are(&r, at, &d[..n as usize], "read_exact") ; cover("value") } else { check(oob(&o), "read_exact out of bounds is reported"); cover("error") } let mut e = true; for k in n as usize..8 { e &= d[k] == src[k] } check(e, "nothing is written behind the buffer") }
        1 => { let mut n = u64v("n"); if k == 1 { n = pin(n) } match m.read_vec(&st, at as usize, n as usize) { Ok(v) => { check(inb(at, n), "read_vec within bounds"); check(v.len() as u64 == n, "as many bytes as asked for"); bytes_are(&r, at, &v, "read_vec"); cover("value") } Err(e) => { check(!inb(at, n), "read_vec in bounds succeeds"); check(errcode(&e) == OOB, "out of bounds is reported"); cover("error") } } }
        2 => { let n = choose("n", 8); let mut d = src; let o = m.read(&st, at as usize, &mut d[..n as usize]); let Ok(g) = o else { check(false, "read does not fail"); return }; check(g as u64 <= n && (g == 0 || inb(at, g as u64)), "a count within bounds"); check((g == 0) == (n == 0 || at >= L as u64), "progress"); if k == 0 { check(g as u64 == if at >= L as u64 { 0 } else { (L as u64 - at).min(n) }, "as many bytes as there are") } let g = sym::concretize(g as u64) as usize; bytes_are(&r, at, &d[..g], "read"); let mut e = true; for k in g..8 { e &= d[k] == src[k] } check(e, "nothing is written behind the count") }
        3 => { let n = choose("n", 8); let o = m.copy_from_slice(&mut st, at as usize, &src[..n as usize]); if inb(at, n) { check(o.is_ok(), "write within bounds"); for j in 0..n { r.put(at + j, src[j as usize]) } cover("value") } else { check(oob(&o), "write out of bounds is reported"); cover("error") } }
        4 => { let n = choose("n", 8); let o = m.write(&mut st, at as usize, &src[..n as usize]); let Ok(g) = o else { check(false, "write does not fail"); return }; check(g as u64 <= n && (g == 0 || inb(at, g as u64)), "a count within bounds"); check((g == 0) == (n == 0 || at >= L as u64), "progress"); if k == 0 { check(g as u64 == if at >= L as u64 { 0 } else { (L as u64 - at).min(n) }, "as many bytes as fit") } let g = sym::concretize(g as u64); for j in 0..g { r.put(at + j, src[j as usize]) } }
        5 => { let mut n = u64v("n"); if k == 1 { n = pin(n) } let v = u8v("v"); let o = m.fill(&mut st, at as usize, n as usize, v); if inb(at, n) { check(o.is_ok(), "fill within bounds"); for j in 0..L as u64 { let x = sym::ite((j >= at) & (j < at + n), v as u64, r.0[j as usize] as u64); r.0[j as usize] = x as u8 } cover("value") } else { check(oob(&o), "fill out of bounds is reported"); cover("error") } }
        _ => { let (mut n, mut to) = (u64v("n"), u64v("to")); if k == 1 { n = pin(n); to = pin(to) } let o = m.copy_within(&mut st, at as usize, to as usize, n as usize); if inb(at, n) && inb(to, n) { check(o.is_ok(), "copy within bounds"); let old = r.clone(); for j in 0..L as u64 { let x = old.get(at.wrapping_add(j.wrapping_sub(to))); r.0[j as usize] = sym::ite((j >= to) & (j < to + n), x as u64, r.0[j as usize] as u64) as u8 } cover("value") } else { check(oob(&o), "copy out of bounds is reported"); cover("error") } }
    }
    same(&st, &m, &r);
}
h!(h_c23_access, { access(0) });
h!(h_c23_paged, { access(1) });
// ---- strings
h!(h_c23_string, {
    let (mut st, m, mut r) = memory(choose("backend", 2)); let at = pin(u64v("at"));
    match choose("op", 6) {
        0 => { let n = pin(u64v("n")); match m.read_cstring(&st, at as usize, n as usize) { Ok(s) => { check(inb(at, n), "in bounds"); let b = s.as_bytes_with_nul(); check(b.len() as u64 == n, "the whole range"); bytes_are(&r, at, b, "read_cstring"); cover("value") } Err(_) => { if inb(at, n) && n > 0 { let n = sym::concretize(n); let mut good = r.get(at + n - 1) == 0; for j in 0..n - 1 { good &= r.get(at + j) != 0 } check(!good, "a terminated string is read") } cover("error") } } }
        1 => { let n = pin(u64v("n")); match m.read_cstring_until_null(&st, at as usize, n as usize) { Ok(s) => { let b = s.as_bytes_with_nul(); check(b.len() as u64 <= n && inb(at, b.len() as u64), "in bounds"); bytes_are(&r, at, b, "read_cstring_until_null"); let mut e = true; for x in &b[..b.len() - 1] { e &= *x != 0 } check(e & (b[b.len() - 1] == 0), "up to the first zero"); cover("value") } Err(_) => { if inb(at, n) { let n = sym::concretize(n); let mut any = false; for j in 0..n { any |= r.get(at + j) == 0 } check(!any, "a terminated string is read") } cover("error") } } }
        2 => { let n = pin(u64v("n")); match m.read_string(&st, at as usize, n as usize) { Ok(s) => { check(inb(at, n), "in bounds"); check(s.len() as u64 == n, "the whole range"); bytes_are(&r, at, s.as_bytes(), "read_string"); cover("value") } Err(_) => { if inb(at, n) { let n = sym::concretize(n); let mut ascii = true; for j in 0..n { ascii &= r.get(at + j) < 0x80 } check(!ascii, "ASCII text is read"); if n == 2 { let (a, b) = (r.get(at), r.get(at + 1)); check(!((a >= 0xc2) & (a < 0xe0) & (b & 0xc0 == 0x80)), "a two byte character is read") } } cover("error") } } }
        3 => { // UTF-16
            let n = choose("n", 4) * 2; let mut want = vec![]; let mut good = true; if inb(at, n) { let mut k = 0; while k < n { let u = r.get(at + k) as u32 | (r.get(at + k + 1) as u32) << 8; k += 2; if u & 0xf800 != 0xd800 { want.push(u) } else if u < 0xdc00 && k < n && (r.get(at + k + 1) & 0xfc) == 0xdc { let w = r.get(at + k) as u32 | (r.get(at + k + 1) as u32) << 8; k += 2; want.push(0x10000 + ((u & 0x3ff) << 10) + (w & 0x3ff)) } else { good = false; break } } }
            match m.read_js_string(&st, at as usize, n as usize) { Ok(s) => { check(inb(at, n), "in bounds"); check(good, "well-formed"); let mut k = 0; for ch in s.chars() { check(k < want.len() && want[k] == ch as u32, "a character"); k += 1 } check(k == want.len(), "the whole string"); cover("value") } Err(_) => { check(!(inb(at, n) && good), "well-formed text is read"); cover("error") } } }
        4 => { let n = choose("n", 4) as usize; let b = &["", "a", "\u{e9}x", "\u{20ac}"][n]; let o = m.write_cstring_bytes(&mut st, at as usize, b); let l = b.len() as u64 + 1; check(o.is_ok() == inb(at, l), "write_cstring_bytes within bounds"); if o.is_ok() { for (j, x) in b.bytes().chain([0]).enumerate() { r.put(at + j as u64, x) } cover("value") } }
        _ => { let n = choose("n", 3) as usize; let src = sym::bytes::<3>("src"); let mut e = true; for k in 0..n { e &= src[k] != 0 } assume(e); let Ok(s) = std::ffi::CString::new(&src[..n]) else { return }; let o = m.write_cstring(&mut st, at as usize, &s); check(o.is_ok() == inb(at, n as u64 + 1), "write_cstring within bounds"); if o.is_ok() { for j in 0..n { r.put(at + j as u64, src[j]) } r.put(at + n as u64, 0); cover("value") } }
    }
    same(&st, &m, &r);
});
// ---- cursors
fn cursor(k: u64, ops: usize) {
    let (mut st, m, mut r) = memory(k); let mut pos = u64v("pos"); let src = sym::bytes::<4>("src");
    { let mut cu = if pos & 1 == 0 { m.cursor_at(&mut st, pos).unwrap() } else { let mut cu = m.cursor(&mut st).unwrap(); check(cu.position() == 0, "a cursor starts at 0"); cu.set_position(pos); cu }; check(cu.position() == pos, "position");
    for s in 0..ops { match choose(["op0", "op1", "op2"][s], 5) {
        0 => { let n = [0u64, 1, 4][choose("n", 3) as usize]; pos = pin(pos); let mut d = src; let o = cu.read(&mut d[..n as usize]); let Ok(g) = o else { check(false, "a cursor's read does not fail"); return }; check((g == 0) == (n == 0 || pos >= L as u64), "progress of a read"); check(g as u64 <= n && (g == 0 || inb(pos, g as u64)), "a count within bounds"); if k == 0 { check(g as u64 == if pos >= L as u64 { 0 } else { (L as u64 - pos).min(n) }, "as many bytes as there are") } let g = sym::concretize(g as u64); bytes_are(&r, pos, &d[..g as usize], "bytes read through a cursor"); let mut e = true; for k in g as usize..4 { e &= d[k] == src[k] } check(e, "nothing is written behind the count"); pos += g }
        1 => { let n = [0u64, 1, 4][choose("n", 3) as usize]; pos = pin(pos); let o = cu.write(&src[..n as usize]); let Ok(g) = o else { check(false, "a cursor's write does not fail"); return }; check((g == 0) == (n == 0 || pos >= L as u64), "progress of a write"); check(g as u64 <= n && (g == 0 || inb(pos, g as u64)), "a count within bounds"); if k == 0 { check(g as u64 == if pos >= L as u64 { 0 } else { (L as u64 - pos).min(n) }, "as many bytes as fit") } let g = sym::concretize(g as u64); for j in 0..g { r.put(pos + j, src[j as usize]) } pos += g }
        2 => { let x = u64v("off"); let o = cu.seek(SeekFrom::Start(x)); check(o.ok() == Some(x), "seek from the start"); pos = x }
        3 => { let x = i64v("off"); let o = cu.seek(SeekFrom::End(x)); let t = L as i128 + x as i128; if t >= 0 { check(o.ok() == Some(t as u64), "seek from the end"); pos = t as u64 } else { check(o.is_err(), "seek before the start") } }
        _ => { let x = i64v("off"); let o = cu.seek(SeekFrom::Current(x)); let t = pos as i128 + x as i128; if t >= 0 && t <= u64::MAX as i128 { check(o.ok() == Some(t as u64), "seek from here"); pos = t as u64 } else { check(o.is_err(), "seek out of range") } }
    } check(cu.position() == pos, "position afterwards"); } let _ = cu.flush(); }
    same(&st, &m, &r); cover("value");
}
h!(h_c23_cursor, { cursor(choose("backend", 2), 2) });
h!(h_c23_cursorx, { cursor(choose("backend", 2), 3) });
h!(h_c23_exact, {
    // the standard library's whole-buffer forms
    let (mut st, m, mut r) = memory(choose("backend", 2)); let pos = pin(u64v("pos")); let src = sym::bytes::<5>("src"); let n = choose("n", 6); let rd = choose("read", 2) == 1;
    { let mut cu = m.cursor_at(&mut st, pos).unwrap(); if rd { let mut d = src; let o = cu.read_exact(&mut d[..n as usize]); check(o.is_ok() == (n == 0 || inb(pos, n)), "read_exact through a cursor"); if o.is_ok() && n > 0 { bytes_are(&r, pos, &d[..n as usize], "read_exact through a cursor"); check(cu.position() == pos + n, "position") } } else { let o = cu.write_all(&src[..n as usize]); check(o.is_ok() == (n == 0 || inb(pos, n)), "write_all through a cursor"); if n > 0 { for j in 0..n { if inb(pos, j + 1) { r.put(pos + j, src[j as usize]) } } } } }
    same(&st, &m, &r); cover("value");
});
// ---- a standard page
h!(h_c23_page, {
    let mut st = cfg_store(backend(choose("backend", 2))); let Ok(m) = Memory::new(&mut st, MemoryType::default().with_page_count_initial(1)) else { panic!("memory") }; let p = [0u64, 65530, 65535, 65536, 65537, u64::MAX - 1, u64::MAX]; let at = p[choose("at", 7) as usize]; let n = [0usize, 1, 6, 7][choose("n", 4) as usize]; let src = sym::bytes::<7>("src");
    let ok = at as u128 + n as u128 <= 65536; let o = m.copy_from_slice(&mut st, at as usize, &src[..n]); check(o.is_ok() == ok, "write within bounds"); let o = m.read_vec(&st, at as usize, n); check(o.is_ok() == ok, "read within bounds"); if let Ok(v) = o { check(v[..] == src[..n], "read back") }
    check(m.fill(&mut st, at as usize, n, 3).is_ok() == ok, "fill within bounds"); if ok && n > 0 { let mut b = [0u8; 1]; check(m.read_exact(&st, at as usize + n - 1, &mut b).is_ok() && b[0] == 3, "filled"); if at > 0 { check(m.read_exact(&st, at as usize - 1, &mut b).is_ok() && b[0] == 0, "the byte before") } } cover("value");
});
// ---- longer text
h!(h_c23_long, {
    const N: usize = 300; let mut st = cfg_store([tinywasm::engine::Config::new(), tinywasm::engine::Config::new().with_memory_backend(tinywasm::engine::MemoryBackend::paged(4)), tinywasm::engine::Config::new().with_memory_backend(tinywasm::engine::MemoryBackend::paged(128))][choose("backend", 3) as usize].clone());
    let Ok(m) = Memory::new(&mut st, MemoryType::default().with_page_size(Some(1)).with_page_count_initial(N as u64)) else { panic!("memory") }; let op = choose("op", 4); let at = [0usize, 3, 126][choose("at", 3) as usize]; let n = [8usize, 12, 36, 130, 174][choose("n", 5) as usize]; let p = [2usize, 6, 30, 127][choose("place", 4) as usize]; let x = u8v("x"); let y = u8v("y"); assume(y < 0x80);
    // letters, with one arbitrary one at place p
    let mut b = [0u8; N]; for (k, d) in b.iter_mut().enumerate() { *d = if op == 0 && (k ^ at) & 1 == 1 { 0 } else { b'a' + (k % 23) as u8 } } let w = if op == 0 { p & !1 } else { p }; b[at + w] = x; if op == 0 { b[at + w + 1] = y; } check(m.copy_from_slice(&mut st, 0, &b).is_ok(), "the whole memory can be written"); let want = &b[at..at + n];
    match op {
        0 => { let Ok(s) = m.read_js_string(&st, at, n) else { check(false, "well-formed text is read"); return }; let mut e = s.chars().count() == n / 2; for (c, u) in s.chars().zip(want.chunks(2)) { e &= c as u32 == u[0] as u32 | (u[1] as u32) << 8 } check(e, "the whole string") }
        1 => { assume(x < 0x80); let Ok(s) = m.read_string(&st, at, n) else { check(false, "ASCII text is read"); return }; check(s.as_bytes() == want, "the whole string") }
        2 => { let o = m.read_cstring_until_null(&st, at, n); if p < n && x == 0 { let Ok(s) = o else { check(false, "a terminated string is read"); return }; check(s.as_bytes_with_nul() == &want[..p + 1], "up to the first zero") } else { check(o.is_err(), "not terminated") } }
        _ => { assume(x != 0); b[at + n - 1] = 0; check(m.copy_from_slice(&mut st, at + n - 1, &[0]).is_ok(), "a zero can be written"); let o = m.read_cstring(&st, at, n); let Ok(s) = o else { check(false, "a terminated string is read"); return }; check(s.as_bytes_with_nul() == &b[at..at + n], "the whole range") }
    }
    cover("value");
});
