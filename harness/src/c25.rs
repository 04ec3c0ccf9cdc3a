//! C25: parsing with worker threads gives what parsing on one thread gives.
use crate::rt::*;
use crate::thr;
use tinywasm::parser::{Parser, ParserOptions};
fn opts(n: usize) -> ParserOptions { ParserOptions::default().with_parser_threads(n).with_rewrite_optimization(unsafe { !PLAIN }) }
static mut PLAIN: bool = false;
struct Pieces<'a> { b: &'a [u8], at: usize, first: usize, then: usize }
impl std::io::Read for Pieces<'_> { fn read(&mut self, o: &mut [u8]) -> std::io::Result<usize> { let n = if self.at == 0 { self.first } else { self.then }.min(o.len()).min(self.b.len() - self.at); o[..n].copy_from_slice(&self.b[self.at..self.at + n]); self.at += n; Ok(n) } }
/// `n` bytes of code that do nothing
fn pad(mut b: C, n: usize) -> C { let end = b.0.len() + n; while b.0.len() + 19 <= end { b = b.v128c(0).drop() } while b.0.len() < end { b = b.op(1) } b }
/// what can be wrong in a function
const BAD: u64 = 5;
fn wrong(b: C, k: u64) -> C { match k { 0 => b.op(0x6a).drop(), 1 => b.get(99).drop(), 2 => b.op(0xff), 3 => b.call(1000), _ => b.br(7) } }
static mut MORE: usize = 0;
/// module of `n` functions with at least 16 KiB of code; `big` holds most of it (n: spread evenly). Constants, a byte of code and the amount of padding vary
fn module(n: u64, big: u64, wrong_at: u64, bad: u64, total: usize, x: u32, last: u8) -> Vec<u8> {
    let mut m = M::new(); m.imp_func("e", "h", &[I32], &[I32]); m.mem(memty(false, 1, None, 0)); m.table(FUNCREF, 4, None); m.global(I32, true, c().i32c(0));
    let each = if big < n { 40 } else { total / n as usize + 1 };
    for k in 0..n {
        let mut b = c(); let len = if k == big { total } else { each } + if k == 0 { unsafe { MORE } } else { 0 };
        if k == wrong_at { b = wrong(b, bad) }
        b = pad(b, len);
        b = match k % 4 {
            0 => b.get(0).i32c(x as i32 ^ k as i32).op(0x6a).tee(1).call(1 + ((k + 1) % n)),
            1 => b.block(I32).get(0).get(0).brtable(&[0, 1], 0).end().get(1).op(0x6a).lp(VOID).get(0).brif(0).end(),
            2 => b.v128c(x as u128).v128c((k as u128) << 64).ops(&[0xfd, 0xae, 1]).set(2).get(0).mem(0x28, 2, 0, 4 * k).get(2).ops(&[0xfd, 27, 1]).op(0x6a).op(0xac).v128c(x as u128),
            _ => b.get(0).gset(0).get(0).i32c(x as i32).mem(0x36, 2, 0, 8 * k).gget(0).rcall(1 + k),
        };
        if k + 1 == n && last != 1 { b = b.drop().op(0x41).op(1).op(last) }
        let f = m.func(&[I32], if k % 4 == 2 { &[I64, V128] } else { &[I32] }, &[(1, I32), (1, V128)], b); if k < 4 { m.export(["a", "b", "c", "d"][k as usize], KF, f); }
    }
    m.elem0(c().op(0x41).op(0), &[1, 2]); m.data0(c().op(0x41).op(1), &[1, 2, 3]); m.bytes()
}

const N: u8 = 1;
/// the verdict and the module of `p` threads, given those of one thread
fn against(b: &[u8], one: &core::result::Result<Module, tinywasm::parser::ParseError>, p: usize, mode: u64, read: Option<(usize, usize)>) {
    thr::begin(mode); let q = Parser::with_options(opts(p)); let many = match read { None => q.parse_module_bytes(b), Some((first, then)) => q.parse_module_stream(Pieces { b, at: 0, first, then }) };
    if thr::started() > 1 { cover("several workers") }
    match (one, many) { (Ok(x), Ok(y)) => { check(*x == y, "the same module"); cover("accepted") } (Err(_), Err(_)) => cover("rejected"), _ => check(false, "the same verdict") }
}
fn one(b: &[u8]) -> core::result::Result<Module, tinywasm::parser::ParseError> { thr::begin(0); let r = Parser::with_options(opts(1)).parse_module_bytes(b); check(thr::started() == 0, "one thread is this thread"); r }
const K16: usize = 16 * 1024;
// ---- two to four workers, in every order; constants of the code are symbolic
h!(h_c25_order, { unsafe { PLAIN = choose("plain", 2) == 1 } let n = [8, 12, 13][choose("functions", 3) as usize]; let b = module(n, n, n, 0, K16, u32v("x"), N); let o = one(&b); check(o.is_ok(), "accepted"); against(&b, &o, 4, 1, None) });
h!(h_c25_orderx, { let n = [16, 20][choose("functions", 2) as usize]; let b = module(n, n, n, 0, K16, u32v("x"), N); let o = one(&b); against(&b, &o, 13, if n == 16 { 1 } else { 2 }, None) });
// ---- where the code is: one large function at each place, so that the chunks differ
h!(h_c25_chunk, { let n = 8 + choose("functions", 3); let big = choose("large", n); let p = [2, 3, 5][choose("threads", 3) as usize]; let b = module(n, big, n, 0, K16, 5, N); let o = one(&b); against(&b, &o, p, 2, None) });
// ---- around the limits from which workers are used
fn code_len(b: &[u8]) -> usize { let mut at = 8; loop { let id = b[at]; at += 1; let (mut n, mut sh) = (0usize, 0); loop { let x = b[at]; at += 1; n |= ((x & 0x7f) as usize) << sh; sh += 7; if x & 0x80 == 0 { break } } if id == 10 { return n } at += n } }
h!(h_c25_limit, { let n = 7 + choose("functions", 3); let x = u32v("x"); unsafe { MORE = 0 } let d = K16 - code_len(&module(n, n, n, 0, K16 - 800, x, N)); unsafe { MORE = d - 2 + choose("size", 4) as usize } let b = module(n, n, n, 0, K16 - 800, x, N); let p = choose("threads", 4) as usize; let o = one(&b); check(o.is_ok(), "accepted"); against(&b, &o, p, 0, if choose("stream", 2) == 1 { Some((200, 100_000)) } else { None }) });
// ---- an invalid function at each place
h!(h_c25_bad, { let n = 8; let b = module(n, n, choose("invalid", n), choose("fault", BAD), K16, 7, N); let o = one(&b); check(o.is_err(), "rejected"); against(&b, &o, 2, 1, None) });
h!(h_c25_badx, { let n = 13; let b = module(n, n, choose("invalid", n), choose("fault", BAD), K16, 7, N); let o = one(&b); let s = if choose("stream", 2) == 1 { Some((100, 1000)) } else { None }; against(&b, &o, 5, 1, s) });
// ---- any instruction at the end of the last function
h!(h_c25_op, { let n = 8; let b = module(n, n, n, 0, K16, 7, u8v("op")); let o = one(&b); against(&b, &o, 2, 2, None) });
// ---- delivered in pieces
h!(h_c25_stream, { let n = 9; let b = module(n, choose("large", n), n, 0, K16, u32v("x"), N); let o = one(&b); let first = [1, 9, 60, 150, 8000, 100_000][choose("first piece", 6) as usize]; against(&b, &o, 3, 1, Some((first, [7, 4096, 100_000][choose("then", 3) as usize]))) });
// ---- the stream ends early, or goes on
h!(h_c25_cut, { let n = 8; let mut b = module(n, n, n, 0, K16, 7, N); let l = b.len(); match choose("end", 6) { 0 => b.truncate(l - 1), 1 => b.truncate(l / 2), 2 => b.truncate(l - 14), 3 => b.push(0), 4 => b.extend_from_slice(&[10, 1, 0]), _ => { b.truncate(140) } } let o = one(&b); against(&b, &o, 2, 0, None); if choose("stream", 2) == 1 { against(&b, &o, 2, 0, Some((50, 3000))) } });
// ---- a code section whose count, length or contents do not agree
fn recode(b: &[u8], k: u64) -> Vec<u8> {
    let mut o = b[..8].to_vec(); let mut at = 8;
    while at < b.len() {
        let id = b[at]; at += 1; let (mut n, mut sh) = (0usize, 0); loop { let x = b[at]; at += 1; n |= ((x & 0x7f) as usize) << sh; sh += 7; if x & 0x80 == 0 { break } }
        let mut s = b[at..at + n].to_vec(); at += n;
        if id == 10 { match k { 0 => s.push(0), 1 => s[0] += 1, 2 => s[0] -= 1, 3 => { s.pop(); } 4 => { s.pop(); s.pop(); s.push(0x0b) } 5 => { s.extend_from_slice(&[2, 0, 0x0b]); s[0] += 1 } 6 => { let z = s.len(); s[1] ^= 1; s.truncate(z) } _ => {} } }
        if id == 3 && k == 7 { s[0] -= 1; s.pop(); } if id == 3 && k == 8 { s[0] += 1; s.push(0) }
        o.push(id); uleb(&mut o, s.len() as u64); o.extend_from_slice(&s);
        if k == 9 && id == 10 { o.extend_from_slice(&[0, 2, 1, 65]) } if k == 10 && id == 10 { o.extend_from_slice(&[10, 1, 0]) }
    }
    o
}
h!(h_c25_section, { let n = 8; let b = recode(&module(n, n, n, 0, K16, 7, N), choose("edit", 12)); let o = one(&b); let p = if choose("stream", 2) == 1 { Some((40 + 100 * choose("first", 3) as usize, 5000)) } else { None }; against(&b, &o, 2, 2, p) });
