//! C03: vector instructions against their definition on lanes.
use crate::{num::{self, Out, S, D}, ops::{self, Imm}, rt::*};
fn ones(w: u32) -> u64 { if w == 64 { u64::MAX } else { (1 << w) - 1 } }
fn ln(x: u128, w: u32, i: u32) -> u64 { (x >> (w * i)) as u64 & ones(w) }
fn sx(x: u64, w: u32) -> i128 { ((x << (64 - w)) as i64 >> (64 - w)) as i128 }
fn ex(x: u64, w: u32, s: bool) -> i128 { if s { sx(x, w) } else { x as i128 } }
fn clamp(v: i128, w: u32, s: bool) -> u64 { let (lo, hi) = if s { (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1) } else { (0, ones(w) as i128) }; let r = sym::ite(v < lo, lo as u64, sym::ite(v > hi, hi as u64, v as u64)); r & ones(w) }
fn pick(c: bool, a: u64, b: u64) -> u64 { sym::ite(c, a, b) }
/// lanes of width w and, for floats, the operands of each
struct W { w: u32, o: Vec<Out>, ins: Vec<Vec<u64>>, alt: Vec<Vec<u64>> }
fn each(w: u32, f: impl Fn(u32) -> u64) -> Option<W> { Some(W { w, o: (0..128 / w).map(|i| Out::Bits(f(i))).collect(), ins: vec![], alt: vec![] }) }
fn one(w: u32, v: u64) -> Option<W> { Some(W { w, o: vec![Out::Bits(v)], ins: vec![], alt: vec![] }) }
fn either(w: u32, f: impl Fn(u32) -> (u64, u64)) -> Option<W> { Some(W { w, o: (0..128 / w).map(|i| { let (a, b) = f(i); Out::Either(a, b) }).collect(), ins: vec![], alt: vec![] }) }
fn floats(w: u32, f: impl Fn(u32) -> (u64, Vec<u64>)) -> Option<W> { let (o, ins) = (0..128 / w).map(|i| { let (v, n) = f(i); (Out::Float(v), n) }).unzip(); Some(W { w, o, ins, alt: vec![] }) }
fn floats2(w: u32, f: impl Fn(u32) -> (u64, Vec<u64>, Vec<u64>)) -> Option<W> { let mut r = W { w, o: vec![], ins: vec![], alt: vec![] }; for i in 0..128 / w { let (v, a, n) = f(i); r.o.push(Out::Float(v)); r.alt.push(a); r.ins.push(n) } Some(r) }
fn satv(x: u64, f: u32, signed: bool) -> u64 { match num::fl(f).trunc(x, 32, signed, true) { Out::Bits(v) => v, _ => 0 } }
fn icmp(j: u64, a: u64, b: u64, w: u32) -> u64 { let (x, y) = (sx(a, w) as i64, sx(b, w) as i64); let r = match j { 0 => a == b, 1 => a != b, 2 => x < y, 3 => a < b, 4 => x > y, 5 => a > b, 6 => x <= y, 7 => a <= b, 8 => x >= y, _ => a >= b }; pick(r, ones(w), 0) }
fn fcmp(j: u64, a: u64, b: u64, w: u32) -> u64 { let f = num::fl(w); let r = match j { 0 => f.eq(a, b), 1 => !f.eq(a, b), 2 => f.lt(a, b), 3 => f.lt(b, a), 4 => f.le(a, b), _ => f.le(b, a) }; pick(r, ones(w), 0) }
fn farith(j: u64, a: u64, b: u64, w: u32) -> u64 { let f = num::fl(w); match j { 0..=3 => f.add(j as u32, a, b), 4 => f.min(a, b), _ => f.max(a, b) } }
fn prod(a: u64, b: u64, w: u32, s: bool) -> u64 { if w < 32 { ((ex(a, w, s) as i64).wrapping_mul(ex(b, w, s) as i64)) as u64 & ones(2 * w) } else if s { (ex(a, w, true) as i64).wrapping_mul(ex(b, w, true) as i64) as u64 } else { a.wrapping_mul(b) } }
fn fround(w: u32, mode: u32, a: u128) -> Option<W> { let f = num::fl(w); floats(w, |i| { let x = ln(a, w, i); (pick(f.nan(x), f.cnan(), f.round(x, mode)), vec![x]) }) }
fn conv_in(x: u64, nan: bool, canon: bool, c: u64, inf: u64) -> u64 { pick(nan, pick(canon, c, inf + 1), 0) + 0 * x }
/// lane: the immediate; s: a scalar operand
fn want(k: u64, lane: u32, sh: &[u8; 16], a: u128, b: u128, c: u128) -> Option<W> {
    let by = |x: u128, i: u64| (x >> (8 * i as u32)) as u64 & 0xff;
    Some(match k {
        13 => return each(8, |i| { let j = sh[i as usize] as u64; pick(j < 16, by(a, j & 15), by(b, j & 15)) }),
        14 => return each(8, |i| { let j = ln(b, 8, i); pick(j < 16, by(a, j & 15), 0) }),
        256 => return either(8, |i| { let j = ln(b, 8, i); let v = by(a, j & 15); (pick(j < 16, v, 0), pick(j < 128, v, 0)) }),
        15 => return each(8, |_| a as u64 & 0xff), 16 => return each(16, |_| a as u64 & 0xffff), 17 | 19 => return each(32, |_| a as u64 & 0xffff_ffff), 18 | 20 => return each(64, |_| a as u64),
        21 => return one(32, sx(ln(a, 8, lane), 8) as u64 & 0xffff_ffff), 22 => return one(32, ln(a, 8, lane)), 24 => return one(32, sx(ln(a, 16, lane), 16) as u64 & 0xffff_ffff), 25 => return one(32, ln(a, 16, lane)), 27 | 31 => return one(32, ln(a, 32, lane)), 29 | 33 => return one(64, ln(a, 64, lane)),
        23 | 26 | 28 | 32 | 30 | 34 => { let w = match k { 23 => 8, 26 => 16, 28 | 32 => 32, _ => 64 }; return each(w, |i| if i == lane { b as u64 & ones(w) } else { ln(a, w, i) }) }
        35..=64 => { let w = 8 << ((k - 35) / 10); return each(w, |i| icmp((k - 35) % 10, ln(a, w, i), ln(b, w, i), w)) }
        65..=76 => { let w = if k < 71 { 32 } else { 64 }; return each(w, |i| fcmp((k - 65) % 6, ln(a, w, i), ln(b, w, i), w)) }
        77 => return each(64, |i| !ln(a, 64, i)), 78 => return each(64, |i| ln(a, 64, i) & ln(b, 64, i)), 79 => return each(64, |i| ln(a, 64, i) & !ln(b, 64, i)), 80 => return each(64, |i| ln(a, 64, i) | ln(b, 64, i)), 81 => return each(64, |i| ln(a, 64, i) ^ ln(b, 64, i)),
        82 => return each(64, |i| { let (x, y, m) = (ln(a, 64, i), ln(b, 64, i), ln(c, 64, i)); x & m | y & !m }), 83 => return one(32, (a != 0) as u64),
        94 => return floats(32, |i| if i > 1 { (0, vec![]) } else { let x = ln(a, 64, i); (num::demote(x), vec![conv_in(x, D.nan(x), D.mag(x) == D.cnan(), S.cnan(), S.inf)]) }),
        95 => return floats(64, |i| { let x = ln(a, 32, i); (num::promote(x), vec![conv_in(x, S.nan(x), S.mag(x) == S.cnan(), D.cnan(), D.inf)]) }),
        103..=106 => return fround(32, k as u32 - 103, a), 116 | 117 => return fround(64, k as u32 - 116, a), 122 => return fround(64, 2, a), 148 => return fround(64, 3, a),
        214..=219 => return each(64, |i| icmp([0, 1, 2, 4, 6, 8][k as usize - 214], ln(a, 64, i), ln(b, 64, i), 64)),
        124..=127 => { let (w, s) = (8 << ((k - 124) / 2), k % 2 == 0); return each(2 * w, |i| (ex(ln(a, w, 2 * i), w, s) + ex(ln(a, w, 2 * i + 1), w, s)) as u64 & ones(2 * w)) }
        130 => return each(16, |i| clamp((sx(ln(a, 16, i), 16) as i64 * sx(ln(b, 16, i), 16) as i64 + 0x4000 >> 15) as i128, 16, true)),
        273 => return either(16, |i| { let v = (sx(ln(a, 16, i), 16) as i64 * sx(ln(b, 16, i), 16) as i64 + 0x4000 >> 15) as i128; (clamp(v, 16, true), v as u64 & 0xffff) }),
        186 => return each(32, |i| (0..2).fold(0, |t: u64, j| t.wrapping_add(prod(ln(a, 16, 2 * i + j), ln(b, 16, 2 * i + j), 16, true))) & 0xffff_ffff),
        274 | 275 => { let d = |i: u32| (0..2).fold(0i64, |t, j| t + sx(ln(a, 8, 2 * i + j), 8) as i64 * ln(b, 8, 2 * i + j) as i64); return if k == 274 { each(16, |i| d(i) as u64 & 0xffff) } else { each(32, |i| (d(2 * i) + d(2 * i + 1) + ln(c, 32, i) as i64) as u64 & 0xffff_ffff) } }
        98 => return each(8, |i| { let x = ln(a, 8, i); (0..8).fold(0, |t, j| t + (x >> j & 1)) }),
        224 | 236 => { let f = num::fl(if k == 224 { 32 } else { 64 }); return each(f.w, |i| f.mag(ln(a, f.w, i))) } 225 | 237 => { let f = num::fl(if k == 225 { 32 } else { 64 }); return each(f.w, |i| ln(a, f.w, i) ^ f.sgn) }
        227 | 239 => { let f = num::fl(if k == 227 { 32 } else { 64 }); return floats(f.w, |i| { let x = ln(a, f.w, i); (f.add(4, x, x), vec![x]) }) }
        228..=233 | 240..=245 => { let (w, j) = if k < 240 { (32, k - 228) } else { (64, k - 240) }; return floats(w, |i| { let (x, y) = (ln(a, w, i), ln(b, w, i)); (farith(j, x, y, w), vec![x, y]) }) }
        234 | 235 | 246 | 247 => { let f = num::fl(if k < 240 { 32 } else { 64 }); return each(f.w, |i| { let (x, y) = (ln(a, f.w, i), ln(b, f.w, i)); pick(if k % 2 == 0 { f.lt(y, x) } else { f.lt(x, y) }, y, x) }) }
        248 | 249 => return each(32, |i| satv(ln(a, 32, i), 32, k == 248)), 252 | 253 => return each(32, |i| if i > 1 { 0 } else { satv(ln(a, 64, i), 64, k == 252) }),
        250 | 251 | 254 | 255 => { let w = if k < 252 { 32 } else { 64 }; return each(w, |i| { let x = ln(a, 32, i); let n = (k % 2 == 0) & (x >> 31 == 1); num::fl(w).from_int(n, pick(n, x.wrapping_neg() & 0xffff_ffff, x)) }) }
        257..=260 => return either(32, |i| { let (w, s) = (if k < 259 { 32 } else { 64 }, k % 2 == 1); if w == 64 && i > 1 { return (0, 0) } let x = ln(a, w, i); let f = num::fl(w); let v = satv(x, w, s); let odd = match f.trunc(x, 32, s, false) { Out::Bits(_) => v, _ => if s { pick(f.nan(x) | !f.neg(x), 1 << 31, v) } else { pick(f.nan(x) | f.neg(x), 0xffff_ffff, v) } }; (v, odd) }),
        261..=264 => { let f = num::fl(if k < 263 { 32 } else { 64 }); return floats2(f.w, |i| { let (x, y, z) = (ln(a, f.w, i), ln(b, f.w, i), ln(c, f.w, i)); let p = f.add(2, x, y); let n = k % 2 == 0; let x2 = if n { x ^ f.sgn } else { x }; (f.add(0, if n { p ^ f.sgn } else { p }, z), if n { vec![f.add(1, z, p), f.add(0, f.add(2, x2, y), z), f.fma(x2, y, z)] } else { vec![f.fma(x2, y, z)] }, vec![x, y, z]) }) }
        265..=268 => { let w = 8 << (k - 265); return either(w, |i| { let (x, y, m) = (ln(a, w, i), ln(b, w, i), ln(c, w, i)); (x & m | y & !m & ones(w), pick(m >> (w - 1) == 1, x, y)) }) }
        269..=272 => { let f = num::fl(if k < 271 { 32 } else { 64 }); return floats(f.w, |i| { let (x, y) = (ln(a, f.w, i), ln(b, f.w, i)); (if k % 2 == 1 { f.min(x, y) } else { f.max(x, y) }, vec![x, y]) }) }
        96..=223 => {
            let (w, o) = match k { 96..=127 => (8, k - 96), 128..=159 => (16, k - 128), 160..=191 => (32, k - 160), _ => (64, k - 192) }; let m = ones(w); let half = w / 2;
            let x = |i| ln(a, w, i); let y = |i| ln(b, w, i);
            match o {
                0 => return each(w, |i| pick(sx(x(i), w) < 0, x(i).wrapping_neg() & m, x(i))), 1 => return each(w, |i| x(i).wrapping_neg() & m), 3 => return one(32, (0..128 / w).fold(true, |t, i| t & (x(i) != 0)) as u64), 4 => return one(32, (0..128 / w).fold(0, |t, i| t | (x(i) >> (w - 1)) << i)),
                5 | 6 => { let n = 128 / (2 * w); return each(w, |i| clamp(sx(if i < n { ln(a, 2 * w, i) } else { ln(b, 2 * w, i - n) }, 2 * w), w, o == 5)) }
                7..=10 => return each(w, |i| ex(ln(a, half, i + if o % 2 == 0 { 128 / w } else { 0 }), half, o < 9) as u64 & m),
                11..=13 => { let s = b as u32 & (w - 1); return each(w, |i| match o { 11 => x(i) << s & m, 12 => (sx(x(i), w) as i64 >> s) as u64 & m, _ => x(i) >> s }) }
                14 => return each(w, |i| x(i).wrapping_add(y(i)) & m), 17 => return each(w, |i| x(i).wrapping_sub(y(i)) & m),
                15 | 16 => return each(w, |i| clamp(ex(x(i), w, o == 15) + ex(y(i), w, o == 15), w, o == 15)), 18 | 19 => return each(w, |i| clamp(ex(x(i), w, o == 18) - ex(y(i), w, o == 18), w, o == 18)),
                21 => return each(w, |i| x(i).wrapping_mul(y(i)) & m),
                22..=25 => return each(w, |i| { let lt = if o % 2 == 0 { sx(x(i), w) < sx(y(i), w) } else { x(i) < y(i) }; let min = pick(lt, x(i), y(i)); if o < 24 { min } else { pick(lt, y(i), x(i)) } }),
                27 => return each(w, |i| (x(i) + y(i) + 1) >> 1),
                28..=31 => return each(w, |i| { let j = i + if o % 2 == 1 { 128 / w } else { 0 }; prod(ln(a, half, j), ln(b, half, j), half, o < 30) }),
                _ => return None,
            }
        }
        _ => return None,
    })
}
fn vin(n: &str, t: u8) -> u128 { symbits(n, t) }
/// one lane takes every value, the others hold fixed ones
fn mixed(n: &str, w: u32, at: u64, by: u32) -> u128 {
    let f: [u64; 4] = if w == 32 { [0x3fc0_0000, 0xc020_0000, 0x7fc0_0000, 0x8000_0000] } else { [0x3ff8_0000_0000_0000, 0xc1e0_0000_0020_0000, 0x7ff8_0000_0000_0000, 1 << 63] }; let mut r = 0;
    for i in 0..128 / w { let v = if i as u64 == at { symbits(n, if w == 32 { I32 } else { I64 }) as u64 } else { f[(i + by) as usize % 4] }; r |= (v as u128) << (w * i) } r
}
fn run(k: u64, form: u64, opt: bool) { run_on(k, form, opt, 0) }
fn run_on(k: u64, form: u64, opt: bool, lanes: u32) {
    let o = match ops::vector(k) { Some(o) => o, None => panic!("opcode") }; let (a, b) = if lanes > 0 { let at = choose("at", 128 / lanes as u64); (mixed("a", lanes, at, 0), if o.p.len() > 1 { mixed("b", lanes, at, 1) } else { 0 }) } else { (vin("a", o.p[0]), if o.p.len() > 1 { vin("b", o.p[1]) } else { 0 }) }; let b = if k == 274 || k == 275 { b & 0x7f7f_7f7f_7f7f_7f7f_7f7f_7f7f_7f7f_7f7f } else { b }; let (a, b, cc) = (a, b, if o.p.len() > 2 { vin("c", o.p[2]) } else { 0 });
    let lane = if let Imm::Lane(n) = o.imm { choose("lane", n as u64) as u8 } else { 0 }; let mut sh = [0u8; 16]; if o.imm == Imm::Shuffle { for i in 0..16 { sh[i] = (i * 7 + 3) as u8 % 32 } let at = choose("at", 16) as usize; sh[at] = u8v("index"); assume(sh[at] < 32) }
    let v = [a, b, cc]; let n = o.p.len(); let mut body = c();
    for i in 0..n { let konst_here = match form { 0 => false, 1 => i + 1 == n, 2 => i == 0, _ => i < 2 }; body = if konst_here { konst(body, o.p[i], v[i]) } else { body.get(i as u64) } }
    let body = ops::imm(body.fd(k), o.imm, lane, &sh, 0, 0); let mut m = M::new(); let f = m.func(o.p, &[o.r], &[], body); m.export("f", KF, f);
    let mut st = Store::default(); let x = inst(&mut st, &m, opt, None); let args: Vec<WasmValue> = (0..n).map(|i| val(o.p[i], v[i])).collect();
    let w = match want(k, lane as u32, &sh, a, b, cc) { Some(w) => w, None => panic!("no reference") };
    let (oc, r) = call1(&mut st, &x, "f", &args); check(oc == OK, "no trap");
    let fl = num::fl(w.w); let relaxed = k >= 269 && k <= 272; let mut all = true; let mut whole = 0u128; let exact = w.o.iter().all(|o| matches!(o, Out::Bits(_))) && w.w < 32 && !matches!(k, 13 | 14 | 130 | 149 | 156..=159 | 274);
    for i in 0..w.o.len() {
        let g = (r >> (w.w * i as u32)) as u64 & ones(w.w);
        match w.o[i] {
            Out::Bits(v) => if exact { whole |= (v as u128) << (w.w * i as u32) } else { check(g == v, "a lane") },
            Out::Either(x, y) => if k == 256 || k == 273 { check((g == x) | (g == y), "a permitted lane") } else { all &= (g == x) | (g == y) },
            Out::Float(v) => { let ins = &w.ins[i]; let mut ok = fl.fits(g, v, ins); if !w.alt.is_empty() { for v in &w.alt[i] { ok |= fl.fits(g, *v, ins) } } if relaxed { let (x, y) = (ins[0], ins[1]); ok |= (fl.nan(x) | fl.nan(y) | fl.zero(x) & fl.zero(y)) & ((g == x) | (g == y)) } check(ok, "a floating-point lane") }
            _ => panic!(),
        }
    }
    if exact { check(r == whole, "the lanes") } check(all, "a permitted lane"); cover("value");
}
fn any(list: &[u64], forms: u64) { let k = list[choose("op", list.len() as u64) as usize]; run(k, choose("form", forms), choose("opt", 2) == 1) }
fn range(r: &[(u64, u64)]) -> Vec<u64> { r.iter().flat_map(|(a, b)| *a..=*b).filter(|k| ops::vector(*k).is_some()).collect() }
h!(h_c03_shuffle, { any(&[13], 1) });
h!(h_c03_swizzle, { any(&[14, 256], 2) });
h!(h_c03_lane, { any(&range(&[(15, 34)]), 2) });
h!(h_c03_icmp, { any(&range(&[(35, 64), (214, 219)]), 2) });
h!(h_c03_fcmp, { any(&range(&[(65, 76)]), 2) });
h!(h_c03_bits, { any(&range(&[(77, 83), (265, 268)]), 4) });
h!(h_c03_int8, { any(&range(&[(96, 102), (107, 115), (118, 121), (123, 123)]), 2) });
h!(h_c03_int16, { any(&range(&[(124, 125), (128, 129), (131, 147), (150, 155)]), 2) });
h!(h_c03_int32, { any(&range(&[(126, 127), (160, 177), (182, 185)]), 2) });
h!(h_c03_int64, { any(&range(&[(192, 209)]), 2) });
h!(h_c03_mul, { any(&[130, 149, 156, 157, 158, 159, 181, 186, 188, 189, 190, 191, 213, 220, 221, 222, 223, 273, 274, 275], 2) });
h!(h_c03_arith, { any(&range(&[(224, 231), (236, 243), (261, 264)]), 2) });
fn few(list: &[(u64, u32)]) { let (k, w) = list[choose("op", list.len() as u64) as usize]; run_on(k, 0, choose("opt", 2) == 1, w) }
h!(h_c03_minmax, { few(&[(232, 32), (233, 32), (234, 32), (235, 32), (244, 64), (245, 64), (246, 64), (247, 64), (269, 32), (270, 32), (271, 64), (272, 64)]) });
h!(h_c03_minmaxx, { any(&range(&[(232, 235), (244, 247), (269, 272)]), 1) });
h!(h_c03_round, { any(&[103, 104, 105, 116, 117, 122], 1) });
h!(h_c03_nearest32, { few(&[(106, 32)]) });
h!(h_c03_nearest64, { run_on(148, 0, true, 64) });
h!(h_c03_trunc, { few(&[(248, 32), (249, 32), (252, 64), (253, 64)]) });
h!(h_c03_truncx, { any(&[248, 249, 252, 253], 1) });
h!(h_c03_rtrunc, { few(&[(257, 32), (258, 32), (259, 64), (260, 64)]) });
h!(h_c03_convert, { any(&[94, 95, 250, 251, 254, 255], 1) });
// vector loads and stores: the bytes of the stated width, the other lanes and bytes left alone
h!(h_c03_mem, {
    let ks: Vec<u64> = range(&[(0, 11), (84, 93)]); let k = ks[choose("op", ks.len() as u64) as usize]; let o = match ops::vector(k) { Some(o) => o, None => panic!("opcode") };
    let lane = if let Imm::MemLane(_, n) = o.imm { choose("lane", n as u64) as u32 } else { 0 }; let off = [0u64, 3][choose("off", 2) as usize]; let base = [0u32, 17 - off as u32][choose("base", 2) as usize]; let at = base as u64 + off;
    let b: Vec<u8> = (0..36).map(|i| if i as u64 >= at && (i as u64) < at + 16 { u8v("m") } else { 0x90 ^ i as u8 }).collect(); let v = u128v("v"); let n = o.p.len();
    let mut m = M::new(); m.mem(memty(false, 36, Some(36), 0)); m.export("m", KM, 0); m.data0(c().i32c(0), &b); let mut body = c().get(0); if n > 1 { body = body.get(1) }
    let rs = [o.r]; let rt: &[u8] = if o.r == VOID { &[] } else { &rs }; let f = m.func(o.p, rt, &[], ops::imm(body.fd(k), o.imm, lane as u8, &[0; 16], off, 0)); m.export("f", KF, f);
    let mut st = Store::default(); let x = inst(&mut st, &m, choose("opt", 2) == 1, None); let args: Vec<WasmValue> = (0..n).map(|i| val(o.p[i], if i == 0 { base as u128 } else { v })).collect(); let (oc, r) = call(&mut st, &x, "f", &args); check(oc == OK, "no trap");
    let ld = |i: u64, n: u64| (0..n).fold(0u64, |t, j| t | (b[(at + i + j) as usize] as u64) << (8 * j)); let lanes = |w: u32, f: &dyn Fn(u64) -> u64| (0..128 / w).fold(0u128, |t, i| t | ((f(i as u64) & ones(w)) as u128) << (w * i));
    let want = match k { 0 => Some(lanes(64, &|i| ld(8 * i, 8))), 1..=6 => { let w = 8 << ((k - 1) / 2) as u32; Some(lanes(2 * w, &|i| ex(ld(i * (w / 8) as u64, (w / 8) as u64), w, k % 2 == 1) as u64)) } 7..=10 => { let w = 8 << (k - 7) as u32; Some(lanes(w, &|_| ld(0, (w / 8) as u64))) } 92 => Some(ld(0, 4) as u128), 93 => Some(ld(0, 8) as u128),
        84..=87 => { let w = 8 << (k - 84) as u32; Some(lanes(w, &|i| if i as u32 == lane { ld(0, (w / 8) as u64) } else { ln(v, w, i as u32) })) } _ => None };
    match want { Some(w) => { check(r.len() == 1 && bits(&r[0]) == w, "a loaded vector"); cover("load") } None => { check(r.is_empty(), "no result"); cover("store") } }
    let mut after = b.clone(); if k == 11 { for i in 0..16 { after[at as usize + i] = (v >> (8 * i)) as u8 } } if (88..=91).contains(&k) { let n = 1usize << (k - 88); for i in 0..n { after[at as usize + i] = (v >> (8 * (n as u32 * lane) + 8 * i as u32)) as u8 } }
    match x.memory("m").and_then(|m| m.read_vec(&st, 0, 36)) { Ok(d) => check(d.len() == 36 && (0..36).fold(true, |t, i| t & (d[i] == after[i])), "the memory"), Err(_) => check(false, "memory") }
});
