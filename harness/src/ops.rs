//! The signatures of the numeric and vector instructions, from the specification.
#![allow(dead_code)]
use crate::enc::*;
/// immediate: nothing, lane index below .0, 16 lane indices below 32, memory argument (natural alignment log2), memory argument and lane (alignment, lanes)
#[derive(Clone, Copy, PartialEq)]
pub enum Imm { No, Lane(u8), Shuffle, Mem(u8), MemLane(u8, u8), Const }
pub struct Op { pub p: &'static [u8], pub r: u8, pub imm: Imm }
const II: &[u8] = &[I32, I32]; const LL: &[u8] = &[I64, I64]; const FF: &[u8] = &[F32, F32]; const DD: &[u8] = &[F64, F64]; const VV: &[u8] = &[V128, V128]; const V: &[u8] = &[V128]; const VVV: &[u8] = &[V128, V128, V128]; const VI: &[u8] = &[V128, I32];
fn o(p: &'static [u8], r: u8) -> Option<Op> { Some(Op { p, r, imm: Imm::No }) }
/// one-byte opcodes: comparisons, arithmetic, conversions
pub fn scalar(k: u64) -> Option<Op> {
    match k {
        0x45 | 0x67..=0x69 | 0xc0 | 0xc1 => o(&[I32], I32), 0x46..=0x4f | 0x6a..=0x78 => o(II, I32), 0x50 => o(&[I64], I32), 0x51..=0x5a => o(LL, I32), 0x5b..=0x60 => o(FF, I32), 0x61..=0x66 => o(DD, I32),
        0x79..=0x7b | 0xc2..=0xc4 => o(&[I64], I64), 0x7c..=0x8a => o(LL, I64), 0x8b..=0x91 => o(&[F32], F32), 0x92..=0x98 => o(FF, F32), 0x99..=0x9f => o(&[F64], F64), 0xa0..=0xa6 => o(DD, F64),
        0xa7 => o(&[I64], I32), 0xa8 | 0xa9 | 0xbc => o(&[F32], I32), 0xaa | 0xab => o(&[F64], I32), 0xac | 0xad => o(&[I32], I64), 0xae | 0xaf => o(&[F32], I64), 0xb0 | 0xb1 | 0xbd => o(&[F64], I64),
        0xb2 | 0xb3 | 0xbe => o(&[I32], F32), 0xb4 | 0xb5 => o(&[I64], F32), 0xb6 => o(&[F64], F32), 0xb7 | 0xb8 => o(&[I32], F64), 0xb9 | 0xba | 0xbf => o(&[I64], F64), 0xbb => o(&[F32], F64), _ => None,
    }
}
/// 0xfc 0..7: saturating truncation
pub fn sat(k: u64) -> Option<Op> { match k { 0 | 1 => o(&[F32], I32), 2 | 3 => o(&[F64], I32), 4 | 5 => o(&[F32], I64), 6 | 7 => o(&[F64], I64), _ => None } }
/// 0xfd
pub fn vector(k: u64) -> Option<Op> {
    fn i(p: &'static [u8], r: u8, imm: Imm) -> Option<Op> { Some(Op { p, r, imm }) }
    match k {
        0 => i(&[I32], V128, Imm::Mem(4)), 1..=6 => i(&[I32], V128, Imm::Mem(3)), 7..=10 => i(&[I32], V128, Imm::Mem(k as u8 - 7)), 11 => i(&[I32, V128], VOID, Imm::Mem(4)), 12 => i(&[], V128, Imm::Const), 13 => i(VV, V128, Imm::Shuffle), 14 => o(VV, V128), 15..=17 => o(&[I32], V128), 18 => o(&[I64], V128), 19 => o(&[F32], V128), 20 => o(&[F64], V128),
        21 | 22 => i(V, I32, Imm::Lane(16)), 23 => i(VI, V128, Imm::Lane(16)), 24 | 25 => i(V, I32, Imm::Lane(8)), 26 => i(VI, V128, Imm::Lane(8)), 27 => i(V, I32, Imm::Lane(4)), 28 => i(VI, V128, Imm::Lane(4)), 29 => i(V, I64, Imm::Lane(2)), 30 => i(&[V128, I64], V128, Imm::Lane(2)), 31 => i(V, F32, Imm::Lane(4)), 32 => i(&[V128, F32], V128, Imm::Lane(4)), 33 => i(V, F64, Imm::Lane(2)), 34 => i(&[V128, F64], V128, Imm::Lane(2)),
        35..=76 | 78..=81 => o(VV, V128), 77 => o(V, V128), 82 => o(VVV, V128), 83 => o(V, I32), 84..=87 => i(&[I32, V128], V128, Imm::MemLane(k as u8 - 84, 16 >> (k - 84))), 88..=91 => i(&[I32, V128], VOID, Imm::MemLane(k as u8 - 88, 16 >> (k - 88))), 92 | 93 => i(&[I32], V128, Imm::Mem(k as u8 - 90)),
        94..=98 | 103..=106 | 116 | 117 | 122 | 124..=129 | 135..=138 | 148 | 160 | 161 | 167..=170 | 192 | 193 | 199..=202 | 224 | 225 | 227 | 236 | 237 | 239 | 248..=255 => o(V, V128),
        99 | 100 | 131 | 132 | 163 | 164 | 195 | 196 => o(V, I32), 107..=109 | 139..=141 | 171..=173 | 203..=205 => o(VI, V128),
        101 | 102 | 110..=115 | 118..=121 | 123 | 130 | 133 | 134 | 142..=147 | 149..=153 | 155..=159 | 174 | 177 | 181..=186 | 188..=191 | 206 | 209 | 213..=223 | 228..=235 | 240..=247 => o(VV, V128),
        256 | 269..=274 => o(VV, V128), 257..=260 => o(V, V128), 261..=268 | 275 => o(VVV, V128), _ => None,
    }
}
/// the instruction with its immediates: lane or shuffle indices, offset
pub fn imm(c: C, p: Imm, lane: u8, sh: &[u8; 16], off: u64, k: u128) -> C {
    match p { Imm::No => c, Imm::Lane(_) => c.op(lane), Imm::Shuffle => c.ops(sh), Imm::Mem(a) => c.op(a).u(off), Imm::MemLane(a, _) => c.op(a).u(off).op(lane), Imm::Const => c.ops(&k.to_le_bytes()) }
}
