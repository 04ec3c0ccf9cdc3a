#![allow(clippy::all)]
pub mod sym;
pub mod enc;
pub mod rt;
pub mod prog;
pub mod ops;
pub mod num;
#[cfg(feature = "c25")]
pub mod thr;
#[cfg(feature = "native")]
pub mod native;
#[macro_export]
macro_rules! h { ($n:ident, $b:block) => { #[unsafe(no_mangle)] pub extern "C" fn $n() { $b } } }
macro_rules! mods { ($($f:literal $m:ident),* $(,)?) => { $( #[cfg(feature = $f)] pub mod $m; )* } }
mods! { "c01" c01, "c02" c02, "c03" c03, "c04" c04, "c05" c05, "c06" c06, "c07" c07, "c08" c08, "c09" c09, "c10" c10, "c11" c11, "c12" c12, "c13" c13, "c14" c14, "c15" c15, "c16" c16, "c17" c17, "c18" c18, "c19" c19, "c20" c20, "c21" c21, "c22" c22, "c23" c23, "c24" c24, "c25" c25, "c26" c26 }
