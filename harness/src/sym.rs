//! Interface between harnesses and the executor.  Under the symbolic executor every value obtained
//! here is an SMT variable; under native replay it is read from the counterexample.
mod raw {
    extern "C" {
        pub fn sym_u8() -> u8;
        pub fn sym_u16() -> u16;
        pub fn sym_u32() -> u32;
        pub fn sym_u64() -> u64;
        pub fn sym_bool() -> bool;
        pub fn sym_bytes(p: *mut u8, n: usize);
        pub fn sym_assume(c: bool);
        pub fn sym_check(c: bool, p: *const u8, n: usize);
        pub fn sym_cover(c: bool, p: *const u8, n: usize);
        pub fn sym_emit(v: u64);
        pub fn sym_split(v: u64) -> u64;
        pub fn sym_case(n: u64) -> u64;
        pub fn sym_tier() -> u64;
    }
}
use raw::*;

pub fn u8() -> u8 { unsafe { sym_u8() } }
pub fn u16() -> u16 { unsafe { sym_u16() } }
pub fn u32() -> u32 { unsafe { sym_u32() } }
pub fn u64() -> u64 { unsafe { sym_u64() } }
pub fn bool() -> bool { unsafe { sym_bool() } }
/// A value below `n`, still symbolic.
pub fn below(n: u8) -> u8 { let v = u8(); assume(v < n); v }
/// Case split: one path per feasible value.
pub fn split(v: u64) -> u64 { unsafe { sym_split(v) } }
/// A length in 0..=max, one path per value.
pub fn len(max: usize) -> usize { let v = u16(); assume(v as usize <= max); split(v as u64) as usize }
pub fn range(lo: usize, hi: usize) -> usize { let v = u16(); assume(v as usize >= lo && v as usize <= hi); split(v as u64) as usize }
/// `n` arbitrary bytes.
pub fn bytes(n: usize) -> Vec<u8> { let mut v = vec![0u8; n]; unsafe { sym_bytes(v.as_mut_ptr(), n) }; v }
pub fn fill(v: &mut [u8]) { unsafe { sym_bytes(v.as_mut_ptr(), v.len()) } }
pub fn assume(c: bool) { unsafe { sym_assume(c) } }
pub fn check(c: bool, m: &str) { unsafe { sym_check(c, m.as_ptr(), m.len()) } }
pub fn cover(c: bool, m: &str) { unsafe { sym_cover(c, m.as_ptr(), m.len()) } }
pub fn reach(m: &str) { cover(true, m) }
pub fn emit(v: u64) { unsafe { sym_emit(v) } }
/// A symbolic length in 0..=max (no case split).
pub fn slen(max: usize) -> usize { let v = u16() as usize; assume(v <= max); v }
/// Case distinction the driver may spread over processes: a value in 0..n, one path per value.
pub fn case(n: usize) -> usize { unsafe { sym_case(n as u64) as usize } }
pub fn thorough() -> bool { unsafe { sym_tier() != 0 } }
/// One of the listed values, one path each.
pub fn pick(v: &[usize]) -> usize { v[split(below(v.len() as u8) as u64) as usize] }
/// quick / thorough bound
pub fn tier(q: usize, t: usize) -> usize { if thorough() { t } else { q } }
/// Emit bytes for the comparison of the encoding with natively executed code.
pub fn emit_bytes(b: &[u8]) { emit(b.len() as u64); for x in b { emit(*x as u64); } }
