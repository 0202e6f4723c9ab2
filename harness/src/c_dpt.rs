//! C13 integer datapoints, C14 DPT 9 decoding, C15 DPT 9 encoding, C16 scaling.
use crate::sym;
use crate::util::*;

#[no_mangle]
pub extern "C" fn h_c13_values() {
    match sym::case(8) {
        0 => {
            let v = sym::u16() as i16;
            let d = PdtKnxInt::general(v);
            sym::check(eq(&d.get_bytes(), &[(v >> 8) as u8, v as u8]) && !d.is_small() && d.get_value() == v, "8.x: two's complement, big endian");
            let d = PdtKnxInt::value_2_count(v);
            sym::check(eq(&d.get_bytes(), &[(v >> 8) as u8, v as u8]) && !d.is_small() && d.get_value() == v, "8.001: the count itself");
            let e = (v as i32 * 100).clamp(-32768, 32767) as i16;
            let d = PdtKnxInt::percent_v16(v);
            sym::check(d.get_value() == e && eq(&d.get_bytes(), &[(e >> 8) as u8, e as u8]) && !d.is_small(), "8.010: hundredths of a percent, saturating");
            let b = sym::bytes(2);
            sym::check(PdtKnxInt::from_bytes(&b).map(|d| !d.is_small() && d.get_value() == be16(&b, 0) as i16 && eq(&d.get_bytes(), &b)).unwrap_or(false), "8.x from bytes");
        }
        1 => {
            let v = sym::u16();
            let d = PdtKnxWord::general(v);
            sym::check(eq(&d.get_bytes(), &[(v >> 8) as u8, v as u8]) && !d.is_small() && d.get_value() == v, "7.x: unsigned, big endian");
            let b = sym::bytes(2);
            sym::check(PdtKnxWord::from_bytes(&b).map(|d| !d.is_small() && d.get_value() == be16(&b, 0) && eq(&d.get_bytes(), &b)).unwrap_or(false), "7.x from bytes");
        }
        2 => {
            let v = sym::u32();
            let d = PdtKnxULong::general(v);
            sym::check(eq(&d.get_bytes(), &[(v >> 24) as u8, (v >> 16) as u8, (v >> 8) as u8, v as u8]) && !d.is_small() && d.get_value() == v, "12.x: unsigned, big endian");
            let b = sym::bytes(4);
            let w = (be16(&b, 0) as u32) << 16 | be16(&b, 2) as u32;
            sym::check(PdtKnxULong::from_bytes(&b).map(|d| !d.is_small() && d.get_value() == w && eq(&d.get_bytes(), &b)).unwrap_or(false), "12.x from bytes");
        }
        3 => {
            let v = sym::u8();
            let d = PdtKnxByte::general(v);
            sym::check(eq(&d.get_bytes(), &[v]) && !d.is_small() && d.get_value() == v, "20.x: one octet");
            sym::check(PdtKnxByte::from_bytes(&[v]).map(|d| !d.is_small() && d.get_value() == v && eq(&d.get_bytes(), &[v])).unwrap_or(false), "20.x from bytes");
        }
        4 => {
            let v = sym::bool();
            for d in [PdtKnxBit::general(v), PdtKnxBit::switch(v)] {
                sym::check(eq(&d.get_bytes(), &[v as u8]) && d.is_small() && d.get_value() == v, "1.x: one bit");
            }
            let b = sym::u8();
            sym::check(PdtKnxBit::from_bytes(&[b]).map(|d| d.get_value() == (b != 0) && eq(&d.get_bytes(), &[(b != 0) as u8]) && d.is_small()).unwrap_or(false), "1.x from bytes");
        }
        5 => {
            let (bit, step, v) = (sym::bool(), sym::u8(), sym::u8());
            for d in [PdtKnxB1U3::dimming(bit, step), PdtKnxB1U3::blinds(bit, step)] {
                let e = (bit as u8) << 3 | step & 7;
                sym::check(eq(&d.get_bytes(), &[e]) && d.is_small() && d.get_value() == e, "3.x: control bit and three step bits");
            }
            sym::check(PdtKnxB1U3::general(v).get_value() == v & 15 && eq(&PdtKnxB1U3::general(v).get_bytes(), &[v & 15]) && PdtKnxB1U3::general(v).is_small(), "3.x from a value");
            sym::check(PdtKnxB1U3::from_bytes(&[v]).map(|d| d.is_small() && d.get_value() == v & 15 && eq(&d.get_bytes(), &[v & 15])).unwrap_or(false), "3.x from bytes");
        }
        6 => {
            let v = sym::u8();
            let d = <PdtKnxScaledValue as Pdt<u8>>::general(v);
            sym::check(eq(&d.get_bytes(), &[v]) && !d.is_small() && Pdt::get_value(&d) == v, "5.x: one octet");
            sym::check(PdtKnxScaledValue::from_bytes(&[v]).map(|d| !d.is_small() && Pdt::get_value(&d) == v && eq(&d.get_bytes(), &[v])).unwrap_or(false), "5.x from bytes");
        }
        _ => {
            let b = sym::bytes(4);
            let code = |c: &str, w: &str| sym::check(c.split('.').next() == Some(w), "datapoint main number");
            code(&PdtKnxBit::from_bytes(&b).ok().unwrap().code, "1"); code(&PdtKnxBit::general(true).code, "1"); code(&PdtKnxBit::switch(true).code, "1");
            code(&PdtKnxB1U3::from_bytes(&b).ok().unwrap().code, "3"); code(&PdtKnxB1U3::general(0).code, "3");
            code(&PdtKnxB1U3::dimming(true, 1).code, "3"); code(&PdtKnxB1U3::blinds(true, 1).code, "3");
            code(&PdtKnxScaledValue::from_bytes(&b).ok().unwrap().code, "5"); code(&PdtKnxScaledValue::scaling(1.0).code, "5"); code(&<PdtKnxScaledValue as Pdt<u8>>::general(1).code, "5");
            code(&PdtKnxWord::from_bytes(&b).ok().unwrap().code, "7"); code(&PdtKnxWord::general(1).code, "7");
            code(&PdtKnxInt::from_bytes(&b).ok().unwrap().code, "8"); code(&PdtKnxInt::general(1).code, "8");
            code(&PdtKnxInt::value_2_count(1).code, "8"); code(&PdtKnxInt::percent_v16(1).code, "8");
            code(&PdtKnxFloat::from_bytes(&b[..2]).ok().unwrap().code, "9"); code(&PdtKnxFloat::temp(1.0).code, "9"); code(&PdtKnxFloat::general(1.0).code, "9"); code(&PdtKnxFloat::temp_from_bytes(&b[..2]).ok().unwrap().code, "9");
            code(&PdtKnxULong::from_bytes(&b).ok().unwrap().code, "12"); code(&PdtKnxULong::general(1).code, "12");
            code(&PdtKnxByte::from_bytes(&b).ok().unwrap().code, "20"); code(&PdtKnxByte::general(1).code, "20");
        }
    }
    sym::reach("datapoint");
}

// ---------------------------------------------------------------- C14
/// Sign and 11 bit mantissa as a 12 bit two's complement number, 4 bit exponent.
pub fn parts(b: &[u8]) -> (i32, u32) {
    let w = be16(b, 0);
    let m = (w & 0x7ff) as i32 - if w & 0x8000 != 0 { 2048 } else { 0 };
    (m, (w >> 11 & 15) as u32)
}
#[no_mangle]
pub extern "C" fn h_c14_decode() {
    let e = sym::case(16) as u32;
    let w = sym::u16();
    sym::assume((w >> 11 & 15) as u32 == e);
    let b = [(w >> 8) as u8, w as u8];
    let (m, _) = parts(&b);
    let r = PdtKnxFloat::from_bytes(&b);
    let t = PdtKnxFloat::temp_from_bytes(&b);
    sym::check(r.is_ok() && t.is_ok(), "two bytes decode");
    if let (Ok(r), Ok(t)) = (r, t) {
        let v = Pdt::get_value(&r);
        sym::check(v == Pdt::get_value(&t), "9.001 decodes like 9.x");
        // 0.01 * M * 2^E, allowing single precision rounding
        let exact = (m as i64) << e;
        let tol = (if exact < 0 { -exact } else { exact } << 12) / 5 + 1; // 2^-20 / 5 of the value, in units of 2^-32
        sym::check(within(v, exact, tol), "value is 0.01 * mantissa * 2^exponent");
        sym::check((v.to_bits() << 1 == 0) == (m == 0), "only the zero mantissa is zero");
        sym::check(!r.is_small(), "9.x is not small");
        sym::emit(v.to_bits() as u64);
    }
    sym::reach("decoded");
}
#[no_mangle]
pub extern "C" fn h_c14_length() {
    let n = sym::range(0, 6);
    let b = sym::bytes(n);
    sym::check(PdtKnxFloat::from_bytes(&b).is_ok() == (n == 2) && PdtKnxFloat::temp_from_bytes(&b).is_ok() == (n == 2), "exactly two bytes");
    sym::reach("length");
}

// ---------------------------------------------------------------- C15
/// 100 v in units of 2^-32 (truncated), for |v| < 2^20: exact integer arithmetic on the IEEE octets.
fn hundred(v: f32) -> i64 {
    let b = v.to_bits();
    let e = (b >> 23 & 0xff) as i32;
    let m = if e == 0 { 0 } else { (b & 0x7f_ffff | 0x80_0000) as u64 * 100 };
    // v = mant * 2^(e-150); in units of 2^-32: shift by e - 118
    let s = e - 118;
    let x = if s >= 0 { m << (s & 63) } else if s > -40 { m >> (-s & 63) } else { 0 };
    if b >> 31 != 0 { -(x as i64) } else { x as i64 }
}
/// |100 v - n| <= tol * 2^-32
pub fn within(v: f32, n: i64, tol: i64) -> bool {
    if v.to_bits() & 0x7fff_ffff >= 0x4980_0000 { return false; } // 2^20
    let d = hundred(v) - (n << 32);
    d <= tol && -d <= tol
}
fn nearest(v: f32, e: u32) {
    let d = if sym::bool() { PdtKnxFloat::general(v) } else { PdtKnxFloat::temp(v) };
    let b = d.get_bytes();
    sym::check(b.len() == 2, "two bytes");
    let (m, x) = parts(&b);
    // half a step of the finest exponent that holds the value, plus single precision rounding of 100 v
    let tol = (0x8020_0000i64) << e;
    sym::check(within(v, (m as i64) << x, tol), "encodes to the nearest representable value");
    sym::emit(be16(&b, 0) as u64);
}
#[no_mangle]
pub extern "C" fn h_c15_nearest() {
    let k = sym::case(32);
    let (neg, e) = (k >= 16, (k % 16) as u32);
    let bits = sym::u32();
    let lim = |e: u32| (if neg { 20.48f32 } else { 20.47f32 } * (1u32 << e) as f32).to_bits();
    sym::assume((bits >> 31 != 0) == neg);
    let a = bits & 0x7fff_ffff;
    sym::assume(a <= lim(e) && (e == 0 || a > lim(e - 1)));
    let v = f32::from_bits(bits);
    nearest(v, e);
    sym::reach("encoded");
}
#[no_mangle]
pub extern "C" fn h_c15_saturates() {
    let bits = sym::u32();
    let v = f32::from_bits(bits);
    let a = bits & 0x7fff_ffff;
    let inf = f32::INFINITY.to_bits();
    match sym::case(3) {
        0 => { sym::assume(bits == a && a >= 670760.96f32.to_bits() && a <= inf); sym::reach("high"); sym::check(eq(&PdtKnxFloat::general(v).get_bytes(), &[0x7f, 0xff]), "larger values encode to the largest"); }
        1 => { sym::assume(bits != a && a >= 671088.64f32.to_bits() && a <= inf); sym::reach("low"); sym::check(eq(&PdtKnxFloat::general(v).get_bytes(), &[0xf8, 0]), "smaller values encode to the smallest"); }
        _ => { sym::assume(a > inf); sym::reach("NaN"); sym::check(PdtKnxFloat::general(v).get_bytes().len() == 2, "NaN encodes to two bytes"); }
    }
}
/// Decoding an encoded code gives back the value.
#[no_mangle]
pub extern "C" fn h_c15_codes() {
    let k = sym::case(sym::tier(8, 32));
    let k = if sym::thorough() { k } else { [0, 1, 7, 15, 16, 17, 23, 31][k] };
    let w = sym::u16();
    sym::assume((w >> 11) as usize == k);
    let b = [(w >> 8) as u8, w as u8];
    if let Ok(d) = PdtKnxFloat::from_bytes(&b) {
        let c = d.get_bytes();
        let (m, e) = parts(&b);
        let (n, f) = parts(&c);
        sym::check((m as i64) << e == (n as i64) << f, "re-encoding a decoded value keeps it");
    }
    sym::reach("code");
}

// ---------------------------------------------------------------- C16
#[no_mangle]
pub extern "C" fn h_c16_inverse() {
    let v = sym::u8();
    let d = <PdtKnxScaledValue as Pdt<u8>>::general(v);
    let p = PdtKnxScaledValue::get_value(&d);
    sym::check(p >= 0.0 && p <= 100.0, "percentage between 0 and 100");
    sym::check(!(v == 255) || (p > 99.99 && p <= 100.0), "full scale is 100 percent");
    sym::check(!(v <= 1) || p == 0.0, "bottom of the scale is 0 percent");
    let s = PdtKnxScaledValue::scaling(p).get_bytes();
    sym::check(s.len() == 1, "one octet");
    sym::check(v == 0 || s[0] == v, "scaling a decoded percentage gives the same octet");
    sym::emit(s[0] as u64);
    let w = sym::u8();
    let q = PdtKnxScaledValue::get_value(&<PdtKnxScaledValue as Pdt<u8>>::general(w));
    sym::check(!(v < w) || p <= q, "decoding is monotone");
    sym::reach("scaled");
}
#[no_mangle]
pub extern "C" fn h_c16_range() {
    let bits = sym::u32();
    let a = bits & 0x7fff_ffff;
    let p = f32::from_bits(bits);
    let k = sym::case(6);
    let inf = f32::INFINITY.to_bits();
    match k {
        0 => sym::assume(bits == a && a >= 100.0f32.to_bits() && a <= inf),
        1 => sym::assume(bits != a && a >= 1.0f32.to_bits() && a <= inf),
        2 => sym::assume(bits == a && a <= 1.0f32.to_bits()),
        3 => sym::assume(bits == a && a >= 1.0f32.to_bits() && a <= 16.0f32.to_bits()),
        4 => sym::assume(bits == a && a >= 16.0f32.to_bits() && a <= 64.0f32.to_bits()),
        _ => sym::assume(bits == a && a >= 64.0f32.to_bits() && a <= 100.0f32.to_bits()),
    }
    let d = PdtKnxScaledValue::scaling(p);
    let b = d.get_bytes()[0];
    match k {
        0 => { sym::check(b == 255, "100 percent and more is full scale"); sym::reach("high"); }
        1 => { sym::check(b == 0, "negative percentages are the bottom of the scale"); sym::reach("low"); }
        _ => {
            // the decoded percentage of octet b is (b - 1) / 2.54: |254 p - 100 (b - 1)| <= 50 (+ rounding)
            let x = hundred(p) * 254 / 100 - ((b as i64 - 1) * 100 << 32);
            sym::check(b >= 1 && x <= 0x32_0040_0000 && -x <= 0x32_0040_0000, "within half a step of the requested percentage");
            sym::reach("inside");
        }
    }
    sym::emit(b as u64);
}
#[no_mangle]
pub extern "C" fn h_c16_monotone() {
    let (x, y) = (sym::u32(), sym::u32());
    let k = sym::case(2);
    // ordered pairs of non-negative values up to 200, or of negative values down to -200
    let lim = 200.0f32.to_bits();
    let (p, q) = if k == 0 { sym::assume(x <= y && y <= lim); (x, y) } else { sym::assume(x >= y && x <= lim); (x | 1 << 31, y | 1 << 31) };
    let (p, q) = (f32::from_bits(p), f32::from_bits(q));
    sym::check(PdtKnxScaledValue::scaling(p).get_bytes()[0] <= PdtKnxScaledValue::scaling(q).get_bytes()[0], "scaling is monotone");
    sym::reach("pair");
}
