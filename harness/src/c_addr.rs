//! C07 address text, C08 numeric encodings.
use crate::sym;
use crate::util::*;

/// One decimal part: some number of digits, value, or not a number.  (An optional '+' is what the
/// standard integer parser accepts; the property leaves that spelling open.)
enum Part { Num(u32), Plus(u32), Bad }
fn part(b: &[u8]) -> Part {
    let plus = b.len() > 1 && b[0] == b'+';
    let d = if plus { &b[1..] } else { b };
    if d.is_empty() { return Part::Bad; }
    let mut v = 0u32;
    for x in d {
        if *x < b'0' || *x > b'9' { return Part::Bad; }
        v = v * 10 + (*x - b'0') as u32;
        if v > 1_000_000 { v = 1_000_000; }
    }
    if plus { Part::Plus(v) } else { Part::Num(v) }
}
/// The meaning of an address text: separator class, value; None: must be rejected; open: '+' used.
struct Meaning { kind: u8, value: u16, open: bool }
fn meaning(s: &[u8]) -> Option<Meaning> {
    let dotted = s.contains(&b'.');
    let sep = if dotted { b'.' } else { b'/' };
    let mut parts: [(usize, usize); 4] = [(0, 0); 4];
    let mut n = 0;
    let mut start = 0;
    let mut i = 0;
    loop {
        if i == s.len() || s[i] == sep {
            if n == 4 { return None; }
            parts[n] = (start, i);
            n += 1;
            start = i + 1;
        }
        if i == s.len() { break; }
        i += 1;
    }
    let limits: &[u32] = match (dotted, n) {
        (true, 3) => &[15, 15, 255],
        (false, 3) => &[31, 7, 255],
        (false, 2) => &[31, 255],
        (false, 1) => &[65535],
        _ => return None,
    };
    let mut v = [0u16; 3];
    let mut open = false;
    let mut k = 0;
    while k < n {
        let x = match part(&s[parts[k].0..parts[k].1]) { Part::Num(x) => x, Part::Plus(x) => { open = true; x } Part::Bad => return None };
        if x > limits[k] { return None; }
        v[k] = x as u16;
        k += 1;
    }
    Some(match (dotted, n) {
        (true, _) => Meaning { kind: 0, value: v[0] << 12 | v[1] << 8 | v[2], open },
        (false, 3) => Meaning { kind: 3, value: v[0] << 11 | v[1] << 8 | v[2], open },
        (false, 2) => Meaning { kind: 2, value: v[0] << 11 | v[1], open },
        _ => Meaning { kind: 1, value: v[0], open },
    })
}
fn kind(a: &KnxAddress) -> u8 {
    match a { KnxAddress::Individual(_) => 0, KnxAddress::Group1Level(_) => 1, KnxAddress::Group2Level(_) => 2, KnxAddress::Group3Level(_) => 3 }
}
fn verdict(s: &[u8]) {
    let t = match std::str::from_utf8(s) { Ok(t) => t, Err(_) => return };
    let m = meaning(s);
    let r = KnxAddress::try_from(t);
    match (&m, &r) {
        (Some(m), Ok(a)) => {
            sym::check(kind(a) == m.kind, "kind of the parsed address");
            sym::check(a.to_u16() == m.value, "value of the parsed address");
            if m.kind == 0 { sym::reach("individual") } else { sym::reach("group") }
        }
        (Some(m), Err(_)) => sym::check(m.open, "valid address text is accepted"),
        (None, Ok(_)) => sym::check(false, "invalid address text is rejected"),
        (None, Err(_)) => sym::reach("rejected"),
    }
    match IndividualAddress::try_from(t) {
        Ok(a) => sym::check(matches!(&m, Some(m) if m.kind == 0 && m.value == a.to_u16()), "individual address text"),
        Err(_) => sym::check(!matches!(&m, Some(m) if m.kind == 0 && !m.open), "valid individual address text is accepted"),
    }
    match Group3LevelAddress::try_from(t) {
        Ok(a) => sym::check(matches!(&m, Some(m) if m.kind == 3 && m.value == a.to_u16()), "3 level group address text"),
        Err(_) => sym::check(!matches!(&m, Some(m) if m.kind == 3 && !m.open), "valid 3 level group address text is accepted"),
    }
}
/// Every text of up to 5 (thorough: 6) octets.
#[no_mangle]
pub extern "C" fn h_c07_any() {
    let n = sym::case(sym::tier(6, 7));
    verdict(&sym::bytes(n));
}
/// Texts of digits and separators in every arrangement of up to three parts of 1..4 digits.
#[no_mangle]
pub extern "C" fn h_c07_parts() {
    let k = sym::case(20);
    // part lengths: (1..=3)^2 x sub 1..4 spread over the cases, for both separators
    let sep = if k < 10 { b'.' } else { b'/' };
    let shape: &[usize] = match k % 10 {
        0 => &[1, 1, 1],
        1 => &[2, 2, 3],
        2 => &[2, 1, 3],
        3 => &[3, 1, 1],
        4 => &[1, 3, 1],
        5 => &[2, 3],
        6 => &[3, 1],
        7 => &[1, 1, 1, 1],
        8 => if sep == b'/' { &[5] } else { &[1, 2] },
        _ => if sep == b'/' { &[6] } else { &[1, 1, 4] },
    };
    let mut s = Vec::new();
    for (i, n) in shape.iter().enumerate() {
        if i > 0 { s.push(sep); }
        for _ in 0..*n {
            let d = sym::u8();
            sym::assume(d < 10);
            s.push(b'0' + d);
        }
    }
    verdict(&s);
    sym::reach("text");
}
/// An address with one more octet, or one more and a separator, anywhere in it.
#[no_mangle]
pub extern "C" fn h_c07_inserted() {
    let k = sym::case(6);
    let (base, sep): (&[u8], u8) = [(&b"0/0/0"[..], b'/'), (&b"0.0.0"[..], b'.'), (&b"1/0/20"[..], b'/'), (&b"1.1.20"[..], b'.'), (&b"10/200"[..], b'/'), (&b"65000"[..], b'/')][k];
    let x = sym::u8();
    let d = sym::u8();
    sym::assume(d < 10);
    let mut at = 0;
    while at <= base.len() {
        let mut s = base.to_vec();
        let n = s.len();
        s[n - 1] = b'0' + d;
        s.insert(at, x);
        verdict(&s);
        // and a separator besides
        let mut j = 0;
        while j <= s.len() {
            let mut t = s.clone();
            t.insert(j, sep);
            verdict(&t);
            j += 1;
        }
        at += 1;
    }
    sym::reach("inserted");
}
/// Longer texts with a character that is not ASCII anywhere.
fn foreign() {
    let k = sym::case(12);
    let n = [6usize, 8, 9, 11, 12, 13, 15, 16, 17, 21, 33, 40][k];
    let fill: [&[u8]; 4] = [b"1", b"1.", b"1/2/", b"abc "];
    let (x, y) = (sym::u8() & 0x3f | 0x80, sym::u8() & 0x3f | 0x80);
    for f in fill {
        for c in [vec![0xc3, x], vec![0xe2, x, y], vec![0xf0, 0x9f, x, y]] {
            let mut at = 0;
            while at < n {
                let mut s = vec![];
                while s.len() < at { let b = f[s.len() % f.len()]; s.push(b); }
                s.extend_from_slice(&c);
                while s.len() < n { let b = f[s.len() % f.len()]; s.push(b); }
                let s = unsafe { std::str::from_utf8_unchecked(&s) };
                sym::check(KnxAddress::try_from(s).is_err() && IndividualAddress::try_from(s).is_err() && Group3LevelAddress::try_from(s).is_err(), "a foreign character is never part of an address");
                at += 1;
            }
        }
    }
    sym::reach("foreign");
}
#[no_mangle]
pub extern "C" fn h_c01_foreign() { foreign() }
#[no_mangle]
pub extern "C" fn h_c07_foreign() { foreign() }
/// The text an address is shown as parses back to it.
#[no_mangle]
pub extern "C" fn h_c07_show() {
    let w = sym::u16();
    if sym::bool() {
        let a = IndividualAddress::from_u16(w);
        let s = format!("{:?}", a);
        sym::emit_bytes(s.as_bytes());
        let b = IndividualAddress::try_from(s.as_str());
        sym::check(b.map(|b| b.to_u16() == w && b == a).unwrap_or(false), "shown individual address parses back");
        sym::reach("individual");
    } else {
        let a = Group3LevelAddress::from_u16(w);
        let s = format!("{:?}", a);
        sym::emit_bytes(s.as_bytes());
        let b = Group3LevelAddress::try_from(s.as_str());
        sym::check(b.map(|b| b.to_u16() == w).unwrap_or(false), "shown group address parses back");
        sym::reach("group");
    }
}

// ---------------------------------------------------------------- C08
#[no_mangle]
pub extern "C" fn h_c08_fields() {
    let (a, b, c, w) = (sym::u8(), sym::u8(), sym::u8(), sym::u16());
    match sym::case(4) {
        0 => {
            sym::assume(a < 16 && b < 16);
            sym::check(KnxAddress::individual(a, b, c).to_u16() == (a as u16) << 12 | (b as u16) << 8 | c as u16, "individual: 4 bit area, 4 bit line, 8 bit device");
        }
        1 => {
            sym::assume(a < 32 && b < 8);
            sym::check(KnxAddress::group_3_level(a, b, c).to_u16() == (a as u16) << 11 | (b as u16) << 8 | c as u16, "3 level: 5 bit main, 3 bit middle, 8 bit sub");
        }
        2 => {
            sym::assume(a < 32);
            sym::check(KnxAddress::group_2_level(a, c).to_u16() == (a as u16) << 11 | c as u16, "2 level: 5 bit main, 11 bit sub");
        }
        _ => sym::check(KnxAddress::group_1_level(w).to_u16() == w, "1 level: 16 bit"),
    }
    sym::reach("address");
}
#[no_mangle]
pub extern "C" fn h_c08_bijective() {
    let w = sym::u16();
    let i = IndividualAddress::from_u16(w);
    sym::check(i.to_u16() == w, "individual address of a word encodes to that word");
    sym::check(Group3LevelAddress::from_u16(w).to_u16() == w, "group address of a word encodes to that word");
    let v = sym::u16();
    sym::check((IndividualAddress::from_u16(v) == i) == (v == w), "individual addresses are equal exactly when their words are");
    let (a, b, c) = (sym::u8(), sym::u8(), sym::u8());
    let (x, y, z) = (sym::u8(), sym::u8(), sym::u8());
    sym::assume(a < 16 && b < 16 && x < 16 && y < 16);
    let same = a == x && b == y && c == z;
    sym::check((KnxAddress::individual(a, b, c).to_u16() == KnxAddress::individual(x, y, z).to_u16()) == same, "distinct individual addresses have distinct words");
    sym::assume(b < 8 && y < 8);
    sym::check((KnxAddress::group_3_level(a, b, c).to_u16() == KnxAddress::group_3_level(x, y, z).to_u16()) == same, "distinct 3 level addresses have distinct words");
    sym::check((KnxAddress::group_2_level(a, c).to_u16() == KnxAddress::group_2_level(x, z).to_u16()) == (a == x && c == z), "distinct 2 level addresses have distinct words");
    sym::emit(i.to_u16() as u64);
    sym::reach("words");
}
