//! C09 L_Data.req encoding, C10 L_Data.ind/con decoding, C11 cEMI container, C12 datapoints end to end.
use crate::sym;
use crate::util::*;

fn any_addr() -> (KnxAddress, u16, bool) {
    if sym::bool() {
        let (a, w) = any_group();
        (a, w, true)
    } else {
        let (a, b, c) = (sym::u8(), sym::u8(), sym::u8());
        sym::assume(a < 16 && b < 16);
        (KnxAddress::individual(a, b, c), (a as u16) << 12 | (b as u16) << 8 | c as u16, false)
    }
}
fn check_req(p: &[u8], w: u16, group: bool, prio: u8, body: &[u8]) {
    sym::check(p.len() == 9 + body.len(), "request length");
    if p.len() != 9 + body.len() { return; }
    sym::check(p[0] == 0x11 && p[1] == 0, "L_Data.req without additional infos");
    let frame = if body.len() <= 16 { 0x80 } else { 0 };
    sym::check(p[2] == frame | 0x30 | (prio & 3) << 2, "control field 1: standard frame up to 15 octets, otherwise extended, not repeated, broadcast, priority");
    sym::check(p[3] == if group { 0xe0 } else { 0x60 }, "control field 2: address type of the destination, hop count 6");
    sym::check(p[4] == 0 && p[5] == 0, "source address left to the device");
    sym::check(be16(p, 6) == w, "destination address");
    sym::check(p[8] as usize + 1 == body.len(), "length counts the octets after the TPCI octet");
    sym::check(eq(&p[9..], body), "TPCI/APCI and data");
}
#[no_mangle]
pub extern "C" fn h_c09_read() {
    let (a, w, g) = any_addr();
    let apdu = APDU::group_value_read();
    let t = match sym::split(sym::below(3) as u64) { 0 => TPDU::t_data_group(apdu), 1 => TPDU::t_data_broadcast(apdu), _ => TPDU::t_data_individual(apdu) };
    let p = LDataReqMessage::new(a, t).packet();
    check_req(&p, w, g, 3, &[0, 0]);
    sym::emit_bytes(&p);
    sym::reach(if g { "group" } else { "individual" });
}
#[no_mangle]
pub extern "C" fn h_c09_write() {
    let (a, w, g) = any_addr();
    let small = sym::bool();
    let prio = sym::u8();
    let set = sym::bool();
    let n = sym::range(1, sym::tier(16, 40));
    let v = sym::bytes(n);
    let mut m = LDataReqMessage::new(a, TPDU::t_data_group(APDU::group_value_write(v.clone(), small)));
    if set { m.set_priority(prio); }
    let p = m.packet();
    let prio = if set { prio } else { 3 };
    if small {
        check_req(&p, w, g, prio, &[0, 0x80 | v[0] & 0x3f]);
        sym::reach("small");
    } else {
        let mut b = vec![0, 0x80];
        b.extend_from_slice(&v);
        check_req(&p, w, g, prio, &b);
        sym::reach("long");
    }
    sym::emit_bytes(&p);
}
/// Values up to the largest a frame can announce.
#[no_mangle]
pub extern "C" fn h_c09_long() {
    let n = [14, 15, 64, 127, 128, 200, 252, 253][sym::split(sym::below(8) as u64) as usize];
    let mut v = vec![0u8; n];
    v[0] = sym::u8();
    v[n - 1] = sym::u8();
    let w = sym::u16();
    let p = LDataReqMessage::new(KnxAddress::group_1_level(w), TPDU::t_data_group(APDU::group_value_write(v.clone(), false))).packet();
    let mut b = vec![0, 0x80];
    b.extend_from_slice(&v);
    check_req(&p, w, true, 3, &b);
    sym::reach("long");
}
/// Datapoints choose the short form exactly when they say they are small.
#[no_mangle]
pub extern "C" fn h_c09_datapoint() {
    let w = sym::u16();
    let (small, first, rest, p): (bool, u8, Vec<u8>, Vec<u8>);
    macro_rules! go { ($e:expr) => {{ let d = $e; let b = d.get_bytes(); small = d.is_small(); first = b[0]; rest = b; p = req(w, d); }}; }
    fn req<T>(w: u16, d: impl Pdt<T>) -> Vec<u8> { LDataReqMessage::new(KnxAddress::group_1_level(w), TPDU::t_data_group(APDU::group_value_write_pd(d))).packet() }
    let mut should = false;
    match sym::split(sym::below(12) as u64) {
        0 => { should = true; go!(PdtKnxBit::general(sym::bool())) }
        1 => { should = true; go!(PdtKnxB1U3::general(sym::u8())) }
        2 => go!(<PdtKnxScaledValue as Pdt<u8>>::general(sym::u8())),
        3 => go!(PdtKnxByte::general(sym::u8())),
        4 => go!(PdtKnxWord::general(sym::u16())),
        5 => go!(PdtKnxInt::general(sym::u16() as i16)),
        6 => go!(PdtKnxInt::percent_v16(sym::u16() as i16)),
        7 => go!(PdtKnxFloat::temp([21.5f32, -30.0, 670760.96, 0.0][sym::split(sym::below(4) as u64) as usize])),
        8 => go!(PdtKnxFloat::general([-671088.64f32, 20.47, 20.48, -0.01][sym::split(sym::below(4) as u64) as usize])),
        9 => { should = true; go!(PdtKnxBit::switch(sym::bool())) }
        10 => { should = true; if sym::bool() { go!(PdtKnxB1U3::dimming(sym::bool(), sym::u8())) } else { go!(PdtKnxB1U3::blinds(sym::bool(), sym::u8())) } }
        _ => go!(PdtKnxULong::general(sym::u32())),
    }
    sym::check(small == should, "bit and control datapoints are small, others are not");
    if small { check_req(&p, w, true, 3, &[0, 0x80 | first & 0x3f]); sym::reach("small"); } else {
        let mut b = vec![0, 0x80];
        b.extend_from_slice(&rest);
        check_req(&p, w, true, 3, &b);
        sym::reach("long");
    }
}

// ---------------------------------------------------------------- C10
pub fn bits(l: &LData, si: &[u8]) {
    sym::check(l.src == be16(si, 2), "source address");
    sym::check(l.dest == be16(si, 4), "destination address");
    sym::check(l.frame_type == (si[0] & 0x80 != 0), "frame type");
    sym::check(l.repetition == (si[0] & 0x20 != 0), "repetition");
    sym::check(l.system_broadcast == (si[0] & 0x10 != 0), "system broadcast");
    sym::check(l.ack_request == (si[0] & 0x02 != 0), "acknowledge request");
}
#[no_mangle]
pub extern "C" fn h_c10_ind() {
    let n = sym::range(0, sym::tier(24, 60));
    let si = sym::bytes(n);
    let (mc, r) = (sym::u8(), ());
    let _ = r;
    let len = if n > 6 { si[6] as usize } else { 0 };
    let value = if len > 1 { len - 1 } else { 0 };
    match LDataInd::from_cemi(CEMI { msg_code: mc, additional_infos: Vec::new(), service_info: si.clone() }) {
        Ok(x) => {
            sym::check(n >= 9 && 9 + value <= n, "complete frame");
            if !(n >= 9 && 9 + value <= n) { return; }
            bits(&x.l_data, &si);
            if value == 0 { sym::reach("short"); sym::check(eq(&x.value, &[si[8] & 0x3f]), "6 bit value of the APCI octet"); }
            else { sym::reach("long"); sym::check(eq(&x.value, &si[9..9 + value]), "value octets"); }
            sym::check(x.cemi.msg_code == mc && eq(&x.cemi.service_info, &si), "the cEMI frame is kept");
            sym::emit_bytes(&x.value);
        }
        Err(_) => { sym::check(!(n >= 9 && 9 + value <= n), "complete L_Data.ind is decoded"); sym::reach("rejected"); }
    }
}
#[no_mangle]
pub extern "C" fn h_c10_con() {
    let n = sym::range(0, sym::tier(24, 60));
    let si = sym::bytes(n);
    match LDataCon::from_cemi(CEMI { msg_code: 0x2e, additional_infos: Vec::new(), service_info: si.clone() }) {
        Ok(x) => {
            sym::check(n >= 6, "complete frame");
            if n < 6 { return; }
            bits(&x.l_data, &si);
            sym::check(x.confirm == (si[0] & 1 == 0), "confirmation: bit 0 clear means transmitted");
            sym::check(x.cemi.msg_code == 0x2e && eq(&x.cemi.service_info, &si), "the cEMI frame is kept");
            sym::cover(x.confirm, "positive");
            sym::cover(!x.confirm, "negative");
        }
        Err(_) => { sym::check(n < 6, "complete L_Data.con is decoded"); sym::reach("rejected"); }
    }
}

// ---------------------------------------------------------------- C11
fn known(t: u8) -> bool { (t >= 1 && t <= 10) || t == 0xfe }
#[no_mangle]
pub extern "C" fn h_c11_container() {
    let k = sym::case(4);
    let mut p = vec![sym::u8(), 0];
    let mut infos: Vec<(u8, Vec<u8>)> = Vec::new();
    let mut all_known = true;
    for _ in 0..k {
        let t = sym::u8();
        if !known(t) { all_known = false; }
        let l = sym::range(0, if k == 1 { 4 } else { 2 });
        let v = sym::bytes(l);
        p.push(t);
        p.push(l as u8);
        p.extend_from_slice(&v);
        infos.push((t, v));
    }
    p[1] = (p.len() - 2) as u8;
    let n = sym::range(0, sym::tier(6, 20));
    let si = sym::bytes(n);
    p.extend_from_slice(&si);
    match CEMI::from_packet(&mut Cursor::new(&p)) {
        Err(_) => { sym::check(!all_known, "well-formed cEMI frame is decoded"); sym::reach(if k > 0 { "unknown info type" } else { "none" }); }
        Ok(c) => {
            sym::check(all_known, "unknown additional information type is an error");
            sym::check(c.msg_code == p[0], "message code");
            sym::check(eq(&c.service_info, &si), "service information");
            sym::check(c.additional_infos.len() == infos.len(), "number of additional infos");
            for (a, (t, v)) in c.additional_infos.into_iter().zip(infos) {
                sym::check(a.info_type as u8 == t && eq(&a.value, &v), "additional information type and value");
            }
            sym::emit_bytes(&c.service_info);
            sym::reach("decoded");
        }
    }
}
/// An additional information area that does not end where announced is rejected.
#[no_mangle]
pub extern "C" fn h_c11_overrun() {
    let l = sym::range(0, 6);
    let mut p = vec![sym::u8(), sym::u8(), 4, l as u8];
    p.extend_from_slice(&sym::bytes(l));
    let n = sym::range(0, 6);
    p.extend_from_slice(&sym::bytes(n));
    let add = p[1] as usize;
    let r = CEMI::from_packet(&mut Cursor::new(&p));
    if add > 0 && add < 2 + l { sym::check(r.is_err(), "information longer than the announced area is rejected"); sym::reach("overrun"); }
    if add > p.len() - 2 { sym::check(r.is_err(), "announced area longer than the frame is rejected"); sym::reach("truncated"); }
    if add == 2 + l { sym::check(r.is_ok(), "exact area is accepted"); sym::reach("exact"); }
    if add == 0 { sym::check(r.map(|c| c.additional_infos.is_empty() && c.service_info.len() == p.len() - 2).unwrap_or(false), "no area: everything is service information"); }
}

/// The same in a long frame, where there is room for whatever an information claims to be.
#[no_mangle]
pub extern "C" fn h_c11_room() {
    let k = sym::case(3);
    let mut p = vec![0x55u8; 540];
    p[0] = sym::u8();
    p[1] = sym::u8();
    // after no, one or two other informations
    let mut at = 2;
    let mut i = 0;
    while i < k { p[at] = 4; p[at + 1] = 3; at += 5; i += 1; }
    p[at] = 8;
    let l = sym::u8();
    p[at + 1] = l;
    let (add, end) = (p[1] as usize, at + 2 + l as usize);
    sym::assume(add + 2 > at);
    let r = CEMI::from_packet(&mut Cursor::new(&p));
    if 2 + add < end { sym::check(r.is_err(), "information longer than the announced area is rejected"); sym::reach("overrun"); }
    else if 2 + add == end {
        match r {
            Ok(c) => sym::check(c.additional_infos.len() == k + 1 && c.additional_infos[k].value.len() == l as usize && c.service_info.len() == 540 - end, "exact area is accepted"),
            Err(_) => sym::check(false, "exact area is accepted"),
        }
        sym::reach("exact");
    }
}

/// Longer additional information: areas up to 254 octets, in one to four blocks.
#[no_mangle]
pub extern "C" fn h_c11_long() {
    let lens: &[usize] = [&[252usize] as &[usize], &[251], &[128], &[127], &[100, 100], &[0, 250], &[250, 0], &[20, 30, 40], &[60, 60, 60, 60], &[8, 4, 2, 6]][sym::case(10)];
    let mut p = vec![sym::u8(), 0];
    for (i, l) in lens.iter().enumerate() {
        p.push([4u8, 1, 0xfe, 10][i]);
        p.push(*l as u8);
        let at = p.len();
        for _ in 0..*l { p.push(0x55); }
        if *l > 0 { p[at] = sym::u8(); let e = p.len() - 1; p[e] = sym::u8(); }
    }
    p[1] = (p.len() - 2) as u8;
    let area = p.len();
    let n = [0usize, 1, 11, 255, 300][sym::split(sym::below(5) as u64) as usize];
    let mut si = vec![0u8; n];
    if n > 0 { si[0] = sym::u8(); si[n - 1] = sym::u8(); }
    p.extend_from_slice(&si);
    match CEMI::from_packet(&mut Cursor::new(&p)) {
        Err(_) => sym::check(false, "well-formed cEMI frame is decoded"),
        Ok(c) => {
            sym::check(c.msg_code == p[0] && eq(&c.service_info, &si) && c.additional_infos.len() == lens.len(), "message code, service information and number of infos");
            let mut at = 2;
            for a in c.additional_infos {
                let l = p[at + 1] as usize;
                sym::check(a.info_type as u8 == p[at] && eq(&a.value, &p[at + 2..at + 2 + l]), "additional information type and value");
                at += 2 + l;
                if at >= area { break; }
            }
            sym::reach("decoded");
        }
    }
    // one octet short or long of what the area announces
    let last = if sym::bool() { p[1].wrapping_add(1) } else { p[1].wrapping_sub(1) };
    let whole = p[1];
    p[1] = last;
    p.truncate(area);
    sym::check(CEMI::from_packet(&mut Cursor::new(&p)).is_err(), "an area that does not end where announced is an error");
    p[1] = whole;
    if p.len() > 2 + 2 + p[3] as usize - 1 { p.pop(); sym::check(CEMI::from_packet(&mut Cursor::new(&p)).is_err(), "an area cut short is an error"); }
}

// ---------------------------------------------------------------- C12
/// What the bus delivers for a write request: the same frame as an indication from some device.
fn transfer<T>(d: impl Pdt<T>) -> Option<Vec<u8>> {
    let w = sym::u16();
    let small = d.is_small();
    let bytes = d.get_bytes();
    let p = LDataReqMessage::new(KnxAddress::group_1_level(w), TPDU::t_data_group(APDU::group_value_write_pd(d))).packet();
    let q = LDataReqMessage::new(KnxAddress::group_1_level(w), TPDU::t_data_group(APDU::group_value_write(bytes, small))).packet();
    sym::check(eq(&p, &q), "writing a datapoint or its bytes is the same request");
    let mut f = TunnelingRequest::new(sym::u8(), sym::u8(), p).packet();
    f[10] = 0x29;
    f[14] = sym::u8();
    f[15] = sym::u8();
    let t = TunnelingRequest::from_packet(&mut Cursor::new(&f)).ok()?;
    let c = CEMI::from_packet(&mut Cursor::new(t.get_cemi())).ok()?;
    let i = LDataInd::from_cemi(c).ok()?;
    sym::check(i.l_data.dest == w, "arrives at its destination");
    Some(i.value)
}
#[no_mangle]
pub extern "C" fn h_c12_transfer() {
    macro_rules! t { ($ty:ident, $v:expr) => {{ let v = $v; transfer($ty::general(v)).and_then(|b| $ty::from_bytes(&b).ok()).map(|x| Pdt::get_value(&x) == v).unwrap_or(false) }}; }
    let ok = match sym::case(8) {
        0 => t!(PdtKnxBit, sym::bool()),
        1 => t!(PdtKnxB1U3, { let v = sym::u8(); sym::assume(v < 16); v }),
        2 => t!(PdtKnxScaledValue, sym::u8()),
        3 => t!(PdtKnxByte, sym::u8()),
        4 => t!(PdtKnxWord, sym::u16()),
        5 => t!(PdtKnxInt, sym::u16() as i16),
        6 => t!(PdtKnxULong, sym::u32()),
        _ => {
            let (bit, step) = (sym::bool(), sym::u8());
            sym::assume(step < 8);
            let d = if sym::bool() { PdtKnxB1U3::dimming(bit, step) } else { PdtKnxB1U3::blinds(bit, step) };
            transfer(d).and_then(|b| PdtKnxB1U3::from_bytes(&b).ok()).map(|x| x.get_value() == (bit as u8) << 3 | step).unwrap_or(false)
        }
    };
    sym::check(ok, "the written value is the value read");
    sym::reach("transferred");
}
/// Two-octet floats: the value read is the one the written octets stand for.
#[no_mangle]
pub extern "C" fn h_c12_float() {
    let mut w = sym::u16();
    // exponents 0 and 1 (thorough: also 8 and 15), and codes at the ends of the other ranges
    let e = [0u16, 1, 16, 8, 15][sym::case(sym::tier(3, 5))];
    if e == 16 { w = [0x1001u16, 0x17ff, 0x9400, 0x4321, 0xc321, 0x7fff, 0xf800, 0x7c00, 0xfc00, 0x6bff, 0x3e8a, 0xbe8a][sym::split(sym::below(12) as u64) as usize]; }
    else { sym::assume(w >> 11 & 15 == e); }
    if let Ok(d) = PdtKnxFloat::from_bytes(&w.to_be_bytes()) {
        let v = Pdt::get_value(&d);
        let sent = d.get_bytes();
        let got = transfer(d);
        sym::check(got.as_ref().map(|g| eq(g, &sent)).unwrap_or(false), "the octets of the float arrive");
        if let Some(g) = got {
            let t = PdtKnxFloat::temp_from_bytes(&g);
            sym::check(t.is_ok(), "the float is decoded");
            let (a, b) = (crate::c_dpt::parts(&g), crate::c_dpt::parts(&w.to_be_bytes()));
            sym::check((a.0 as i64) << a.1 == (b.0 as i64) << b.1, "the float that arrives is the one written");
            let _ = v;
        }
    }
    sym::reach("transferred");
}
/// Constructed temperatures arrive within half a step.
#[no_mangle]
pub extern "C" fn h_c12_temp() {
    let v = [0.0f32, 21.5, -30.0, 20.47, 20.48, -20.48, 100.0, 670760.96, -671088.64, -0.01][sym::case(10)];
    let got = if sym::bool() { transfer(PdtKnxFloat::temp(v)) } else { transfer(PdtKnxFloat::general(v)) };
    let x = got.and_then(|g| PdtKnxFloat::temp_from_bytes(&g).ok()).map(|x| Pdt::get_value(&x));
    sym::check(x.map(|x| { let d = if x > v { x - v } else { v - x }; let a = if v < 0.0 { -v } else { v }; d <= 0.0051 + a / 2000.0 }).unwrap_or(false), "the temperature read is the one written");
    sym::reach("transferred");
}
/// To any kind of destination.
#[no_mangle]
pub extern "C" fn h_c12_destination() {
    let (a, w, g) = any_addr();
    let v = sym::u16();
    let mut p = LDataReqMessage::new(a, TPDU::t_data_group(APDU::group_value_write_pd(PdtKnxWord::general(v)))).packet();
    p[0] = 0x29;
    let r = CEMI::from_packet(&mut Cursor::new(&p)).ok().and_then(|c| LDataInd::from_cemi(c).ok());
    match r {
        Some(i) => {
            sym::check(i.l_data.dest == w && i.is_group_value() == g, "the write arrives at its destination");
            sym::check(PdtKnxWord::from_bytes(&i.value).map(|x| x.get_value() == v).unwrap_or(false), "with its value");
        }
        None => sym::check(false, "the write arrives"),
    }
    sym::reach("transferred");
}
#[no_mangle]
pub extern "C" fn h_c12_long() {
    let n = [17usize, 60, 127, 128, 200, 252, 253][sym::case(7)];
    let mut v = vec![0x33u8; n];
    for i in [0, 1, n / 2, n - 2, n - 1] { v[i] = sym::u8(); }
    let p = LDataReqMessage::new(KnxAddress::group_1_level(sym::u16()), TPDU::t_data_group(APDU::group_value_write(v.clone(), false))).packet();
    let mut f = TunnelingRequest::new(sym::u8(), sym::u8(), p).packet();
    f[10] = 0x29;
    let r = TunnelingRequest::from_packet(&mut Cursor::new(&f)).ok().and_then(|t| CEMI::from_packet(&mut Cursor::new(t.get_cemi())).ok()).and_then(|c| LDataInd::from_cemi(c).ok()).map(|i| i.value);
    sym::check(r.map(|r| eq(&r, &v)).unwrap_or(false), "long value octets arrive unchanged");
    sym::reach("transferred");
}
/// Raw values of any length keep their bytes.
#[no_mangle]
pub extern "C" fn h_c12_raw() {
    let n = sym::range(1, sym::tier(16, 60));
    let v = sym::bytes(n);
    let mut p = LDataReqMessage::new(KnxAddress::group_1_level(sym::u16()), TPDU::t_data_group(APDU::group_value_write(v.clone(), false))).packet();
    p[0] = 0x29;
    let r = CEMI::from_packet(&mut Cursor::new(&p)).ok().and_then(|c| LDataInd::from_cemi(c).ok()).map(|i| i.value);
    sym::check(r.map(|r| eq(&r, &v)).unwrap_or(false), "value octets arrive unchanged");
    sym::reach("transferred");
}
