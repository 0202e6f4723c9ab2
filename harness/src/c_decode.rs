//! C01 totality, C02 no invented data, C03 header discipline, C06 classification.
use crate::sym;
use crate::util::*;
use knx_ip_client::transport::udp::{parse_response, TunnelingResponse};

macro_rules! total {
    ($h:ident, $n:expr, $t:expr, |$c:ident| $e:expr) => {
        #[no_mangle]
        pub extern "C" fn $h() {
            let b = Buf::any(sym::tier($n, $t));
            let mut cur = Cursor::new(b.get());
            let $c = &mut cur;
            let ok = $e.is_ok();
            if ok { sym::reach("accepted") } else { sym::reach("rejected") }
            sym::check(cur.position() as usize <= b.n, "decoder consumed at most the received bytes");
            sym::emit(ok as u64);
        }
    };
}
total!(h_c01_header, 10, 16, |c| KnxNetIpHeader::from_packet(c));
total!(h_c01_crd, 8, 12, |c| CRD::from_packet(c));
total!(h_c01_hpai, 12, 16, |c| HPAI::from_packet(c));
total!(h_c01_connresp, 24, 40, |c| ConnectionResponse::from_packet(c));
total!(h_c01_statereq, 20, 40, |c| ConnectionstateRequest::from_packet(c));
total!(h_c01_stateresp, 12, 40, |c| ConnectionstateResponse::from_packet(c));
total!(h_c01_discreq, 20, 40, |c| DisconnectRequest::from_packet(c));
total!(h_c01_discresp, 12, 40, |c| DisconnectResponse::from_packet(c));
total!(h_c01_searchreq, 18, 40, |c| SearchRequest::from_packet(c));
total!(h_c01_searchresp, 90, 120, |c| SearchResponse::from_packet(c));
total!(h_c01_dib, 64, 128, |c| DIB::from_packet(c));
total!(h_c01_dib_dev, 64, 80, |c| DeviceInformationDIB::from_packet(c, sym::u8()));
total!(h_c01_dib_svc, 24, 64, |c| SupportedServiceFamiliesDIB::from_packet(c, sym::u8()));
total!(h_c01_dib_ip, 24, 40, |c| IpConfigDIB::from_packet(c, sym::u8()));
total!(h_c01_dib_ipcur, 28, 40, |c| IpCurrentConfigDIB::from_packet(c, sym::u8()));
total!(h_c01_dib_addr, 24, 64, |c| KNXAddressesDIB::from_packet(c, sym::u8()));
total!(h_c01_dib_man, 24, 64, |c| ManufacturerDataDIB::from_packet(c, sym::u8()));
total!(h_c01_tunreq, 40, 120, |c| TunnelingRequest::from_packet(c));
total!(h_c01_tunack, 14, 40, |c| TunnelingAck::from_packet(c));
total!(h_c01_feature, 16, 40, |c| FeatureResp::from_packet(c));
total!(h_c01_cemi, 12, 18, |c| CEMI::from_packet(c));

/// cEMI additional information area up to its maximum of 255 bytes (one info block).
#[no_mangle]
pub extern "C" fn h_c01_cemi_long() {
    let mut v = vec![0u8; 264];
    v[0] = sym::u8();
    v[1] = sym::u8();
    v[2] = sym::u8();
    v[3] = sym::u8();
    v[4] = sym::u8();
    v[255] = sym::u8();
    v[256] = sym::u8();
    sym::assume(v[1] >= 248 && v[3] >= 244);
    let n = sym::range(250, 264);
    let r = CEMI::from_packet(&mut Cursor::new(&v[..n]));
    if let Ok(c) = r {
        sym::reach("accepted");
        let mut used = 0;
        for i in &c.additional_infos { used += 2 + i.value.len(); }
        sym::check(used == v[1] as usize && used + 2 + c.service_info.len() == n, "additional infos and service information cover the frame");
    } else { sym::reach("rejected"); }
}

#[no_mangle]
pub extern "C" fn h_c01_parse() {
    let b = Buf::any(sym::tier(26, 60));
    let r = parse_response(b.get().to_vec());
    if r.is_ok() { sym::reach("accepted") } else { sym::reach("rejected") }
    sym::emit(r.is_ok() as u64);
}

pub fn any_cemi(max: usize) -> CEMI {
    let n = sym::range(0, max);
    CEMI { msg_code: sym::u8(), additional_infos: Vec::new(), service_info: sym::bytes(n) }
}
#[no_mangle]
pub extern "C" fn h_c01_ind() {
    let r = LDataInd::from_cemi(any_cemi(sym::tier(16, 40)));
    if let Ok(r) = &r { sym::reach("accepted"); sym::emit(r.value.len() as u64); } else { sym::reach("rejected") }
}
#[no_mangle]
pub extern "C" fn h_c01_con() {
    let r = LDataCon::from_cemi(any_cemi(sym::tier(16, 40)));
    if r.is_ok() { sym::reach("accepted") } else { sym::reach("rejected") }
}
#[no_mangle]
pub extern "C" fn h_c01_dpt() {
    let b = Buf::any(6);
    let s = b.get();
    let ok = match sym::split(sym::below(9) as u64) {
        0 => PdtKnxScaledValue::from_bytes(s).map(|v| { PdtKnxScaledValue::get_value(&v); v.is_small(); v.get_bytes(); }).is_ok(),
        1 => PdtKnxInt::from_bytes(s).map(|v| { v.get_value(); v.is_small(); v.get_bytes(); }).is_ok(),
        2 => PdtKnxFloat::from_bytes(s).map(|v| { v.get_value(); v.is_small(); }).is_ok(),
        3 => PdtKnxByte::from_bytes(s).map(|v| { v.get_value(); v.is_small(); v.get_bytes(); }).is_ok(),
        4 => PdtKnxWord::from_bytes(s).map(|v| { v.get_value(); v.is_small(); v.get_bytes(); }).is_ok(),
        5 => PdtKnxULong::from_bytes(s).map(|v| { v.get_value(); v.is_small(); v.get_bytes(); }).is_ok(),
        6 => PdtKnxBit::from_bytes(s).map(|v| { v.get_value(); v.is_small(); v.get_bytes(); }).is_ok(),
        7 => PdtKnxFloat::temp_from_bytes(s).map(|v| { v.get_value(); }).is_ok(),
        _ => PdtKnxB1U3::from_bytes(s).map(|v| { v.get_value(); v.is_small(); v.get_bytes(); }).is_ok(),
    };
    if ok { sym::reach("accepted") } else { sym::reach("rejected") }
}
/// Every constructor and encoder accepts every value of its argument types.
#[no_mangle]
pub extern "C" fn h_c01_encoders() {
    fn write<T>(d: impl Pdt<T>) { d.is_small(); d.get_value(); d.get_bytes(); APDU::group_value_write_pd(d).packet(); }
    match sym::case(22) {
        0 => write(PdtKnxInt::percent_v16(sym::u16() as i16)),
        1 => write(PdtKnxInt::value_2_count(sym::u16() as i16)),
        2 => write(PdtKnxB1U3::dimming(sym::bool(), sym::u8())),
        3 => write(PdtKnxB1U3::blinds(sym::bool(), sym::u8())),
        4 => { KnxAddress::group_3_level(sym::u8(), sym::u8(), sym::u8()).to_u16(); KnxAddress::group_2_level(sym::u8(), sym::u8()).to_u16(); }
        5 => { KnxAddress::individual(sym::u8(), sym::u8(), sym::u8()).to_u16(); KnxAddress::group_1_level(sym::u16()).to_u16(); }
        6 => {
            let n = sym::range(0, 3);
            let p = APDU::group_value_write(sym::bytes(n), sym::bool()).packet();
            sym::check(p.len() >= 2, "APDU has its two octets");
        }
        7 => {
            let k = sym::split(sym::below(7) as u64);
            let a = APDU::new(if sym::bool() { APCI::a_group_value_read() } else { APCI::a_group_value_write() }, if sym::bool() { APDUData::Small(sym::u8()) } else { APDUData::Big(vec![]) });
            let t = match k { 0 => TPDU::t_data_group(a), 1 => TPDU::t_data_broadcast(a), 2 => TPDU::t_data_tag_group(a), 3 => TPDU::t_data_individual(a), 4 => TPDU::t_data_connected(a, sym::u8()), 5 => TPDU::t_connect(a), _ => TPDU::t_disconnect(a) };
            let mut r = LDataReqMessage::new(any_group().0, t);
            r.set_priority(sym::u8());
            r.packet();
        }
        8 => write(PdtKnxInt::general(sym::u16() as i16)),
        9 => write(PdtKnxB1U3::general(sym::u8())),
        10 => write(PdtKnxBit::general(sym::bool())),
        11 => write(PdtKnxBit::switch(sym::bool())),
        12 => write(PdtKnxWord::general(sym::u16())),
        13 => write(PdtKnxULong::general(sym::u32())),
        14 => write(PdtKnxByte::general(sym::u8())),
        15 => { let d = <PdtKnxScaledValue as Pdt<u8>>::general(sym::u8()); PdtKnxScaledValue::get_value(&d); write(d); }
        16 => { let d = PdtKnxScaledValue::scaling(f32::from_bits(sym::u32())); PdtKnxScaledValue::get_value(&d); write(d); }
        // any number at all: sign, magnitude classes, infinities, NaN
        17 => write(PdtKnxFloat::general(f32::from_bits(sym::u32()))),
        18 => write(PdtKnxFloat::temp(f32::from_bits(sym::u32()))),
        19 => {
            // the longest values of one frame
            let n = [0usize, 1, 14, 127, 128, 252, 253][sym::split(sym::below(7) as u64) as usize];
            let p = LDataReqMessage::new(any_group().0, TPDU::t_data_group(APDU::group_value_write(vec![sym::u8(); n], false))).packet();
            TunnelingRequest::new(sym::u8(), sym::u8(), p).packet();
            let n = [0usize, 245, 246, 502, 65525][sym::split(sym::below(5) as u64) as usize];
            TunnelingRequest::new(sym::u8(), sym::u8(), vec![0; n]).packet();
        }
        20 => {
            // description blocks of any announced length, with none to many entries
            let l = sym::u8();
            let n = [0usize, 1, 2, 126, 127, 130][sym::split(sym::below(6) as u64) as usize];
            let d = match sym::split(sym::below(3) as u64) {
                0 => DIB::SupportedServiceFamilies(SupportedServiceFamiliesDIB { structure_length: l, description_type_code: DescriptionTypeCode::SupportedServiceFamilies, service_families: vec![ServiceFamily { service_family: sym::u8(), version: sym::u8() }; n] }),
                1 => DIB::KNXAddresses(KNXAddressesDIB { structure_length: l, description_type_code: DescriptionTypeCode::KNXAddresses, knx_individual_address: IndividualAddress::from_u16(sym::u16()), additional_individual_addresses: vec![IndividualAddress::from_u16(sym::u16()); n] }),
                _ => DIB::ManufacturerData(ManufacturerDataDIB { structure_length: l, description_type_code: DescriptionTypeCode::ManufacturerData, knx_manufacturer_id: sym::u16(), manufacturer_specific_data: vec![sym::u8(); 2 * n + 1] }),
            };
            d.packet();
            d.structure_length();
        }
        _ => {
            let name = ["", "a", "\u{e4}", "\u{20ac}", "012345678901234567890123456789", "0123456789012345678901234567890", "\u{e4}\u{e4}\u{e4}\u{e4}\u{e4}\u{e4}\u{e4}\u{e4}\u{e4}\u{e4}\u{e4}\u{e4}\u{e4}\u{e4}\u{e4}\u{e4}\u{e4}\u{e4}\u{e4}\u{e4}",
                "012345678901234567890123456789012345678901234567890123456789012345678901234567890"][sym::split(sym::below(8) as u64) as usize];
            let m = [KnxMedium::TP1, KnxMedium::PL110, KnxMedium::RF, KnxMedium::IP][sym::split(sym::below(4) as u64) as usize];
            let mut mac = [0u8; 6];
            sym::fill(&mut mac);
            if let Ok(mut d) = DeviceInformationDIB::new(sym::u8(), m, DeviceStatus::PROGRAMMING_MODE, IndividualAddress::from_u16(sym::u16()), sym::u16(), mac, Ipv4Addr::new(sym::u8(), 0, 0, sym::u8()), mac, name.to_string()) {
                d.packet();
                let at = sym::split(sym::below(30) as u64) as usize;
                d.friendly_name[at] = sym::u8();
                let _ = d.friendly_name().is_ok();
                DIB::DeviceInformation(d).packet();
            }
        }
    }
    sym::reach("encoded");
}
/// Long inputs: tunnelling requests, indications and description blocks up to the largest length their
/// fields can announce, complete, cut and with inconsistent lengths.
fn long_request() -> (Vec<u8>, usize, usize) {
    let n = [60usize, 128, 245, 255, 256, 257, 266, 300, 512][sym::case(9)];
    let total = match sym::split(sym::below(7) as u64) { 0 => n, 1 => n - 1, 2 => n + 1, 3 => 10, 4 => 255.min(n), 5 => 256, _ => 0xffff };
    let mut v = vec![0u8; n];
    v[..4].copy_from_slice(&[6, 0x10, 4, 0x20]);
    v[4] = (total >> 8) as u8;
    v[5] = total as u8;
    v[6] = 4;
    for i in 7..10 { v[i] = sym::u8(); }
    for i in [10, 11, n / 2, n - 2, n - 1] { v[i] = sym::u8(); }
    (v, n, total)
}
fn long_ind() -> (Vec<u8>, usize, usize) {
    let n = [40usize, 64, 128, 200, 255, 256, 262, 263, 264, 300][sym::case(10)];
    let len = match sym::split(sym::below(7) as u64) { 0 => n - 8, 1 => n - 7, 2 => n - 9, 3 => 255, 4 => 254, 5 => 128, _ => 16 };
    sym::assume(len <= 255);
    let mut v = vec![0u8; n];
    sym::fill(&mut v[..6]);
    v[6] = len as u8;
    for i in [7, 8, 9, 9 + (n - 9) / 2, n - 2, n - 1] { v[i] = sym::u8(); }
    (v, n, len)
}
fn request_long(fields: bool) {
    let (v, n, total) = long_request();
    let r = TunnelingRequest::from_packet(&mut Cursor::new(&v));
    let q = parse_response(v.clone());
    sym::check(r.is_ok() == (total <= n) && q.is_ok() == (total <= n), "a long tunnelling request is accepted exactly when it is complete");
    if let (Ok(r), Ok(TunnelingResponse::TunnelingRequest(q))) = (r, q) {
        sym::reach("complete");
        if fields {
            for x in [&r, &q] { sym::check(x.communication_channel_id == v[7] && x.sequence_nr == v[8] && eq(x.get_cemi(), &v[10..total.min(n)]), "long tunnelling request: fields"); }
        }
    } else { sym::reach("cut"); }
}
fn ind_long(fields: bool) {
    let (si, n, len) = long_ind();
    let complete = 9 + len - 1 <= n;
    match LDataInd::from_cemi(CEMI { msg_code: 0x29, additional_infos: Vec::new(), service_info: si.clone() }) {
        Ok(x) => {
            sym::reach("complete");
            sym::check(complete, "a long indication holds its announced value");
            if fields && complete { sym::check(x.l_data.src == be16(&si, 2) && x.l_data.dest == be16(&si, 4) && eq(&x.value, &si[9..9 + len - 1]), "long indication: fields"); }
        }
        Err(_) => { sym::check(!complete, "a complete long indication is decoded"); sym::reach("cut"); }
    }
}
#[no_mangle]
pub extern "C" fn h_c01_long_request() { request_long(false) }
#[no_mangle]
pub extern "C" fn h_c02_long_request() { request_long(true) }
#[no_mangle]
pub extern "C" fn h_c06_long_request() { request_long(true) }
#[no_mangle]
pub extern "C" fn h_c01_long_ind() { ind_long(false) }
#[no_mangle]
pub extern "C" fn h_c02_long_ind() { ind_long(true) }
#[no_mangle]
pub extern "C" fn h_c10_long() { ind_long(true) }
#[no_mangle]
pub extern "C" fn h_c01_long_dib() {
    let l = [0usize, 1, 2, 3, 4, 5, 53, 55, 64, 127, 128, 129, 253, 254, 255][sym::case(15)];
    let code = [1u8, 2, 3, 4, 5, 0xfe][sym::split(sym::below(6) as u64) as usize];
    let n = match sym::split(sym::below(4) as u64) { 0 => l, 1 => l + 1, 2 => (l + 1) / 2 + 1, _ => 260 };
    let mut v = vec![0u8; n.max(2)];
    v[0] = l as u8;
    v[1] = code;
    for i in 2..n.max(2) { if i < 6 || i + 3 > n { v[i] = sym::u8(); } }
    let mut c = Cursor::new(v.as_slice());
    if let Ok(d) = DIB::from_packet(&mut c) { d.packet(); d.structure_length(); sym::reach("accepted"); } else { sym::reach("rejected"); }
    sym::check(c.position() as usize <= v.len(), "decoder consumed at most the received octets");
}
/// Text: any ASCII string up to the bound, plus arbitrary UTF-8 sequences of up to 4 bytes.
fn text(b: &[u8]) {
    let s = match std::str::from_utf8(b) { Ok(s) => s, Err(_) => return };
    let r = KnxAddress::try_from(s).is_ok();
    let r2 = IndividualAddress::try_from(s).is_ok();
    let r3 = Group3LevelAddress::try_from(s).is_ok();
    if r { sym::reach("accepted") } else { sym::reach("rejected") }
    let _ = (r2, r3);
}
#[no_mangle]
pub extern "C" fn h_c01_text() {
    let n = sym::case(5);
    text(&sym::bytes(n));
}

// ---------------------------------------------------------------- C02
fn fixed(b: &Buf, len: usize, m: &str) { sym::check(b.n >= len, m); sym::reach(m); }

#[no_mangle]
pub extern "C" fn h_c02_fixed() {
    let b = Buf::any(24);
    let d = &b.v;
    let c = &mut Cursor::new(b.get());
    match sym::case(12) {
        0 => if let Ok(x) = KnxNetIpHeader::from_packet(c) {
            fixed(&b, 6, "header complete");
            sym::check(x.service_type_identifier == be16(d, 2) && x.total_length == be16(d, 4), "header fields");
        },
        1 => if let Ok(x) = CRD::from_packet(c) {
            fixed(&b, 4, "CRD complete");
            sym::check(eq(&x.packet(), &[4, 4, d[2], d[3]]), "CRD fields");
        },
        2 => if let Ok(x) = HPAI::from_packet(c) {
            fixed(&b, 8, "HPAI complete");
            sym::check(eq(&hpai_bytes(&x), &d[..8]), "HPAI fields");
        },
        3 => if let Ok(x) = ConnectionResponse::from_packet(c) {
            fixed(&b, 20, "connection response complete");
            sym::check(x.get_communication_channel_id() == d[6] && x.get_status() == d[7] && eq(&hpai_bytes(&x.get_data_endpoint()), &d[8..16]), "connection response fields");
        },
        4 => if let Ok(x) = ConnectionstateRequest::from_packet(c) {
            fixed(&b, 16, "connectionstate request complete");
            sym::check(x.communication_channel_id == d[6] && eq(&hpai_bytes(&x.control_endpoint), &d[8..16]), "connectionstate request fields");
        },
        5 => if let Ok(x) = ConnectionstateResponse::from_packet(c) {
            fixed(&b, 8, "connectionstate response complete");
            sym::check(x.communication_channel_id == d[6] && x.status == d[7], "connectionstate response fields");
        },
        6 => if let Ok(x) = DisconnectRequest::from_packet(c) {
            fixed(&b, 16, "disconnect request complete");
            let p = x.packet();
            sym::check(p.len() == 16 && p[6] == d[6] && eq(&p[8..16], &d[8..16]), "disconnect request fields");
        },
        7 => if let Ok(x) = DisconnectResponse::from_packet(c) {
            fixed(&b, 8, "disconnect response complete");
            sym::check(x.communication_channel_id == d[6] && x.status == d[7], "disconnect response fields");
        },
        8 => if let Ok(x) = SearchRequest::from_packet(c) {
            fixed(&b, 14, "search request complete");
            let p = x.packet();
            sym::check(p.len() == 14 && eq(&p[6..14], &d[6..14]), "search request fields");
        },
        9 => if let Ok(x) = TunnelingAck::from_packet(c) {
            fixed(&b, 10, "tunneling ack complete");
            sym::check(x.communication_channel_id == d[7] && x.sequence_nr == d[8] && x.status == d[9], "tunneling ack fields");
        },
        10 => if let Ok(x) = FeatureResp::from_packet(c) {
            fixed(&b, 13, "feature response complete");
            sym::check(
                x.communication_channel_id == d[7] && x.sequence_nr == d[8] && x.feature as u8 == d[10] && x.status == d[11] && x.value == d[12],
                "feature response fields",
            );
        },
        _ => if let Ok(x) = TunnelingRequest::from_packet(c) {
            let total = be16(d, 4) as usize;
            sym::check(total >= 10 && b.n >= total, "tunneling request complete");
            sym::reach("tunneling request complete");
            sym::check(x.communication_channel_id == d[7] && x.sequence_nr == d[8], "tunneling request ids");
            sym::check(total <= b.n && eq(x.get_cemi(), &d[10..total]), "tunneling request cEMI");
        },
    }
}

#[no_mangle]
pub extern "C" fn h_c02_ind() {
    let n = sym::range(0, sym::tier(16, 30));
    let si = sym::bytes(n);
    if let Ok(x) = LDataInd::from_cemi(CEMI { msg_code: 0x29, additional_infos: Vec::new(), service_info: si.clone() }) {
        sym::check(n >= 9, "L_Data.ind has control, addresses, length and TPCI/APCI octets");
        if n < 9 { return; }
        crate::c_emi::bits(&x.l_data, &si);
        let len = si[6] as usize;
        if len <= 1 {
            sym::reach("short value");
            sym::check(x.value.len() == 1 && x.value[0] == si[8] & 0x3f, "value in the APCI octet");
        } else {
            sym::reach("long value");
            sym::check(9 + len - 1 <= n, "L_Data.ind holds the announced value");
            sym::check(9 + len - 1 <= n && eq(&x.value, &si[9..9 + len - 1]), "value octets");
        }
    } else { sym::reach("rejected"); }
}

#[no_mangle]
pub extern "C" fn h_c02_cemi() {
    let b = Buf::any(sym::tier(12, 18));
    if let Ok(c) = CEMI::from_packet(&mut Cursor::new(b.get())) {
        let d = &b.v;
        sym::check(b.n >= 2, "cEMI has message code and additional info length");
        let add = d[1] as usize;
        sym::check(2 + add <= b.n, "additional infos complete");
        let mut p = 2;
        for i in &c.additional_infos {
            let l = i.value.len();
            let ok = p + 2 + l <= b.n && d[p + 1] as usize == l && eq(&i.value, &d[p + 2..p + 2 + l]);
            sym::check(ok, "additional info octets");
            if !ok { return; }
            p += 2 + l;
        }
        sym::check(p == 2 + add, "additional infos end where announced");
        sym::check(p <= b.n && eq(&c.service_info, &d[p..b.n]), "service information is the rest");
        if add > 0 { sym::reach("with additional infos") } else { sym::reach("plain") }
    }
}
#[no_mangle]
pub extern "C" fn h_c02_con() {
    let n = sym::range(0, sym::tier(16, 30));
    let si = sym::bytes(n);
    if let Ok(x) = LDataCon::from_cemi(CEMI { msg_code: 0x2e, additional_infos: Vec::new(), service_info: si.clone() }) {
        sym::check(n >= 6, "L_Data.con has control and addresses");
        if n < 6 { return; }
        crate::c_emi::bits(&x.l_data, &si);
        sym::check(x.confirm == (si[0] & 1 == 0), "confirmation bit");
        sym::reach("confirmation");
    } else { sym::reach("rejected"); }
}
#[no_mangle]
pub extern "C" fn h_c02_dib() { crate::c_dib::dib_fields() }
#[no_mangle]
pub extern "C" fn h_c02_dib_cut() { crate::c_dib::dib_cut() }
#[no_mangle]
pub extern "C" fn h_c02_search() { crate::c_dib::response() }
/// A search response cut anywhere is rejected.
#[no_mangle]
pub extern "C" fn h_c02_search_cut() {
    let f = sym::case(4);
    let full = 6 + 8 + 54 + 2 + 2 * f;
    let mut v = sym::bytes(full);
    v[..6].copy_from_slice(&[6, 0x10, 2, 2, 0, full as u8]);
    v[6] = 8;
    v[14] = 54;
    v[15] = 1;
    v[16] = 2;
    v[68] = 2 + 2 * f as u8;
    v[69] = 2;
    let n = sym::slen(full);
    let r = SearchResponse::from_packet(&mut Cursor::new(&v[..n]));
    sym::check(r.is_ok() == (n == full), "a search response is accepted exactly when it is complete");
    sym::cover(n == full, "complete");
    sym::cover(n < full, "cut");
}
#[no_mangle]
pub extern "C" fn h_c02_parse() { classify(24) }
#[no_mangle]
pub extern "C" fn h_c02_dpt() {
    let b = Buf::any(6);
    let s = b.get();
    let d = &b.v;
    let w16 = be16(d, 0);
    let (ok, need, value) = match sym::case(10) {
        0 => { let r = PdtKnxScaledValue::from_bytes(s); (r.is_ok(), 1, r.map(|x| Pdt::get_value(&x) == d[0]).unwrap_or(true)) }
        1 => { let r = PdtKnxInt::from_bytes(s); (r.is_ok(), 2, r.map(|x| x.get_value() as u16 == w16).unwrap_or(true)) }
        2 => { let r = PdtKnxFloat::from_bytes(s); (r.is_ok(), 2, true) }
        3 => { let r = PdtKnxByte::from_bytes(s); (r.is_ok(), 1, r.map(|x| x.get_value() == d[0]).unwrap_or(true)) }
        4 => { let r = PdtKnxWord::from_bytes(s); (r.is_ok(), 2, r.map(|x| x.get_value() == w16).unwrap_or(true)) }
        5 => { let r = PdtKnxULong::from_bytes(s); (r.is_ok(), 4, r.map(|x| x.get_value() == (w16 as u32) << 16 | be16(d, 2) as u32).unwrap_or(true)) }
        6 => { let r = PdtKnxBit::from_bytes(s); (r.is_ok(), 1, r.map(|x| x.get_value() == (d[0] != 0)).unwrap_or(true)) }
        7 => { let r = PdtKnxB1U3::from_bytes(s); (r.is_ok(), 1, r.map(|x| x.get_value() == d[0] & 15).unwrap_or(true)) }
        8 => { let r = PdtKnxFloat::temp_from_bytes(s); (r.is_ok(), 2, true) }
        // two-octet floats, exponents 0 and 1: 0.01 M 2^E
        _ => {
            sym::assume(d[0] & 0x78 <= 8);
            let m = (w16 & 0x7ff) as i32 - if w16 & 0x8000 != 0 { 2048 } else { 0 };
            let e = sym::split((d[0] >> 3 & 15) as u64) as i64;
            match (PdtKnxFloat::from_bytes(&d[..2]), PdtKnxFloat::temp_from_bytes(&d[..2])) {
                (Ok(x), Ok(y)) => (true, 0, crate::c_dpt::within(Pdt::get_value(&x), (m as i64) << e, 1 << 30) && Pdt::get_value(&x) == Pdt::get_value(&y)),
                _ => (true, 0, false),
            }
        }
    };
    sym::check(!ok || b.n >= need, "datapoint decoded from enough bytes");
    sym::check(value || (need > 0 && b.n < need), "datapoint value is what its octets say");
    if ok { sym::reach("accepted") } else { sym::reach("rejected") }
}

// ---------------------------------------------------------------- C03
#[no_mangle]
pub extern "C" fn h_c03_own() {
    let b = Buf::any(sym::tier(30, 90));
    let c = &mut Cursor::new(b.get());
    let (ok, svc) = match sym::case(11) {
        10 => match parse_response(b.get().to_vec()) {
            Ok(TunnelingResponse::TunnelingRequest(_)) => (true, 0x0420),
            Ok(TunnelingResponse::TunnelingAck(_)) => (true, 0x0421),
            Ok(TunnelingResponse::FeatureResponse(_)) => (true, 0x0423),
            Ok(TunnelingResponse::ConnectionstateResponse(_)) => (true, 0x0208),
            Ok(TunnelingResponse::DisconnectRequest(_)) => (true, 0x0209),
            Ok(TunnelingResponse::DisconnectResponse(_)) => (true, 0x020a),
            Err(_) => (false, 0),
        },
        0 => (ConnectionResponse::from_packet(c).is_ok(), 0x0206),
        1 => (ConnectionstateRequest::from_packet(c).is_ok(), 0x0207),
        2 => (ConnectionstateResponse::from_packet(c).is_ok(), 0x0208),
        3 => (DisconnectRequest::from_packet(c).is_ok(), 0x0209),
        4 => (DisconnectResponse::from_packet(c).is_ok(), 0x020a),
        5 => (SearchRequest::from_packet(c).is_ok(), 0x0201),
        6 => (TunnelingRequest::from_packet(c).is_ok(), 0x0420),
        7 => (TunnelingAck::from_packet(c).is_ok(), 0x0421),
        8 => (FeatureResp::from_packet(c).is_ok(), 0x0423),
        _ => (KnxNetIpHeader::from_packet(c).is_ok(), if b.n >= 4 { be16(&b.v, 2) } else { 0 }),
    };
    if ok {
        sym::reach("accepted");
        sym::check(b.n >= 6 && has_header(&b.v, svc), "accepted frame carries header size 6, version 1.0 and its own service type");
    } else { sym::reach("rejected"); }
}
#[no_mangle]
pub extern "C" fn h_c03_search() {
    let b = Buf::any(90);
    let c = &mut Cursor::new(b.get());
    if SearchResponse::from_packet(c).is_ok() {
        sym::reach("accepted");
        let d = &b.v;
        sym::check(has_header(d, 0x0202), "accepted search response carries its header");
        sym::check(d[6] == 8, "search response endpoint has size 8");
        sym::check(d[15] == 1, "first block describes the device");
        let p = 14 + d[14] as usize;
        sym::check(p + 1 < b.n && d[p + 1] == 2, "second block lists the service families");
    } else { sym::reach("rejected"); }
}
/// Fixed-size frames and structures announce their size.
#[no_mangle]
pub extern "C" fn h_c03_sizes() {
    let b = Buf::any(24);
    let d = &b.v;
    let c = &mut Cursor::new(b.get());
    match sym::case(11) {
        8 => if ConnectionstateRequest::from_packet(c).is_ok() { sym::reach("a"); sym::check(d[8] == 8, "connectionstate request endpoint size 8"); },
        9 => if DisconnectRequest::from_packet(c).is_ok() { sym::reach("a"); sym::check(d[8] == 8, "disconnect request endpoint size 8"); },
        10 => if SearchRequest::from_packet(c).is_ok() { sym::reach("a"); sym::check(d[6] == 8, "search request endpoint size 8"); },
        0 => if HPAI::from_packet(c).is_ok() { sym::reach("a"); sym::check(d[0] == 8, "HPAI size 8"); },
        1 => if CRD::from_packet(c).is_ok() { sym::reach("a"); sym::check(d[0] == 4 && d[1] == 4, "CRD size 4, tunneling"); },
        2 => if ConnectionResponse::from_packet(c).is_ok() { sym::reach("a"); sym::check(d[8] == 8 && d[16] == 4 && d[17] == 4, "connection response blocks"); },
        3 => if ConnectionstateResponse::from_packet(c).is_ok() { sym::reach("a"); sym::check(be16(d, 4) == 8, "connectionstate response length 8"); },
        4 => if DisconnectResponse::from_packet(c).is_ok() { sym::reach("a"); sym::check(be16(d, 4) == 8, "disconnect response length 8"); },
        5 => if TunnelingAck::from_packet(c).is_ok() { sym::reach("a"); sym::check(be16(d, 4) == 10 && d[6] == 4, "tunneling ack length 10"); },
        6 => if FeatureResp::from_packet(c).is_ok() { sym::reach("a"); sym::check(be16(d, 4) == 13 && d[6] == 4, "feature response length 13"); },
        _ => if TunnelingRequest::from_packet(c).is_ok() { sym::reach("a"); sym::check(d[6] == 4, "tunneling request connection header size 4"); },
    }
}
/// A connection response reporting one of the standard refusals is never accepted.
#[no_mangle]
pub extern "C" fn h_c03_refused() {
    let mut d = sym::bytes(24);
    let n = sym::slen(24);
    let st = [E_CONNECTION_TYPE, E_CONNECTION_OPTION, E_NO_MORE_CONNECTIONS, E_TUNNELING_LAYER][sym::split(sym::below(4) as u64) as usize];
    sym::check([E_CONNECTION_TYPE, E_CONNECTION_OPTION, E_NO_MORE_CONNECTIONS, E_TUNNELING_LAYER] == [0x22, 0x23, 0x24, 0x29], "status codes");
    d[7] = st;
    sym::check(ConnectionResponse::from_packet(&mut Cursor::new(&d[..n])).is_err(), "refused connection is an error");
    sym::reach("refused");
}

// ---------------------------------------------------------------- C06
#[no_mangle]
pub extern "C" fn h_c06_classify() { classify(sym::tier(26, 60)) }
fn classify(max: usize) {
    let b = Buf::any(max);
    let d = &b.v;
    let r = parse_response(b.get().to_vec());
    let svc = if b.n >= 4 { be16(d, 2) } else { 0 };
    match r {
        Ok(x) => {
            sym::check(b.n >= 8 && d[0] == 6 && d[1] == 0x10, "classified datagram has a KNXnet/IP 1.0 header");
            match x {
                TunnelingResponse::TunnelingRequest(x) => {
                    sym::reach("request");
                    let total = be16(d, 4) as usize;
                    sym::check(svc == 0x0420, "request: service");
                    sym::check(x.communication_channel_id == d[7] && x.sequence_nr == d[8], "request: ids");
                    sym::check(total >= 10 && total <= b.n && eq(&x.cemi, &d[10..total]), "request: cEMI");
                }
                TunnelingResponse::TunnelingAck(x) => {
                    sym::reach("ack");
                    sym::check(svc == 0x0421 && x.communication_channel_id == d[7] && x.sequence_nr == d[8] && x.status == d[9], "ack: service and fields");
                }
                TunnelingResponse::FeatureResponse(x) => {
                    sym::reach("feature");
                    sym::check(svc == 0x0423 && x.communication_channel_id == d[7] && x.sequence_nr == d[8] && x.feature as u8 == d[10] && x.status == d[11] && x.value == d[12], "feature: service and fields");
                }
                TunnelingResponse::ConnectionstateResponse(x) => {
                    sym::reach("state");
                    sym::check(svc == 0x0208 && x.communication_channel_id == d[6] && x.status == d[7], "state: service and fields");
                }
                TunnelingResponse::DisconnectResponse(x) => {
                    sym::reach("disconnected");
                    sym::check(svc == 0x020a && x.communication_channel_id == d[6] && x.status == d[7], "disconnected: service and fields");
                }
                TunnelingResponse::DisconnectRequest(x) => {
                    sym::reach("disconnect");
                    let p = x.packet();
                    sym::check(svc == 0x0209 && p.len() == 16 && p[6] == d[6] && eq(&p[8..], &d[8..16]), "disconnect: service and fields");
                }
            }
        }
        Err(_) => {
            sym::reach("error");
        }
    }
}
/// Every complete well-formed frame of the six services is accepted, with its kind.
#[no_mangle]
pub extern "C" fn h_c06_accepts() {
    let (ch, a, st) = (sym::u8(), sym::u8(), sym::u8());
    let k = sym::case(6);
    let n = sym::range(0, sym::tier(6, 40));
    let mut p: Vec<u8>;
    match k {
        0 => { p = vec![6, 0x10, 4, 0x20, 0, 10 + n as u8, 4, ch, a, st]; p.extend_from_slice(&sym::bytes(n)); }
        1 => p = vec![6, 0x10, 4, 0x21, 0, 10, 4, ch, a, st],
        2 => { let f = sym::u8(); sym::assume(f == 2 || f == 6 || f == 7 || f == 8); p = vec![6, 0x10, 4, 0x23, 0, 13, 4, ch, a, 0, f, st, sym::u8()]; }
        3 => p = vec![6, 0x10, 2, 0x0a, 0, 8, ch, st],
        4 => p = vec![6, 0x10, 2, 8, 0, 8, ch, st],
        _ => { p = vec![6, 0x10, 2, 9, 0, 16, ch, 0, 8, sym::u8()]; p.extend_from_slice(&sym::bytes(6)); }
    }
    let d = p.clone();
    let ok = match (k, parse_response(p)) {
        (0, Ok(TunnelingResponse::TunnelingRequest(x))) => x.communication_channel_id == ch && x.sequence_nr == a && eq(&x.cemi, &d[10..]),
        (1, Ok(TunnelingResponse::TunnelingAck(x))) => x.communication_channel_id == ch && x.sequence_nr == a && x.status == st,
        (2, Ok(TunnelingResponse::FeatureResponse(x))) => x.communication_channel_id == ch && x.sequence_nr == a && x.feature as u8 == d[10] && x.status == st && x.value == d[12],
        (3, Ok(TunnelingResponse::DisconnectResponse(x))) => x.communication_channel_id == ch && x.status == st,
        (4, Ok(TunnelingResponse::ConnectionstateResponse(x))) => x.communication_channel_id == ch && x.status == st,
        (5, Ok(TunnelingResponse::DisconnectRequest(x))) => { let q = x.packet(); q.len() == 16 && q[6] == ch && eq(&q[8..], &d[8..]) }
        _ => false,
    };
    sym::check(ok, "well-formed frame is classified as what it is");
    sym::reach("frame");
}
