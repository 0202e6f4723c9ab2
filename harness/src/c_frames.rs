//! C04 emitted frames are self-consistent, C05 encode/decode round trips.
use crate::sym;
use crate::util::*;

fn check_hpai(p: &[u8], h: &HPAI, m: &str) { sym::check(eq(p, &hpai_bytes(h)), m); }

/// Builds a connection response the only public way: by decoding one.
pub fn any_conn_resp() -> (ConnectionResponse, Vec<u8>) {
    let mut v = vec![6, 0x10, 2, 6, 0, 20, sym::u8(), sym::u8(), 8, sym::u8()];
    v.extend_from_slice(&sym::bytes(6));
    v.extend_from_slice(&[4, 4]);
    v.extend_from_slice(&sym::bytes(2));
    sym::assume(v[7] != 0x22 && v[7] != 0x23 && v[7] != 0x24 && v[7] != 0x29);
    let r = ConnectionResponse::from_packet(&mut Cursor::new(&v));
    sym::check(r.is_ok(), "well-formed connection response is decoded");
    match r { Ok(r) => (r, v), Err(_) => loop { sym::assume(false) } }
}

#[no_mangle]
pub extern "C" fn h_c04_frames() {
    let (ch, sq, st) = (sym::u8(), sym::u8(), sym::u8());
    let h = any_hpai();
    let p;
    match sym::case(13) {
        0 => {
            p = ConnectionRequest::tunnel().packet();
            sym::check(header_ok(&p, 0x0205), "connection request header");
            sym::check(p.len() == 26 && eq(&p[6..14], &[8, 1, 0, 0, 0, 0, 0, 0]) && eq(&p[14..22], &[8, 1, 0, 0, 0, 0, 0, 0]) && eq(&p[22..26], &[4, 4, 2, 0]),
                "connection request: two UDP endpoints and a link layer tunnel CRI");
        }
        1 => {
            p = ConnectionRequest::busmonitor().packet();
            sym::check(header_ok(&p, 0x0205), "connection request header");
            sym::check(p.len() == 26 && p[6] == 8 && p[14] == 8 && eq(&p[22..26], &[4, 4, 0x80, 0]), "connection request: busmonitor CRI");
        }
        2 => {
            let (r, v) = any_conn_resp();
            p = r.packet();
            sym::check(header_ok(&p, 0x0206), "connection response header");
            sym::check(p.len() == 20 && eq(&p[6..], &v[6..]), "connection response fields");
        }
        3 => {
            p = ConnectionstateRequest::new(ch, h.clone()).packet();
            sym::check(header_ok(&p, 0x0207), "connectionstate request header");
            sym::check(p.len() == 16 && p[6] == ch && p[7] == 0, "connectionstate request channel");
            check_hpai(&p[8..], &h, "connectionstate request endpoint");
        }
        4 => {
            p = ConnectionstateResponse { communication_channel_id: ch, status: st }.packet();
            sym::check(header_ok(&p, 0x0208), "connectionstate response header");
            sym::check(p.len() == 8 && p[6] == ch && p[7] == st, "connectionstate response fields");
        }
        5 => {
            p = DisconnectRequest::new(ch, h.clone()).packet();
            sym::check(header_ok(&p, 0x0209), "disconnect request header");
            sym::check(p.len() == 16 && p[6] == ch && p[7] == 0, "disconnect request channel");
            check_hpai(&p[8..], &h, "disconnect request endpoint");
        }
        6 => {
            let req = DisconnectRequest::new(ch, h.clone());
            p = DisconnectResponse::from_disconnect_request(&req).packet();
            sym::check(header_ok(&p, 0x020a), "disconnect response header");
            sym::check(p.len() == 8 && p[6] == ch && p[7] == 0, "disconnect response answers the request's channel");
            let q = DisconnectResponse { communication_channel_id: ch, status: st }.packet();
            sym::check(header_ok(&q, 0x020a) && q.len() == 8 && q[6] == ch && q[7] == st, "disconnect response fields");
        }
        7 => {
            let n = sym::range(0, sym::tier(24, 80));
            let c = sym::bytes(n);
            p = TunnelingRequest::new(ch, sq, c.clone()).packet();
            sym::check(header_ok(&p, 0x0420), "tunneling request header");
            sym::check(p.len() == 10 + n && eq(&p[6..10], &[4, ch, sq, 0]) && eq(&p[10..], &c), "tunneling request fields");
        }
        8 => {
            p = TunnelingAck::new(ch, sq, st).packet();
            sym::check(header_ok(&p, 0x0421), "tunneling ack header");
            sym::check(p.len() == 10 && eq(&p[6..10], &[4, ch, sq, st]), "tunneling ack fields");
        }
        9 => {
            let f = feature();
            p = FeatureSet::new(ch, sq, f, st).packet();
            sym::check(header_ok(&p, 0x0424), "feature set header");
            sym::check(p.len() == 13 && eq(&p[6..13], &[4, ch, sq, 0, f as u8, 0, st]), "feature set fields");
        }
        10 => {
            let f = feature();
            let v = sym::u8();
            p = FeatureResp { feature: f, value: v, status: st, communication_channel_id: ch, sequence_nr: sq }.packet();
            sym::check(header_ok(&p, 0x0423), "feature response header");
            sym::check(p.len() == 13 && eq(&p[6..13], &[4, ch, sq, 0, f as u8, st, v]), "feature response fields");
        }
        11 => {
            let a = any_sockaddr();
            p = SearchRequest::udp_unicast(a).packet();
            sym::check(header_ok(&p, 0x0201), "search request header");
            let mut e = HPAI::udp();
            e.set_addr(a);
            sym::check(p.len() == 14 && p[7] == 1, "search request endpoint is UDP");
            check_hpai(&p[6..], &e, "search request endpoint");
            let q = SearchRequest::udp().packet();
            sym::check(header_ok(&q, 0x0201) && eq(&q[6..], &[8, 1, 224, 0, 23, 12, 0x0e, 0x57]), "search request announces the discovery multicast endpoint");
        }
        _ => {
            let (svc, len) = (sym::u16(), sym::u16());
            p = KnxNetIpHeader { service_type_identifier: svc, total_length: len }.packet();
            sym::check(eq(&p, &[6, 0x10, (svc >> 8) as u8, svc as u8, (len >> 8) as u8, len as u8]), "header fields");
            let r = CRI::tunnel_raw().packet();
            sym::check(eq(&r, &[4, 4, 4, 0]), "raw CRI");
            check_hpai(&h.packet(), &h, "HPAI");
            sym::check(HPAI::udp().host_protocol_code == 1 && HPAI::tcp().host_protocol_code == 2, "HPAI protocol codes");
        }
    }
    sym::emit_bytes(&p);
    sym::reach("frame");
}
fn feature() -> KnxIpFeature {
    match sym::split(sym::below(4) as u64) {
        0 => KnxIpFeature::MaskVersion,
        1 => KnxIpFeature::IndividualAddress,
        2 => KnxIpFeature::MaxApduLength,
        _ => KnxIpFeature::InfoServiceEnable,
    }
}
/// Long tunneling requests: the total length field has two octets.
#[no_mangle]
pub extern "C" fn h_c04_long() {
    let n = [200, 245, 246, 247, 250, 255, 256, 264, 300, 500, 502][sym::split(sym::below(11) as u64) as usize];
    let mut c = vec![0u8; n];
    c[0] = sym::u8();
    c[n / 2] = sym::u8();
    c[n - 1] = sym::u8();
    let p = TunnelingRequest::new(sym::u8(), sym::u8(), c.clone()).packet();
    sym::check(header_ok(&p, 0x0420) && eq(&p[10..], &c), "long tunneling request");
    let r = TunnelingRequest::from_packet(&mut Cursor::new(&p));
    sym::check(r.map(|r| eq(&r.cemi, &c)).unwrap_or(false), "long tunneling request decodes to what was encoded");
    sym::reach("frame");
}

/// A search response built from its parts, whatever structure lengths they claim.
pub struct Parts { pub r: SearchResponse, pub want: Vec<u8> }
pub fn built_response(n: usize) -> Parts {
    let h = any_hpai();
    let mut fam = Vec::new();
    let mut f = Vec::new();
    for _ in 0..n { let (a, b) = (sym::u8(), sym::u8()); fam.push(ServiceFamily { service_family: a, version: b }); f.push(a); f.push(b); }
    let b = crate::c_dib::masked(&crate::c_dib::device_body());
    let m = [KnxMedium::TP1, KnxMedium::PL110, KnxMedium::RF, KnxMedium::IP].into_iter().find(|m| *m as u8 == b[0]).unwrap();
    let arr = |i: usize| [b[i], b[i + 1], b[i + 2], b[i + 3], b[i + 4], b[i + 5]];
    let mut name = [0u8; 30];
    name.copy_from_slice(&b[22..52]);
    let d = DeviceInformationDIB { structure_length: sym::u8(), description_type_code: DescriptionTypeCode::DeviceInfo, knx_medium: m,
        knx_device_status: if sym::bool() { DeviceStatus::PROGRAMMING_MODE } else { DeviceStatus::empty() },
        knx_individual_address: IndividualAddress::from_u16(be16(&b, 2)), project_installation_identifier: be16(&b, 4), serial_number: arr(6),
        routing_multicast_address: Ipv4Addr::new(b[12], b[13], b[14], b[15]), mac_address: arr(16), friendly_name: name };
    let st = d.knx_device_status.bits();
    let total = 6 + 8 + 54 + 2 + 2 * n;
    let mut want = vec![6, 0x10, 2, 2, (total >> 8) as u8, total as u8];
    want.extend_from_slice(&hpai_bytes(&h));
    want.extend_from_slice(&[54, 1]);
    want.extend_from_slice(&b);
    want[17] = st;
    want.extend_from_slice(&[2 + 2 * n as u8, 2]);
    want.extend_from_slice(&f);
    let r = SearchResponse { control_endpoint: h, device_hardware: d, supported_service_families: SupportedServiceFamiliesDIB { structure_length: sym::u8(), description_type_code: DescriptionTypeCode::SupportedServiceFamilies, service_families: fam } };
    Parts { r, want }
}
#[no_mangle]
pub extern "C" fn h_c04_search_response() {
    let n = [0usize, 1, 2, 5, 92, 93, 94, 126][sym::case(8)];
    let x = built_response(n);
    let p = x.r.packet();
    sym::check(header_ok(&p, 0x0202), "search response header");
    sym::check(eq(&p, &x.want), "search response fields");
    sym::reach("frame");
}
/// Description blocks announce their real, even length and their kind.
pub fn built_dib(back: bool) {
    let k = sym::case(5);
    let l = sym::u8();
    let n = [0usize, 1, 2, 3, 10, 100, 125][sym::split(sym::below(7) as u64) as usize];
    let mut w: Vec<u8> = Vec::new();
    let ip = |w: &mut Vec<u8>| { let o = [sym::u8(), sym::u8(), sym::u8(), sym::u8()]; w.extend_from_slice(&o); Ipv4Addr::from(o) };
    let word = |w: &mut Vec<u8>| { let x = sym::u16(); w.extend_from_slice(&x.to_be_bytes()); x };
    let oct = |w: &mut Vec<u8>| { let x = sym::u8(); w.push(x); x };
    let (code, d) = match k {
        0 => (2u8, DIB::SupportedServiceFamilies(SupportedServiceFamiliesDIB { structure_length: l, description_type_code: DescriptionTypeCode::SupportedServiceFamilies,
            service_families: (0..n).map(|_| ServiceFamily { service_family: oct(&mut w), version: oct(&mut w) }).collect() })),
        1 => (3, DIB::IpConfig(IpConfigDIB { structure_length: l, description_type_code: DescriptionTypeCode::IpConfig, ip_address: ip(&mut w), subnet_mask: ip(&mut w), default_gateway: ip(&mut w),
            ip_capabilities: oct(&mut w), ip_assignment_method: oct(&mut w) })),
        2 => (4, DIB::IpCurrentConfig(IpCurrentConfigDIB { structure_length: l, description_type_code: DescriptionTypeCode::IpCurrentConfig, current_ip_address: ip(&mut w), current_subnet_mask: ip(&mut w),
            current_default_gateway: ip(&mut w), dhcp_server: ip(&mut w), current_ip_assignment_method: oct(&mut w), reserved: oct(&mut w) })),
        3 => (5, DIB::KNXAddresses(KNXAddressesDIB { structure_length: l, description_type_code: DescriptionTypeCode::KNXAddresses, knx_individual_address: IndividualAddress::from_u16(word(&mut w)),
            additional_individual_addresses: (0..n).map(|_| IndividualAddress::from_u16(word(&mut w))).collect() })),
        _ => (0xfe, DIB::ManufacturerData(ManufacturerDataDIB { structure_length: l, description_type_code: DescriptionTypeCode::ManufacturerData, knx_manufacturer_id: word(&mut w),
            manufacturer_specific_data: (0..2 * n).map(|_| oct(&mut w)).collect() })),
    };
    let p = d.packet();
    sym::check(p.len() == 2 + w.len() && p[0] as usize == p.len() && p[1] == code && eq(&p[2..], &w), "description block: length, kind and fields");
    if back {
        let mut c = Cursor::new(p.as_slice());
        let q = DIB::from_packet(&mut c).map(|x| (x.structure_length(), x.packet()));
        sym::check(q.map(|(l, q)| l as usize == p.len() && eq(&q, &p)).unwrap_or(false) && c.position() as usize == p.len(), "description block decodes to what was encoded");
    }
    sym::reach("block");
}
#[no_mangle]
pub extern "C" fn h_c04_dib() { built_dib(false) }
#[no_mangle]
pub extern "C" fn h_c05_dib() { built_dib(true) }
#[no_mangle]
pub extern "C" fn h_c05_dib_back() { crate::c_dib::dib_fields() }
#[no_mangle]
pub extern "C" fn h_c05_response_back() { crate::c_dib::response() }
#[no_mangle]
pub extern "C" fn h_c05_response() {
    let n = [0usize, 1, 2, 5, 126][sym::case(5)];
    let x = built_response(n);
    let p = x.r.packet();
    let mut c = Cursor::new(p.as_slice());
    let r = SearchResponse::from_packet(&mut c);
    sym::check(r.is_ok() && c.position() as usize == p.len(), "a built search response is decoded");
    if let Ok(r) = r {
        let (d, e) = (&r.device_hardware, &x.r.device_hardware);
        sym::check(eq(&hpai_bytes(&r.control_endpoint), &hpai_bytes(&x.r.control_endpoint)), "control endpoint");
        sym::check(d.knx_medium as u8 == e.knx_medium as u8 && d.knx_device_status.bits() == e.knx_device_status.bits() && d.knx_individual_address.to_u16() == e.knx_individual_address.to_u16()
            && d.project_installation_identifier == e.project_installation_identifier && eq(&d.serial_number, &e.serial_number) && eq(&d.mac_address, &e.mac_address)
            && eq(&d.routing_multicast_address.octets(), &e.routing_multicast_address.octets()) && eq(&d.friendly_name, &e.friendly_name), "device information");
        let (f, g) = (&r.supported_service_families.service_families, &x.r.supported_service_families.service_families);
        sym::check(f.len() == g.len() && f.iter().zip(g).fold(true, |a, (x, y)| a & (x.service_family == y.service_family) & (x.version == y.version)), "service families");
        sym::check(eq(&r.packet(), &p), "and encodes to the same frame");
    }
    sym::reach("round trip");
}
#[no_mangle]
pub extern "C" fn h_c05_long() { h_c04_long() }

// ---------------------------------------------------------------- C05
/// Frames built from arbitrary values decode to the same values.
#[no_mangle]
pub extern "C" fn h_c05_encode_decode() {
    let (ch, sq, st) = (sym::u8(), sym::u8(), sym::u8());
    let h = any_hpai();
    let ok = match sym::case(11) {
        0 => {
            let p = ConnectionstateRequest::new(ch, h.clone()).packet();
            ConnectionstateRequest::from_packet(&mut Cursor::new(&p)).map(|x| x.communication_channel_id == ch && eq(&hpai_bytes(&x.control_endpoint), &hpai_bytes(&h))).unwrap_or(false)
        }
        1 => {
            let p = ConnectionstateResponse { communication_channel_id: ch, status: st }.packet();
            ConnectionstateResponse::from_packet(&mut Cursor::new(&p)).map(|x| x.communication_channel_id == ch && x.status == st).unwrap_or(false)
        }
        2 => {
            let p = DisconnectRequest::new(ch, h.clone()).packet();
            DisconnectRequest::from_packet(&mut Cursor::new(&p)).map(|x| eq(&x.packet(), &p)).unwrap_or(false)
        }
        3 => {
            let p = DisconnectResponse { communication_channel_id: ch, status: st }.packet();
            DisconnectResponse::from_packet(&mut Cursor::new(&p)).map(|x| x.communication_channel_id == ch && x.status == st).unwrap_or(false)
        }
        4 => {
            let n = sym::range(0, sym::tier(24, 80));
            let c = sym::bytes(n);
            let p = TunnelingRequest::new(ch, sq, c.clone()).packet();
            TunnelingRequest::from_packet(&mut Cursor::new(&p)).map(|x| x.communication_channel_id == ch && x.sequence_nr == sq && eq(&x.cemi, &c)).unwrap_or(false)
        }
        5 => {
            let p = TunnelingAck::new(ch, sq, st).packet();
            TunnelingAck::from_packet(&mut Cursor::new(&p)).map(|x| x.communication_channel_id == ch && x.sequence_nr == sq && x.status == st).unwrap_or(false)
        }
        6 => {
            let (f, v) = (feature(), sym::u8());
            let p = FeatureResp { feature: f, value: v, status: st, communication_channel_id: ch, sequence_nr: sq }.packet();
            FeatureResp::from_packet(&mut Cursor::new(&p)).map(|x| x.communication_channel_id == ch && x.sequence_nr == sq && x.status == st && x.value == v && x.feature as u8 == f as u8).unwrap_or(false)
        }
        7 => {
            let p = SearchRequest::udp_unicast(any_sockaddr()).packet();
            SearchRequest::from_packet(&mut Cursor::new(&p)).map(|x| eq(&x.packet(), &p)).unwrap_or(false)
        }
        8 => {
            let p = h.packet();
            HPAI::from_packet(&mut Cursor::new(&p)).map(|x| eq(&hpai_bytes(&x), &hpai_bytes(&h))).unwrap_or(false)
        }
        9 => {
            let (a, b) = (sym::u16(), sym::u16());
            let p = KnxNetIpHeader { service_type_identifier: a, total_length: b }.packet();
            KnxNetIpHeader::from_packet(&mut Cursor::new(&p)).map(|x| x.service_type_identifier == a && x.total_length == b).unwrap_or(false)
        }
        _ => {
            let (r, v) = crate::c_frames::any_conn_resp();
            let p = r.packet();
            sym::check(eq(&p, &v), "connection response re-encodes to the received octets");
            let s = ConnectionstateRequest::from_connection_response(&r).packet();
            let d = DisconnectRequest::from_connection_response(&r).packet();
            sym::check(s.len() == 16 && d.len() == 16 && s[6] == v[6] && d[6] == v[6] && eq(&s[8..], &v[8..16]) && eq(&d[8..], &v[8..16]),
                "follow-up requests use the channel and endpoint of the connection response");
            ConnectionResponse::from_packet(&mut Cursor::new(&p)).map(|x| eq(&x.packet(), &p)).unwrap_or(false)
        }
    };
    sym::check(ok, "encode then decode gives back every field");
    sym::reach("round trip");
}
/// Whatever is accepted from the wire re-encodes to the octets it was decoded from (reserved octets aside).
#[no_mangle]
pub extern "C" fn h_c05_decode_encode() {
    let b = Buf::any(30);
    let d = &b.v;
    let c = &mut Cursor::new(b.get());
    match sym::case(11) {
        0 => if let Ok(x) = ConnectionstateRequest::from_packet(c) {
            sym::reach("a");
            let p = x.packet();
            sym::check(p.len() == 16 && eq(&p[..4], &d[..4]) && p[6] == d[6] && eq(&p[8..], &d[8..16]), "connectionstate request");
        },
        1 => if let Ok(x) = ConnectionstateResponse::from_packet(c) { sym::reach("a"); sym::check(eq(&x.packet(), &d[..8]), "connectionstate response"); },
        2 => if let Ok(x) = DisconnectRequest::from_packet(c) {
            sym::reach("a");
            let p = x.packet();
            sym::check(p.len() == 16 && eq(&p[..4], &d[..4]) && p[6] == d[6] && eq(&p[8..], &d[8..16]), "disconnect request");
        },
        3 => if let Ok(x) = DisconnectResponse::from_packet(c) { sym::reach("a"); sym::check(eq(&x.packet(), &d[..8]), "disconnect response"); },
        4 => if let Ok(x) = TunnelingRequest::from_packet(c) {
            sym::reach("a");
            let p = x.packet();
            let n = p.len();
            sym::check(n >= 10 && n <= b.n && eq(&p[..9], &d[..9]) && eq(&p[10..], &d[10..n]), "tunneling request");
        },
        5 => if let Ok(x) = TunnelingAck::from_packet(c) { sym::reach("a"); sym::check(eq(&x.packet(), &d[..10]), "tunneling ack"); },
        6 => if let Ok(x) = FeatureResp::from_packet(c) {
            sym::reach("a");
            let p = x.packet();
            sym::check(p.len() == 13 && eq(&p[..9], &d[..9]) && eq(&p[10..], &d[10..13]), "feature response");
        },
        7 => if let Ok(x) = SearchRequest::from_packet(c) {
            sym::reach("a");
            let p = x.packet();
            sym::check(p.len() == 14 && eq(&p[..4], &d[..4]) && eq(&p[6..], &d[6..14]), "search request");
        },
        8 => if let Ok(x) = HPAI::from_packet(c) { sym::reach("a"); sym::check(eq(&x.packet(), &d[..8]), "HPAI"); },
        9 => if let Ok(x) = CRD::from_packet(c) { sym::reach("a"); sym::check(eq(&x.packet(), &d[..4]), "CRD"); },
        _ => if let Ok(x) = ConnectionResponse::from_packet(c) {
            sym::reach("a");
            let p = x.packet();
            sym::check(p.len() == 20 && eq(&p[..4], &d[..4]) && eq(&p[6..], &d[6..20]), "connection response");
        },
    }
}
