//! C17 description information blocks and search responses.
use crate::sym;
use crate::util::*;

fn medium() -> u8 { [2u8, 3, 0x10, 0x20][sym::split(sym::below(4) as u64) as usize] }
/// The 52 octets after length and type of a device information block.
pub fn device_body() -> Vec<u8> {
    let mut v = vec![medium()];
    v.extend_from_slice(&sym::bytes(51));
    v
}
fn check_device(d: &DeviceInformationDIB, b: &[u8]) {
    sym::check(d.structure_length == 54, "device information: structure length");
    sym::check(d.description_type_code == DescriptionTypeCode::DeviceInfo, "device information: type");
    sym::check(d.knx_medium as u8 == b[0], "device information: medium");
    sym::check(d.knx_device_status.bits() == b[1] & 1, "device information: status");
    sym::check(d.knx_individual_address.to_u16() == be16(b, 2), "device information: individual address");
    sym::check(d.project_installation_identifier == be16(b, 4), "device information: project installation identifier");
    sym::check(eq(&d.serial_number, &b[6..12]), "device information: serial number");
    sym::check(eq(&d.routing_multicast_address.octets(), &b[12..16]), "device information: multicast address");
    sym::check(eq(&d.mac_address, &b[16..22]), "device information: MAC address");
    sym::check(eq(&d.friendly_name, &b[22..52]), "device information: friendly name");
}
pub fn masked(b: &[u8]) -> Vec<u8> { let mut v = b.to_vec(); v[1] &= 1; v }
pub fn dib(code: u8, body: &[u8]) -> Vec<u8> {
    let mut v = vec![body.len() as u8 + 2, code];
    v.extend_from_slice(body);
    v
}

fn count(small: usize, max: usize) -> usize {
    if sym::thorough() { return sym::len(max); }
    let n = sym::slen(small + 6);
    let n = sym::split(n as u64) as usize;
    if n <= small { n } else { [max, max - 1, max / 2, max / 2 + 1, max / 4, max * 3 / 4][n - small - 1] }
}
/// Every block kind: decoded fields are the octets, exactly the structure is consumed, and encoding
/// the decoded block gives back the octets.
#[no_mangle]
pub extern "C" fn h_c17_dib() { dib_fields() }
pub fn dib_fields() {
    let k = sym::case(6);
    let (code, body) = match k {
        0 => (1u8, device_body()),
        1 => (2, { let n = count(6, 126); sym::bytes(2 * n) }),
        2 => (3, sym::bytes(14)),
        3 => (4, sym::bytes(18)),
        4 => (5, { let n = count(6, 125); sym::bytes(2 + 2 * n) }),
        _ => (0xfe, { let n = count(8, 250); sym::bytes(2 + n) }),
    };
    let v = dib(code, &body);
    let tail = sym::bytes(3);
    let mut input = v.clone();
    input.extend_from_slice(&tail);
    let mut c = Cursor::new(input.as_slice());
    let r = DIB::from_packet(&mut c);
    sym::check(r.is_ok(), "a well-formed block is decoded");
    let r = match r { Ok(r) => r, Err(_) => return };
    sym::check(c.position() as usize == v.len(), "exactly the block is consumed");
    sym::check(r.structure_length() as usize == v.len(), "structure length is kept");
    let body = if k == 0 { masked(&body) } else { body };
    let p = r.packet();
    sym::check(p.len() % 2 == 0 && p.len() == (v.len() + 1) / 2 * 2 && p[0] as usize == p.len() && p[1] == code, "encoded block: even length, type");
    sym::check(eq(&p[2..v.len()], &body) && (v.len() == p.len() || p[v.len()] == 0), "encoded block: the same octets");
    sym::emit_bytes(&p);
    match (&r, k) {
        (DIB::DeviceInformation(d), 0) => { check_device(d, &body); sym::reach("device information"); }
        (DIB::SupportedServiceFamilies(d), 1) => {
            sym::check(d.service_families.len() * 2 == body.len(), "all service families");
            let mut i = 0;
            while i < d.service_families.len() && 2 * i + 1 < body.len() {
                sym::check(d.service_families[i].service_family == body[2 * i] && d.service_families[i].version == body[2 * i + 1], "service family and version");
                i += 1;
            }
            sym::reach("families");
        }
        (DIB::IpConfig(d), 2) => {
            sym::check(eq(&d.ip_address.octets(), &body[0..4]) && eq(&d.subnet_mask.octets(), &body[4..8]) && eq(&d.default_gateway.octets(), &body[8..12])
                && d.ip_capabilities == body[12] && d.ip_assignment_method == body[13], "IP configuration fields");
            sym::reach("ip config");
        }
        (DIB::IpCurrentConfig(d), 3) => {
            sym::check(eq(&d.current_ip_address.octets(), &body[0..4]) && eq(&d.current_subnet_mask.octets(), &body[4..8]) && eq(&d.current_default_gateway.octets(), &body[8..12])
                && eq(&d.dhcp_server.octets(), &body[12..16]) && d.current_ip_assignment_method == body[16] && d.reserved == body[17], "current IP configuration fields");
            sym::reach("current ip config");
        }
        (DIB::KNXAddresses(d), 4) => {
            sym::check(d.knx_individual_address.to_u16() == be16(&body, 0), "individual address");
            sym::check(d.additional_individual_addresses.len() * 2 + 2 == body.len(), "all additional addresses");
            let mut i = 0;
            while i < d.additional_individual_addresses.len() && 2 * i + 3 < body.len() {
                sym::check(d.additional_individual_addresses[i].to_u16() == be16(&body, 2 + 2 * i), "additional address");
                i += 1;
            }
            sym::reach("addresses");
        }
        (DIB::ManufacturerData(d), 5) => {
            sym::check(d.knx_manufacturer_id == be16(&body, 0) && eq(&d.manufacturer_specific_data, &body[2..]), "manufacturer data fields");
            sym::reach("manufacturer data");
        }
        _ => sym::check(false, "the type code selects the block kind"),
    }
}
/// A structure length that does not fit the block kind, or that exceeds the data, is refused.
#[no_mangle]
pub extern "C" fn h_c17_length() {
    let k = sym::case(7);
    let code = [1u8, 2, 3, 4, 5, 0xfe, 0][k];
    let n = sym::tier(60, 256);
    let mut v = vec![sym::u8(), code];
    v.extend_from_slice(&sym::bytes(n));
    if k == 6 { v[1] = sym::u8(); sym::assume(v[1] == 0 || v[1] > 5 && v[1] != 0xfe); }
    let l = v[0];
    sym::assume(l as usize <= n + 2);
    let fits = match k { 0 => l == 54, 1 => l >= 2 && l % 2 == 0, 2 => l == 16, 3 => l == 20, 4 => l >= 4 && l % 2 == 0, 5 => l >= 4, _ => false };
    // the device medium is one of four
    sym::assume(k != 0 || v[2] == 2);
    let mut c = Cursor::new(v.as_slice());
    let r = DIB::from_packet(&mut c);
    sym::check(r.is_ok() == fits, "accepted exactly when the structure length fits the kind");
    if r.is_ok() { sym::check(c.position() == l as u64, "the next block starts after the structure length"); sym::reach("fits"); } else { sym::reach("refused"); }
}
#[no_mangle]
pub extern "C" fn h_c17_cut() { dib_cut() }
pub fn dib_cut() {
    let k = sym::case(6);
    let code = [1u8, 2, 3, 4, 5, 0xfe][k];
    let max = [54usize, 10, 16, 20, 10, 10][k];
    let v = sym::bytes(max);
    let n = sym::slen(max);
    sym::assume(v[1] == code && (v[0] as usize) > n);
    sym::check(DIB::from_packet(&mut Cursor::new(&v[..n])).is_err(), "a block longer than the data is refused");
    sym::reach("cut");
}
#[no_mangle]
pub extern "C" fn h_c17_medium() {
    let mut v = vec![54u8, 1];
    v.extend_from_slice(&sym::bytes(52));
    let m = v[2];
    let r = DIB::from_packet(&mut Cursor::new(&v));
    sym::check(r.is_ok() == (m == 2 || m == 3 || m == 0x10 || m == 0x20), "known media only");
    sym::reach("medium");
}
/// A whole search response.
#[no_mangle]
pub extern "C" fn h_c17_response() { response() }
/// A search response with `n` service families: frame, device information, families, endpoint.
pub fn response_octets(n: usize) -> (Vec<u8>, Vec<u8>, Vec<u8>, HPAI) {
    let dev = device_body();
    let fam = sym::bytes(2 * n);
    let total = 6 + 8 + 54 + 2 + 2 * n;
    let h = any_hpai();
    let mut v = vec![6u8, 0x10, 2, 2, (total >> 8) as u8, total as u8];
    v.extend_from_slice(&hpai_bytes(&h));
    v.extend_from_slice(&dib(1, &dev));
    v.extend_from_slice(&dib(2, &fam));
    (v, dev, fam, h)
}
pub fn check_response(r: &SearchResponse, dev: &[u8], fam: &[u8], h: &HPAI) {
    sym::check(eq(&hpai_bytes(&r.control_endpoint), &hpai_bytes(h)), "control endpoint");
    check_device(&r.device_hardware, &masked(dev));
    let f = &r.supported_service_families.service_families;
    sym::check(f.len() == fam.len() / 2, "all service families");
    let mut d = false;
    let mut i = 0;
    while i < f.len() && 2 * i < fam.len() { d |= (f[i].service_family != fam[2 * i]) | (f[i].version != fam[2 * i + 1]); i += 1; }
    sym::check(!d, "service family and version");
}
pub fn response() {
    let (v, dev, fam, h) = response_octets(if sym::bool() { sym::len(sym::tier(5, 12)) } else { sym::pick(&[92, 93, 94, 126]) });
    let mut c = Cursor::new(v.as_slice());
    let r = SearchResponse::from_packet(&mut c);
    sym::check(r.is_ok(), "a well-formed search response is decoded");
    if let Ok(r) = r {
        sym::check(c.position() as usize == v.len(), "the whole response is consumed");
        check_response(&r, &dev, &fam, &h);
        let mut w = v.clone();
        w[6 + 8 + 3] &= 1;
        let p = r.packet();
        sym::check(eq(&p, &w), "encoding the decoded response gives back the frame");
        sym::emit_bytes(&p);
        sym::reach("response");
    }
}
/// Blocks in another order, or other blocks, are no search response.
#[no_mangle]
pub extern "C" fn h_c17_order() {
    let dev = dib(1, &{ let mut b = sym::bytes(52); b[0] = 2; b });
    let fam = dib(2, &sym::bytes(4));
    let ip = dib(3, &sym::bytes(14));
    let mut v = vec![6u8, 0x10, 2, 2, 0, 0, 8, 1];
    v.extend_from_slice(&sym::bytes(6));
    let k = sym::case(5);
    let parts: [&Vec<u8>; 2] = match k { 0 => [&fam, &dev], 1 => [&dev, &dev], 2 => [&dev, &ip], 3 => [&ip, &fam], _ => [&dev, &fam] };
    for p in parts { v.extend_from_slice(p); }
    v[5] = v.len() as u8;
    sym::check(SearchResponse::from_packet(&mut Cursor::new(&v)).is_ok() == (k == 4), "device information, then service families");
    sym::reach("order");
}
pub fn new_dib(name: String) -> Result<DeviceInformationDIB, ()> {
    DeviceInformationDIB::new(54, KnxMedium::TP1, DeviceStatus::PROGRAMMING_MODE, IndividualAddress::from_u16(0x1101), 0x1234, [1; 6], Ipv4Addr::new(224, 0, 23, 12), [2; 6], name).map_err(|_| ())
}
/// Building a block from a name: Latin-1, zero padded to 30 octets; longer or other text is refused.
#[no_mangle]
pub extern "C" fn h_c17_name() {
    let n = [0usize, 1, 2, 5, 29, 30, 31, 40, 60, 61, 64, 100, 255, 256, 286, 300][sym::case(16)];
    // one arbitrary character of each UTF-8 width and alphabet, at the start or the end
    let at = if n < 2 || sym::split(sym::bool() as u64) == 0 { 0 } else { n - 1 };
    let kind = sym::split(sym::below(3) as u64);
    let mut t: Vec<u8> = vec![];
    let mut want = vec![];
    let mut latin = true;
    let mut i = 0;
    while i < n {
        let x = sym::u8();
        if i != at { want.push(b'a'); t.push(b'a'); }
        else if kind == 0 { sym::assume(x < 0x80); want.push(x); t.push(x); }
        else if kind == 1 { sym::assume(x >= 0x80); want.push(x); t.push(0xc0 | x >> 6); t.push(0x80 | x & 0x3f); }
        else { let y = sym::u8(); sym::assume(y >= 0xc4 && y <= 0xdf); latin = false; t.push(y); t.push(0x80 | x & 0x3f); }
        i += 1;
    }
    let s = unsafe { String::from_utf8_unchecked(t) };
    let r = new_dib(s.clone());
    sym::check(r.is_ok() == (latin && n <= 30), "names of at most 30 Latin-1 characters");
    if let Ok(d) = r {
        want.resize(30, 0);
        sym::check(eq(&d.friendly_name, &want), "Latin-1 octets, padded with zeros");
        let p = d.packet();
        sym::check(p.len() == 52 && eq(&p[22..], &want), "the name in the encoded block");
        sym::reach("named");
        if let Ok(t) = d.friendly_name() {
            let t = t.trim_end_matches('\0');
            sym::check(s.trim_end_matches('\0') == t, "the name decodes to the text it was built from");
        } else { sym::check(false, "a name can be decoded"); }
    } else { sym::reach("refused"); }
}
