use crate::sym;
pub use knx_ip_client::dp_types::*;
pub use knx_ip_client::packets::addresses::*;
pub use knx_ip_client::packets::apdu::*;
pub use knx_ip_client::packets::core::*;
pub use knx_ip_client::packets::emi::*;
pub use knx_ip_client::packets::tpdu::*;
pub use knx_ip_client::packets::tunneling::*;
pub use std::io::Cursor;
pub use std::net::{Ipv4Addr, SocketAddrV4};

pub fn be16(b: &[u8], i: usize) -> u16 { (b[i] as u16) << 8 | b[i + 1] as u16 }

/// A buffer of `max` arbitrary bytes of which an arbitrary prefix was received.
pub struct Buf { pub v: Vec<u8>, pub n: usize }
impl Buf {
    pub fn any(max: usize) -> Buf { let v = sym::bytes(max); let n = sym::slen(max); Buf { v, n } }
    pub fn get(&self) -> &[u8] { &self.v[..self.n] }
}

/// Byte-wise equality as one formula (no path split per byte).
pub fn eq(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() { return false; }
    let mut d = 0u8;
    let mut i = 0;
    while i < a.len() { d |= a[i] ^ b[i]; i += 1; }
    d == 0
}

/// KNXnet/IP header: size 6, version 1.0, service, total length equal to the frame.
pub fn header_ok(p: &[u8], service: u16) -> bool {
    p.len() >= 6 && p[0] == 6 && p[1] == 0x10 && be16(p, 2) == service && be16(p, 4) as usize == p.len()
}
pub fn has_header(p: &[u8], service: u16) -> bool {
    p.len() >= 6 && p[0] == 6 && p[1] == 0x10 && be16(p, 2) == service
}

pub fn any_hpai() -> HPAI {
    let mut h = if sym::bool() { HPAI::udp() } else { HPAI::tcp() };
    h.host_protocol_code = sym::u8();
    h.set_addr(any_sockaddr());
    h
}
pub fn any_sockaddr() -> SocketAddrV4 {
    SocketAddrV4::new(Ipv4Addr::new(sym::u8(), sym::u8(), sym::u8(), sym::u8()), sym::u16())
}
pub fn hpai_bytes(h: &HPAI) -> [u8; 8] {
    let o = h.address.ip().octets();
    let p = h.address.port();
    [8, h.host_protocol_code, o[0], o[1], o[2], o[3], (p >> 8) as u8, p as u8]
}
pub fn any_group() -> (KnxAddress, u16) {
    let (a, b, c) = (sym::u8(), sym::u8(), sym::u8());
    match sym::split(sym::below(3) as u64) {
        0 => { sym::assume(a < 32 && b < 8); (KnxAddress::group_3_level(a, b, c), (a as u16) << 11 | (b as u16) << 8 | c as u16) }
        1 => { sym::assume(a < 32); (KnxAddress::group_2_level(a, c), (a as u16) << 11 | c as u16) }
        _ => { let w = (a as u16) << 8 | c as u16; (KnxAddress::group_1_level(w), w) }
    }
}
