//! Driving the asynchronous client in the modelled environment.
use crate::sym;
use crate::util::*;
pub use knx_ip_client::transport::udp::*;
pub use knx_ip_client::transport::udp_monitor::*;
use std::future::Future;
use std::pin::Pin;
use std::task::Poll;
pub use std::time::Duration;
pub use tokio::sync::mpsc;
pub use tokio::task::settle;
pub use tokio::verif::{deliver, poll, push, reselect, world, In};

pub const GATEWAY: (Ipv4Addr, u16) = (Ipv4Addr::new(192, 0, 2, 1), 3671);

pub type Op<'a, T> = Pin<Box<dyn Future<Output = T> + 'a>>;
pub fn op<'a, T>(f: impl Future<Output = T> + 'a) -> Op<'a, T> { Box::pin(f) }
/// Run an operation together with the background tasks until nothing can progress.
pub fn drive<T>(f: &mut Op<'_, T>) -> Option<T> {
    let mut rounds = 0;
    loop {
        let before = world().events;
        if let Poll::Ready(v) = poll(f.as_mut()) { settle(); return Some(v); }
        settle();
        if world().events == before { return None; }
        rounds += 1;
        if rounds > 200 { panic!("harness: operation never becomes quiescent"); }
    }
}
pub fn now<T>(f: impl Future<Output = T>) -> T {
    let mut f = op(f);
    match drive(&mut f) { Some(v) => v, None => { sym::check(false, "operation completes without waiting"); loop { sym::assume(false) } } }
}

/// A connection as the gateway described it.
#[derive(Clone)]
pub struct Conn { pub ch: u8, pub ep: [u8; 8] }
impl Conn {
    pub fn any() -> Conn {
        let b = sym::bytes(6);
        Conn { ch: sym::u8(), ep: [8, 1, b[0], b[1], b[2], b[3], b[4], b[5]] }
    }
    pub fn response(&self, status: u8) -> Vec<u8> {
        let mut v = vec![6, 0x10, 2, 6, 0, 20, self.ch, status];
        v.extend_from_slice(&self.ep);
        v.extend_from_slice(&[4, 4, 0x11, 5]);
        v
    }
    pub fn heartbeat(&self) -> Vec<u8> {
        let mut v = vec![6, 0x10, 2, 7, 0, 16, self.ch, 0];
        v.extend_from_slice(&self.ep);
        v
    }
    pub fn disconnect(&self) -> Vec<u8> {
        let mut v = vec![6, 0x10, 2, 9, 0, 16, self.ch, 0];
        v.extend_from_slice(&self.ep);
        v
    }
}
pub const CONNECT: [u8; 26] = [6, 0x10, 2, 5, 0, 26, 8, 1, 0, 0, 0, 0, 0, 0, 8, 1, 0, 0, 0, 0, 0, 0, 4, 4, 2, 0];

pub enum Who { C(UdpClient), M(UdpMonitor) }
impl Who {
    pub fn new(monitor: bool) -> Who {
        let r = if monitor { now(UdpMonitor::connect("192.0.2.1:3671")).map(Who::M).ok() } else { now(UdpClient::connect(GATEWAY)).map(Who::C).ok() };
        settle();
        match r { Some(w) => w, None => { sym::check(false, "a socket address can be connected"); loop { sym::assume(false) } } }
    }
    /// Connected over `c`; everything sent so far forgotten.
    pub fn connected(monitor: bool, c: &Conn) -> Who {
        let w = Who::new(monitor);
        deliver(0, c.response(0));
        settle();
        world().sent.clear();
        w
    }
    pub fn client(&self) -> &UdpClient { match self { Who::C(c) => c, _ => unreachable!() } }
    pub fn monitor(&self) -> &UdpMonitor { match self { Who::M(m) => m, _ => unreachable!() } }
    /// First sequence number a user request gets on a new connection.
    pub fn seq0(&self) -> u8 { match self { Who::C(_) => 0, _ => 1 } }
    pub fn write(&self, a: KnxAddress, v: Vec<u8>, small: bool) -> Op<'_, bool> {
        match self {
            Who::C(c) => op(async move { c.write_group_address_value(a, v, small).await.is_ok() }),
            Who::M(m) => op(async move { m.write_group_address_value(a, v, small).await.is_ok() }),
        }
    }
    /// Asks for a group value; completes when the client has its answer, the monitor when it is sent.
    pub fn ask(&self, a: KnxAddress) -> Op<'_, bool> {
        match self {
            Who::C(c) => op(async move { c.read_group_address_value(a).await.is_ok() }),
            Who::M(m) => op(async move { m.solecitate_group_read(a).await.is_ok() }),
        }
    }
    /// None: success is not visible; Some(status) for the monitor.
    pub fn disconnect(&self) -> Op<'_, Result<Option<u8>, ()>> {
        match self {
            Who::C(c) => op(async move { c.disconnect().await.map(|_| None).map_err(|_| ()) }),
            Who::M(m) => op(async move { m.disconnect().await.map(Some).map_err(|_| ()) }),
        }
    }
}
pub fn group() -> (KnxAddress, u16) {
    let w = sym::u16();
    // alternate between the notations
    static mut N: u8 = 0;
    unsafe { N ^= 1; if N == 1 { return (KnxAddress::group_1_level(w), w) } }
    (KnxAddress::group_3_level((w >> 11) as u8, (w >> 8) as u8 & 7, w as u8), w)
}

/// A group in one of the three notations, and its word.
pub fn group_of(kind: usize) -> (KnxAddress, u16) {
    let (main, mid, sub) = (sym::u8(), sym::u8(), sym::u8());
    sym::assume(main < 32 && mid < 8);
    match kind {
        0 => (KnxAddress::group_3_level(main, mid, sub), (main as u16) << 11 | (mid as u16) << 8 | sub as u16),
        1 => (KnxAddress::group_2_level(main, sub), (main as u16) << 11 | sub as u16),
        _ => (KnxAddress::group_1_level((main as u16) << 8 | sub as u16), (main as u16) << 8 | sub as u16),
    }
}

/// Datagrams sent so far, removed from the record.
pub fn taken() -> Vec<Vec<u8>> {
    let mut v = vec![];
    for s in world().sent.drain(..) { v.push(s.data); }
    v
}
pub fn service(p: &[u8]) -> u16 { if p.len() >= 4 { be16(p, 2) } else { 0 } }
pub fn of(all: &[Vec<u8>], s: u16) -> Vec<&Vec<u8>> {
    let mut v = vec![];
    for p in all { if service(p) == s { v.push(p); } }
    v
}
pub fn count(all: &[Vec<u8>], s: u16) -> usize { of(all, s).len() }
pub fn wait(ms: u64) { world().now += ms; settle(); }

pub fn tunnel(ch: u8, seq: u8, cemi: &[u8]) -> Vec<u8> {
    let n = 10 + cemi.len();
    let mut v = vec![6, 0x10, 4, 0x20, (n >> 8) as u8, n as u8, 4, ch, seq, 0];
    v.extend_from_slice(cemi);
    v
}
pub fn ack(ch: u8, seq: u8) -> [u8; 10] { [6, 0x10, 4, 0x21, 0, 10, 4, ch, seq, 0] }
pub fn state_resp(ch: u8, st: u8) -> Vec<u8> { vec![6, 0x10, 2, 8, 0, 8, ch, st] }
pub fn disc_resp(ch: u8, st: u8) -> Vec<u8> { vec![6, 0x10, 2, 0x0a, 0, 8, ch, st] }
pub fn disc_req(c: &Conn) -> Vec<u8> { c.disconnect() }
pub fn feature_resp(ch: u8, seq: u8) -> Vec<u8> { vec![6, 0x10, 4, 0x23, 0, 13, 4, ch, seq, 0, 8, 0, 1] }

pub const IND: u8 = 0x29;
pub const CON: u8 = 0x2e;
/// An L_Data frame with a group destination; `apci` 0 read, 1 response, 2 write.
pub fn ldata(code: u8, c1: u8, src: u16, dst: u16, apci: u8, val: &[u8]) -> Vec<u8> {
    let mut v = vec![code, 0, c1, 0xe0, (src >> 8) as u8, src as u8, (dst >> 8) as u8, dst as u8, 1 + val.len() as u8, 0, apci << 6];
    v.extend_from_slice(val);
    v
}
/// A value of at most six bits travels inside the command.
pub fn ldata_small(code: u8, c1: u8, src: u16, dst: u16, apci: u8, val: u8) -> Vec<u8> {
    vec![code, 0, c1, 0xe0, (src >> 8) as u8, src as u8, (dst >> 8) as u8, dst as u8, 1, 0, apci << 6 | val & 0x3f]
}
/// L_Data.req octets the library must send for a group read / write.
pub fn is_request(p: &[u8], ch: u8, seq: u8, dst: u16, apci: u8, val: &[u8], small: bool) -> bool {
    let n = if small { 21 } else { 21 + val.len() };
    if !header_ok(p, 0x0420) || p.len() != n { return false; }
    let d = p[6] == 4 && p[7] == ch && p[8] == seq && p[10] == 0x11 && be16(p, 16) == dst;
    let l = p[18] as usize == n - 20;
    if small { d && l && p[20] == apci << 6 | if val.is_empty() { 0 } else { val[0] & 0x3f } } else { d && l && p[20] == apci << 6 && eq(&p[21..], val) }
}
