use crate::verif::{event, world, In, Sent, YieldPoint};
use std::collections::VecDeque;
use std::future::Future;
use std::io;
use std::net::{IpAddr, Ipv4Addr, SocketAddr, SocketAddrV4};
use std::pin::Pin;
use std::task::{Context, Poll};

pub trait ToSocketAddrs {
    #[doc(hidden)]
    fn target(&self) -> Option<(Ipv4Addr, u16)>;
}
fn v4(a: SocketAddr) -> Option<(Ipv4Addr, u16)> { match a { SocketAddr::V4(a) => Some((*a.ip(), a.port())), _ => None } }
impl ToSocketAddrs for SocketAddr { fn target(&self) -> Option<(Ipv4Addr, u16)> { v4(*self) } }
impl ToSocketAddrs for SocketAddrV4 { fn target(&self) -> Option<(Ipv4Addr, u16)> { Some((*self.ip(), self.port())) } }
impl ToSocketAddrs for (Ipv4Addr, u16) { fn target(&self) -> Option<(Ipv4Addr, u16)> { Some(*self) } }
impl ToSocketAddrs for (IpAddr, u16) { fn target(&self) -> Option<(Ipv4Addr, u16)> { match self.0 { IpAddr::V4(a) => Some((a, self.1)), _ => None } } }
impl ToSocketAddrs for (&str, u16) { fn target(&self) -> Option<(Ipv4Addr, u16)> { self.0.parse::<Ipv4Addr>().ok().map(|a| (a, self.1)) } }
impl ToSocketAddrs for (String, u16) { fn target(&self) -> Option<(Ipv4Addr, u16)> { (self.0.as_str(), self.1).target() } }
impl ToSocketAddrs for str { fn target(&self) -> Option<(Ipv4Addr, u16)> { self.parse::<SocketAddr>().ok().and_then(v4) } }
impl ToSocketAddrs for String { fn target(&self) -> Option<(Ipv4Addr, u16)> { self.as_str().target() } }
impl ToSocketAddrs for [SocketAddr] { fn target(&self) -> Option<(Ipv4Addr, u16)> { self.first().and_then(|a| v4(*a)) } }
impl<T: ToSocketAddrs + ?Sized> ToSocketAddrs for &T { fn target(&self) -> Option<(Ipv4Addr, u16)> { (**self).target() } }

#[derive(Debug)]
pub struct UdpSocket { id: usize }

/// Which fault the operating system reports differs from time to time.
fn fault() -> io::Error {
    let w = world();
    w.faults += 1;
    io::Error::from([io::ErrorKind::ConnectionRefused, io::ErrorKind::ConnectionReset, io::ErrorKind::HostUnreachable, io::ErrorKind::Other, io::ErrorKind::NetworkDown, io::ErrorKind::Interrupted, io::ErrorKind::BrokenPipe, io::ErrorKind::ConnectionAborted][(w.faults - 1) % 8])
}

impl UdpSocket {
    pub async fn bind<A: ToSocketAddrs>(addr: A) -> io::Result<UdpSocket> {
        if addr.target().is_none() { return Err(io::Error::from(io::ErrorKind::InvalidInput)); }
        let w = world();
        let id = w.inbox.len();
        w.inbox.push(VecDeque::new());
        w.peer.push(None);
        Ok(UdpSocket { id })
    }
    pub async fn connect<A: ToSocketAddrs>(&self, addr: A) -> io::Result<()> {
        match addr.target() {
            None => Err(io::Error::from(io::ErrorKind::InvalidInput)),
            t => { world().peer[self.id] = t; Ok(()) }
        }
    }
    pub fn local_addr(&self) -> io::Result<SocketAddr> {
        let w = world();
        Ok(SocketAddr::V4(SocketAddrV4::new(Ipv4Addr::from(w.local_ip), w.local_port)))
    }
    pub fn peer_addr(&self) -> io::Result<SocketAddr> {
        match world().peer[self.id] {
            Some((a, p)) => Ok(SocketAddr::V4(SocketAddrV4::new(a, p))),
            None => Err(io::Error::from(io::ErrorKind::NotConnected)),
        }
    }
    pub fn join_multicast_v4(&self, _a: Ipv4Addr, _b: Ipv4Addr) -> io::Result<()> { Ok(()) }
    pub fn leave_multicast_v4(&self, _a: Ipv4Addr, _b: Ipv4Addr) -> io::Result<()> { Ok(()) }
    pub fn set_multicast_ttl_v4(&self, _t: u32) -> io::Result<()> { Ok(()) }
    pub fn set_multicast_loop_v4(&self, _t: bool) -> io::Result<()> { Ok(()) }
    pub fn set_broadcast(&self, _t: bool) -> io::Result<()> { Ok(()) }
    pub fn set_ttl(&self, _t: u32) -> io::Result<()> { Ok(()) }
    pub async fn writable(&self) -> io::Result<()> { Ok(()) }
    pub async fn readable(&self) -> io::Result<()> {
        let id = self.id;
        std::future::poll_fn(move |_| if world().inbox[id].is_empty() { Poll::Pending } else { Poll::Ready(Ok(())) }).await
    }

    pub fn send<'a>(&'a self, buf: &'a [u8]) -> SendOp<'a> { SendOp { id: self.id, buf, to: None, y: YieldPoint::new(), sent: None } }
    pub async fn send_to<A: ToSocketAddrs>(&self, buf: &[u8], target: A) -> io::Result<usize> {
        SendOp { id: self.id, buf, to: target.target(), y: YieldPoint::new(), sent: None }.await
    }
    pub fn try_send(&self, buf: &[u8]) -> io::Result<usize> { transmit(self.id, buf, None) }
    pub fn try_send_to(&self, buf: &[u8], target: SocketAddr) -> io::Result<usize> { transmit(self.id, buf, v4(target)) }
    pub fn try_recv_from(&self, buf: &mut [u8]) -> io::Result<(usize, SocketAddr)> { Ok((self.try_recv(buf)?, gateway(self.id))) }
    pub fn poll_send(&self, _cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> { Poll::Ready(transmit(self.id, buf, None)) }
    pub fn poll_send_to(&self, _cx: &mut Context<'_>, buf: &[u8], target: SocketAddr) -> Poll<io::Result<usize>> { Poll::Ready(transmit(self.id, buf, v4(target))) }
    pub fn poll_send_ready(&self, _cx: &mut Context<'_>) -> Poll<io::Result<()>> { Poll::Ready(Ok(())) }
    pub fn poll_recv_ready(&self, _cx: &mut Context<'_>) -> Poll<io::Result<()>> { if world().inbox[self.id].is_empty() { Poll::Pending } else { Poll::Ready(Ok(())) } }
    pub async fn recv_buf<B: Grow>(&self, buf: &mut B) -> io::Result<usize> {
        let id = self.id;
        std::future::poll_fn(move |_| match world().inbox[id].pop_front() {
            None => Poll::Pending,
            Some(In::Error) => { event(); Poll::Ready(Err(fault())) }
            Some(In::Data(d)) => { event(); let n = d.len().min(buf.room()); buf.put(&d[..n]); Poll::Ready(Ok(n)) }
        }).await
    }
    pub fn ttl(&self) -> io::Result<u32> { Ok(64) }
    pub fn try_recv(&self, buf: &mut [u8]) -> io::Result<usize> {
        match take(self.id, buf) { Some(r) => r, None => Err(io::Error::from(io::ErrorKind::WouldBlock)) }
    }
    pub fn recv<'a>(&'a self, buf: &'a mut [u8]) -> Recv<'a> { Recv { buf, id: self.id } }
    pub async fn recv_from(&self, buf: &mut [u8]) -> io::Result<(usize, SocketAddr)> {
        let n = self.recv(buf).await?;
        Ok((n, gateway(self.id)))
    }
    pub async fn peek(&self, buf: &mut [u8]) -> io::Result<usize> {
        let id = self.id;
        std::future::poll_fn(move |_| match world().inbox[id].front() {
            None => Poll::Pending,
            Some(In::Error) => Poll::Ready(Err(fault())),
            Some(In::Data(d)) => { let n = d.len().min(buf.len()); buf[..n].copy_from_slice(&d[..n]); Poll::Ready(Ok(n)) }
        }).await
    }
}
fn gateway(id: usize) -> SocketAddr {
    let (a, p) = world().peer[id].unwrap_or((Ipv4Addr::new(192, 0, 2, 1), 3671));
    SocketAddr::V4(SocketAddrV4::new(a, p))
}
#[doc(hidden)]
pub trait Grow { fn room(&self) -> usize; fn put(&mut self, d: &[u8]); }
impl Grow for Vec<u8> { fn room(&self) -> usize { if self.capacity() == self.len() { 64 } else { self.capacity() - self.len() } } fn put(&mut self, d: &[u8]) { self.extend_from_slice(d); } }
pub async fn lookup_host<A: ToSocketAddrs>(a: A) -> io::Result<std::vec::IntoIter<SocketAddr>> {
    match a.target() { Some((ip, p)) => Ok(vec![SocketAddr::V4(SocketAddrV4::new(ip, p))].into_iter()), None => Err(io::Error::from(io::ErrorKind::InvalidInput)) }
}

fn transmit(sock: usize, buf: &[u8], to: Option<(Ipv4Addr, u16)>) -> io::Result<usize> {
    let w = world();
    w.events += 1;
    if w.send_fail > 0 {
        w.send_fail -= 1;
        return Err(fault());
    }
    w.sent.push(Sent { sock, data: buf.to_vec(), to, at: w.now });
    Ok(buf.len())
}

fn take(sock: usize, buf: &mut [u8]) -> Option<io::Result<usize>> {
    let x = world().inbox[sock].pop_front()?;
    event();
    Some(match x {
        In::Error => Err(fault()),
        In::Data(d) => {
            // a datagram longer than the buffer is cut, as recv(2) does
            let n = if d.len() < buf.len() { d.len() } else { buf.len() };
            buf[..n].copy_from_slice(&d[..n]);
            Ok(n)
        }
    })
}

pub struct SendOp<'a> { id: usize, buf: &'a [u8], to: Option<(Ipv4Addr, u16)>, y: YieldPoint, sent: Option<io::Result<usize>> }
impl Future for SendOp<'_> {
    type Output = io::Result<usize>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<usize>> {
        if let Some(r) = self.sent.take() { return Poll::Ready(r); }
        if Pin::new(&mut self.y).poll(cx).is_pending() { return Poll::Pending; }
        let r = transmit(self.id, self.buf, self.to);
        let w = world();
        if w.after > 0 && r.is_ok() {
            // the other threads run on while this one has sent and goes no further
            w.after -= 1;
            self.sent = Some(r);
            return Poll::Pending;
        }
        Poll::Ready(r)
    }
}

pub struct Recv<'a> { buf: &'a mut [u8], id: usize }
impl Future for Recv<'_> {
    type Output = io::Result<usize>;
    fn poll(mut self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<io::Result<usize>> {
        let id = self.id;
        match take(id, self.buf) { Some(r) => Poll::Ready(r), None => Poll::Pending }
    }
}
