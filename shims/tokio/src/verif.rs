//! The controllable environment: everything the outside world may do to the client.
use std::collections::VecDeque;
use std::future::Future;
use std::net::Ipv4Addr;
use std::pin::Pin;
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};

extern "C" {
    fn sym_bool() -> bool;
}

/// What the socket reports to a `recv`.
pub enum In {
    Data(Vec<u8>),
    Error,
}

pub struct Sent {
    pub sock: usize,
    pub data: Vec<u8>,
    pub to: Option<(Ipv4Addr, u16)>,
    pub at: u64,
}

pub struct World {
    /// Datagrams (or faults) waiting to be received, per socket, in order.
    pub inbox: Vec<VecDeque<In>>,
    /// Where each socket was connected to.
    pub peer: Vec<Option<(Ipv4Addr, u16)>>,
    /// Datagrams the client sent, in order.
    pub sent: Vec<Sent>,
    /// The next `send_fail` sends report an I/O error and transmit nothing.
    pub send_fail: usize,
    /// Virtual clock in milliseconds.
    pub now: u64,
    /// Fair `select!`: false = first branch first, true = a solver-chosen branch first.
    pub sym_select: bool,
    /// The branch chosen, kept until the harness forgets it (`None`: choose again at every poll).
    pub select_keep: Option<Option<usize>>,
    /// How many more await points may be turned into a (solver-chosen) suspension.
    pub preempt: usize,
    pub preempted: usize,
    /// After how many more transmissions the sender is held up, as a thread may be that has just sent
    /// (only where nothing is abandoned: a send that has happened is never taken back).
    pub after: usize,
    /// Counts everything that may let some task progress; used to detect quiescence.
    pub events: u64,
    pub faults: usize,
    pub local_port: u16,
    pub local_ip: [u8; 4],
}

pub static mut WORLD: World = World {
    inbox: Vec::new(),
    peer: Vec::new(),
    sent: Vec::new(),
    send_fail: 0,
    now: 0,
    sym_select: false,
    select_keep: None,
    preempt: 0,
    preempted: 0,
    after: 0,
    events: 0,
    faults: 0,
    local_port: 50000,
    local_ip: [0, 0, 0, 0],
};

pub fn world() -> &'static mut World {
    unsafe { &mut *std::ptr::addr_of_mut!(WORLD) }
}
pub(crate) fn event() { world().events += 1; }

pub fn select_first(n: usize) -> usize {
    if !world().sym_select { return 0; }
    if let Some(Some(k)) = world().select_keep { return k % n; }
    let mut k = 0;
    while k + 1 < n && unsafe { sym_bool() } { k += 1; }
    if world().select_keep.is_some() { world().select_keep = Some(Some(k)); }
    k
}
/// From here on one fresh choice, the same at every poll until called again.
pub fn reselect() { world().sym_select = true; world().select_keep = Some(None); }

/// Queue a datagram for the next `recv` on a socket.
pub fn deliver(sock: usize, bytes: Vec<u8>) { push(sock, In::Data(bytes)); }
pub fn push(sock: usize, x: In) { event(); world().inbox[sock].push_back(x); }

pub fn waker() -> Waker {
    fn clone(_: *const ()) -> RawWaker { RawWaker::new(std::ptr::null(), &VT) }
    fn nop(_: *const ()) {}
    static VT: RawWakerVTable = RawWakerVTable::new(clone, nop, nop, nop);
    unsafe { Waker::from_raw(RawWaker::new(std::ptr::null(), &VT)) }
}

/// Poll a future once.
pub fn poll<F: Future + ?Sized>(f: Pin<&mut F>) -> Poll<F::Output> {
    let w = waker();
    let mut cx = Context::from_waker(&w);
    f.poll(&mut cx)
}

/// A future that is pending once when the environment chose to suspend here, ready otherwise.
pub struct YieldPoint { decided: bool }
impl YieldPoint { pub fn new() -> Self { YieldPoint { decided: false } } }
impl Future for YieldPoint {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<()> {
        if self.decided { return Poll::Ready(()); }
        self.decided = true;
        let w = world();
        if w.preempt > 0 && unsafe { sym_bool() } {
            w.preempt -= 1;
            w.preempted += 1;
            w.events += 1;
            return Poll::Pending;
        }
        Poll::Ready(())
    }
}

/// The operating system's clock, as `std::time::{Instant, SystemTime}` read it: the virtual one.
#[repr(C)]
pub struct Timespec { sec: i64, nsec: i64 }
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(_clock: i32, t: *mut Timespec) -> i32 {
    let ms = world().now;
    (*t).sec = 1_000_000 + (ms / 1000) as i64;
    (*t).nsec = (ms % 1000) as i64 * 1_000_000;
    0
}
