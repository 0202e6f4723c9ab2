//! Virtual clock: time only moves when the harness moves `verif::WORLD.now`.
use crate::verif::{event, world};
use std::future::{Future, IntoFuture};
use std::pin::Pin;
use std::task::{Context, Poll};
pub use std::time::Duration;

pub mod error {
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub struct Elapsed(pub(crate) ());
    impl std::fmt::Display for Elapsed {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("deadline has elapsed") }
    }
    impl std::error::Error for Elapsed {}
}

fn ms(d: Duration) -> u64 {
    // tokio's timer has a resolution of one millisecond and never fires early
    let up = if d.subsec_nanos() % 1_000_000 != 0 { 1 } else { 0 };
    d.as_secs().saturating_mul(1000).saturating_add(d.subsec_millis() as u64 + up)
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Instant(u64);
impl Instant {
    pub fn now() -> Self { Instant(world().now) }
    pub fn elapsed(&self) -> Duration { Duration::from_millis(world().now - self.0) }
    pub fn duration_since(&self, e: Instant) -> Duration { Duration::from_millis(self.0.saturating_sub(e.0)) }
    pub fn saturating_duration_since(&self, e: Instant) -> Duration { self.duration_since(e) }
    pub fn into_std(self) -> std::time::Instant {
        let t = world().now;
        let now = std::time::Instant::now();
        if self.0 >= t { now + Duration::from_millis(self.0 - t) } else { now - Duration::from_millis(t - self.0) }
    }
    pub fn from_std(i: std::time::Instant) -> Self {
        let now = std::time::Instant::now();
        if i >= now { Instant(world().now + ms(i - now)) } else { Instant(world().now - ms(now - i)) }
    }
    pub fn checked_sub(&self, d: Duration) -> Option<Instant> { self.0.checked_sub(ms(d)).map(Instant) }
    pub fn checked_duration_since(&self, e: Instant) -> Option<Duration> { if self.0 >= e.0 { Some(self.duration_since(e)) } else { None } }
    // an instant further away than the system clock can tell does not exist
    pub fn checked_add(&self, d: Duration) -> Option<Instant> { if d.as_secs() > (i64::MAX as u64) - 4_000_000_000 { None } else { Some(Instant(self.0.saturating_add(ms(d)))) } }
}
impl std::ops::Add<Duration> for Instant { type Output = Instant; fn add(self, d: Duration) -> Instant { self.checked_add(d).expect("overflow when adding duration to instant") } }
impl std::ops::AddAssign<Duration> for Instant { fn add_assign(&mut self, d: Duration) { *self = *self + d; } }
impl From<std::time::Instant> for Instant { fn from(i: std::time::Instant) -> Self { Instant::from_std(i) } }
impl From<Instant> for std::time::Instant { fn from(i: Instant) -> Self { i.into_std() } }
impl std::ops::SubAssign<Duration> for Instant { fn sub_assign(&mut self, d: Duration) { *self = *self - d; } }
impl std::ops::Sub<Duration> for Instant { type Output = Instant; fn sub(self, d: Duration) -> Instant { Instant(self.0 - ms(d)) } }
impl std::ops::Sub<Instant> for Instant { type Output = Duration; fn sub(self, e: Instant) -> Duration { self.duration_since(e) } }

#[derive(Debug)]
pub struct Sleep { deadline: u64 }
impl Sleep {
    pub fn deadline(&self) -> Instant { Instant(self.deadline) }
    pub fn is_elapsed(&self) -> bool { world().now >= self.deadline }
    pub fn reset(mut self: Pin<&mut Self>, i: Instant) { self.deadline = i.0; }
}
impl Future for Sleep {
    type Output = ();
    fn poll(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<()> {
        if world().now >= self.deadline { Poll::Ready(()) } else { Poll::Pending }
    }
}
pub fn sleep(d: Duration) -> Sleep { Sleep { deadline: world().now.saturating_add(ms(d)) } }
pub fn sleep_until(i: Instant) -> Sleep { Sleep { deadline: i.0 } }

#[derive(Debug)]
pub struct Timeout<F> { f: F, s: Sleep }
impl<F> Timeout<F> {
    pub fn get_ref(&self) -> &F { &self.f }
    pub fn get_mut(&mut self) -> &mut F { &mut self.f }
    pub fn into_inner(self) -> F { self.f }
}
impl<F: Future> Future for Timeout<F> {
    type Output = Result<F::Output, error::Elapsed>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let this = unsafe { self.get_unchecked_mut() };
        let f = unsafe { Pin::new_unchecked(&mut this.f) };
        if let Poll::Ready(v) = f.poll(cx) { return Poll::Ready(Ok(v)); }
        match Pin::new(&mut this.s).poll(cx) {
            Poll::Ready(()) => Poll::Ready(Err(error::Elapsed(()))),
            Poll::Pending => Poll::Pending,
        }
    }
}
pub fn timeout<F: IntoFuture>(d: Duration, f: F) -> Timeout<F::IntoFuture> { Timeout { f: f.into_future(), s: sleep(d) } }
pub fn timeout_at<F: IntoFuture>(i: Instant, f: F) -> Timeout<F::IntoFuture> { Timeout { f: f.into_future(), s: sleep_until(i) } }

#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub enum MissedTickBehavior { #[default] Burst, Delay, Skip }

#[derive(Debug)]
pub struct Interval { next: u64, period: u64, missed: MissedTickBehavior }
impl Interval {
    pub fn set_missed_tick_behavior(&mut self, b: MissedTickBehavior) { self.missed = b; }
    pub fn missed_tick_behavior(&self) -> MissedTickBehavior { self.missed }
    pub fn period(&self) -> Duration { Duration::from_millis(self.period) }
    pub fn reset(&mut self) { self.next = world().now + self.period; }
    pub fn reset_at(&mut self, i: Instant) { self.next = i.0; }
    pub fn reset_after(&mut self, d: Duration) { self.next = world().now + ms(d); }
    pub fn reset_immediately(&mut self) { self.next = world().now; }
    pub fn poll_tick(&mut self, _cx: &mut Context<'_>) -> Poll<Instant> {
        let now = world().now;
        if now < self.next { return Poll::Pending; }
        event();
        let t = self.next;
        // tokio: only a tick more than 5 ms late counts as missed.
        self.next = if now <= t + 5 { t + self.period } else {
            match self.missed {
                MissedTickBehavior::Burst => t + self.period,
                MissedTickBehavior::Delay => now + self.period,
                MissedTickBehavior::Skip => now + self.period - (now - t) % self.period,
            }
        };
        Poll::Ready(Instant(t))
    }
    pub fn tick(&mut self) -> Tick<'_> { Tick { i: self } }
}
pub struct Tick<'a> { i: &'a mut Interval }
impl Future for Tick<'_> {
    type Output = Instant;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Instant> { self.i.poll_tick(cx) }
}
impl From<error::Elapsed> for std::io::Error { fn from(_: error::Elapsed) -> Self { std::io::ErrorKind::TimedOut.into() } }
pub fn interval(d: Duration) -> Interval { Interval { next: world().now, period: ms(d), missed: MissedTickBehavior::Burst } }
pub fn interval_at(i: Instant, d: Duration) -> Interval { Interval { next: i.0, period: ms(d), missed: MissedTickBehavior::Burst } }
