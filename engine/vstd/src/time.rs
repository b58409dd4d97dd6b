//! `std::time` with a virtual clock inside controlled executions.
pub use std::time::{Duration, SystemTimeError};
use crate::mc;
use std::ops::{Add, AddAssign, Sub, SubAssign};

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct SystemTime(std::time::SystemTime);
pub const UNIX_EPOCH: SystemTime = SystemTime(std::time::UNIX_EPOCH);

impl SystemTime {
    pub const UNIX_EPOCH: SystemTime = UNIX_EPOCH;
    pub fn now() -> Self {
        match mc::cur() {
            None => SystemTime(std::time::SystemTime::now()),
            Some(c) => {
                mc::poll(10_000);
                SystemTime(std::time::UNIX_EPOCH + Duration::from_nanos(c.now_ns()))
            }
        }
    }
    pub fn duration_since(&self, o: SystemTime) -> Result<Duration, SystemTimeError> {
        self.0.duration_since(o.0)
    }
    pub fn elapsed(&self) -> Result<Duration, SystemTimeError> {
        SystemTime::now().duration_since(*self)
    }
    pub fn checked_add(&self, d: Duration) -> Option<SystemTime> {
        self.0.checked_add(d).map(SystemTime)
    }
    pub fn checked_sub(&self, d: Duration) -> Option<SystemTime> {
        self.0.checked_sub(d).map(SystemTime)
    }
}
impl Add<Duration> for SystemTime {
    type Output = SystemTime;
    fn add(self, d: Duration) -> SystemTime {
        SystemTime(self.0 + d)
    }
}
impl Sub<Duration> for SystemTime {
    type Output = SystemTime;
    fn sub(self, d: Duration) -> SystemTime {
        SystemTime(self.0 - d)
    }
}
impl AddAssign<Duration> for SystemTime {
    fn add_assign(&mut self, d: Duration) {
        self.0 += d
    }
}
impl SubAssign<Duration> for SystemTime {
    fn sub_assign(&mut self, d: Duration) {
        self.0 -= d
    }
}
impl From<std::time::SystemTime> for SystemTime {
    fn from(t: std::time::SystemTime) -> Self {
        SystemTime(t)
    }
}

/// Time since a fixed point: the start of virtual time, or of the process.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct Instant(Duration);

impl Instant {
    pub fn now() -> Self {
        match mc::cur() {
            Some(c) => Instant(Duration::from_nanos(c.now_ns())),
            None => {
                static BASE: std::sync::OnceLock<std::time::Instant> = std::sync::OnceLock::new();
                Instant(BASE.get_or_init(std::time::Instant::now).elapsed() + Duration::from_secs(1 << 20))
            }
        }
    }
    pub fn duration_since(&self, o: Instant) -> Duration {
        self.0.saturating_sub(o.0)
    }
    pub fn saturating_duration_since(&self, o: Instant) -> Duration {
        self.0.saturating_sub(o.0)
    }
    pub fn checked_duration_since(&self, o: Instant) -> Option<Duration> {
        self.0.checked_sub(o.0)
    }
    pub fn elapsed(&self) -> Duration {
        Instant::now().duration_since(*self)
    }
    pub fn checked_add(&self, d: Duration) -> Option<Instant> {
        self.0.checked_add(d).map(Instant)
    }
    pub fn checked_sub(&self, d: Duration) -> Option<Instant> {
        self.0.checked_sub(d).map(Instant)
    }
}
impl Add<Duration> for Instant {
    type Output = Instant;
    fn add(self, d: Duration) -> Instant {
        Instant(self.0 + d)
    }
}
impl Sub<Duration> for Instant {
    type Output = Instant;
    fn sub(self, d: Duration) -> Instant {
        Instant(self.0 - d)
    }
}
impl Sub<Instant> for Instant {
    type Output = Duration;
    fn sub(self, o: Instant) -> Duration {
        self.duration_since(o)
    }
}
impl AddAssign<Duration> for Instant {
    fn add_assign(&mut self, d: Duration) {
        self.0 += d
    }
}
