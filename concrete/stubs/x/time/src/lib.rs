//! stand-in for time: an instant is seconds and nanoseconds since the epoch
#[derive(Clone, Copy, Debug, PartialEq, Eq)] pub struct Duration(pub i128);
impl Duration { pub const fn milliseconds(n: i64) -> Self { Self(n as i128 * 1_000_000) } pub const fn seconds(n: i64) -> Self { Self(n as i128 * 1_000_000_000) } }
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)] pub struct OffsetDateTime(pub i128);
#[derive(Debug)] pub struct ComponentRange;
const MIN: i64 = -377705116800; const MAX: i64 = 253402300799;
impl OffsetDateTime {
    pub const UNIX_EPOCH: Self = Self(0);
    pub fn from_unix_timestamp(s: i64) -> Result<Self, ComponentRange> { if (MIN..=MAX).contains(&s) { Ok(Self(s as i128 * 1_000_000_000)) } else { Err(ComponentRange) } }
    pub fn unix_timestamp(self) -> i64 { self.0.div_euclid(1_000_000_000) as i64 }
    pub fn unix_timestamp_nanos(self) -> i128 { self.0 }
}
impl std::ops::Add<Duration> for OffsetDateTime { type Output = Self; fn add(self, d: Duration) -> Self { let n = self.0 + d.0; assert!((MIN as i128 * 1_000_000_000..(MAX as i128 + 1) * 1_000_000_000).contains(&n), "resulting value is out of range"); Self(n) } }
pub mod macros {}
