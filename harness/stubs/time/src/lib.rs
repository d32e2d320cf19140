//! Stand-in for the clock: runs the measured code, and says it took no time.
use std::ops::{Add, Sub};
#[derive(Clone,Copy,PartialEq,Eq,PartialOrd,Ord,Hash,Debug)]
pub struct Duration(i64);
impl Duration {
	pub fn zero() -> Duration { Duration(0) }
	pub fn span<F: FnOnce()>(f: F) -> Duration { f(); Duration(0) }
	pub fn nanoseconds(n: i64) -> Duration { Duration(n) }
	pub fn num_nanoseconds(&self) -> Option<i64> { Some(self.0) }
	pub fn num_microseconds(&self) -> Option<i64> { Some(self.0 / 1000) }
	pub fn num_milliseconds(&self) -> i64 { self.0 / 1000000 }
	pub fn num_seconds(&self) -> i64 { self.0 / 1000000000 }
}
impl Add for Duration { type Output = Duration; fn add(self, o: Duration) -> Duration { Duration(self.0 + o.0) } }
impl Sub for Duration { type Output = Duration; fn sub(self, o: Duration) -> Duration { Duration(self.0 - o.0) } }
