//! The monitors, one per property that is decided inside the process.

use crate::run::Monitor;

pub mod accept;
pub mod cmp;
#[cfg(not(miri))]
pub mod cost;
pub mod decomp;
pub mod hist;
pub mod iter;
pub mod pure;
pub mod robust;
#[cfg(feature = "serde")]
pub mod serial;
pub mod text;

pub fn all() -> Vec<Monitor> {
	let mut v = Vec::new();
	v.extend(accept::monitors());
	v.extend(decomp::monitors());
	v.extend(iter::monitors());
	v.extend(cmp::monitors());
	v.extend(robust::monitors());
	v.extend(text::monitors());
	v.extend(pure::monitors());
	v.extend(hist::monitors());
	#[cfg(feature = "serde")]
	v.extend(serial::monitors());
	v.sort_by_key(|m| m.id);
	v
}

/// Fail with a formatted message unless the condition holds.
#[macro_export]
macro_rules! ensure {
	($c:expr, $($t:tt)*) => {
		if !$c {
			return Err(format!($($t)*));
		}
	};
}
