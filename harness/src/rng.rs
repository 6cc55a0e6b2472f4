//! Deterministic PRNG (splitmix64 seeded xoshiro256**).
#[derive(Clone)]
pub struct Rng([u64; 4]);

fn splitmix(x: &mut u64) -> u64 {
	*x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
	let mut z = *x;
	z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
	z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
	z ^ (z >> 31)
}

impl Rng {
	pub fn new(seed: u64) -> Self {
		let mut s = seed;
		Self([splitmix(&mut s), splitmix(&mut s), splitmix(&mut s), splitmix(&mut s)])
	}

	pub fn next(&mut self) -> u64 {
		let s = &mut self.0;
		let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
		let t = s[1] << 17;
		s[2] ^= s[0];
		s[3] ^= s[1];
		s[1] ^= s[2];
		s[0] ^= s[3];
		s[2] ^= t;
		s[3] = s[3].rotate_left(45);
		r
	}

	/// Uniform in `0..n` (0 if `n` is 0).
	pub fn below(&mut self, n: usize) -> usize {
		if n == 0 { 0 } else { (self.next() % n as u64) as usize }
	}

	/// Uniform in `a..=b`.
	pub fn range(&mut self, a: usize, b: usize) -> usize {
		a + self.below(b.saturating_sub(a) + 1)
	}

	/// True `n` times out of `d`.
	pub fn chance(&mut self, n: usize, d: usize) -> bool {
		self.below(d) < n
	}

	pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
		&xs[self.below(xs.len())]
	}
}

/// FNV-1a, used for digests (never for anything security relevant).
pub fn fnv(bytes: &[u8]) -> u64 {
	fnv_more(0xcbf2_9ce4_8422_2325, bytes)
}

pub fn fnv_more(mut h: u64, bytes: &[u8]) -> u64 {
	for b in bytes {
		h = (h ^ *b as u64).wrapping_mul(0x0000_0100_0000_01b3);
	}
	h
}
