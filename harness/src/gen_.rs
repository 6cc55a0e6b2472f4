//! Workload generation: grammar-directed values of every production, close
//! comparands, recasings, mutations and arbitrary bytes. Literals found in the source of the code
//! under test are mixed in as subtags and as target lengths (workload only,
//! they play no part in any verdict).

use crate::model::{self, Prod, GRANDFATHERED};
use crate::rng::Rng;

#[derive(Default, Clone)]
pub struct Dict {
	pub words: Vec<Vec<u8>>,
	pub nums: Vec<usize>,
}

/// Realistic subtags, by no means exhaustive.
pub const WORDS: &[&str] = &[
	"en", "fr", "de", "zh", "sr", "az", "sl", "es", "mn", "art", "cel", "no", "sgn", "i", "und", "mul", "qaa", "yue", "cmn",
	"gan", "min", "nan", "bok", "nyn", "xiang", "guoyu", "hakka", "lojban", "gaulish", "ami", "bnn", "default",
	"enochian", "hak", "klingon", "lux", "mingo", "navajo", "pwn", "tao", "tay", "tsu", "oed", "GB", "BE", "FR", "NL", "CH", "DE",
	"Latn", "Cyrl", "Hans", "Hant", "Arab", "Qaaa", "Zzzz", "US", "TW", "ZZ", "419", "001", "999", "000", "1901", "1996",
	"1994", "rozaj", "biske", "nedis", "boont", "scouse", "fonipa", "valencia", "0foo", "9zzz", "u", "t", "x", "a", "b", "0", "9", "co",
	"phonebk", "ca", "buddhist", "m0", "attr", "private", "twain", "aa", "xx", "x0", "0x", "12345678", "abcdefgh", "zzzzzzzz", "AAAAAAAA",
	"Z", "z", "W", "Y", "w", "y", "1", "latin", "a1", "1a", "a0a", "0a0", "abc", "abcd", "a000", "0000", "ext1", "ext2",
];

/// No text is made longer than this on purpose.
pub const LONGEST: usize = 400_000;

pub struct Gen {
	pub rng: Rng,
	pub dict: Dict,
	/// Upper bound on target lengths of generated long inputs.
	pub max_len: usize,
	/// Values come from the far end of the length range.
	pub long: bool,
	small: bool,
	case: u8,
}

impl Gen {
	pub fn new(seed: u64, dict: Dict, max_len: usize) -> Self {
		Gen { rng: Rng::new(seed), dict, max_len, long: false, small: false, case: 0 }
	}

	/// Start over from another seed.
	pub fn reset(&mut self, seed: u64) {
		self.rng = Rng::new(seed);
		self.small = false;
		self.case = 0;
	}

	fn style(&mut self) {
		self.small = self.rng.chance(1, 3);
		self.case = self.rng.below(5) as u8;
	}

	fn cased(&mut self, b: u8) -> u8 {
		match self.case {
			0 | 1 => b.to_ascii_lowercase(),
			2 => b.to_ascii_uppercase(),
			_ => {
				if self.rng.chance(1, 2) {
					b.to_ascii_uppercase()
				} else {
					b.to_ascii_lowercase()
				}
			}
		}
	}

	fn letter(&mut self) -> u8 {
		let c = if self.small { *self.rng.pick(b"abxz") } else { b'a' + self.rng.below(26) as u8 };
		self.cased(c)
	}

	fn digit(&mut self) -> u8 {
		if self.small { *self.rng.pick(b"019") } else { b'0' + self.rng.below(10) as u8 }
	}

	fn alnum1(&mut self) -> u8 {
		if self.rng.chance(2, 3) { self.letter() } else { self.digit() }
	}

	fn alphas(&mut self, n: usize) -> Vec<u8> {
		(0..n).map(|_| self.letter()).collect()
	}

	fn alnums(&mut self, n: usize) -> Vec<u8> {
		(0..n).map(|_| self.alnum1()).collect()
	}

	/// A word from the dictionaries that fits `p`, if one is found quickly.
	fn word(&mut self, p: Prod) -> Option<Vec<u8>> {
		for _ in 0..12 {
			let w: Vec<u8> = if !self.dict.words.is_empty() && self.rng.chance(1, 2) {
				self.rng.pick(&self.dict.words.clone()).clone()
			} else {
				self.rng.pick(WORDS).as_bytes().to_vec()
			};
			if model::accepts(p, &w) {
				return Some(if self.rng.chance(1, 3) { self.recase(&w) } else { w });
			}
		}
		None
	}

	/// One subtag of a production without hyphens.
	fn subtag(&mut self, p: Prod) -> Vec<u8> {
		if self.rng.chance(1, 4)
			&& let Some(w) = self.word(p)
		{
			return w;
		}
		match p {
			Prod::PrivateuseSubtag => {
				let n = self.rng.range(1, 8);
				self.alnums(n)
			}
			Prod::ExtensionSubtag => {
				let n = if self.rng.chance(1, 2) { self.rng.range(2, 3) } else { self.rng.range(2, 8) };
				self.alnums(n)
			}
			Prod::Primary => {
				let n = if self.rng.chance(2, 3) { self.rng.range(2, 3) } else { self.rng.range(4, 8) };
				self.alphas(n)
			}
			Prod::ExtlangTag => self.alphas(3),
			Prod::Script => self.alphas(4),
			Prod::Region => {
				if self.rng.chance(1, 2) {
					self.alphas(2)
				} else {
					(0..3).map(|_| self.digit()).collect()
				}
			}
			Prod::Variant => {
				if self.rng.chance(1, 3) {
					let mut v = vec![self.digit()];
					v.extend(self.alnums(3));
					v
				} else {
					let n = self.rng.range(5, 8);
					self.alnums(n)
				}
			}
			Prod::Singleton => loop {
				let c = if self.rng.chance(1, 3) { *self.rng.pick(b"abAB01") } else { self.alnum1() };
				if model::is_singleton(&[c]) {
					return vec![c];
				}
			},
			_ => unreachable!("subtag of {p:?}"),
		}
	}

	/// How many elements a repeated part gets.
	fn count(&mut self, budget: usize, min: usize) -> usize {
		if budget > 0 {
			return self.rng.range(min, min + budget);
		}
		match self.rng.below(8) {
			0..=3 => min,
			4 | 5 => min + 1,
			6 => min + 2,
			_ => min + self.rng.below(5),
		}
	}

	fn list(&mut self, p: Prod, n: usize) -> Vec<u8> {
		let mut out = Vec::new();
		for i in 0..n {
			if i > 0 {
				out.push(b'-');
			}
			let s = self.subtag(p);
			out.extend(s);
		}
		out
	}

	fn extension(&mut self, budget: usize) -> Vec<u8> {
		let mut out = self.subtag(Prod::Singleton);
		out.push(b'-');
		let n = self.count(budget, 1).max(1);
		let l = self.list(Prod::ExtensionSubtag, n);
		out.extend(l);
		out
	}

	fn extensions(&mut self, n: usize, budget: usize) -> Vec<u8> {
		let mut out = Vec::new();
		for i in 0..n {
			if i > 0 {
				out.push(b'-');
			}
			let e = self.extension(if budget > 0 { 1 + budget / (n + 1) } else { 0 });
			out.extend(e);
		}
		out
	}

	fn private(&mut self, budget: usize) -> Vec<u8> {
		let mut out = vec![self.cased(b'x'), b'-'];
		let n = self.count(budget, 1).max(1);
		let l = self.list(Prod::PrivateuseSubtag, n);
		out.extend(l);
		out
	}

	fn language(&mut self) -> Vec<u8> {
		let mut out = self.subtag(Prod::Primary);
		if out.len() <= 3 && self.rng.chance(1, 2) {
			for _ in 0..self.rng.range(1, 3) {
				out.push(b'-');
				let e = self.subtag(Prod::ExtlangTag);
				out.extend(e);
			}
		}
		out
	}

	fn normal(&mut self, budget: usize) -> Vec<u8> {
		let mut out = self.language();
		// Presence of each part independent; sometimes a bare language.
		let mask = if self.rng.chance(1, 8) { 0 } else { self.rng.next() };
		let add = |part: Vec<u8>, out: &mut Vec<u8>| {
			if !part.is_empty() {
				out.push(b'-');
				out.extend(part);
			}
		};
		if mask & 1 != 0 {
			let p = self.subtag(Prod::Script);
			add(p, &mut out);
		}
		if mask & 2 != 0 {
			let p = self.subtag(Prod::Region);
			add(p, &mut out);
		}
		// A long tag puts its bulk into one or more of the lists.
		let bulk = |m: u64| if budget > 0 && (mask >> m) & 1 != 0 { budget } else { 0 };
		if mask & 4 != 0 {
			let n = self.count(bulk(8), 1);
			let p = self.list(Prod::Variant, n);
			add(p, &mut out);
		}
		if mask & 8 != 0 {
			let n = self.count(bulk(9) / 2, 1);
			let p = self.extensions(n, bulk(9));
			add(p, &mut out);
		}
		if mask & 16 != 0 || (budget > 0 && out.len() < budget) {
			let p = self.private(bulk(10).max(if out.len() < budget { budget / 2 } else { 0 }));
			add(p, &mut out);
		}
		out
	}

	/// Some valid value of `p`.
	pub fn of(&mut self, p: Prod) -> Vec<u8> {
		self.style();
		if self.long {
			for _ in 0..4 {
				let l = self.target_len();
				if let Some(v) = self.of_len(p, l) {
					return v;
				}
			}
			return self.of_sized(p, 0);
		}
		let budget = match self.rng.below(40) {
			0 => self.target_len() / 5,
			1..=4 => self.rng.range(3, 24),
			_ => 0,
		};
		self.of_sized(p, budget)
	}

	pub fn of_sized(&mut self, p: Prod, budget: usize) -> Vec<u8> {
		match p {
			Prod::LanguageTag => match self.rng.below(12) {
				0 => self.private(budget),
				1 => self.grandfathered(),
				_ => self.normal(budget),
			},
			Prod::Langtag => self.normal(budget),
			Prod::Privateuse => self.private(budget),
			Prod::Language => self.language(),
			Prod::Extlang => {
				let n = self.rng.range(1, 3);
				self.list(Prod::ExtlangTag, n)
			}
			Prod::Variants => {
				let n = self.count(budget, self.small as usize);
				self.list(Prod::Variant, n)
			}
			Prod::Extension => self.extension(budget),
			Prod::Extensions => {
				let n = self.count(budget / 2, 0);
				self.extensions(n, budget)
			}
			Prod::Grandfathered => self.grandfathered(),
			_ => self.subtag(p),
		}
	}

	fn grandfathered(&mut self) -> Vec<u8> {
		let g = self.rng.pick(&GRANDFATHERED).0.as_bytes().to_vec();
		if self.rng.chance(1, 3) { g } else { self.recase(&g) }
	}

	/// Interesting total lengths: powers of two, numbers from the source, RFC minimum.
	pub fn target_len(&mut self) -> usize {
		if self.long {
			let far: Vec<usize> = self.dict.nums.iter().copied().filter(|n| *n > 2000).collect();
			if !far.is_empty() && self.rng.chance(1, 4) {
				return (*self.rng.pick(&far) + self.rng.below(9)).saturating_sub(4).clamp(2, 3 * LONGEST);
			}
			let l = match self.rng.below(8) {
				0..=2 => 1 << self.rng.range(12, 15),
				3..=5 => 1 << 16,
				6 => 1 << 17,
				_ => self.rng.range(1 << 12, LONGEST),
			};
			// Around the boundary, or well beyond it.
			let l = if self.rng.chance(1, 3) { l + self.rng.below(1 + l / 4) } else { l + self.rng.below(9) - 4 };
			return l.min(LONGEST);
		}
		let l = if !self.dict.nums.is_empty() && self.rng.chance(1, 3) {
			*self.rng.pick(&self.dict.nums.clone())
		} else if self.rng.chance(1, 6) {
			35
		} else {
			1 << self.rng.range(4, 17)
		};
		(l + self.rng.below(5)).saturating_sub(2).clamp(2, self.max_len)
	}

	/// A valid value of exactly `len` bytes if `p` allows values that long: grow a list by
	/// subtags and trim the last ones.
	pub fn of_len(&mut self, p: Prod, len: usize) -> Option<Vec<u8>> {
		self.style();
		let (mut out, lo, variant) = match p {
			Prod::LanguageTag | Prod::Langtag => match self.rng.below(4) {
				0 => (self.language(), 5, true),
				1 => {
					let mut l = self.language();
					l.push(b'-');
					let e = self.extension(0);
					l.extend(e);
					(l, 2, false)
				}
				2 => {
					let mut l = self.language();
					l.extend(b"-x-a");
					(l, 1, false)
				}
				_ => {
					let l = self.normal(0);
					let lo = if model::parse_normal(&l)?.private.is_some() {
						1
					} else if model::parse_normal(&l)?.extensions.is_some() {
						2
					} else {
						5
					};
					(l, lo, lo == 5)
				}
			},
			Prod::Privateuse => (self.private(0), 1, false),
			Prod::Variants => (self.subtag(Prod::Variant), 5, true),
			Prod::Extension | Prod::Extensions => (self.extension(0), 2, false),
			_ => return None,
		};
		while out.len() < len {
			let rest = len - out.len();
			if rest > 20 {
				let n = self.rng.range(lo, 8);
				out.push(b'-');
				if variant {
					let v = self.alnums(n);
					out.extend(v);
				} else if lo == 2 && self.rng.chance(1, 6) {
					let e = self.extension(0);
					out.extend(e);
				} else {
					let v = self.alnums(n);
					out.extend(v);
				}
			} else {
				// Fill exactly with one, two or three subtags.
				let mut done = false;
				for k in 1..=3usize {
					if rest >= k * (lo + 1) && rest <= k * 9 {
						let mut left = rest;
						for j in 0..k {
							let others = k - 1 - j;
							let max = (left - others * (lo + 1)).min(9);
							let min = left.saturating_sub(others * 9).max(lo + 1);
							let n = self.rng.range(min, max.max(min));
							out.push(b'-');
							let v = self.alnums(n - 1);
							out.extend(v);
							left -= n;
						}
						done = true;
						break;
					}
				}
				if !done {
					return None;
				}
			}
		}
		if out.len() == len && model::accepts(p, &out) { Some(out) } else { None }
	}

	pub fn recase(&mut self, b: &[u8]) -> Vec<u8> {
		let mode = self.rng.below(6);
		let one = self.rng.below(b.len().max(1));
		b.iter()
			.enumerate()
			.map(|(i, c)| match mode {
				0 => c.to_ascii_lowercase(),
				1 => c.to_ascii_uppercase(),
				2 => {
					if i == one && c.is_ascii_alphabetic() {
						c ^ 0x20
					} else {
						*c
					}
				}
				3 => {
					if c.is_ascii_alphabetic() {
						c ^ 0x20
					} else {
						*c
					}
				}
				_ => {
					if c.is_ascii_alphabetic() && self.rng.chance(1, 2) {
						c ^ 0x20
					} else {
						*c
					}
				}
			})
			.collect()
	}

	/// A value of `p` close to `b` (which is one): equal up to case, differing in one place,
	/// a prefix, longer by a subtag, or unrelated.
	pub fn near(&mut self, p: Prod, b: &[u8]) -> Vec<u8> {
		for _ in 0..8 {
			let mut c = match self.rng.below(10) {
				0..=2 => self.recase(b),
				3..=5 => {
					let mut c = self.recase(b);
					if !c.is_empty() {
						let i = self.rng.below(c.len());
						c[i] = self.alnum1();
					}
					c
				}
				6 => {
					let cuts: Vec<usize> =
						b.iter().enumerate().filter(|(_, c)| **c == b'-').map(|(i, _)| i).chain([b.len().saturating_sub(1)]).collect();
					b[..*self.rng.pick(&cuts)].to_vec()
				}
				7 => {
					let mut c = b.to_vec();
					if !c.is_empty() && self.rng.chance(2, 3) {
						c.push(b'-');
					}
					let n = self.rng.range(1, 8);
					let s = self.alnums(n);
					c.extend(s);
					c
				}
				8 => self.swap_subtags(b),
				_ => self.of(p),
			};
			if self.rng.chance(1, 4) {
				c = self.recase(&c);
			}
			if model::accepts(p, &c) {
				return c;
			}
		}
		self.recase(b)
	}

	fn swap_subtags(&mut self, b: &[u8]) -> Vec<u8> {
		let mut v: Vec<Vec<u8>> = b.split(|c| *c == b'-').map(|s| s.to_vec()).collect();
		let (i, j) = (self.rng.below(v.len()), self.rng.below(v.len()));
		v.swap(i, j);
		v.join(&b'-')
	}

	/// Characters that a sloppy classifier may take for letters, digits or hyphens.
	pub const ODD: &'static [&'static str] = &[
		"\u{212A}", "\u{017F}", "\u{0130}", "\u{0131}", "\u{FF41}", "\u{FF21}", "\u{FF10}", "\u{FF0D}", "\u{0141}",
		"\u{0161}", "\u{012D}", "\u{2010}", "\u{00AD}", "\u{2212}", "\u{0660}", "\u{00AA}", "\u{00DF}", "\u{00E9}", "\u{0000}",
		"\u{1D400}", "\u{10041}", "\u{E0061}", "\u{FEFF}", "_", ".", " ", "\t", "\n", "@", "[", "`", "{", "/", ":", "\u{7F}", "*", "+", "--", "%2D",
	];

	/// Characters that a change of letter case turns into the ASCII letter `c`, or the other
	/// way round.
	pub fn lookalikes(c: u8) -> &'static [&'static str] {
		match c | 0x20 {
			b'k' => &["\u{212A}"],
			b's' => &["\u{017F}"],
			b'i' => &["\u{0130}", "\u{0131}"],
			_ => &[],
		}
	}

	/// Encodings of an ASCII byte that UTF-8 forbids, and other malformed sequences.
	pub fn bad_utf8(&mut self, c: u8) -> Vec<u8> {
		match self.rng.below(8) {
			0 | 1 => vec![0xC0 | (c >> 6), 0x80 | (c & 0x3f)],
			2 => vec![0xE0, 0x80 | (c >> 6), 0x80 | (c & 0x3f)],
			3 => vec![0xF0, 0x80, 0x80 | (c >> 6), 0x80 | (c & 0x3f)],
			4 => vec![c | 0x80],
			5 => vec![0xED, 0xA0 | (c & 0x1f), 0x80 | (c & 0x3f)],
			6 => vec![*self.rng.pick(&[0xC3u8, 0xE2, 0xF0, 0xFF, 0xFE, 0x80, 0xF8])],
			_ => vec![0xF4, 0x90, 0x80, 0x80 | (c & 0x3f)],
		}
	}

	/// A damaged copy of `b`.
	pub fn mutate(&mut self, b: &[u8]) -> Vec<u8> {
		let mut c = b.to_vec();
		for _ in 0..self.rng.range(1, 2) {
			let i = self.rng.below(c.len() + 1);
			let at = i.min(c.len().saturating_sub(1));
			match self.rng.below(16) {
				0 => c.insert(i, b'-'),
				14 if !c.is_empty() => {
					// A character whose other letter case is the letter there, or any letter of the
					// three that have such characters.
					let places: Vec<usize> = (0..c.len()).filter(|i| !Self::lookalikes(c[*i]).is_empty()).collect();
					let at = if places.is_empty() { at } else { *self.rng.pick(&places) };
					let letter = if places.is_empty() { *self.rng.pick(b"ksi") } else { c[at] };
					let o = self.rng.pick(Self::lookalikes(letter)).as_bytes();
					c.splice(at..at + 1, o.iter().copied());
				}
				1 => {
					let x = self.alnum1();
					c.insert(i, x)
				}
				2 if !c.is_empty() => {
					c.remove(at);
				}
				3 if !c.is_empty() => c[at] = self.alnum1(),
				4 if !c.is_empty() => c[at] = b'-',
				5 if !c.is_empty() => c[at] = self.rng.next() as u8,
				6 => {
					let o = self.rng.pick(Self::ODD).as_bytes();
					c.splice(i..i, o.iter().copied());
				}
				7 if !c.is_empty() => {
					let o = self.rng.pick(Self::ODD).as_bytes();
					c.splice(at..at + 1, o.iter().copied());
				}
				8 if !c.is_empty() => {
					let o = self.bad_utf8(c[at]);
					c.splice(at..at + 1, o);
				}
				9 => c = self.swap_subtags(&c),
				10 => {
					// Drop, duplicate or insert a subtag.
					let mut v: Vec<Vec<u8>> = c.split(|c| *c == b'-').map(|s| s.to_vec()).collect();
					let k = self.rng.below(v.len());
					match self.rng.below(4) {
						0 => {
							v.remove(k);
						}
						1 => {
							let d = v[k].clone();
							v.insert(k, d);
						}
						2 => {
							let n = self.rng.range(0, 9);
							let s = self.alnums(n);
							v.insert(k, s);
						}
						_ => {
							let w = if !self.dict.words.is_empty() && self.rng.chance(1, 2) {
								self.rng.pick(&self.dict.words.clone()).clone()
							} else {
								self.rng.pick(WORDS).as_bytes().to_vec()
							};
							v.insert(k, w);
						}
					}
					c = v.join(&b'-');
				}
				11 => c.truncate(i),
				12 => {
					c.drain(..i);
				}
				13 => {
					// Make one subtag one longer or shorter than it was.
					let x = self.alnum1();
					if let Some(p) = c[..i].iter().rposition(|b| *b == b'-') {
						c.insert(p + 1, x);
					} else {
						c.insert(0, x);
					}
				}
				_ => {
					c = self.recase(&c);
					if self.rng.chance(1, 2) {
						c.push(b'-');
					}
				}
			}
		}
		c
	}

	/// Hyphen soup: random segments of 0 to 9 characters.
	pub fn soup(&mut self) -> Vec<u8> {
		self.style();
		let n = self.rng.range(1, 7);
		let mut v = Vec::new();
		for _ in 0..n {
			let k = if self.rng.chance(1, 20) { 0 } else { self.rng.range(1, 9) };
			let s = if self.rng.chance(1, 3) {
				self.alphas(k)
			} else if self.rng.chance(1, 5) {
				(0..k).map(|_| self.digit()).collect()
			} else if self.rng.chance(1, 3) {
				self.rng.pick(WORDS).as_bytes().to_vec()
			} else {
				self.alnums(k)
			};
			v.push(s);
		}
		v.join(&b'-')
	}

	pub fn arbitrary(&mut self) -> Vec<u8> {
		let n = self.rng.below(40);
		if self.rng.chance(1, 2) {
			(0..n).map(|_| self.rng.next() as u8).collect()
		} else {
			let mut s = String::new();
			for _ in 0..n {
				let c = match self.rng.below(4) {
					0 => self.alnum1() as char,
					1 => '-',
					2 => char::from_u32(self.rng.below(0x800) as u32).unwrap_or('a'),
					_ => char::from_u32(self.rng.below(0x11_0000) as u32).unwrap_or('-'),
				};
				s.push(c);
			}
			s.into_bytes()
		}
	}

	/// Any input for a recogniser of `p`: valid, nearly valid or not at all.
	pub fn input(&mut self, p: Prod) -> Vec<u8> {
		match self.rng.below(20) {
			0..=5 => self.of(p),
			6..=11 => {
				let v = self.of(p);
				self.mutate(&v)
			}
			12 => {
				// Valid for a related production.
				let q = *self.rng.pick(&model::PRODS);
				self.of(q)
			}
			13 => {
				let l = self.target_len();
				match self.of_len(p, l) {
					Some(v) => {
						if self.rng.chance(1, 3) {
							self.mutate(&v)
						} else {
							v
						}
					}
					None => self.of(p),
				}
			}
			14 => {
				let g = self.grandfathered();
				if self.rng.chance(1, 2) { self.mutate(&g) } else { g }
			}
			15..=17 => self.soup(),
			18 => {
				let v = self.soup();
				self.mutate(&v)
			}
			_ => self.arbitrary(),
		}
	}
}

/// Every structural shape of a normal tag up to a bound: all kinds of language, script and
/// region, up to two variants of each length, up to two extensions with boundary subtag lengths,
/// private use. `f` gets the index and the text.
pub fn shapes(f: &mut dyn FnMut(u64, &[u8])) {
	let fill = |spec: &str| -> String {
		// a = letter, d = digit, other = itself
		let mut k = 0u8;
		spec.chars()
			.map(|c| match c {
				'a' => {
					k = (k + 7) % 26;
					(b'a' + k) as char
				}
				'd' => {
					k = (k + 3) % 26;
					(b'0' + k % 10) as char
				}
				c => c,
			})
			.collect()
	};
	let langs = [
		"aa", "aaa", "aaaa", "aaaaa", "aaaaaa", "aaaaaaa", "aaaaaaaa", "aa-aaa", "aa-aaa-aaa", "aa-aaa-aaa-aaa", "aaa-aaa",
		"aaa-aaa-aaa", "aaa-aaa-aaa-aaa",
	];
	let scripts = ["", "-aaaa"];
	let regions = ["", "-aa", "-ddd"];
	let vs = ["-daaa", "-dddd", "-aaaaa", "-ddddd", "-aadaaa", "-aaaaaaa", "-aaaaaaaa", "-dddddddd"];
	let mut variants = vec![String::new()];
	for a in vs {
		variants.push(a.to_string());
	}
	for a in vs {
		for b in ["-daaa", "-aaaaa", "-aaaaaaaa"] {
			variants.push(format!("{a}{b}"));
		}
	}
	let es = ["-b-aa", "-d-aaaa", "-Z-ddd", "-b-aaaaaaaa", "-b-daaa-aaaaa", "-c-aa-ddd-aaaa-aaaaaaaa"];
	let mut exts = vec![String::new()];
	for a in es {
		exts.push(a.to_string());
		for b in es {
			exts.push(format!("{a}{b}"));
		}
	}
	let privs = ["", "-x-a", "-X-b-aa", "-x-aaaaaaaa", "-x-aaa-aaaa-d-x-dddd-aa"];
	let mut i = 0;
	for l in langs {
		for s in scripts {
			for r in regions {
				for v in &variants {
					for e in &exts {
						for p in privs {
							f(i, fill(&format!("{l}{s}{r}{v}{e}{p}")).as_bytes());
							i += 1;
						}
					}
				}
			}
		}
	}
}
