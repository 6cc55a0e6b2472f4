//! C19: how the number of executed instructions grows with the input. Runs under callgrind,
//! which counts instructions; the comparison between sizes is made by the runner.

use crate::gen_::Gen;
use crate::model::{self, Prod};
use crate::run::cli::{Args, dict, json_str};
use crate::types::{Ty, foreign};
use crate::walk::hash_of;
use crate::with_ty;
use core::hint::black_box;
use langtag::*;

/// Valgrind client request (a no-op outside valgrind).
fn request(code: u64, arg: u64) -> u64 {
	#[cfg(target_arch = "x86_64")]
	unsafe {
		let args: [u64; 6] = [code, arg, 0, 0, 0, 0];
		let mut r: u64 = 0;
		core::arch::asm!(
			"rol rdi, 3",
			"rol rdi, 13",
			"rol rdi, 61",
			"rol rdi, 51",
			"xchg rbx, rbx",
			in("rax") args.as_ptr(),
			inout("rdx") r,
			options(nostack)
		);
		r
	}
	#[cfg(not(target_arch = "x86_64"))]
	{
		let _ = (code, arg);
		0
	}
}

const CT: u64 = ((b'C' as u64) << 24) | ((b'T' as u64) << 16);

/// A family of inputs, one for each size.
struct Family {
	name: String,
	prefix: Vec<u8>,
	unit: Vec<u8>,
	suffix: Vec<u8>,
	/// What comes half way, and the unit from there on.
	turn: Option<(Vec<u8>, Vec<u8>)>,
}

impl Family {
	fn new(prefix: &str, unit: &str, suffix: &str) -> Family {
		Family {
			name: format!("{prefix}({unit})*{suffix}"),
			prefix: prefix.into(),
			unit: unit.into(),
			suffix: suffix.into(),
			turn: None,
		}
	}
	fn turning(mut self, at: &[u8], unit: &[u8]) -> Family {
		self.name = format!("{} turning {} ({})*", self.name, at.escape_ascii(), unit.escape_ascii());
		self.turn = Some((at.into(), unit.into()));
		self
	}
	fn text(&self, n: usize) -> Vec<u8> {
		let mut v = self.prefix.clone();
		if let Some((at, unit)) = &self.turn {
			while v.len() + self.suffix.len() < n / 2 {
				v.extend(&self.unit);
			}
			v.extend(at);
			while v.len() + self.suffix.len() < n {
				v.extend(unit);
			}
		}
		while v.len() + self.suffix.len() < n {
			v.extend(&self.unit);
		}
		v.extend(&self.suffix);
		v
	}
}

fn families(g: &mut Gen, random: u64) -> Vec<Family> {
	let mut v: Vec<Family> = [
		// Normal tags, the bulk in each of the lists.
		("en", "-valencia", ""),
		("en-Latn-US", "-1abc-abcdefgh", "-x-a"),
		("en", "-valencia", "-a-bb-x-c"),
		("zh-yue-Hant-HK", "-1996", "-b-cc-x-d"),
		("en-u", "-attr", ""),
		("en-u", "-aa-bbb", "-x-y"),
		("en-u", "-aaaaaaaa", "-v-bb"),
		("en", "-a-bb", ""),
		("en", "-a-bb-b-cc-0-dd", "-x-a"),
		("en", "-a-12345678", "-z-end"),
		("en-x", "-a", ""),
		("en-x", "-abcdefgh", ""),
		("en-abcde-u-aa-x", "-1-x-b", ""),
		// Private-use tags.
		("x", "-a", ""),
		("X", "-abc-abcdefgh-x", ""),
		// Lists by themselves.
		("abcde", "-abcde", ""),
		("1abc", "-1abc-abcdefgh", ""),
		("a-bb", "-b-cc", ""),
		("a-bb", "-cc-dddddddd", ""),
		("aaa", "-aaa", ""),
		// Refused, at the end or on the way.
		("en", "-valencia", "-"),
		("en", "-a-bb", "-a"),
		("en-u", "-attr", "-x"),
		("en-x", "-a", "-abcdefghi"),
		("x", "-a", "-\u{e9}"),
		("en-x", "-a", "_"),
		("", "a", ""),
		("en-", "a", ""),
		("en-u-", "b", ""),
		("x-", "b", ""),
		("", "-", ""),
		("", "a-", ""),
		("", "en-", ""),
		("i", "-klingon", ""),
		("en-GB", "-oed", ""),
		("", "\u{e9}", ""),
	]
	.iter()
	.map(|(a, b, c)| Family::new(a, b, c))
	.collect();
	// Refused, or another part begun, half way.
	for (prefix, unit, at, rest) in [
		("x", "-b", "_", "b"),
		("x", "-b", "-abcdefghi", "-b"),
		("X", "-b-abcdefgh", "--", "-b"),
		("en", "-valencia", "_", "-valencia"),
		("en", "-valencia", "-u", "-attr"),
		("en", "-valencia", "-x", "-y"),
		("en-u", "-attr", "-\u{e9}", "-attr"),
		("en-u", "-attr", "-v-a", "-attr"),
		("en-u", "-attr", "-x", "-attr"),
		("en", "-a-bb", "-x", "-a-bb"),
		("en", "-a-bb", "-a-a", "-bb"),
		("abcde", "-abcde", "-abcd", "-abcde"),
		("a-bb", "-cc", "-", "-cc"),
	] {
		v.push(Family::new(prefix, unit, "").turning(at.as_bytes(), rest.as_bytes()));
	}
	for _ in 0..random {
		let prefix = g.of_sized(Prod::LanguageTag, 0);
		let p = *g.rng.pick(&[Prod::Variant, Prod::Extension, Prod::Privateuse, Prod::ExtensionSubtag, Prod::PrivateuseSubtag, Prod::Extensions]);
		let mut unit = vec![b'-'];
		unit.extend(g.of_sized(p, 0));
		let mut suffix = Vec::new();
		if g.rng.chance(1, 2) {
			suffix.push(b'-');
			let q = *g.rng.pick(&[Prod::Extension, Prod::Privateuse, Prod::Variant]);
			suffix.extend(g.of_sized(q, 0));
		}
		if g.rng.chance(1, 5) {
			unit = g.mutate(&unit);
		}
		if unit.is_empty() || prefix.len() + unit.len() + suffix.len() > 160 {
			continue;
		}
		let show = |b: &[u8]| b.escape_ascii().to_string();
		let mut fam = Family { name: format!("{}({})*{}", show(&prefix), show(&unit), show(&suffix)), prefix, unit, suffix, turn: None };
		if g.rng.chance(1, 3) {
			let at = match g.rng.below(3) {
				0 => g.rng.pick(Gen::ODD).as_bytes().to_vec(),
				1 => g.mutate(&fam.unit),
				_ => [&b"-"[..], &g.of_sized(Prod::Extension, 0)].concat(),
			};
			let unit = if g.rng.chance(1, 2) { fam.unit.clone() } else { [&b"-"[..], &g.of_sized(Prod::ExtensionSubtag, 0)].concat() };
			fam = fam.turning(&at, &unit);
		}
		v.push(fam);
	}
	v
}

/// Operations whose cost is measured on one input, each once.
fn ops(text: &[u8], m: &mut dyn FnMut(&str, &mut dyn FnMut())) {
	let twin = text.to_ascii_uppercase();
	let mut late = text.to_vec();
	if let Some(l) = late.last_mut()
		&& l.is_ascii_alphanumeric()
	{
		*l = if *l == b'b' { b'c' } else { b'b' };
	}
	for p in &model::PRODS[..15] {
		with_ty!(*p, T => {
			let name = T::PROD.name();
			m(&format!("parse as {name}"), &mut || {
				black_box(T::parse(black_box(text)).is_some());
			});
			if let Some(t) = T::parse(text) {
				m(&format!("hash {name}"), &mut || {
					black_box(hash_of(black_box(t)));
				});
				for o in [&twin, &late] {
					if let Some(u) = T::parse(o) {
						m(&format!("compare {name}"), &mut || {
							black_box((t == u, t.cmp(u)));
						});
						m(&format!("compare {name} with text"), &mut || {
							black_box(foreign::<T, [u8]>(t, o).eq);
						});
					}
				}
				m(&format!("display {name}"), &mut || {
					black_box(t.to_string().len());
				});
				#[cfg(feature = "std")]
				m(&format!("own {name}"), &mut || {
					black_box(<T as crate::types::OTy>::obuf(text).map(|b| b.clone()).is_some());
				});
			}
		}, else {});
	}
	m("parse as grandfathered", &mut || {
		black_box(GrandfatheredLangTag::new(black_box(text)).is_ok());
	});
	if let Ok(t) = LangTag::new(text) {
		m("kind", &mut || {
			black_box(t.kind());
		});
		m("typed view", &mut || {
			black_box(match t.as_typed() {
				TypedLangTag::Normal(n) => n.as_bytes().len(),
				TypedLangTag::PrivateUse(p) => p.as_bytes().len(),
				TypedLangTag::Grandfathered(g) => g.as_bytes().len(),
			});
		});
		m("is_*, as_*", &mut || {
			black_box((
				t.is_normal(),
				t.is_private_use(),
				t.is_grandfathered(),
				t.as_normal().is_some(),
				t.as_private_use().is_some(),
				t.as_grandfathered().is_some(),
			));
		});
		m("language", &mut || {
			black_box(t.language().map(|l| (l.as_bytes().len(), l.primary().as_bytes().len(), l.extension_subtags().count())));
		});
		m("script", &mut || {
			black_box(t.script().is_some());
		});
		m("region", &mut || {
			black_box(t.region().is_some());
		});
		m("variants", &mut || {
			black_box(t.variants().as_bytes().len());
		});
		m("extensions", &mut || {
			black_box(t.extensions().as_bytes().len());
		});
		m("private use", &mut || {
			black_box(t.private_use().is_some());
		});
		lists(t.variants(), t.extensions(), t.private_use(), m);
	}
	let empty = (Variants::EMPTY, Extensions::EMPTY);
	if let Ok(n) = NormalLangTag::new(text) {
		m("typed parts", &mut || {
			black_box((n.language().as_bytes().len(), n.script().is_some(), n.region().is_some()));
			black_box((n.variants().as_bytes().len(), n.extensions().as_bytes().len(), n.private_use().is_some()));
		});
	}
	if let Ok(v) = Variants::new(text) {
		lists(v, empty.1, None, m);
	}
	if let Ok(x) = Extensions::new(text) {
		lists(empty.0, x, None, m);
	}
	if let Ok(x) = Extension::new(text) {
		m("iterate an extension", &mut || {
			black_box(x.iter().map(|s| s.as_bytes().len()).sum::<usize>());
		});
	}
	if let Ok(p) = PrivateUse::new(text) {
		lists(empty.0, empty.1, Some(p), m);
	}
}

fn lists(v: &Variants, x: &Extensions, p: Option<&PrivateUse>, m: &mut dyn FnMut(&str, &mut dyn FnMut())) {
	m("iterate variants", &mut || {
		black_box(v.iter().map(|s| s.as_bytes().len()).sum::<usize>());
	});
	m("iterate variants backwards", &mut || {
		black_box(v.iter().rev().map(|s| s.as_bytes().len()).sum::<usize>());
	});
	m("iterate variants from both ends", &mut || {
		let mut i = v.iter();
		while let (Some(a), Some(b)) = (i.next(), i.next_back()) {
			black_box(a.as_bytes().len() + b.as_bytes().len());
		}
	});
	m("first and last variant", &mut || {
		black_box((v.first().is_some(), v.last().is_some(), v.iter().count(), v.iter().last().is_some()));
	});
	m("iterate extensions", &mut || {
		black_box(x.iter().map(|s| s.as_bytes().len()).sum::<usize>());
	});
	m("iterate extensions and their subtags", &mut || {
		black_box(x.iter().map(|e| e.singleton().unwrap() as usize + e.iter().map(|s| s.as_bytes().len()).sum::<usize>()).sum::<usize>());
	});
	m("count extensions", &mut || {
		black_box((x.iter().count(), x.iter().last().is_some(), x.iter().nth(1_000_000).is_some()));
	});
	for c in *b"auvzbQ9" {
		if let Ok(k) = Singleton::new(c) {
			m("look up an extension", &mut || {
				black_box(x.get(black_box(k)).map(|e| e.as_bytes().len()));
			});
			m("iterate a looked-up extension", &mut || {
				black_box(x.iter_extension(black_box(k)).map(|e| e.as_bytes().len()).sum::<usize>());
			});
		}
	}
	if let Some(p) = p {
		m("iterate private use", &mut || {
			black_box(p.iter().map(|s| s.as_bytes().len()).sum::<usize>());
		});
		m("count private use", &mut || {
			black_box((p.iter().count(), p.iter().last().is_some(), p.iter().nth(1_000_000).is_some()));
		});
	}
}

/// Measure every operation on every family at one size; the measurements come out as callgrind
/// dumps in the order of the lines written to `--out`.
pub fn main(a: &Args) -> i32 {
	let n = a.num("--size", 512) as usize;
	let seed = a.num("--seed", 1);
	let (shard, shards) = (a.num("--shard", 0), a.num("--shards", 1).max(1));
	let mut g = Gen::new(seed, dict(a.opt("--dict")), 2048);
	let fams = families(&mut g, a.num("--random", 0));
	let mut lines = String::new();
	for (i, f) in fams.iter().enumerate() {
		if i as u64 % shards != shard {
			continue;
		}
		let text = f.text(n);
		// Once outside the measurement, so that lazy set-up is not counted.
		ops(&text, &mut |_, op| op());
		let mut k = 0;
		ops(&text, &mut |name, op| {
			lines.push_str(&format!("[{i},{},{k},{},{}]\n", json_str(&f.name), json_str(name), text.len()));
			k += 1;
			request(CT + 1, 0);
			op();
			request(CT, 0);
		});
	}
	if let Some(p) = a.opt("--out")
		&& std::fs::write(p, lines).is_err()
	{
		return 2;
	}
	0
}
