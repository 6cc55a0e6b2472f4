//! C01, C02, C15: acceptance against two independent oracles.

use crate::abnf::{self, Dfa};
use crate::ensure;
use crate::gen_::{self, Gen};
use crate::model::{self, GRANDFATHERED, PRODS, Prod};
use crate::run::{Case, Ctx, Monitor, Res, esc};
use crate::types::{Ty, lib_accepts};
use crate::with_ty;
use langtag::*;
use std::sync::OnceLock;

pub fn dfa(p: Prod) -> &'static Dfa {
	static ALL: [OnceLock<Dfa>; 17] = [const { OnceLock::new() }; 17];
	ALL[p.idx()].get_or_init(|| abnf::compile(p))
}

pub fn monitors() -> Vec<Monitor> {
	vec![
		Monitor {
			id: "C01",
			sys: |g, t, f| sys(Prod::LanguageTag, g, t, f),
			make: |g, _| {
				let a = g.input(Prod::LanguageTag);
				Case::new(Prod::LanguageTag, a)
			},
			check,
			quick: 1_500_000,
			thorough: 60_000_000,
			max_len: 1 << 17,
		},
		Monitor {
			id: "C02",
			sys: |g, t, f| {
				for p in &PRODS[1..] {
					sys(*p, g, t, f);
				}
			},
			make: |g, _| {
				let p = PRODS[1 + g.rng.below(16)];
				let a = g.input(p);
				Case::new(p, a)
			},
			check,
			quick: 3_000_000,
			thorough: 80_000_000,
			max_len: 1 << 16,
		},
		Monitor {
			id: "C15",
			sys: sys15,
			make: |g, _| {
				let p = if g.rng.chance(1, 2) { Prod::Grandfathered } else { Prod::LanguageTag };
				let a = g.input(p);
				let a = if g.rng.chance(1, 3) { g.mutate(&a) } else { a };
				Case::new(Prod::Grandfathered, a)
			},
			check: check15,
			quick: 2_000_000,
			thorough: 60_000_000,
			max_len: 4096,
		},
	]
}

/// Conformance suite for one production.
fn sys(p: Prod, g: &mut Gen, thorough: bool, f: &mut dyn FnMut(Case)) {
	let d = dfa(p);
	let reps = d.classes();
	let mut suffixes = d.suffixes.clone();
	suffixes.push(Vec::new());
	// Symbols: every byte, odd characters, malformed and over-long encodings.
	let mut syms: Vec<Vec<u8>> = (0..=255u8).map(|b| vec![b]).collect();
	syms.extend(Gen::ODD.iter().map(|s| s.as_bytes().to_vec()));
	for c in [b'a', b'x', b'Z', b'7', b'-', b'm'] {
		syms.push(vec![0xC0 | (c >> 6), 0x80 | (c & 0x3f)]);
		syms.push(vec![0xE0, 0x80 | (c >> 6), 0x80 | (c & 0x3f)]);
		syms.push(vec![0xF0, 0x80, 0x80 | (c >> 6), 0x80 | (c & 0x3f)]);
		syms.push(vec![0xED, 0xA0 | (c & 0x1f), 0x80 | (c & 0x3f)]);
		syms.push(vec![0xF4, 0x90 | (c & 0xf), 0x80, 0x80 | (c & 0x3f)]);
	}
	for (q, acc) in d.access.iter().enumerate() {
		let upper: Vec<u8> = acc.to_ascii_uppercase();
		for (k, sym) in syms.iter().enumerate() {
			for suf in &suffixes {
				let base = if k % 2 == 0 || upper == *acc { acc } else { &upper };
				let mut w = base.clone();
				w.extend(sym);
				w.extend(if k % 3 == 0 { suf.to_ascii_uppercase() } else { suf.clone() });
				f(Case::new(p, w));
			}
		}
		// One extra state: two symbols between access word and suffix.
		for x in &reps {
			for y in &reps {
				for suf in &suffixes {
					if thorough || g.rng.chance(1, 8) {
						let mut w = acc.clone();
						w.extend([*x, *y]);
						w.extend(suf);
						f(Case::new(p, w));
					}
				}
			}
		}
		let _ = q;
	}
	// All strings of one or two bytes.
	f(Case::new(p, vec![]));
	for a in 0..=255u8 {
		f(Case::new(p, vec![a]));
		for b in 0..=255u8 {
			f(Case::new(p, vec![a, b]));
		}
	}
	// All short strings over four representative symbols.
	let max = if thorough { 9 } else { 7 };
	for n in 3..=max {
		for k in 0..4usize.pow(n) {
			let mut k = k;
			let w: Vec<u8> = (0..n)
				.map(|_| {
					let c = b"a1-x"[k % 4];
					k /= 4;
					c
				})
				.collect();
			f(Case::new(p, w));
		}
	}
	if p == Prod::LanguageTag || p == Prod::Langtag {
		registered(g, 100, &mut |v| f(Case::new(p, v)));
		let keep = if thorough { 1 } else { 4 };
		gen_::shapes(&mut |i, b| {
			if i % keep == 0 {
				f(Case::new(p, b.to_vec()));
			}
		});
	}
	// Growing valid and damaged inputs at every length up to a bound, then at selected lengths.
	let lens: Vec<usize> = (2..if thorough { 2100 } else { 600 })
		.chain((10..=17).flat_map(|k| [(1 << k) - 1, 1 << k, (1 << k) + 1]))
		.filter(|l| *l <= g.max_len)
		.collect();
	for l in lens {
		for _ in 0..2 {
			if let Some(v) = g.of_len(p, l) {
				f(Case::new(p, g.mutate(&v)));
				f(Case::new(p, v));
			}
		}
	}
}

fn check(ctx: &mut Ctx, c: &Case) -> Res {
	let p = c.prod();
	let input = &c.a[..];
	let want = model::accepts(p, input);
	assert_eq!(want, dfa(p).accepts(input), "harness oracles disagree on {p:?} {}", esc(input));
	let got = lib_accepts(p, input);
	ctx.n(if want { "accepted" } else { "rejected" }, 1);
	ctx.saw(&[&[c.p], input]);
	ensure!(got == want, "{}: {} is {}well-formed but was {}", p.name(), esc(input), if want { "" } else { "not " }, verb(got));
	match p {
		Prod::Singleton => {
			for b in input.iter().take(2) {
				let want = model::is_singleton(&[*b]);
				ensure!(Singleton::new(*b).is_ok() == want, "Singleton::new({b:#x}) was {}", verb(!want));
			}
			if let Ok(s) = core::str::from_utf8(input)
				&& let Some(ch) = s.chars().next()
			{
				let want = ch.is_ascii() && model::is_singleton(&[ch as u8]);
				ensure!(Singleton::try_from(ch).is_ok() == want, "Singleton::try_from({ch:?}) was {}", verb(!want));
			}
		}
		Prod::Grandfathered => {
			let got = GrandfatheredLangTag::try_from(input).is_ok();
			ensure!(got == want, "GrandfatheredLangTag::try_from({}) was {}", esc(input), verb(got));
		}
		_ => with_ty!(p, T => {
			if want {
				let v = T::parse(input).ok_or("constructor changed its mind")?;
				ensure!(v.b() == input, "{}: text of {} is {}", p.name(), esc(input), esc(v.b()));
			}
			let got = T::from_bytes(input).is_ok();
			ensure!(got == want, "{}::from_bytes({}) was {}", p.name(), esc(input), verb(got));
			if let Ok(s) = core::str::from_utf8(input) {
				let got = T::from_str(s).is_ok();
				ensure!(got == want, "{}::from_str({}) was {}", p.name(), esc(input), verb(got));
			}
			#[cfg(feature = "std")]
			{
				let got = <T as crate::types::OTy>::obuf(input).is_some();
				ensure!(got == want, "{}Buf::new({}) was {}", p.name(), esc(input), verb(got));
			}
		}, else {}),
	}
	Ok(())
}

fn verb(accepted: bool) -> &'static str {
	if accepted { "accepted" } else { "rejected" }
}

/// Every letter-case variant of every registered tag, and systematic near misses.
fn registered(g: &mut Gen, random: usize, f: &mut dyn FnMut(Vec<u8>)) {
	for (t, _) in GRANDFATHERED {
		let t = t.as_bytes();
		let letters: Vec<usize> = (0..t.len()).filter(|i| t[*i].is_ascii_alphabetic()).collect();
		for mask in 0..1u64 << letters.len() {
			let mut v = t.to_ascii_lowercase();
			for (k, i) in letters.iter().enumerate() {
				if mask >> k & 1 != 0 {
					v[*i] = v[*i].to_ascii_uppercase();
				}
			}
			f(v);
		}
		// Single-byte substitutions, insertions, deletions; truncations and extensions.
		for i in 0..=t.len() {
			for b in 0..=255u8 {
				let mut v = t.to_vec();
				v.insert(i, b);
				f(v);
				if i < t.len() {
					let mut v = t.to_vec();
					v[i] = b;
					f(v);
				}
			}
			if i < t.len() {
				let mut v = t.to_vec();
				v.remove(i);
				f(v);
				f(t[..i].to_vec());
				f(t[i..].to_vec());
			}
		}
		for (u, _) in GRANDFATHERED {
			f([t, b"-", u.as_bytes()].concat());
			f([&t[..t.len().min(2)], u.as_bytes()].concat());
		}
		for _ in 0..random {
			let m = g.mutate(t);
			f(m);
		}
	}
}

fn sys15(g: &mut Gen, thorough: bool, f: &mut dyn FnMut(Case)) {
	registered(g, if thorough { 20000 } else { 500 }, &mut |v| f(Case::new(Prod::Grandfathered, v)));
}

fn check15(ctx: &mut Ctx, c: &Case) -> Res {
	let input = &c.a[..];
	let want = model::grandfathered(input);
	ctx.n(if want.is_some() { "registered" } else { "not registered" }, 1);
	ctx.saw(&[input]);
	let got = GrandfatheredLangTag::new(input);
	match (want, got) {
		(None, Err(back)) => {
			ensure!(back == input, "refusal returned other input");
			let e = GrandfatheredLangTag::try_from(input);
			ensure!(matches!(e, Err(ref e) if e.0 == input), "try_from accepted {} or lost it", esc(input));
		}
		(None, Ok(g)) => return Err(format!("{} parsed as {}", esc(input), g)),
		(Some(i), Err(_)) => return Err(format!("{} (entry {i}) not recognised", esc(input))),
		(Some(i), Ok(g)) => {
			let (text, lang) = GRANDFATHERED[i];
			ensure!(g.as_str() == text, "{} gave the entry {:?}", esc(input), g.as_str());
			ensure!(g.as_bytes() == text.as_bytes(), "bytes of {text} are {}", esc(g.as_bytes()));
			ensure!(format!("{g}") == text, "{text} is displayed as {g}");
			ensure!(g.language().map(|l| l.as_str()) == lang, "language of {text} is {:?}", g.language().map(|l| l.as_str()));
			match GrandfatheredLangTag::try_from(input) {
				Ok(h) => ensure!(h == g, "try_from and new give different entries for {}", esc(input)),
				Err(_) => return Err(format!("try_from refused {}", esc(input))),
			}
			match GrandfatheredLangTag::new(text) {
				Ok(h) => ensure!(h == g, "{text} parses to another entry"),
				Err(_) => return Err(format!("{text} does not parse back")),
			}
			let Ok(tag) = LangTag::new(input) else {
				return Err(format!("{} is not a well-formed tag", esc(input)));
			};
			ensure!(tag.is_grandfathered(), "{} does not answer to is_grandfathered", esc(input));
			ensure!(tag.as_grandfathered() == Some(g), "{}: as_grandfathered differs", esc(input));
			ensure!(LangTag::new(text).is_ok(), "{text} is not a well-formed tag");
			// The published list.
			let listed = langtag::GRANDFATHERED.iter().filter(|x| **x == g).count();
			ensure!(listed == 1, "{text} is listed {listed} times");
			for (j, (u, _)) in GRANDFATHERED.iter().enumerate() {
				match GrandfatheredLangTag::new(*u) {
					Ok(h) => {
						ensure!((h == g) == (i == j), "{u} and {text}: equality is wrong");
						ensure!((h.cmp(&g) == core::cmp::Ordering::Equal) == (i == j), "{u} and {text}: order is wrong");
					}
					Err(_) => return Err(format!("{u} not recognised")),
				}
			}
			ensure!(langtag::GRANDFATHERED.len() == 26, "list has {} entries", langtag::GRANDFATHERED.len());
		}
	}
	Ok(())
}
