//! C16: letter case changes nothing but letter case. C21: answers depend on the text alone.

use crate::ensure;
use crate::model::{self, GRANDFATHERED, Prod, fold};
use crate::run::{Case, Ctx, Monitor, Res, esc};
use crate::types::{Ty, lib_accepts};
use crate::walk::{self, Digest, Sink, hash_of};
use crate::with_ty;
use core::hash::Hasher;
use langtag::*;

pub fn monitors() -> Vec<Monitor> {
	vec![
		Monitor {
			id: "C16",
			sys: |g, thorough, f| {
				for (t, _) in GRANDFATHERED {
					for _ in 0..if thorough { 2000 } else { 200 } {
						let (a, b) = (g.recase(t.as_bytes()), g.recase(t.as_bytes()));
						f(Case::pair(Prod::LanguageTag, a.clone(), b.clone()));
						f(Case::pair(Prod::Grandfathered, a, b));
					}
				}
				// One letter flipped, at every position of values of every type.
				for p in &model::PRODS[..15] {
					for _ in 0..if thorough { 4000 } else { 300 } {
						let v = g.of(*p);
						for i in 0..v.len().min(200) {
							if v[i].is_ascii_alphabetic() {
								let mut w = v.clone();
								w[i] ^= 0x20;
								f(Case::pair(*p, v.clone(), w));
							}
						}
					}
				}
				crate::gen_::shapes(&mut |i, b| {
					if thorough || i % 7 == 0 {
						f(Case::pair(Prod::LanguageTag, b.to_vec(), b.to_ascii_uppercase()))
					}
				});
			},
			make: |g, _| {
				let p = if g.rng.chance(1, 3) { Prod::LanguageTag } else { *g.rng.pick(&model::PRODS) };
				let a = if g.rng.chance(1, 6) { g.input(p) } else { g.of(p) };
				let b = g.recase(&a);
				Case::pair(p, a, b)
			},
			check: check16,
			quick: 500_000,
			thorough: 20_000_000,
			max_len: 2048,
		},
		Monitor {
			id: "C21",
			sys: |_, _, _| {},
			make: |g, _| {
				let p = if g.rng.chance(1, 2) { Prod::LanguageTag } else { *g.rng.pick(&model::PRODS) };
				let a = g.of(p);
				// Mostly of the same length, so that it can take the place of `a` in memory.
				let b = match g.rng.below(4) {
					0 => g.of(p),
					1 => g.recase(&a),
					_ => {
						let mut b = a.clone();
						for _ in 0..g.rng.range(1, 4) {
							if !b.is_empty() {
								let i = g.rng.below(b.len());
								if b[i] != b'-' {
									b[i] = if b[i].is_ascii_digit() { b'0' + g.rng.below(10) as u8 } else { b'a' + g.rng.below(26) as u8 };
								}
							}
						}
						b
					}
				};
				let c = g.of(p);
				let s = g.rng.next();
				Case { p: p as u8, a, b, c, s }
			},
			check: check21,
			quick: 120_000,
			thorough: 6_000_000,
			max_len: 1024,
		},
	]
}

#[derive(Default)]
struct Log(Vec<(&'static str, Option<Prod>, Vec<u8>)>);
impl Sink for Log {
	fn item(&mut self, op: &'static str, p: Prod, t: &[u8]) {
		self.0.push((op, Some(p), t.to_vec()));
	}
	fn num(&mut self, op: &'static str, v: u64) {
		self.0.push((op, None, v.to_le_bytes().to_vec()));
	}
}

fn check16(ctx: &mut Ctx, c: &Case) -> Res {
	let (p, a, b) = (c.prod(), &c.a[..], &c.b[..]);
	if fold(a) != fold(b) {
		return Ok(());
	}
	let (mut la, mut lb) = (Log::default(), Log::default());
	let (ra, rb) = (walk::any(p, a, &mut la), walk::any(p, b, &mut lb));
	let say = |r: bool| if r { "accepted" } else { "rejected" };
	ensure!(ra == rb, "{}: {} is {} but {} is {}", p.name(), esc(a), say(ra), esc(b), say(rb));
	// Also the parsers that the text could be for.
	for q in model::PRODS {
		let (x, y) = (lib_accepts(q, a), lib_accepts(q, b));
		ensure!(x == y, "{}: {} is {} but {} is {}", q.name(), esc(a), say(x), esc(b), say(y));
	}
	ctx.n("answers compared", la.0.len() as u64);
	if ra && a != b {
		ctx.saw(&[&[c.p], a, b]);
	}
	ensure!(la.0.len() == lb.0.len(), "{} and {}: {} answers against {}", esc(a), esc(b), la.0.len(), lb.0.len());
	for (x, y) in la.0.iter().zip(&lb.0) {
		ensure!(
			x.0 == y.0 && x.1 == y.1 && if x.1.is_some() { fold(&x.2) == fold(&y.2) } else { x.2 == y.2 },
			"{} on {} gives {} but on {} gives {} ({})",
			x.0,
			esc(a),
			esc(&x.2),
			esc(b),
			esc(&y.2),
			y.0
		);
		if let Some(q) = x.1 {
			let equal = match q {
				Prod::Singleton => match (Singleton::new(x.2[0]), Singleton::new(y.2[0])) {
					(Ok(s), Ok(t)) => s == t && hash_of(&s) == hash_of(&t) && s.cmp(&t).is_eq(),
					_ => true,
				},
				Prod::Grandfathered => GrandfatheredLangTag::new(&x.2[..]).ok() == GrandfatheredLangTag::new(&y.2[..]).ok(),
				_ => with_ty!(q, T => match (T::parse(&x.2), T::parse(&y.2)) {
					(Some(s), Some(t)) => s == t && hash_of(s) == hash_of(t) && s.cmp(t).is_eq(),
					_ => true,
				}, else true),
			};
			ensure!(equal, "{}: {} (from {}) and {} (from {}) do not compare equal", x.0, esc(&x.2), esc(a), esc(&y.2), esc(b));
		}
	}
	// The values themselves.
	with_ty!(p, T => {
		if let (Some(x), Some(y)) = (T::parse(a), T::parse(b)) {
			ensure!(x == y && x.cmp(y).is_eq() && hash_of(x) == hash_of(y), "{} {} and {} are not interchangeable", p.name(), esc(a), esc(b));
		}
	}, else {});
	if p == Prod::LanguageTag
		&& let (Ok(x), Ok(y)) = (LangTag::new(a), LangTag::new(b))
	{
		let mut asked = [false; 256];
		for (e, f) in x.extensions().iter().zip(y.extensions().iter()).take(a.len()) {
			ensure!(e.singleton() == f.singleton(), "singletons of {e} and {f} are not equal");
			// Each lookup reads the whole list, so each is made once.
			let key = f.singleton().unwrap() as usize % 256;
			if std::mem::replace(&mut asked[key], true) {
				continue;
			}
			ensure!(
				x.extensions().get(f.singleton()).map(|e| fold(e.as_bytes()))
					== y.extensions().get(e.singleton()).map(|e| fold(e.as_bytes())),
				"extension lookup in {} and {} by {} and {} differs",
				esc(a),
				esc(b),
				f.singleton(),
				e.singleton()
			);
		}
		ensure!(x.kind() == y.kind(), "{} is {:?} but {} is {:?}", esc(a), x.kind(), esc(b), y.kind());
	}
	Ok(())
}

/// Digest of every answer about `b` as `p`, including comparisons with `o`.
pub fn digest(p: Prod, b: &[u8], o: &[u8]) -> (u64, u64) {
	let mut d = Digest::default();
	if cfg!(miri) {
		// The interpreter is slow: the accessors, one comparison and one hash.
		let ok = walk::any(p, b, &mut d);
		d.num("accepted", ok as u64);
		with_ty!(p, T => {
			if let (Some(x), Some(y)) = (T::parse(b), T::parse(o)) {
				d.num("cmp", x.cmp(y) as i8 as u64);
				d.num("eq", (x == y) as u64);
			}
		}, else {});
		return (d.h.0, d.events);
	}
	core_answers(p, b, o, &mut d);
	#[cfg(feature = "std")]
	std_answers(p, b, o, &mut d);
	(d.h.0, d.events)
}

fn put(d: &mut Digest, how: &str, f: crate::types::Foreign) {
	d.h.write(how.as_bytes());
	d.h.write(format!("{f:?}").as_bytes());
	d.events += 1;
}

/// Answers available whatever the features.
fn core_answers(p: Prod, b: &[u8], o: &[u8], d: &mut Digest) {
	let ok = walk::any(p, b, d);
	d.num("accepted", ok as u64);
	with_ty!(p, T => {
		if let Some(x) = T::parse(b) {
			x.foreigners(o, &mut |how, f| {
				if !how.contains("Vec") && !how.contains("String") {
					put(d, how, f)
				}
			});
			x.texts(&mut |how, t| d.item(how, p, t));
			if let Some(y) = T::parse(o) {
				put(d, "T/T", crate::types::foreign::<T, T>(x, y));
				d.num("cmp", x.cmp(y) as i8 as u64);
				d.item("max", p, x.max(y).b());
			}
		}
		T::ctors(b, &mut |how, v| d.num(how, v.is_ok() as u64));
		T::validators(b, &mut |how, v| d.num(how, v as u64));
	}, else {});
}

/// Answers available with the standard library.
#[cfg(feature = "std")]
fn std_answers(p: Prod, b: &[u8], o: &[u8], d: &mut Digest) {
	use crate::types::OTy;
	with_ty!(p, T => {
		if let Some(x) = T::parse(b) {
			x.foreigners(o, &mut |how, f| {
				if how.contains("Vec") || how.contains("String") {
					put(d, how, f)
				}
			});
			if let Some(y) = T::parse(o) {
				T::mixed(x, y, &mut |how, f| put(d, how, f));
			}
		}
		if let Some(x) = <T as OTy>::obuf(b) {
			T::oforeigners(&x, o, &mut |how, f| put(d, how, f));
			T::otexts(&x, &mut |how, t| d.item(how, p, t));
			d.num("hash", hash_of(&x));
		}
		T::octors(b, &mut |how, v| d.num(how, v.is_ok() as u64));
	}, else {});
}

/// Digest of one group of operations: 0 available always, 1 with `std`, 2 with `serde`. A group
/// that this build does not have gives 0.
pub fn group_digest(group: u32, c: &Case) -> (u64, u64) {
	let mut d = Digest::default();
	let p = c.prod();
	match group {
		0 => {
			core_answers(p, &c.a, &c.b, &mut d);
			let mut scratch = Ctx::default();
			d.num("iterators", super::iter::check(&mut scratch, c).is_ok() as u64);
		}
		#[cfg(feature = "std")]
		1 => std_answers(p, &c.a, &c.b, &mut d),
		#[cfg(feature = "serde")]
		2 => super::serial::answers(p, &c.a, &mut d),
		_ => return (0, 0),
	}
	(d.h.0, d.events)
}

fn check21(ctx: &mut Ctx, c: &Case) -> Res {
	let p = c.prod();
	let (a, b, o) = (&c.a[..], &c.b[..], &c.c[..]);
	let say = |how: &str, t: &[u8]| Err(format!("{} {}: answers differ {how}", p.name(), esc(t)));
	// Concurrently first, on texts no one has looked at yet in this case.
	let threads = if ctx.miri { 2 } else { 4 };
	let rounds = if ctx.miri { 1 } else { 3 };
	let every = if ctx.miri { 1 } else { 40 };
	let mut conc: Vec<(u64, u64, u64)> = vec![];
	if c.s % every == 0 {
		conc = std::thread::scope(|sc| {
			let hs: Vec<_> = (0..threads)
				.map(|k| {
					sc.spawn(move || {
						let mut out = (0, 0, 0);
						for r in 0..rounds {
							if (k + r) % 2 == 0 {
								out.0 = digest(p, a, o).0;
								out.1 = digest(p, b, o).0;
							} else {
								out.1 = digest(p, b, o).0;
								out.0 = digest(p, a, o).0;
							}
							if !cfg!(miri) {
								out.2 = digest(p, o, a).0;
							}
						}
						out
					})
				})
				.collect();
			hs.into_iter()
				.map(|h| match h.join() {
					Ok(v) => v,
					Err(e) => std::panic::resume_unwind(e),
				})
				.collect()
		});
		ctx.n("concurrent histories", 1);
		ctx.n("concurrent digests", threads * rounds * 3);
	}
	// Reference answers.
	let (da, events) = digest(p, a, o);
	let (db, _) = digest(p, b, o);
	let (dc, _) = digest(p, o, a);
	for t in conc {
		if t.0 != da {
			return say("between threads", a);
		}
		if t.1 != db {
			return say("between threads", b);
		}
		if !ctx.miri && t.2 != dc {
			return say("between threads", o);
		}
	}
	// Shuffled repetition.
	let mut s = c.s | 1;
	for _ in 0..if ctx.miri { 1 } else { 6 } {
		s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
		let ok = match (s >> 33) % 3 {
			0 => digest(p, a, o).0 == da,
			1 => digest(p, b, o).0 == db,
			_ => digest(p, o, a).0 == dc,
		};
		if !ok {
			return say("on repetition", a);
		}
	}
	// A copy elsewhere, at an odd address.
	let mut copy = vec![b'#'; 1 + (s >> 40) as usize % 7];
	let at = copy.len();
	copy.extend(a);
	copy.extend(b"#-x");
	if digest(p, &copy[at..at + a.len()], o).0 != da {
		return say("at another address", a);
	}
	// The same memory holding first one text, then another.
	let mut buf = a.to_vec();
	if digest(p, &buf, o).0 != da {
		return say("in a buffer", a);
	}
	if b.len() <= buf.len() {
		buf[..b.len()].copy_from_slice(b);
		if digest(p, &buf[..b.len()], o).0 != db {
			return say("in a reused buffer", b);
		}
		buf.copy_from_slice(a);
		if digest(p, &buf, o).0 != da {
			return say("in a buffer reused twice", a);
		}
	}
	// Answers of one value held across operations on others.
	#[cfg(feature = "std")]
	with_ty!(p, T => {
		if let (Some(x), Some(y)) = (<T as crate::types::OTy>::obuf(a), <T as crate::types::OTy>::obuf(b)) {
			let h = hash_of(&x);
			let before = (x == y, x.cmp(&y));
			digest(p, b, a);
			let moved = Box::new(x);
			ensure!(hash_of(&*moved) == h && (*moved == y, (*moved).cmp(&y)) == before, "{} {}: answers differ after other operations", p.name(), esc(a));
		}
	}, else {});
	ctx.n("histories", 1);
	ctx.n("events in reference answers", events);
	if events > 8 {
		ctx.saw(&[&[c.p], a, b]);
	}
	Ok(())
}
