//! C09: everything handed out is valid. C11: nothing panics, hangs or breaks memory safety.

use crate::ensure;
use crate::model::{self, GRANDFATHERED, Prod};
use crate::run::{Case, Ctx, Monitor, Res, esc};
#[cfg(feature = "std")]
use crate::types::OTy;
use crate::types::{Foreign, Ty, Verdict, lib_accepts};
use crate::walk::{self, Sink};
use crate::with_ty;
use langtag::*;
use std::hint::black_box;

pub fn monitors() -> Vec<Monitor> {
	vec![
		Monitor {
			id: "C09",
			sys: |_, thorough, f| {
				crate::gen_::shapes(&mut |i, b| {
					if thorough || i % 3 == 0 {
						f(Case::new(Prod::LanguageTag, b.to_vec()))
					}
				});
				for (t, _) in GRANDFATHERED {
					f(Case::new(Prod::Grandfathered, t.as_bytes().to_vec()));
					f(Case::new(Prod::LanguageTag, t.as_bytes().to_vec()));
				}
			},
			make: |g, _| {
				let p = if g.rng.chance(1, 2) { Prod::LanguageTag } else { *g.rng.pick(&model::PRODS) };
				let a = g.of(p);
				Case::new(p, a)
			},
			check: check09,
			quick: 600_000,
			thorough: 30_000_000,
			max_len: 2048,
		},
		Monitor {
			id: "C11",
			sys: |g, thorough, f| {
				// Arbitrary and damaged bytes for every constructor, all short byte strings.
				for p in model::PRODS {
					f(Case::new(p, vec![]));
					for x in 0..=255u8 {
						f(Case::new(p, vec![x]));
						for y in 0..=255u8 {
							if thorough || g.rng.chance(1, 8) {
								f(Case::new(p, vec![x, y]));
							}
						}
					}
				}
				crate::gen_::shapes(&mut |i, b| {
					if thorough || i % 5 == 0 {
						f(Case::pair(Prod::LanguageTag, b.to_vec(), b.to_ascii_uppercase()))
					}
				});
			},
			make: |g, _| {
				let p = if g.rng.chance(1, 3) { Prod::LanguageTag } else { *g.rng.pick(&model::PRODS) };
				let a = match g.rng.below(3) {
					0 => g.input(p),
					1 => {
						// Valid text whose characters are disguised as ill-formed UTF-8.
						let mut v = g.of(p);
						if !v.is_empty() {
							let i = g.rng.below(v.len());
							let bad = g.bad_utf8(v[i]);
							v.splice(i..i + 1, bad);
						}
						v
					}
					_ => g.of(p),
				};
				let b = match g.rng.below(3) {
					0 => g.near(p, &a),
					1 => g.mutate(&a),
					_ => g.input(p),
				};
				let n = g.rng.below(8);
				let c = (0..n).map(|_| g.rng.next() as u8).collect();
				Case { p: p as u8, a, b, c, s: 0 }
			},
			check: check11,
			quick: 600_000,
			thorough: 30_000_000,
			max_len: 1 << 15,
		},
	]
}

#[derive(Default)]
struct Valid {
	bad: Option<String>,
	seen: u64,
	ops: std::collections::BTreeMap<&'static str, u64>,
}

impl Sink for Valid {
	fn item(&mut self, op: &'static str, p: Prod, t: &[u8]) {
		self.seen += 1;
		*self.ops.entry(op).or_insert(0) += 1;
		if self.bad.is_some() {
			return;
		}
		if core::str::from_utf8(t).is_err() {
			self.bad = Some(format!("{op} hands out {}, which is not UTF-8", esc(t)));
		} else if !model::accepts(p, t) {
			self.bad = Some(format!("{op} hands out {}, which is not a well-formed {}", esc(t), p.name()));
		} else if !lib_accepts(p, t) {
			self.bad = Some(format!("{op} hands out {}, which {} refuses to parse", esc(t), p.name()));
		} else {
			let equal = with_ty!(p, T => T::parse(t).is_some_and(|v| *v == *t), else true);
			if !equal {
				self.bad = Some(format!("{op} hands out {}, which parsed again is not equal", esc(t)));
			}
		}
	}
	fn num(&mut self, _: &'static str, _: u64) {}
}

fn check09(ctx: &mut Ctx, c: &Case) -> Res {
	let (p, s) = (c.prod(), &c.a[..]);
	if !model::accepts(p, s) {
		return Ok(());
	}
	let mut v = Valid::default();
	if !walk::any(p, s, &mut v) {
		return Ok(());
	}
	for (op, n) in &v.ops {
		ctx.n(op, *n);
	}
	if v.seen > 2 {
		ctx.saw(&[&[c.p], s]);
	}
	if let Some(b) = v.bad {
		return Err(format!("from {} {}: {b}", p.name(), esc(s)));
	}
	ensure!(lib_accepts(Prod::Variants, Variants::EMPTY.as_bytes()) && Variants::EMPTY == "", "Variants::EMPTY is {:?}", Variants::EMPTY);
	ensure!(
		lib_accepts(Prod::Extensions, Extensions::EMPTY.as_bytes()) && Extensions::EMPTY == "",
		"Extensions::EMPTY is {:?}",
		Extensions::EMPTY
	);
	// Values of different provenance compare equal to the text they show.
	if let Ok(t) = LangTag::new(s)
		&& let Some(l) = t.language()
	{
		let text = l.primary().as_str().to_string();
		ensure!(*l.primary() == text.as_str(), "primary language {text} is not equal to its own text");
	}
	Ok(())
}

#[derive(Default)]
struct Utf8(Option<String>, u64);
impl Sink for Utf8 {
	fn item(&mut self, op: &'static str, _: Prod, t: &[u8]) {
		self.1 += 1;
		if self.0.is_none() && core::str::from_utf8(t).is_err() {
			self.0 = Some(format!("{op} hands out a str that is not UTF-8: {}", esc(t)));
		}
	}
	fn num(&mut self, _: &'static str, v: u64) {
		self.1 += 1;
		black_box(v);
	}
}

/// A writer with room for some bytes.
struct Room(usize);
impl core::fmt::Write for Room {
	fn write_str(&mut self, s: &str) -> core::fmt::Result {
		black_box(core::str::from_utf8(s.as_bytes()).is_ok());
		self.0 = self.0.checked_sub(s.len()).ok_or(core::fmt::Error)?;
		Ok(())
	}
}

/// A value without a debugging form.
struct Only<'a, T>(&'a T);
impl<T: core::fmt::Display> core::fmt::Display for Only<'_, T> {
	fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result {
		self.0.fmt(f)
	}
}
impl<T: core::fmt::Display> core::fmt::Debug for Only<'_, T> {
	fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result {
		self.0.fmt(f)
	}
}

/// Show a value in several formats, with widths and precisions from `c`, and to a writer that runs full.
fn shown<T: core::fmt::Display + core::fmt::Debug + ?Sized>(x: &T, c: &[u8]) -> u64 {
	use core::fmt::Write;
	let n = |i: usize, d: usize| c.get(i).map_or(d, |b| if b % 4 == 0 { *b as usize } else { *b as usize % 16 });
	let (w, p) = (n(0, 12), n(1, 3));
	let mut r = Room(1 << 20);
	black_box(write!(r, "{x}{x:?}{x:#?}{x:w$}{x:.p$}{x:>w$.p$}{x:*^w$}{x:<0w$.p$}{x:#w$?}{x:+.0}").is_ok());
	for room in [0, p] {
		black_box(write!(Room(room), "{x:>w$}").is_ok());
		black_box(write!(Room(room), "{x:?}").is_ok());
	}
	14
}

/// Call everything there is on `a` (as type `p`), with `b` as the other operand.
fn everything(p: Prod, a: &[u8], b: &[u8], c: &[u8]) -> Result<u64, String> {
	let mut u = Utf8::default();
	walk::any(p, a, &mut u);
	let mut texts: Option<String> = None;
	let mut calls = 0u64;
	let mut see = |how: &'static str, t: &[u8]| {
		calls += 1;
		if texts.is_none() && core::str::from_utf8(t).is_err() {
			texts = Some(format!("{how} gives a str that is not UTF-8: {}", esc(t)));
		}
	};
	with_ty!(p, T => {
		let mut v = |_: &'static str, v: Verdict| {
			black_box(v.is_ok());
		};
		T::ctors(a, &mut v);
		T::validators(a, &mut |_, v| {
			black_box(v);
		});
		let mut fo = |_: &'static str, f: Foreign| {
			black_box(f.eq);
		};
		#[cfg(feature = "std")]
		T::octors(a, &mut v);
		if let Some(x) = T::parse(a) {
			x.texts(&mut see);
			x.foreigners(b, &mut fo);
			black_box(shown(x, c));
			if let Some(y) = T::parse(b) {
				black_box((x == y, x.cmp(y), x < y, x.max(y).b().len()));
				#[cfg(feature = "std")]
				T::mixed(x, y, &mut fo);
			}
			#[cfg(feature = "std")]
			if let Some(o) = T::obuf(a) {
				T::otexts(&o, &mut see);
				T::oforeigners(&o, b, &mut fo);
				black_box(shown(&o, c));
				for k in 0..4 {
					black_box(T::ointo(o.clone(), k).1.len());
				}
			}
		} else {
			black_box(format!("{:?}", T::from_bytes(a).err().map(|e| e.0.len())).len());
		}
	}, else {
		match p {
			Prod::Singleton => {
				for x in a {
					black_box((Singleton::new(*x).map(|s| shown(&s, c)).is_ok(), Singleton::try_from(*x).is_ok()));
				}
				if let Ok(s) = core::str::from_utf8(a) {
					black_box(Singleton::from_string(s).map_err(|e| shown(&e, c)).is_ok());
					for ch in s.chars() {
						black_box(Singleton::try_from(ch).map_err(|e| shown(&e, c)).is_ok());
					}
				}
			}
			_ => {
				if let Ok(g) = GrandfatheredLangTag::new(a) {
					black_box((g == g, g.cmp(&g), shown(&Only(&g), c), g.language().map(|l| l.as_str().len())));
					see("GrandfatheredLangTag::as_str", g.as_str().as_bytes());
				}
				black_box(GrandfatheredLangTag::try_from(a).map_err(|e| e.0.len()).is_ok());
			}
		}
	});
	#[cfg(feature = "serde")]
	if let Some(n) = super::serial::touch(p, a) {
		calls += n;
	}
	// Random iterator operations, verdicts ignored: only that they return.
	let case = Case { p: p as u8, a: a.to_vec(), c: c.to_vec(), ..Default::default() };
	let mut scratch = Ctx::default();
	let _ = super::iter::check(&mut scratch, &case);
	if let Some(t) = texts.or(u.0) {
		return Err(t);
	}
	Ok(calls + u.1)
}

fn check11(ctx: &mut Ctx, c: &Case) -> Res {
	// Exactly sized heap copies, so that reads beyond the text leave the allocation.
	let a: Box<[u8]> = c.a.clone().into_boxed_slice();
	let b: Box<[u8]> = c.b.clone().into_boxed_slice();
	let p = c.prod();
	let n = everything(p, &a, &b, &c.c).map_err(|e| format!("from {} {}: {e}", p.name(), esc(&a)))?;
	ctx.n("operations that returned", n);
	ctx.n(if lib_accepts(p, &a) { "accepted inputs" } else { "rejected inputs" }, 1);
	if a.len() > 1 {
		ctx.saw(&[&[c.p], &a, &b]);
	}
	Ok(())
}
