//! C12: all constructors agree. C13: text survives conversions.

use crate::ensure;
use crate::model::{self, Prod};
use crate::run::{Case, Ctx, Monitor, Res, esc};
#[cfg(feature = "std")]
use crate::types::OTy;
use crate::types::{Ty, Verdict};
use crate::with_ty;
use langtag::*;

pub fn monitors() -> Vec<Monitor> {
	vec![
		Monitor {
			id: "C12",
			sys: |g, thorough, f| {
				for p in model::PRODS {
					f(Case::new(p, vec![]));
					for x in 0..=255u8 {
						f(Case::new(p, vec![x]));
					}
					let mut values: Vec<Vec<u8>> = (0..if thorough { 400 } else { 30 }).map(|_| g.of_sized(p, 0)).collect();
					if p == Prod::Grandfathered || p == Prod::LanguageTag {
						values.extend(model::GRANDFATHERED.iter().map(|g| g.0.as_bytes().to_vec()));
					}
					for v in values {
						for i in 0..=v.len() {
							for o in crate::gen_::Gen::ODD {
								f(Case::new(p, [&v[..i], o.as_bytes(), &v[i..]].concat()));
							}
							for _ in 0..4 {
								let b = g.bad_utf8(*v.get(i).unwrap_or(&b'a'));
								f(Case::new(p, [&v[..i], &b, &v[(i + 1).min(v.len())..]].concat()));
							}
							f(Case::new(p, v[..i].to_vec()));
						}
					}
				}
				for u in (0..0x3000u32).chain(0xFF00..0x1_0100).chain(0x1_D400..0x1_D800).chain(0xE_0000..0xE_0080) {
					if let Some(ch) = char::from_u32(u) {
						f(Case::new(Prod::Singleton, ch.to_string().into_bytes()));
					}
				}
			},
			make: |g, _| {
				let p = *g.rng.pick(&model::PRODS);
				let a = g.input(p);
				Case::new(p, a)
			},
			check: check12,
			quick: 1_000_000,
			thorough: 40_000_000,
			max_len: 1 << 16,
		},
		Monitor {
			id: "C13",
			sys: |g, thorough, f| {
				for p in model::PRODS {
					for k in 0..if thorough { 60 } else { 10 } {
						let a = g.of(p);
						for x in 0..=255u8 {
							f(Case { p: p as u8, a: a.clone(), c: vec![k as u8, x], ..Default::default() });
						}
					}
				}
				for (t, _) in model::GRANDFATHERED {
					f(Case::new(Prod::Grandfathered, t.as_bytes().to_vec()));
				}
				for x in 0..=127u8 {
					f(Case::new(Prod::Singleton, vec![x]));
				}
			},
			make: |g, _| {
				let p = if g.rng.chance(1, 4) { Prod::LanguageTag } else { *g.rng.pick(&model::PRODS) };
				let a = g.of(p);
				let a = g.recase(&a);
				let n = g.rng.range(1, 10);
				let c = (0..n).map(|_| g.rng.next() as u8).collect();
				Case { p: p as u8, a, c, ..Default::default() }
			},
			check: check13,
			quick: 800_000,
			thorough: 30_000_000,
			max_len: 1 << 14,
		},
	]
}

fn check12(ctx: &mut Ctx, c: &Case) -> Res {
	let (p, s) = (c.prod(), &c.a[..]);
	let name = p.name();
	// First verdict sets the standard: all others must agree with it.
	let mut first: Option<(&'static str, bool)> = None;
	let mut bad: Option<String> = None;
	let mut n = 0;
	let mut judge = |how: &'static str, v: Result<&[u8], (&[u8], bool)>| {
		n += 1;
		if bad.is_some() {
			return;
		}
		match first {
			None => first = Some((how, v.is_ok())),
			Some((h, ok)) if ok != v.is_ok() => {
				bad = Some(format!(
					"{name} {}: {h} {} it but {how} {} it",
					esc(s),
					if ok { "accepts" } else { "refuses" },
					if v.is_ok() { "accepts" } else { "refuses" }
				))
			}
			_ => (),
		}
		match v {
			Ok(t) if t != s => bad = Some(format!("{name} {how}: {} became {}", esc(s), esc(t))),
			Err((b, _)) if b != s => bad = Some(format!("{name} {how}: refusal of {} returned {}", esc(s), esc(b))),
			Err((_, false)) => bad = Some(format!("{name} {how}: refusal of {} returned a different reference", esc(s))),
			_ => (),
		}
	};
	match p {
		Prod::Singleton => {
			singleton(s, &mut judge)?;
		}
		Prod::Grandfathered => {
			fn g<'a>(r: Result<GrandfatheredLangTag, &'a [u8]>, s: &'a [u8]) -> Verdict<'a> {
				match r {
					Ok(_) => Ok(s),
					Err(b) => Err((b, core::ptr::eq(b.as_ptr(), s.as_ptr()))),
				}
			}
			judge("new(&[u8])", g(GrandfatheredLangTag::new(s), s));
			judge("TryFrom<&[u8]>", g(GrandfatheredLangTag::try_from(s).map_err(|e| e.0), s));
			let v = s.to_vec();
			match GrandfatheredLangTag::new(v.clone()) {
				Ok(_) => judge("new(Vec<u8>)", Ok(s)),
				Err(b) => judge("new(Vec<u8>)", Err((&b, true))),
			}
			if let Ok(t) = core::str::from_utf8(s) {
				judge("new(&str)", g(GrandfatheredLangTag::new(t).map_err(|e| e.as_bytes()), s));
				match GrandfatheredLangTag::new(t.to_string()) {
					Ok(_) => judge("new(String)", Ok(s)),
					Err(b) => judge("new(String)", Err((b.as_bytes(), true))),
				}
			}
			// All give the same entry.
			if let (Ok(a), Ok(b)) = (GrandfatheredLangTag::new(s), GrandfatheredLangTag::try_from(s))
				&& a != b
			{
				return Err(format!("{}: new gives {a}, try_from gives {b}", esc(s)));
			}
		}
		_ => with_ty!(p, T => {
			T::ctors(s, &mut judge);
			T::validators(s, &mut |how, ok| judge(how, if ok { Ok(s) } else { Err((s, true)) }));
			#[cfg(feature = "std")]
			T::octors(s, &mut judge);
		}, else {}),
	}
	if let Some(b) = bad {
		return Err(b);
	}
	ctx.n("verdicts compared", n);
	ctx.n(if matches!(first, Some((_, true))) { "accepted inputs" } else { "refused inputs" }, 1);
	ctx.saw(&[&[c.p], s]);
	Ok(())
}

fn singleton(s: &[u8], judge: &mut dyn FnMut(&'static str, Verdict)) -> Res {
	if s.len() == 1 {
		let b = s[0];
		match Singleton::new(b) {
			Ok(k) => judge("Singleton::new", Ok(&[k.unwrap()])),
			Err(e) => judge("Singleton::new", Err((&[e.0], true))),
		}
		match Singleton::try_from(b) {
			Ok(k) => judge("TryFrom<u8>", Ok(&[k.unwrap()])),
			Err(e) => judge("TryFrom<u8>", Err((&[e.0], true))),
		}
	}
	if let Ok(t) = core::str::from_utf8(s) {
		match Singleton::from_string(t) {
			Ok(k) => judge("from_string", Ok(&[k.unwrap()])),
			Err(e) => judge("from_string", Err((e.0.as_bytes(), core::ptr::eq(e.0, t)))),
		}
		#[cfg(feature = "std")]
		match t.parse::<Singleton>() {
			Ok(k) => judge("FromStr", Ok(&[k.unwrap()])),
			Err(e) => judge("FromStr", Err((e.0.as_bytes(), true))),
		}
		let mut it = t.chars();
		if let (Some(ch), None) = (it.next(), it.next()) {
			match Singleton::try_from(ch) {
				Ok(k) => judge("TryFrom<char>", Ok(&[k.unwrap()])),
				Err(e) => judge("TryFrom<char>", Err((e.0.to_string().as_bytes(), true))),
			}
		}
	}
	Ok(())
}

fn check13(ctx: &mut Ctx, c: &Case) -> Res {
	let (p, s) = (c.prod(), &c.a[..]);
	match p {
		Prod::Singleton => {
			let Some(&x) = s.first() else { return Ok(()) };
			if let Ok(k) = Singleton::new(x) {
				let copy = k;
				ensure!(k.unwrap() == x, "singleton {:?} unwraps to {:?}", x as char, k.unwrap() as char);
				ensure!(format!("{k}") == (x as char).to_string(), "singleton {:?} is displayed as {k}", x as char);
				ensure!(k.to_string().as_bytes() == [x] && copy.unwrap() == x, "singleton {:?} changed", x as char);
				let e = [x, b'-', b'a', b'A'];
				if let Ok(e) = Extension::new(&e) {
					ensure!(e.singleton().unwrap() == x, "singleton of {e} is {}", e.singleton());
				}
				ctx.saw(&[&[c.p], s]);
				ctx.n("singletons", 1);
			}
			Ok(())
		}
		Prod::Grandfathered => {
			let Some(i) = model::grandfathered(s) else { return Ok(()) };
			let text = model::GRANDFATHERED[i].0;
			if let Ok(g) = GrandfatheredLangTag::new(text) {
				let copy = g;
				let shown = [g.as_str().to_string(), String::from_utf8_lossy(g.as_bytes()).into_owned(), g.to_string(), format!("{copy}")];
				for t in shown {
					ensure!(t == text, "{text} is converted to {t}");
				}
				ctx.saw(&[&[c.p], s]);
				ctx.n("grandfathered entries", 1);
			}
			Ok(())
		}
		_ => with_ty!(p, T => chain::<T>(ctx, c), else Ok(())),
	}
}

#[cfg(not(feature = "std"))]
fn chain<T: Ty + ?Sized>(ctx: &mut Ctx, c: &Case) -> Res {
	let s = &c.a[..];
	let Some(x) = T::parse(s) else { return Ok(()) };
	let mut bad = None;
	x.texts(&mut |how, t| {
		if t != s && bad.is_none() {
			bad = Some(format!("{} {how}: {} became {}", T::PROD.name(), esc(s), esc(t)));
		}
	});
	ctx.n("chains", 1);
	bad.map_or(Ok(()), Err)
}

#[cfg(feature = "std")]
fn chain<T: OTy + ?Sized>(ctx: &mut Ctx, c: &Case) -> Res {
	use core::borrow::Borrow;
	let s = &c.a[..];
	let name = T::PROD.name();
	let Some(x) = T::parse(s) else { return Ok(()) };
	let mut log: Vec<&'static str> = vec![];
	let mut bad: Option<String> = None;
	let mut n = 0u64;
	let mut see = |log: &[&'static str], how: &'static str, t: &[u8]| {
		n += 1;
		if t != s && bad.is_none() {
			bad = Some(format!("{name} {}: after [{}] {how} gives {}", esc(s), log.join(", "), esc(t)));
		}
	};
	x.texts(&mut |how, t| see(&[], how, t));
	let Some(mut o) = T::obuf(s) else { return Ok(()) };
	T::otexts(&o, &mut |how, t| see(&[], how, t));
	for op in &c.c {
		let k = (op / 16) as usize;
		let again = |t: Vec<u8>| T::obuf(&t);
		match op % 16 {
			0 | 1 | 2 | 3 => {
				let (how, t) = T::ointo(o.clone(), k);
				log.push(how);
				see(&log, how, &t);
				match again(t) {
					Some(v) => o = v,
					None => return Err(format!("{name} {}: [{}] cannot be parsed back", esc(s), log.join(", "))),
				}
			}
			4 => {
				log.push("clone");
				let old = core::mem::replace(&mut o, T::obuf(s).ok_or("constructor changed its mind")?);
				o.clone_from(&old);
			}
			5 => {
				log.push("clone");
				o = o.clone();
			}
			6 => {
				log.push("deref.to_owned");
				o = (*o).to_owned();
			}
			7 => {
				log.push("Borrow.to_owned");
				let b: &T = o.borrow();
				o = b.to_owned();
			}
			8 => {
				log.push("AsRef.to_owned");
				let b: &T = o.as_ref();
				o = b.to_owned();
			}
			9 => {
				log.push("format");
				let t = if k % 2 == 0 { format!("{o}") } else { o.to_string() };
				see(&log, "Display", t.as_bytes());
				o = again(t.into_bytes()).ok_or_else(|| format!("{name} {}: displayed form cannot be parsed", esc(s)))?;
			}
			10 => {
				log.push("parse borrowed");
				let t = T::ob(&o).to_vec();
				let b = T::parse(&t).ok_or_else(|| format!("{name} {}: [{}] cannot be parsed back", esc(s), log.join(", ")))?;
				see(&log, "as_bytes", b.b());
				o = b.to_owned();
			}
			11 => {
				log.push("Cow");
				let cow: std::borrow::Cow<T> = if k % 2 == 0 { std::borrow::Cow::Borrowed(&*o) } else { std::borrow::Cow::Owned(o.clone()) };
				let v = cow.into_owned();
				o = v;
			}
			12 => {
				log.push("to_owned of borrowed input");
				o = x.to_owned();
			}
			13 => {
				log.push("clone_into");
				let mut t = o.clone();
				(*o).clone_into(&mut t);
				o = t;
			}
			_ => {
				log.push("texts");
				T::otexts(&o, &mut |how, t| see(&log, how, t));
			}
		}
		see(&log, "as_bytes", T::ob(&o));
	}
	T::otexts(&o, &mut |how, t| see(&log, how, t));
	x.texts(&mut |how, t| see(&log, how, t));
	ctx.n("texts compared", n);
	ctx.n("chains", 1);
	ctx.saw(&[&[c.p], s, &c.c]);
	bad.map_or(Ok(()), Err)
}
