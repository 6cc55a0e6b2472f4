//! C03, C04, C06, C10: what a tag is cut into, and where the pieces lie.

use crate::ensure;
use crate::gen_::{self, Gen};
use crate::model::{self, GRANDFATHERED, Prod};
use crate::run::{Case, Ctx, Monitor, Res, esc};
use crate::types::Ty;
use crate::walk::{self, hash_of};
use crate::with_ty;
use langtag::*;
use std::ops::Range;

const STRUCTURED: [Prod; 8] = [
	Prod::LanguageTag, Prod::Langtag, Prod::Language, Prod::Extlang, Prod::Variants, Prod::Extension, Prod::Extensions,
	Prod::Privateuse,
];

pub fn monitors() -> Vec<Monitor> {
	vec![
		Monitor {
			id: "C03",
			sys: sys_shapes,
			make: |g, _| {
				let p = [Prod::LanguageTag, Prod::Langtag, Prod::Language][[0, 0, 0, 0, 0, 1, 2][g.rng.below(7)]];
				let a = g.of(p);
				Case::new(p, a)
			},
			check: check03,
			quick: 1_500_000,
			thorough: 60_000_000,
			max_len: 4096,
		},
		Monitor {
			id: "C04",
			sys: |g, t, f| {
				for (t, _) in GRANDFATHERED {
					for _ in 0..200 {
						let a = g.recase(t.as_bytes());
						f(Case::new(Prod::LanguageTag, a));
					}
					// Tags that begin like a grandfathered one.
					for s in ["-x-a", "-a-bb", "-latn", "-us", "-1996", "-abcde", "-nan", "-x-1"] {
						f(Case::new(Prod::LanguageTag, [t.as_bytes(), s.as_bytes()].concat()));
					}
				}
				sys_shapes(g, t, f)
			},
			make: |g, _| {
				let a = match g.rng.below(4) {
					0 => g.of(Prod::Privateuse),
					1 => {
						let a = g.of(Prod::Grandfathered);
						g.near(Prod::LanguageTag, &a)
					}
					_ => g.of(Prod::LanguageTag),
				};
				Case::new(Prod::LanguageTag, a)
			},
			check: check04,
			quick: 1_500_000,
			thorough: 60_000_000,
			max_len: 4096,
		},
		Monitor {
			id: "C06",
			sys: sys06,
			make: |g, _| {
				let mut a = g.of(Prod::Extensions);
				if a.is_empty() {
					a = g.of(Prod::Extensions);
				}
				Case::new(Prod::Extensions, a)
			},
			check: check06,
			quick: 600_000,
			thorough: 30_000_000,
			max_len: 4096,
		},
		Monitor {
			id: "C10",
			sys: sys_shapes,
			make: |g, _| {
				let p = if g.rng.chance(1, 2) { Prod::LanguageTag } else { *g.rng.pick(&STRUCTURED) };
				if g.rng.chance(1, 8) {
					let p = *g.rng.pick(&model::PRODS[..15]);
					let a = g.input(p);
					let b = g.input(p);
					Case::pair(p, a, b)
				} else {
					let a = g.of(p);
					let b = g.near(p, &a);
					Case::pair(p, a, b)
				}
			},
			check: check10,
			quick: 800_000,
			thorough: 30_000_000,
			max_len: 4096,
		},
	]
}

fn sys_shapes(_: &mut Gen, thorough: bool, f: &mut dyn FnMut(Case)) {
	gen_::shapes(&mut |i, b| {
		if thorough || i % 2 == 0 || i < 20_000 {
			f(Case::new(Prod::LanguageTag, b.to_vec()))
		}
	});
}

/// (operation, expected range, answer, whether an absent part is reported as an empty list)
type Emit<'e> = dyn FnMut(&'static str, Option<Range<usize>>, Option<&[u8]>, bool) + 'e;

fn seq<'a, T: ?Sized + Ty>(
	op: &'static str,
	mut it: impl Iterator<Item = &'a T>,
	want: &[Range<usize>],
	emit: &mut Emit,
) {
	for w in want {
		emit(op, Some(w.clone()), it.next().map(|t| t.b()), false);
	}
	emit(op, None, it.next().map(|t| t.b()), false);
}

fn shift(r: &[Range<usize>], by: usize) -> Vec<Range<usize>> {
	r.iter().map(|r| r.start + by..r.end + by).collect()
}

fn language_parts(l: &Language, at: usize, n: &model::Normal, emit: &mut Emit) {
	let sh = |r: &Range<usize>| r.start + at..r.end + at;
	emit("Language::primary", Some(sh(&n.primary)), Some(l.primary().as_bytes()), false);
	emit("Language::extension", n.extlang.as_ref().map(sh), l.extension().map(|e| e.as_bytes()), false);
	seq("Language::extension_subtags", l.extension_subtags(), &shift(&n.extlangs, at), emit);
	if let Some(e) = l.extension() {
		seq("LanguageExtension::iter", e.iter(), &shift(&n.extlangs, at), emit);
	}
}

fn variants_parts(v: &Variants, list: &[Range<usize>], emit: &mut Emit) {
	emit("Variants::first", list.first().cloned(), v.first().map(|v| v.as_bytes()), false);
	emit("Variants::last", list.last().cloned(), v.last().map(|v| v.as_bytes()), false);
	seq("Variants::iter", v.iter(), list, emit);
	let rev: Vec<_> = list.iter().rev().cloned().collect();
	seq("Variants::iter rev", v.iter().rev(), &rev, emit);
}

fn extension_parts(e: &Extension, m: &model::Ext, emit: &mut Emit) {
	seq("Extension::iter", e.iter(), &m.subtags, emit);
}

fn extensions_parts(x: &Extensions, list: &[model::Ext], s: &[u8], emit: &mut Emit) {
	let ranges: Vec<_> = list.iter().map(|e| e.range.clone()).collect();
	seq("Extensions::iter", x.iter(), &ranges, emit);
	for (e, m) in x.iter().zip(list) {
		extension_parts(e, m, emit);
		let k = e.singleton();
		let first = list.iter().find(|o| model::fold_byte(s[o.range.start]) == model::fold_byte(s[m.range.start]));
		emit("Extensions::get", first.map(|o| o.range.clone()), x.get(k).map(|e| e.as_bytes()), false);
		seq("Extensions::iter_extension", x.iter_extension(k), first.map(|o| &o.subtags[..]).unwrap_or(&[]), emit);
	}
}

fn private_parts(p: &PrivateUse, list: &[Range<usize>], emit: &mut Emit) {
	seq("PrivateUse::iter", p.iter(), list, emit);
}

fn normal_parts(t: &NormalLangTag, n: &model::Normal, s: &[u8], emit: &mut Emit) {
	emit("Normal::language", Some(n.language.clone()), Some(t.language().as_bytes()), false);
	emit("Normal::script", n.script.clone(), t.script().map(|x| x.as_bytes()), false);
	emit("Normal::region", n.region.clone(), t.region().map(|x| x.as_bytes()), false);
	emit("Normal::variants", n.variants.clone(), Some(t.variants().as_bytes()), true);
	emit("Normal::extensions", n.extensions.clone(), Some(t.extensions().as_bytes()), true);
	emit("Normal::private_use", n.private.clone(), t.private_use().map(|x| x.as_bytes()), false);
	seq("Normal::private_use_subtags", t.private_use_subtags(), &n.private_list, emit);
	language_parts(t.language(), 0, n, emit);
	variants_parts(t.variants(), &n.variant_list, emit);
	extensions_parts(t.extensions(), &n.extension_list, s, emit);
	if let Some(p) = t.private_use() {
		private_parts(p, &n.private_list, emit);
	}
}

/// Report every component of `s` (parsed as `p`) with the range the model gives it. `None` if
/// the library does not accept `s`.
fn parts(p: Prod, s: &[u8], m: &Option<model::Normal>, emit: &mut Emit) -> Option<()> {
	let none = model::Normal::default();
	match p {
		Prod::LanguageTag => {
			let t = LangTag::new(s).ok()?;
			let n = m.as_ref();
			emit("LangTag::language", n.map(|n| n.language.clone()), t.language().map(|x| x.as_bytes()), false);
			let n0 = n.unwrap_or(&none);
			emit("LangTag::script", n0.script.clone(), t.script().map(|x| x.as_bytes()), false);
			emit("LangTag::region", n0.region.clone(), t.region().map(|x| x.as_bytes()), false);
			emit("LangTag::variants", n0.variants.clone(), Some(t.variants().as_bytes()), true);
			emit("LangTag::extensions", n0.extensions.clone(), Some(t.extensions().as_bytes()), true);
			emit("LangTag::private_use", n0.private.clone(), t.private_use().map(|x| x.as_bytes()), false);
			seq("LangTag::private_use_subtags", t.private_use_subtags(), &n0.private_list, emit);
			emit("LangTag::as_normal", n.map(|_| 0..s.len()), t.as_normal().map(|x| x.as_bytes()), false);
			if let (Some(l), Some(n)) = (t.language(), n) {
				language_parts(l, 0, n, emit);
			}
			variants_parts(t.variants(), &n0.variant_list, emit);
			extensions_parts(t.extensions(), &n0.extension_list, s, emit);
			if let (Some(t), Some(n)) = (t.as_normal(), n) {
				normal_parts(t, n, s, emit);
			}
			match t.as_typed() {
				TypedLangTag::Normal(t) => {
					emit("as_typed", n.map(|_| 0..s.len()), Some(t.as_bytes()), false);
					if let Some(n) = n {
						normal_parts(t, n, s, emit);
					}
				}
				TypedLangTag::PrivateUse(t) => {
					emit("as_typed", Some(0..s.len()), Some(t.as_bytes()), false);
					if let Some(n) = model::parse_part(Prod::Privateuse, s) {
						private_parts(t, &n.private_list, emit);
					}
				}
				TypedLangTag::Grandfathered(_) => (),
			}
		}
		Prod::Langtag => {
			let t = NormalLangTag::new(s).ok()?;
			normal_parts(t, m.as_ref()?, s, emit);
		}
		Prod::Language => language_parts(Language::new(s).ok()?, 0, m.as_ref()?, emit),
		Prod::Extlang => {
			seq("LanguageExtension::iter", LanguageExtension::new(s).ok()?.iter(), &m.as_ref()?.extlangs, emit)
		}
		Prod::Variants => variants_parts(Variants::new(s).ok()?, &m.as_ref()?.variant_list, emit),
		Prod::Extension => extension_parts(Extension::new(s).ok()?, &m.as_ref()?.extension_list[0], emit),
		Prod::Extensions => extensions_parts(Extensions::new(s).ok()?, &m.as_ref()?.extension_list, s, emit),
		Prod::Privateuse => private_parts(PrivateUse::new(s).ok()?, &m.as_ref()?.private_list, emit),
		_ => {
			with_ty!(p, T => { T::parse(s)?; }, else return None)
		}
	}
	Some(())
}

fn model_of(p: Prod, s: &[u8]) -> Option<model::Normal> {
	match p {
		Prod::LanguageTag | Prod::Langtag => model::parse_normal(s),
		_ => model::parse_part(p, s),
	}
}

fn check03(ctx: &mut Ctx, c: &Case) -> Res {
	let (p, s) = (c.prod(), &c.a[..]);
	if !model::accepts(p, s) {
		return Ok(());
	}
	let m = model_of(p, s);
	if let Some(n) = &m
		&& p != Prod::Language
	{
		// The model's own cut must be lossless.
		let mut joined: Vec<&[u8]> = vec![&s[n.language.clone()]];
		for r in [&n.script, &n.region, &n.variants, &n.extensions, &n.private].into_iter().flatten() {
			joined.push(&s[r.clone()]);
		}
		assert_eq!(joined.join(&b'-'), s, "model is not lossless");
	}
	let mut bad: Option<String> = None;
	let mut events = 0;
	let ok = parts(p, s, &m, &mut |op, want, got, list| {
		// Element by element iteration and lookup are judged by C05 and C06.
		if op.contains("iter") || op.contains("subtags") || op.contains("get") || op.contains("::first") || op.contains("::last") {
			return;
		}
		events += 1;
		let same = match (&want, got) {
			(None, None) => true,
			(None, Some(g)) => list && g.is_empty(),
			(Some(r), Some(g)) => g == &s[r.clone()],
			(Some(_), None) => false,
		};
		if !same && bad.is_none() {
			bad = Some(format!(
				"{op} on {}: expected {}, got {}",
				esc(s),
				want.map(|r| esc(&s[r])).unwrap_or("nothing".into()),
				got.map(esc).unwrap_or("nothing".into())
			));
		}
	});
	if let Some(b) = bad {
		return Err(b);
	}
	if ok.is_none() {
		// Whether it should have been accepted is for C01 and C02.
		ctx.n("well-formed but rejected", 1);
		return Ok(());
	}
	ctx.n("component answers judged", events);
	ctx.n(if m.is_some() { "normal tags" } else { "other tags" }, 1);
	if events > 5 {
		ctx.saw(&[&[c.p], s]);
	}
	// Lossless, judged on the library's own answers.
	if let Ok(t) = NormalLangTag::new(s)
		&& p != Prod::Language
	{
		let mut j: Vec<&[u8]> = vec![t.language().as_bytes()];
		j.extend(t.script().map(|x| x.as_bytes()));
		j.extend(t.region().map(|x| x.as_bytes()));
		j.extend(Some(t.variants().as_bytes()).filter(|v| !v.is_empty()));
		j.extend(Some(t.extensions().as_bytes()).filter(|v| !v.is_empty()));
		j.extend(t.private_use().map(|x| x.as_bytes()));
		ensure!(j.join(&b'-') == s, "parts of {} join to {}", esc(s), esc(&j.join(&b'-')));
	}
	Ok(())
}

fn check04(ctx: &mut Ctx, c: &Case) -> Res {
	let s = &c.a[..];
	let Some(kind) = model::kind(s) else { return Ok(()) };
	let Ok(t) = LangTag::new(s) else { return Ok(()) };
	let normal = model::parse_normal(s);
	let private = model::parse_part(Prod::Privateuse, s).is_some();
	let gf = model::grandfathered(s);
	let want = match kind {
		model::Kind::Normal => Kind::Normal,
		model::Kind::PrivateUse => Kind::PrivateUse,
		model::Kind::Grandfathered => Kind::Grandfathered,
	};
	ctx.n(
		match (kind, gf) {
			(model::Kind::Normal, None) => "normal",
			(model::Kind::Normal, Some(_)) => "regular grandfathered (normal)",
			(model::Kind::PrivateUse, _) => "private use",
			(model::Kind::Grandfathered, _) => "irregular grandfathered",
		},
		1,
	);
	ctx.saw(&[s]);
	let flags = |k: Kind| [k.is_normal(), k.is_private_use(), k.is_grandfathered()];
	let wf = [want == Kind::Normal, want == Kind::PrivateUse, want == Kind::Grandfathered];
	let w = esc(s);
	ensure!(t.kind() == want, "kind of {w} is {:?}, expected {want:?}", t.kind());
	ensure!(flags(t.kind()) == wf, "Kind predicates of {w}: {:?}", flags(t.kind()));
	let ty = t.as_typed();
	ensure!(ty.kind() == want, "typed kind of {w} is {:?}, expected {want:?}", ty.kind());
	let tf = [ty.is_normal(), ty.is_private_use(), ty.is_grandfathered()];
	ensure!(tf == wf, "typed predicates of {w}: {tf:?}, expected {wf:?}");
	let views = [
		ty.as_normal().map(|x| x.as_bytes().to_vec()),
		ty.as_private_use().map(|x| x.as_bytes().to_vec()),
		ty.as_grandfathered().map(|x| x.as_bytes().to_vec()),
	];
	for i in 0..3 {
		let want = wf[i].then(|| match (i, gf) {
			(2, Some(g)) => GRANDFATHERED[g].0.as_bytes(),
			_ => s,
		});
		ensure!(views[i].as_deref() == want, "typed view {i} of {w}: {:?}", views[i].as_deref().map(esc));
	}
	match ty {
		TypedLangTag::Normal(n) => ensure!(wf[0] && n.as_bytes() == s, "typed view of {w} is normal {}", n),
		TypedLangTag::PrivateUse(n) => ensure!(wf[1] && n.as_bytes() == s, "typed view of {w} is private use {}", n),
		TypedLangTag::Grandfathered(n) => {
			ensure!(wf[2] && gf.map(|g| GRANDFATHERED[g].0) == Some(n.as_str()), "typed view of {w} is grandfathered {}", n)
		}
	}
	let member = [normal.is_some(), private, gf.is_some()];
	let got = [t.is_normal(), t.is_private_use(), t.is_grandfathered()];
	ensure!(got == member, "is_normal/is_private_use/is_grandfathered of {w}: {got:?}, expected {member:?}");
	ensure!(t.as_normal().map(|x| x.as_bytes()) == member[0].then_some(s), "as_normal of {w}");
	ensure!(t.as_private_use().map(|x| x.as_bytes()) == member[1].then_some(s), "as_private_use of {w}");
	ensure!(
		t.as_grandfathered().map(|x| x.as_str().to_string()) == gf.map(|g| GRANDFATHERED[g].0.to_string()),
		"as_grandfathered of {w}: {:?}",
		t.as_grandfathered().map(|x| x.as_str().to_string())
	);
	let lang = normal.as_ref().map(|n| &s[n.language.clone()]);
	ensure!(t.language().map(|l| l.as_bytes()) == lang, "language of {w}: {:?}", t.language().map(|l| l.as_str()));
	let l = t.as_typed();
	ensure!(l.language().map(|l| l.as_bytes()) == lang, "typed language of {w}: {:?}", l.language().map(|l| l.as_str()));
	// Typed views put together by hand, each from a form this tag has.
	let gv = t.as_grandfathered();
	let made = [
		t.as_normal().map(TypedLangTag::Normal),
		t.as_private_use().map(TypedLangTag::PrivateUse),
		gv.map(TypedLangTag::Grandfathered),
	];
	for (i, v) in made.iter().enumerate() {
		let Some(v) = v else { continue };
		ctx.n("typed views put together by hand", 1);
		let k = [v.is_normal(), v.is_private_use(), v.is_grandfathered()];
		ensure!((0..3).all(|j| k[j] == (i == j)) && flags(v.kind()) == k, "form {i} of {w} as a typed view is of kind {:?}, {k:?}", v.kind());
		let texts = [
			v.as_normal().map(|x| x.as_bytes().to_vec()),
			v.as_private_use().map(|x| x.as_bytes().to_vec()),
			v.as_grandfathered().map(|x| x.as_str().as_bytes().to_vec()),
		];
		for (j, x) in texts.iter().enumerate() {
			let want = (i == j).then(|| if i == 2 { GRANDFATHERED[gf.unwrap_or(0)].0.as_bytes() } else { s });
			ensure!(x.as_deref() == want, "form {i} of {w} as a typed view gives {:?} as form {j}", x.as_deref().map(esc));
		}
		// A registered entry reports its language in the registered spelling.
		let got = v.language().map(|l| l.as_bytes().to_ascii_lowercase());
		let want = match i {
			0 => lang.map(|l| l.to_ascii_lowercase()),
			1 => None,
			_ => gf.and_then(|g| GRANDFATHERED[g].1).map(|l| l.as_bytes().to_vec()),
		};
		ensure!(got == want, "form {i} of {w} as a typed view has the language {:?}", got.as_deref().map(esc));
	}
	Ok(())
}

/// All lists of up to three extensions over a tiny alphabet that invites confusion between
/// singletons and subtags.
fn sys06(_: &mut Gen, thorough: bool, f: &mut dyn FnMut(Case)) {
	let exts = ["a-aa", "A-bb", "b-a1", "a-bb-aa", "B-aaaaaaaa-b1", "1-aa", "b-1a-ab-ba", "u-ca-gregory", "U-aa", "0-00"];
	let mut all: Vec<String> = exts.iter().map(|s| s.to_string()).collect();
	let two: Vec<String> = exts.iter().flat_map(|a| exts.iter().map(move |b| format!("{a}-{b}"))).collect();
	all.extend(two.iter().cloned());
	for a in &two {
		for b in exts {
			all.push(format!("{a}-{b}"));
		}
	}
	if thorough {
		for a in &two {
			for b in &two {
				all.push(format!("{a}-{b}"));
			}
		}
	}
	all.push(String::new());
	for c in (b'0'..=b'9').chain(b'a'..=b'z').chain(b'A'..=b'Z') {
		if c | 0x20 != b'x' {
			all.push(format!("{}-{}{}", c as char, c as char, c as char));
			all.push(format!("a-{0}{0}-{0}{0}{0}-{0}-a{0}", c as char));
		}
	}
	for a in all {
		f(Case::new(Prod::Extensions, a.into_bytes()));
	}
}

fn check06(ctx: &mut Ctx, c: &Case) -> Res {
	let s = &c.a[..];
	let Some(m) = model::parse_part(Prod::Extensions, s) else { return Ok(()) };
	let Ok(x) = Extensions::new(s) else { return Ok(()) };
	// The same list inside a tag.
	let tag = [b"en-".as_slice(), s].concat();
	let in_tag = if s.is_empty() { None } else { LangTag::new(&tag).ok().map(|t| t.extensions()) };
	ctx.n("lists", 1);
	if m.extension_list.len() > 1 {
		ctx.saw(&[s]);
	}
	for k in 0..128u8 {
		let Ok(sing) = Singleton::new(k) else {
			ensure!(!model::is_singleton(&[k]), "{:?} is not accepted as a singleton", k as char);
			continue;
		};
		let want = m.extension_list.iter().find(|e| model::fold_byte(s[e.range.start]) == model::fold_byte(k));
		let want_text = want.map(|e| &s[e.range.clone()]);
		ctx.n(if want.is_some() { "lookups that hit" } else { "lookups that miss" }, 1);
		let wants: Vec<&[u8]> = want.map(|e| e.subtags.iter().map(|r| &s[r.clone()]).collect()).unwrap_or_default();
		for x in [Some(x), in_tag].into_iter().flatten() {
			let got = x.get(sing).map(|e| e.as_bytes());
			ensure!(
				got == want_text,
				"get({:?}) in {}: expected {}, got {}",
				k as char,
				esc(s),
				want_text.map(esc).unwrap_or("nothing".into()),
				got.map(esc).unwrap_or("nothing".into())
			);
			let cap = s.len() + 2;
			let gots: Vec<&[u8]> = x.iter_extension(sing).take(cap).map(|t| t.as_bytes()).collect();
			ensure!(gots == wants, "iter_extension({:?}) in {}: {} subtags, expected {}", k as char, esc(s), gots.len(), wants.len());
			if let Some(e) = x.get(sing) {
				ensure!(e.singleton() == sing, "extension found for {:?} in {} has singleton {}", k as char, esc(s), e.singleton());
				ensure!(
					model::fold_byte(e.singleton().unwrap()) == model::fold_byte(k),
					"extension found for {:?} in {} has singleton {}", k as char, esc(s), e.singleton()
				);
				ensure!(hash_of(&e.singleton()) == hash_of(&sing), "equal singletons hash differently ({:?} in {})", k as char, esc(s));
				let direct: Vec<&[u8]> = e.iter().take(cap).map(|t| t.as_bytes()).collect();
				ensure!(direct == wants, "iter() of extension {:?} in {}", k as char, esc(s));
			}
		}
	}
	// Every extension can be found through its own singleton.
	for e in x.iter().take(s.len() + 2) {
		let sing = e.singleton();
		let first = m.extension_list.iter().find(|o| model::fold_byte(s[o.range.start]) == model::fold_byte(e.as_bytes()[0]));
		ensure!(
			x.get(sing).map(|e| e.as_bytes()) == first.map(|o| &s[o.range.clone()]),
			"get(own singleton {}) in {}", sing, esc(s)
		);
	}
	Ok(())
}

struct Nothing(u64);
impl walk::Sink for Nothing {
	fn item(&mut self, _: &'static str, _: Prod, t: &[u8]) {
		self.0 += 1;
		core::hint::black_box(t.len());
	}
	fn num(&mut self, _: &'static str, v: u64) {
		self.0 += 1;
		core::hint::black_box(v);
	}
}

fn check10(ctx: &mut Ctx, c: &Case) -> Res {
	let (p, s) = (c.prod(), &c.a[..]);
	let m = model_of(p, s);
	let wf = model::accepts(p, s);
	let base = s.as_ptr() as usize;
	let mut bad: Option<String> = None;
	let mut located = 0;
	if wf {
		parts(p, s, &m, &mut |op, want, got, list| {
			if let Some(g) = got {
				let at = g.as_ptr() as usize;
				// Which component is handed out is for C03, C05 and C06; here, where it lies.
				let ok = match &want {
					Some(r) if g == &s[r.clone()] => at == base + r.start,
					None if list && g.is_empty() => true,
					_ => at >= base && at + g.len() <= base + s.len(),
				};
				located += 1;
				if !ok && bad.is_none() {
					bad = Some(format!(
						"{op} on {} hands out {} at offset {}, not the input's {:?}",
						esc(s),
						esc(g),
						at.wrapping_sub(base) as isize,
						want
					));
				}
			}
		});
		with_ty!(p, T => {
			if let Some(v) = T::parse(s) {
				for (how, t) in [("as_bytes", v.b()), ("as_str", v.s().as_bytes()), ("AsRef<str>", AsRef::<str>::as_ref(v).as_bytes()),
					("AsRef<[u8]>", AsRef::<[u8]>::as_ref(v)), ("Borrow<str>", core::borrow::Borrow::<str>::borrow(v).as_bytes())] {
					if t.as_ptr() as usize != base || t.len() != s.len() {
						bad = Some(format!("{how} of {} {} is not the caller's text", p.name(), esc(s)));
					}
				}
			}
		}, else {});
	}
	if let Some(b) = bad {
		return Err(b);
	}
	ctx.n("answers located", located);
	// Allocation count around every borrowed operation.
	let mut sink = Nothing(0);
	let before = crate::alloc::calls();
	let ok = walk::any(p, s, &mut sink);
	let mid = crate::alloc::calls();
	ensure!(mid == before, "parsing and exploring {} {} made {} allocator calls", p.name(), esc(s), mid - before);
	let ok2 = with_ty!(p, T => {
		match (T::parse(s), T::parse(&c.b)) {
			(Some(x), Some(y)) => {
				core::hint::black_box((x == y, x.cmp(y), x.partial_cmp(y), hash_of(y), x < y, *x == c.b[..], x.partial_cmp(&c.b[..])));
				true
			}
			_ => false,
		}
	}, else false);
	let after = crate::alloc::calls();
	ensure!(after == mid, "comparing {} {} with {} made {} allocator calls", p.name(), esc(s), esc(&c.b), after - mid);
	ctx.n("operations watched for allocation", sink.0 + 8 * ok2 as u64);
	if ok {
		ctx.saw(&[&[c.p], s]);
	}
	Ok(())
}
