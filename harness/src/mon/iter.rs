//! C05: iterator operation histories against the plain sequence.

use crate::gen_::Gen;
use crate::model::{self, Prod};
use crate::run::{Case, Ctx, Monitor, Res, esc};
use crate::types::Ty;
use langtag::*;
use std::collections::VecDeque;

const LISTS: [Prod; 7] = [
	Prod::Variants, Prod::Extensions, Prod::Extension, Prod::Privateuse, Prod::Extlang, Prod::Language, Prod::LanguageTag,
];

pub fn monitors() -> Vec<Monitor> {
	vec![Monitor {
		id: "C05",
		sys,
		make: |g, _| {
			let p = LISTS[[0, 0, 0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 6][g.rng.below(13)]];
			let a = g.of(p);
			let n = g.rng.below(12);
			let c = (0..n).map(|_| g.rng.next() as u8).collect();
			Case { p: p as u8, a, c, ..Default::default() }
		},
		check,
		quick: 2_000_000,
		thorough: 80_000_000,
		max_len: 2048,
	}]
}

/// Short lists of every length with every pair of operations in front of every final one.
fn sys(g: &mut Gen, thorough: bool, f: &mut dyn FnMut(Case)) {
	for p in LISTS {
		let mut values: Vec<Vec<u8>> = vec![];
		if p == Prod::Variants || p == Prod::Extensions {
			values.push(vec![]);
		}
		for _ in 0..if thorough { 60 } else { 12 } {
			values.push(g.of(p));
		}
		for v in values {
			for a in 0..OPS {
				for b in 0..OPS {
					f(Case { p: p as u8, a: v.clone(), c: vec![a, b], ..Default::default() });
				}
			}
			// Front and back interleavings of short lists, exhaustively.
			for k in 0..64u8 {
				let c = (0..6).map(|i| if k >> i & 1 != 0 { 1 } else { 0 }).collect();
				f(Case { p: p as u8, a: v.clone(), c, ..Default::default() });
			}
		}
	}
}

const OPS: u8 = 32;

/// Distances of jumps.
const FAR: [usize; 8] = [0, 1, 2, 3, 6, 17, 100, usize::MAX];

type Seq<'a> = VecDeque<&'a [u8]>;

fn show(v: &Option<&[u8]>) -> String {
	v.map(esc).unwrap_or("nothing".into())
}

/// Run the operations in `ops` on a forward iterator and on the sequence.
struct Drive<'s> {
	op: &'static str,
	text: &'s [u8],
	log: Vec<String>,
}

impl Drive<'_> {
	fn same(&mut self, what: String, got: Option<&[u8]>, want: Option<&[u8]>) -> Res {
		self.log.push(what);
		if got != want {
			return Err(format!(
				"{} on {}: after [{}] got {}, expected {}",
				self.op,
				esc(self.text),
				self.log.join(", "),
				show(&got),
				show(&want)
			));
		}
		Ok(())
	}
	fn all(&mut self, what: String, got: Vec<&[u8]>, want: Vec<&[u8]>) -> Res {
		self.log.push(what);
		if got != want {
			return Err(format!(
				"{} on {}: after [{}] got {} items {:?}, expected {} items",
				self.op,
				esc(self.text),
				self.log.join(", "),
				got.len(),
				got.iter().take(4).map(|g| esc(g)).collect::<Vec<_>>(),
				want.len()
			));
		}
		Ok(())
	}
	fn num(&mut self, what: String, got: usize, want: usize) -> Res {
		self.log.push(what);
		if got != want {
			return Err(format!("{} on {}: after [{}] got {got}, expected {want}", self.op, esc(self.text), self.log.join(", ")));
		}
		Ok(())
	}
}

/// Everything a forward iterator offers. Returns the iterator unless it was consumed.
fn forward<'a, T: ?Sized + Ty, I: Iterator<Item = &'a T>>(
	d: &mut Drive,
	mut it: I,
	seq: &mut Seq<'_>,
	op: u8,
	k: usize,
) -> Result<Option<I>, String> {
	// How far to jump.
	let far = FAR[k];
	// Reading more items than the text can hold means the iterator does not end.
	let cap = d.text.len() + 3;
	let limit = |v: &mut dyn Iterator<Item = &'a T>| -> Vec<&'a [u8]> { v.take(cap).map(|t| t.b()).collect() };
	match op {
		0 | 2 | 3 => d.same("next".into(), it.next().map(|t| t.b()), seq.pop_front())?,
		4 | 5 => {
			seq.drain(..far.min(seq.len()));
			d.same(format!("nth({far})"), it.nth(far).map(|t| t.b()), seq.pop_front())?
		}
		6 => {
			let (lo, hi) = it.size_hint();
			if lo > seq.len() || hi.is_some_and(|h| h < seq.len()) {
				return Err(format!(
					"{} on {}: after [{}] size_hint is ({lo}, {hi:?}) with {} items left",
					d.op,
					esc(d.text),
					d.log.join(", "),
					seq.len()
				));
			}
			d.log.push("size_hint".into());
		}
		7 => {
			let want: Vec<&[u8]> = seq.drain(..far.min(seq.len())).collect();
			d.all(format!("by_ref.take({far})"), limit(&mut it.by_ref().take(far)), want)?
		}
		8 => {
			// Find the first item longer than k+1.
			let want = loop {
				match seq.pop_front() {
					Some(x) if x.len() > k + 1 => break Some(x),
					Some(_) => (),
					None => break None,
				}
			};
			d.same(format!("find(len>{})", k + 1), it.find(|t| t.b().len() > k + 1).map(|t| t.b()), want)?
		}
		9 => {
			let mut want = None;
			let mut i = 0;
			while let Some(x) = seq.pop_front() {
				if x.len() > k + 2 {
					want = Some(i);
					break;
				}
				i += 1;
			}
			let got = it.position(|t| t.b().len() > k + 2);
			d.num("position".into(), got.map_or(usize::MAX, |x| x), want.map_or(usize::MAX, |x| x))?
		}
		10 => {
			let got = it.by_ref().all(|t| t.b().len() > 2);
			let mut want = true;
			while let Some(x) = seq.pop_front() {
				if x.len() <= 2 {
					want = false;
					break;
				}
			}
			d.num("all".into(), got as usize, want as usize)?
		}
		11 => {
			let mut p = it.by_ref().peekable();
			let got = (p.peek().map(|t| t.b()), p.next().map(|t| t.b()));
			let want = seq.pop_front();
			d.same("peek".into(), got.0, want)?;
			d.same("next after peek".into(), got.1, want)?;
		}
		// Consuming operations.
		12 => {
			d.num("count".into(), it.take(cap).count(), seq.len())?;
			return Ok(None);
		}
		13 => {
			d.num("count".into(), it.count(), seq.len())?;
			return Ok(None);
		}
		14 => {
			d.same("last".into(), it.last().map(|t| t.b()), seq.pop_back())?;
			return Ok(None);
		}
		15 => {
			let want = seq.iter().skip(far).copied().collect();
			d.all(format!("skip({far})"), limit(&mut it.skip(far)), want)?;
			return Ok(None);
		}
		16 => {
			let step = far.max(1);
			let want = seq.iter().step_by(step).copied().collect();
			d.all(format!("step_by({step})"), limit(&mut it.step_by(step)), want)?;
			return Ok(None);
		}
		17 => {
			let want: Vec<&[u8]> = seq.iter().copied().collect();
			let got = it.fold(Vec::new(), |mut v, t| {
				v.push(t.b());
				assert!(v.len() <= cap, "VIOLATED: {} elements and no end in sight", v.len());
				v
			});
			d.all("fold".into(), got, want)?;
			return Ok(None);
		}
		18 => {
			let want: Vec<&[u8]> = seq.iter().copied().collect();
			let mut got = Vec::new();
			it.for_each(|t| got.push(t.b()));
			d.all("for_each".into(), got, want)?;
			return Ok(None);
		}
		19 => {
			let want: Vec<&[u8]> = seq.iter().copied().collect();
			let mut got: Vec<&[u8]> = Vec::new();
			got.extend(it.map(|t| t.b()));
			d.all("extend".into(), got, want)?;
			return Ok(None);
		}
		20 => {
			let want: Vec<&[u8]> = seq.iter().copied().collect();
			d.all("fuse.collect".into(), limit(&mut it.fuse()), want)?;
			return Ok(None);
		}
		21 => {
			// Exhaust it, then keep asking.
			let want: Vec<&[u8]> = seq.drain(..).collect();
			d.all("collect".into(), limit(&mut it), want)?;
			for _ in 0..3 {
				d.same("next when exhausted".into(), it.next().map(|t| t.b()), None)?;
			}
			d.same("nth when exhausted".into(), it.nth(k).map(|t| t.b()), None)?;
			d.num("size_hint when exhausted".into(), it.size_hint().0, 0)?;
		}
		_ => {
			let want: Vec<(usize, &[u8])> = seq.iter().copied().enumerate().skip(1).collect();
			let got: Vec<(usize, &[u8])> = it.enumerate().skip(1).take(cap).map(|(i, t)| (i, t.b())).collect();
			d.log.push("enumerate.skip(1)".into());
			if got != want {
				return Err(format!("{} on {}: after [{}] enumeration differs", d.op, esc(d.text), d.log.join(", ")));
			}
			return Ok(None);
		}
	}
	Ok(Some(it))
}

fn run_forward<'a, T: ?Sized + Ty, I: Iterator<Item = &'a T>>(
	op: &'static str,
	text: &[u8],
	it: I,
	want: &[&[u8]],
	ops: &[u8],
) -> Result<u64, String> {
	let mut d = Drive { op, text, log: vec![] };
	let mut seq: Seq = want.iter().copied().collect();
	let mut it = it;
	let mut done = 0;
	for o in ops.iter().chain([&21, &13]) {
		done += 1;
		let (code, k) = (o % OPS, (o / OPS) as usize);
		match forward(&mut d, it, &mut seq, if code == 1 { 0 } else { code }, k)? {
			Some(i) => it = i,
			None => break,
		}
	}
	Ok(done)
}

fn run_double<'a, T: ?Sized + Ty, I: DoubleEndedIterator<Item = &'a T>>(
	op: &'static str,
	text: &[u8],
	it: I,
	want: &[&[u8]],
	ops: &[u8],
) -> Result<u64, String> {
	let mut d = Drive { op, text, log: vec![] };
	let mut seq: Seq = want.iter().copied().collect();
	let cap = text.len() + 3;
	let mut it = it;
	let mut done = 0;
	for o in ops.iter().chain([&21, &1, &13]) {
		done += 1;
		let (code, k) = (o % OPS, (o / OPS) as usize);
		match code {
			1 | 23 | 24 => d.same("next_back".into(), it.next_back().map(|t| t.b()), seq.pop_back())?,
			25 => {
				let far = FAR[k];
				seq.truncate(seq.len().saturating_sub(far));
				d.same(format!("nth_back({far})"), it.nth_back(far).map(|t| t.b()), seq.pop_back())?
			}
			26 => {
				let want: Vec<&[u8]> = seq.iter().rev().copied().collect();
				d.all("rev".into(), it.rev().take(cap).map(|t| t.b()).collect(), want)?;
				return Ok(done);
			}
			27 => {
				let want: Vec<&[u8]> = seq.iter().rev().copied().collect();
				let got = it.rfold(Vec::new(), |mut v, t| {
					v.push(t.b());
					assert!(v.len() <= cap, "VIOLATED: {} elements and no end in sight", v.len());
					v
				});
				d.all("rfold".into(), got, want)?;
				return Ok(done);
			}
			28 => {
				let want = loop {
					match seq.pop_back() {
						Some(x) if x.len() > k + 2 => break Some(x),
						Some(_) => (),
						None => break None,
					}
				};
				d.same("rfind".into(), it.rfind(|t| t.b().len() > k + 2).map(|t| t.b()), want)?
			}
			29 => {
				let want: Vec<&[u8]> = (0..k).filter_map(|_| seq.pop_back()).collect();
				d.all(format!("by_ref.rev.take({k})"), it.by_ref().rev().take(k).map(|t| t.b()).collect(), want)?
			}
			30 => {
				// Alternate ends until empty.
				let mut front = true;
				for _ in 0..cap {
					let (g, w) = if front {
						(it.next(), seq.pop_front())
					} else {
						(it.next_back(), seq.pop_back())
					};
					d.same(if front { "next" } else { "next_back" }.into(), g.map(|t| t.b()), w)?;
					if w.is_none() {
						break;
					}
					front = !front;
				}
			}
			_ => match forward(&mut d, it, &mut seq, code, k)? {
				Some(i) => it = i,
				None => break,
			},
		}
	}
	Ok(done)
}

pub fn check(ctx: &mut Ctx, c: &Case) -> Res {
	let (p, s, ops) = (c.prod(), &c.a[..], &c.c[..]);
	if !model::accepts(p, s) {
		return Ok(());
	}
	let m = match p {
		Prod::LanguageTag => model::parse_normal(s).unwrap_or_default(),
		_ => model::parse_part(p, s).unwrap_or_default(),
	};
	let mut n = 0;
	let cut = |v: &[std::ops::Range<usize>]| -> Vec<&[u8]> { v.iter().map(|r| &s[r.clone()]).collect() };
	macro_rules! t {
		($t:ident) => {
			match $t::new(s) {
				Ok(t) => t,
				Err(_) => return Ok(()),
			}
		};
	}
	match p {
		Prod::Variants => {
			let v = t!(Variants);
			let w = cut(&m.variant_list);
			n += run_double("Variants::iter", s, v.iter(), &w, ops)?;
			n += run_forward("Variants::iter", s, v.iter(), &w, ops)?;
			n += run_forward("Variants::iter().rev()", s, v.iter().rev(), &w.iter().rev().copied().collect::<Vec<_>>(), ops)?;
			if v.first().map(|x| x.as_bytes()) != w.first().copied() {
				return Err(format!("first of {} is {}", esc(s), show(&v.first().map(|x| x.as_bytes()))));
			}
			if v.last().map(|x| x.as_bytes()) != w.last().copied() {
				return Err(format!("last of {} is {}", esc(s), show(&v.last().map(|x| x.as_bytes()))));
			}
			n += run_double("VariantsIter::empty", s, VariantsIter::empty(), &[], ops)?;
			n += run_double("VariantsIter::default", s, VariantsIter::default(), &[], ops)?;
			n += run_double("Variants::EMPTY.iter", s, Variants::EMPTY.iter(), &[], ops)?;
		}
		Prod::Extensions => {
			let v = t!(Extensions);
			let w: Vec<&[u8]> = m.extension_list.iter().map(|e| &s[e.range.clone()]).collect();
			n += run_forward("Extensions::iter", s, v.iter(), &w, ops)?;
			n += run_forward("Extensions::EMPTY.iter", s, Extensions::EMPTY.iter(), &[], ops)?;
			for (e, me) in v.iter().zip(&m.extension_list) {
				n += run_forward("Extension::iter", s, e.iter(), &cut(&me.subtags), ops)?;
			}
		}
		Prod::Extension => {
			let v = t!(Extension);
			n += run_forward("Extension::iter", s, v.iter(), &cut(&m.extension_list[0].subtags), ops)?;
			n += run_forward("ExtensionIter::empty", s, ExtensionIter::empty(), &[], ops)?;
			n += run_forward("ExtensionIter::default", s, ExtensionIter::default(), &[], ops)?;
			if let Ok(x) = Extensions::new(s) {
				let got: Vec<&[u8]> = x.iter_extension(v.singleton()).take(s.len() + 3).map(|t| t.as_bytes()).collect();
				if got == cut(&m.extension_list[0].subtags) {
					n += run_forward("Extensions::iter_extension", s, x.iter_extension(v.singleton()), &got, ops)?;
				}
			}
		}
		Prod::Privateuse => {
			let v = t!(PrivateUse);
			n += run_forward("PrivateUse::iter", s, v.iter(), &cut(&m.private_list), ops)?;
			n += run_forward("PrivateUseIter::empty", s, PrivateUseIter::empty(), &[], ops)?;
			n += run_forward("PrivateUseIter::default", s, PrivateUseIter::default(), &[], ops)?;
		}
		Prod::Extlang => {
			let v = t!(LanguageExtension);
			n += run_forward("LanguageExtension::iter", s, v.iter(), &cut(&m.extlangs), ops)?;
			n += run_forward("LanguageExtensionIter::empty", s, LanguageExtensionIter::empty(), &[], ops)?;
			n += run_forward("LanguageExtensionIter::default", s, LanguageExtensionIter::default(), &[], ops)?;
		}
		Prod::Language => {
			let v = t!(Language);
			n += run_forward("Language::extension_subtags", s, v.extension_subtags(), &cut(&m.extlangs), ops)?;
		}
		_ => {
			// Through a whole tag: only where the list itself is the one the model sees.
			let t = t!(LangTag);
			let txt = |r: &Option<std::ops::Range<usize>>| r.as_ref().map(|r| &s[r.clone()]).unwrap_or(b"");
			if t.variants().as_bytes() == txt(&m.variants) {
				n += run_double("LangTag variants", s, t.variants().iter(), &cut(&m.variant_list), ops)?;
			}
			if t.extensions().as_bytes() == txt(&m.extensions) {
				let w: Vec<&[u8]> = m.extension_list.iter().map(|e| &s[e.range.clone()]).collect();
				n += run_forward("LangTag extensions", s, t.extensions().iter(), &w, ops)?;
			}
			if t.private_use().map(|p| p.as_bytes()).unwrap_or(b"") == txt(&m.private) {
				let w = cut(&m.private_list);
				n += run_forward("LangTag::private_use_subtags", s, t.private_use_subtags(), &w, ops)?;
				if let Some(nt) = t.as_normal() {
					n += run_forward("NormalLangTag::private_use_subtags", s, nt.private_use_subtags(), &w, ops)?;
				}
			}
			if let Some(l) = t.language()
				&& l.as_bytes() == &s[m.language.clone()]
			{
				n += run_forward("LangTag extlangs", s, l.extension_subtags(), &cut(&m.extlangs), ops)?;
			}
		}
	}
	ctx.n("iterator operations judged", n);
	ctx.n("histories", 1);
	if !ops.is_empty() && s.contains(&b'-') {
		ctx.saw(&[&[c.p], s, ops]);
	}
	Ok(())
}
