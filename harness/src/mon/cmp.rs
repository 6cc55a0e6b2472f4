//! C07, C08: equality, order and hashing, among values and against plain text.

use crate::ensure;
use crate::gen_::Gen;
use crate::model::{self, GRANDFATHERED, Prod, fold_byte, fold_eq};
use crate::run::{Case, Ctx, Monitor, Res, esc};
#[cfg(feature = "std")]
use crate::types::OTy;
use crate::types::{Ty, foreign, foreign_expected};
use crate::walk::hash_of;
use crate::with_ty;
use core::cmp::Ordering;
use core::hash::{Hash, Hasher};
use langtag::*;

pub fn monitors() -> Vec<Monitor> {
	vec![
		Monitor {
			id: "C07",
			sys: sys07,
			make: |g, _| {
				let p = pick(g);
				let a = g.of(p);
				let b = g.near(p, &a);
				let c = if g.rng.chance(1, 2) { g.near(p, &b) } else { g.near(p, &a) };
				Case { p: p as u8, a, b, c, s: 0 }
			},
			check: check07,
			quick: 1_500_000,
			thorough: 60_000_000,
			max_len: 4096,
		},
		Monitor {
			id: "C08",
			sys: sys08,
			make: |g, _| {
				let p = pick(g);
				let a = g.of(p);
				let b = match g.rng.below(8) {
					0..=3 => g.near(p, &a),
					4 | 5 => g.mutate(&a),
					6 => {
						let n = g.near(p, &a);
						g.mutate(&n)
					}
					_ => g.input(p),
				};
				Case::pair(p, a, b)
			},
			check: check08,
			quick: 1_000_000,
			thorough: 40_000_000,
			max_len: 4096,
		},
	]
}

fn pick(g: &mut Gen) -> Prod {
	if g.rng.chance(1, 3) { Prod::LanguageTag } else { model::PRODS[g.rng.below(15)] }
}

/// A pair of values, the first a proper prefix of the second, if the type has any.
fn prefix_pair(p: Prod) -> Option<(&'static str, &'static str)> {
	Some(match p {
		Prod::LanguageTag | Prod::Langtag => ("en", "en-us"),
		Prod::Privateuse => ("x-a", "x-ab"),
		Prod::PrivateuseSubtag => ("a", "ab"),
		Prod::Language | Prod::Primary => ("en", "enm"),
		Prod::Extlang => ("abc", "abc-def"),
		Prod::Variant => ("abcde", "abcdef"),
		Prod::Variants => ("abcde", "abcde-fghij"),
		Prod::Extension | Prod::Extensions => ("a-aa", "a-aaa"),
		Prod::ExtensionSubtag => ("aa", "aaa"),
		_ => return None,
	})
}

/// On which side of longer texts the library sorts their prefixes, per type.
fn prefix_side(p: Prod) -> Ordering {
	match prefix_pair(p) {
		Some((a, b)) => with_ty!(p, T => match (T::parse(a.as_bytes()), T::parse(b.as_bytes())) {
			(Some(a), Some(b)) => a.cmp(b),
			_ => Ordering::Greater,
		}, else Ordering::Greater),
		None => Ordering::Greater,
	}
}

pub fn order(p: Prod, a: &[u8], b: &[u8]) -> Ordering {
	for (x, y) in a.iter().zip(b) {
		match fold_byte(*x).cmp(&fold_byte(*y)) {
			Ordering::Equal => (),
			o => return o,
		}
	}
	match a.len().cmp(&b.len()) {
		Ordering::Equal => Ordering::Equal,
		Ordering::Less => prefix_side(p),
		Ordering::Greater => prefix_side(p).reverse(),
	}
}

/// Hasher in the style of FxHash: separate treatment of every call and word size.
#[derive(Default)]
pub struct Words(u64);
impl Words {
	fn add(&mut self, tag: u64, w: u64) {
		self.0 = (self.0.rotate_left(5) ^ w ^ tag).wrapping_mul(0x517c_c1b7_2722_0a95);
	}
}
impl Hasher for Words {
	fn finish(&self) -> u64 {
		self.0
	}
	fn write(&mut self, b: &[u8]) {
		for c in b.chunks(8) {
			let mut w = [0; 8];
			w[..c.len()].copy_from_slice(c);
			self.add(1, u64::from_le_bytes(w));
		}
		self.add(2, b.len() as u64);
	}
	fn write_u8(&mut self, i: u8) {
		self.add(3, i as u64)
	}
	fn write_u32(&mut self, i: u32) {
		self.add(4, i as u64)
	}
	fn write_u64(&mut self, i: u64) {
		self.add(5, i)
	}
	fn write_usize(&mut self, i: usize) {
		self.add(6, i as u64)
	}
}

/// Hasher that writes down every call made to it.
#[derive(Default, PartialEq, Debug)]
pub struct Recorder(Vec<(u8, Vec<u8>)>);
impl Hasher for Recorder {
	fn finish(&self) -> u64 {
		0
	}
	fn write(&mut self, b: &[u8]) {
		self.0.push((0, b.to_vec()))
	}
	fn write_u8(&mut self, i: u8) {
		self.0.push((1, vec![i]))
	}
	fn write_u16(&mut self, i: u16) {
		self.0.push((2, i.to_le_bytes().to_vec()))
	}
	fn write_u32(&mut self, i: u32) {
		self.0.push((3, i.to_le_bytes().to_vec()))
	}
	fn write_u64(&mut self, i: u64) {
		self.0.push((4, i.to_le_bytes().to_vec()))
	}
	fn write_usize(&mut self, i: usize) {
		self.0.push((5, i.to_le_bytes().to_vec()))
	}
}

fn hash_with<H: Hasher + Default, T: Hash + ?Sized>(t: &T) -> u64 {
	let mut h = H::default();
	t.hash(&mut h);
	h.finish()
}

fn record<T: Hash + ?Sized>(t: &T) -> Recorder {
	let mut h = Recorder::default();
	t.hash(&mut h);
	h
}

fn same_hash<A: Hash + ?Sized, B: Hash + ?Sized>(what: &str, a: &A, b: &B, x: &[u8], y: &[u8]) -> Res {
	let ok = [
		hash_with::<std::collections::hash_map::DefaultHasher, A>(a)
			== hash_with::<std::collections::hash_map::DefaultHasher, B>(b),
		hash_of(a) == hash_of(b),
		hash_with::<Words, A>(a) == hash_with::<Words, B>(b),
		record(a) == record(b),
	];
	ensure!(
		ok == [true; 4],
		"{what} {} and {} are equal but hash differently (SipHash, FNV, word-wise, call sequence: {ok:?})",
		esc(x),
		esc(y)
	);
	Ok(())
}

fn sys07(g: &mut Gen, thorough: bool, f: &mut dyn FnMut(Case)) {
	for a in 0..26u8 {
		for b in 0..26u8 {
			f(Case::pair(Prod::Grandfathered, vec![a], vec![b]));
		}
	}
	let singles: Vec<u8> = (b'0'..=b'9').chain(b'a'..=b'z').chain(b'A'..=b'Z').filter(|c| c | 0x20 != b'x').collect();
	for a in &singles {
		for b in &singles {
			f(Case::pair(Prod::Singleton, vec![*a], vec![*b]));
		}
	}
	// At every position of a value of each type, every byte against every byte.
	for p in &model::PRODS[..15] {
		for _ in 0..if thorough { 12 } else { 2 } {
			let v = g.of_sized(*p, 0);
			for i in 0..v.len().min(12) {
				for x in b'-'..=b'z' {
					for y in b'-'..=b'z' {
						let (mut a, mut b) = (v.clone(), v.clone());
						a[i] = x;
						b[i] = y;
						if model::accepts(*p, &a) && model::accepts(*p, &b) {
							f(Case::pair(*p, a, b));
						}
					}
				}
			}
		}
		// Prefix pairs.
		for _ in 0..if thorough { 2000 } else { 200 } {
			let v = g.of(*p);
			for i in 0..v.len().min(60) {
				if model::accepts(*p, &v[..i]) {
					let a = g.recase(&v[..i]);
					f(Case::pair(*p, a, v.clone()));
				}
			}
		}
		// Differences at the very end of long values.
		for _ in 0..if thorough { 2000 } else { 100 } {
			let l = g.target_len();
			if let Some(a) = g.of_len(*p, l) {
				let mut b = g.recase(&a);
				f(Case { p: *p as u8, a: a.clone(), b: b.clone(), c: a.clone(), s: 0 });
				let n = b.len();
				let i = n - 1 - g.rng.below(4.min(n));
				if b[i] != b'-' {
					b[i] = if fold_byte(b[i]) == b'b' { b'c' } else { b'b' };
				}
				if model::accepts(*p, &b) {
					f(Case::pair(*p, a, b));
				}
			}
		}
	}
}

fn check07(ctx: &mut Ctx, c: &Case) -> Res {
	let (p, a, b) = (c.prod(), &c.a[..], &c.b[..]);
	match p {
		Prod::Singleton => {
			let (Some(&x), Some(&y)) = (a.first(), b.first()) else { return Ok(()) };
			let (Ok(s), Ok(t)) = (Singleton::new(x), Singleton::new(y)) else { return Ok(()) };
			let eq = fold_byte(x) == fold_byte(y);
			let want = foreign_expected(eq, Some(fold_byte(x).cmp(&fold_byte(y))));
			let got = foreign::<Singleton, Singleton>(&s, &t);
			ensure!(got == want, "singletons {s} and {t}: {got:?}, expected {want:?}");
			ensure!(s.cmp(&t) == fold_byte(x).cmp(&fold_byte(y)), "singletons {s} and {t}: cmp {:?}", s.cmp(&t));
			for u in [s, t] {
				extremes("singletons", &s, &t, &u, |v| fold_byte(v.unwrap()), |a, b| a.cmp(b))?;
			}
			if eq {
				same_hash("singletons", &s, &t, a, b)?;
			}
			ctx.saw(&[&[c.p], a, b]);
			ctx.n("singleton pairs", 1);
			return Ok(());
		}
		Prod::Grandfathered => {
			let at = |v: &[u8]| GRANDFATHERED[*v.first().unwrap_or(&0) as usize % 26].0;
			let (x, y) = (at(a), at(b));
			let (Ok(s), Ok(t)) = (GrandfatheredLangTag::new(x), GrandfatheredLangTag::new(y)) else { return Ok(()) };
			ensure!((s == t) == (x == y) && (s != t) == (x != y), "{x} and {y}: equality is {}", s == t);
			ensure!((s.cmp(&t) == Ordering::Equal) == (x == y), "{x} and {y}: order {:?}", s.cmp(&t));
			ensure!(s.cmp(&t) == t.cmp(&s).reverse(), "{x} and {y}: order is not antisymmetric");
			ensure!(s.partial_cmp(&t) == Some(s.cmp(&t)), "{x} and {y}: partial_cmp");
			if x == y {
				same_hash("entries", &s, &t, x.as_bytes(), y.as_bytes())?;
			}
			for z in GRANDFATHERED {
				if let Ok(u) = GrandfatheredLangTag::new(z.0)
					&& s <= t && t <= u
				{
					ensure!(s <= u, "order of {x}, {y}, {} is not transitive", z.0);
				}
			}
			ctx.saw(&[&[c.p], x.as_bytes(), y.as_bytes()]);
			ctx.n("grandfathered pairs", 1);
			return Ok(());
		}
		_ => (),
	}
	with_ty!(p, T => relation::<T>(ctx, c), else Ok(()))
}

/// Greatest, least and clamped values, of operands taken by value.
fn extremes<V: Ord + Clone, K: Eq>(
	name: &str,
	s: &V,
	t: &V,
	u: &V,
	key: impl Fn(&V) -> K,
	order: impl Fn(&K, &K) -> Ordering,
) -> Res {
	let (ks, kt, ku) = (key(s), key(t), key(u));
	let less = order(&ks, &kt) == Ordering::Less;
	let (hi, lo) = if less { (&kt, &ks) } else { (&ks, &kt) };
	for (a, b) in [(s, t), (t, s)] {
		ensure!(key(&a.clone().max(b.clone())) == *hi, "{name}: the maximum of two values by value is not the greater one");
		ensure!(key(&a.clone().min(b.clone())) == *lo, "{name}: the minimum of two values by value is not the lesser one");
		ensure!(key(core::cmp::max(a, b)) == *hi && key(core::cmp::min(a, b)) == *lo, "{name}: maximum or minimum of two references");
	}
	let (l, h) = if less { (s, t) } else { (t, s) };
	let want = match (order(&ku, lo), order(&ku, hi)) {
		(Ordering::Less, _) => lo,
		(_, Ordering::Greater) => hi,
		_ => &ku,
	};
	ensure!(key(&u.clone().clamp(l.clone(), h.clone())) == *want, "{name}: a value clamped between two is not the one in the middle");
	Ok(())
}

#[cfg(feature = "std")]
trait Full: OTy {}
#[cfg(feature = "std")]
impl<T: OTy + ?Sized> Full for T {}
#[cfg(not(feature = "std"))]
trait Full: Ty {}
#[cfg(not(feature = "std"))]
impl<T: Ty + ?Sized> Full for T {}

fn relation<T: Full + ?Sized>(ctx: &mut Ctx, c: &Case) -> Res {
	let p = T::PROD;
	let (a, b) = (&c.a[..], &c.b[..]);
	let (Some(x), Some(y)) = (T::parse(a), T::parse(b)) else { return Ok(()) };
	let eq = fold_eq(a, b);
	let ord = order(p, a, b);
	let want = foreign_expected(eq, Some(ord));
	let name = p.name();
	ctx.n(if eq { "equal pairs" } else { "unequal pairs" }, 1);
	ctx.saw(&[&[c.p], a, b, &c.c]);
	let got = foreign::<T, T>(x, y);
	ensure!(got == want, "{name} {} vs {}: {got:?}, expected {want:?}", esc(a), esc(b));
	ensure!(x.cmp(y) == ord && y.cmp(x) == ord.reverse(), "{name} {} cmp {}: {:?}, expected {ord:?}", esc(a), esc(b), x.cmp(y));
	ensure!(x == x && x.cmp(x) == Ordering::Equal, "{name} {}: not equal to itself", esc(a));
	if eq {
		same_hash(name, x, y, a, b)?;
	}
	#[cfg(feature = "std")]
	if let (Some(s), Some(t), Some(u)) = (T::obuf(a), T::obuf(b), T::obuf(&c.c)) {
		extremes(name, &s, &t, &u, |v| model::fold(T::ob(v)), |a, b| order(p, a, b))?;
	}
	let (hi, lo) = (core::cmp::max(x, y), core::cmp::min(x, y));
	ensure!(order(p, hi.b(), lo.b()) != Ordering::Less, "{name}: max/min of {} and {}", esc(a), esc(b));
	#[cfg(feature = "std")]
	{
		let mut bad = None;
		let mut n = 0;
		T::mixed(x, y, &mut |how, got| {
			n += 1;
			if !got.agrees(&want) && bad.is_none() {
				bad = Some(format!("{name} {} vs {} as {how}: {got:?}, expected {want:?}", esc(a), esc(b)));
			}
		});
		ctx.n("comparisons judged", n * 14);
		if let Some(b) = bad {
			return Err(b);
		}
		let (Some(ox), Some(oy)) = (T::obuf(a), T::obuf(b)) else { return Ok(()) };
		ensure!(ox.cmp(&oy) == ord, "owned {name} {} cmp {}: {:?}, expected {ord:?}", esc(a), esc(b), ox.cmp(&oy));
		same_hash("owned/borrowed", x, &ox, a, a)?;
		if eq {
			same_hash("owned", &ox, &oy, a, b)?;
			same_hash("owned/borrowed", &ox, y, a, b)?;
		}
		// A third value: sorting, maximum and minimum.
		if let Some(oz) = T::obuf(&c.c) {
			let mut v = vec![ox.clone(), oy.clone(), oz.clone()];
			v.sort();
			for w in v.windows(2) {
				ensure!(
					order(p, T::ob(&w[0]), T::ob(&w[1])) != Ordering::Greater,
					"{name}: sorting {}, {}, {} puts {} before {}",
					esc(a), esc(b), esc(&c.c), esc(T::ob(&w[0])), esc(T::ob(&w[1]))
				);
			}
			let max = v.iter().max().map(|m| T::ob(m).to_vec()).unwrap_or_default();
			let min = v.iter().min().map(|m| T::ob(m).to_vec()).unwrap_or_default();
			for t in [a, b, &c.c] {
				ensure!(
					order(p, t, &max) != Ordering::Greater && order(p, t, &min) != Ordering::Less,
					"{name}: max/min of {}, {}, {}",
					esc(a), esc(b), esc(&c.c)
				);
			}
			let mut folded: Vec<_> = v.iter().map(|t| model::fold(T::ob(t))).collect();
			folded.sort();
			let mut given = [model::fold(a), model::fold(b), model::fold(&c.c)];
			given.sort();
			ensure!(folded == given, "{name}: sorting lost a value");
			ctx.n("triples sorted", 1);
		}
	}
	Ok(())
}

/// Singletons against every byte and a wide range of characters; empty and short texts.
fn sys08(g: &mut Gen, thorough: bool, f: &mut dyn FnMut(Case)) {
	for x in 0..=255u8 {
		f(Case::new(Prod::Singleton, vec![x]));
	}
	for p in &model::PRODS[..15] {
		for _ in 0..if thorough { 200 } else { 20 } {
			let v = g.of_sized(*p, 0);
			f(Case::pair(*p, v.clone(), vec![]));
			for i in 0..v.len().min(16) {
				for y in 0..=255u8 {
					let mut b = v.clone();
					b[i] = y;
					f(Case::pair(*p, v.clone(), b));
				}
				// Letters that have an equal outside ASCII, up to letter case.
				for y in *b"kKsSiI" {
					let mut w = v.clone();
					w[i] = y;
					if model::accepts(*p, &w) {
						for o in Gen::lookalikes(y) {
							f(Case::pair(*p, w.clone(), [&w[..i], o.as_bytes(), &w[i + 1..]].concat()));
						}
					}
				}
				for o in Gen::ODD {
					f(Case::pair(*p, v.clone(), [&v[..i], o.as_bytes(), &v[i + 1..]].concat()));
				}
				// Truncations, in either direction.
				f(Case::pair(*p, v.clone(), v[..i].to_vec()));
				f(Case::pair(*p, v.clone(), v[i..].to_vec()));
			}
			for o in Gen::ODD {
				f(Case::pair(*p, v.clone(), [&v[..], o.as_bytes()].concat()));
				f(Case::pair(*p, v.clone(), [o.as_bytes(), &v[..]].concat()));
			}
		}
	}
}

fn check08(ctx: &mut Ctx, c: &Case) -> Res {
	let (p, a, b) = (c.prod(), &c.a[..], &c.b[..]);
	if p == Prod::Singleton {
		let Some(&x) = a.first() else { return Ok(()) };
		let Ok(s) = Singleton::new(x) else { return Ok(()) };
		for y in 0..=255u8 {
			let want = fold_byte(x) == fold_byte(y);
			ensure!((s == y) == want && (s != y) != want, "singleton {s} == byte {y:#x} is {}", s == y);
		}
		for u in (0..0x1_1000u32).chain(0x1_D400..0x1_D500).chain(0xE_0000..0xE_0100) {
			if let Some(ch) = char::from_u32(u) {
				let want = ch.is_ascii() && fold_byte(x) == fold_byte(ch as u8);
				ensure!((s == ch) == want && (s != ch) != want, "singleton {s} == {ch:?} is {}", s == ch);
			}
		}
		ctx.n("singletons against bytes and characters", 1);
		ctx.saw(&[&[c.p], a]);
		return Ok(());
	}
	with_ty!(p, T => foreign_text::<T>(ctx, a, b), else Ok(()))
}

fn foreign_text<T: Full + ?Sized>(ctx: &mut Ctx, a: &[u8], b: &[u8]) -> Res {
	let name = T::PROD.name();
	let Some(x) = T::parse(a) else { return Ok(()) };
	let parsed = T::parse(b);
	let want = foreign_expected(fold_eq(a, b), parsed.map(|y| x.cmp(y)));
	ctx.n(
		match (&parsed, want.eq == Some([true, false])) {
			(None, _) => "against invalid text",
			(_, true) => "against equal text",
			_ => "against different text",
		},
		1,
	);
	ctx.saw(&[&[T::PROD as u8], a, b]);
	let mut bad = None;
	let mut n = 0u64;
	let mut judge = |how: &'static str, got: crate::types::Foreign| {
		n += got.answers();
		if !got.agrees(&want) && bad.is_none() {
			bad = Some(format!("{name} {} against {} as {how}: {got:?}, expected {want:?}", esc(a), esc(b)));
		}
	};
	x.foreigners(b, &mut judge);
	#[cfg(feature = "std")]
	if let Some(o) = T::obuf(a) {
		T::oforeigners(&o, b, &mut judge);
	}
	ctx.n("comparisons judged", n);
	bad.map_or(Ok(()), Err)
}
