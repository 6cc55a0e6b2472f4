//! C20: maps and sets keyed by values behave like ones keyed by lower-cased text.

use crate::run::Monitor;

#[cfg(not(feature = "std"))]
pub fn monitors() -> Vec<Monitor> {
	vec![]
}

#[cfg(feature = "std")]
pub use with_std::monitors;

#[cfg(feature = "std")]
mod with_std {
	use super::*;
	use crate::ensure;
	use crate::gen_::Gen;
	use crate::model::{self, GRANDFATHERED, Prod, fold};
	use crate::mon::cmp::{Words, order};
	use crate::rng::Rng;
	use crate::run::{Case, Ctx, Res, esc};
	use crate::types::OTy;
	use crate::walk::Fnv;
	use crate::with_ty;
	use core::cmp::Ordering;
	use langtag::*;
	use std::collections::hash_map::DefaultHasher;
	use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
	use std::hash::BuildHasherDefault;
	use std::ops::Bound;

	pub fn monitors() -> Vec<Monitor> {
		vec![Monitor {
			id: "C20",
			sys: |_, _, _| {},
			make,
			check,
			quick: 150_000,
			thorough: 8_000_000,
			max_len: 512,
		}]
	}

	fn make(g: &mut Gen, _: u64) -> Case {
		let p = if g.rng.chance(1, 4) {
			Prod::LanguageTag
		} else if g.rng.chance(1, 20) {
			*g.rng.pick(&[Prod::Singleton, Prod::Grandfathered])
		} else {
			model::PRODS[g.rng.below(15)]
		};
		let n = g.rng.range(2, 14);
		let mut pool: Vec<Vec<u8>> = vec![g.of(p)];
		while pool.len() < n {
			let base = g.rng.pick(&pool).clone();
			let v = match p {
				Prod::Singleton | Prod::Grandfathered => g.of(p),
				_ => g.near(p, &base),
			};
			pool.push(v);
		}
		let len = if g.rng.chance(1, 10) { 200 } else { g.rng.range(4, 60) };
		let c = (0..3 * len).map(|_| g.rng.next() as u8).collect();
		Case { p: p as u8, a: pool.join(&b'\n'), c, s: g.rng.next(), ..Default::default() }
	}

	fn recase(b: &[u8], seed: u64) -> Vec<u8> {
		let mut r = Rng::new(seed);
		b.iter().map(|c| if c.is_ascii_alphabetic() && r.chance(1, 2) { c ^ 0x20 } else { *c }).collect()
	}

	#[derive(PartialEq, Eq, Clone)]
	struct Key(Prod, Vec<u8>);
	impl PartialOrd for Key {
		fn partial_cmp(&self, o: &Key) -> Option<Ordering> {
			Some(self.cmp(o))
		}
	}
	impl Ord for Key {
		fn cmp(&self, o: &Key) -> Ordering {
			order(self.0, &self.1, &o.1)
		}
	}

	fn check(ctx: &mut Ctx, c: &Case) -> Res {
		match c.prod() {
			Prod::Singleton => {
				let keys: Vec<Singleton> =
					c.a.split(|b| *b == b'\n').filter_map(|k| Singleton::new(*k.first()?).ok()).collect();
				small(ctx, c, &keys, |k| vec![k.unwrap().to_ascii_lowercase()], |k| {
					Singleton::new(k.unwrap() ^ if k.unwrap().is_ascii_alphabetic() { 0x20 } else { 0 }).unwrap_or(*k)
				})
			}
			Prod::Grandfathered => {
				let keys: Vec<GrandfatheredLangTag> =
					c.a.split(|b| *b == b'\n').filter_map(|k| GrandfatheredLangTag::new(k).ok()).collect();
				small(ctx, c, &keys, |k| fold(k.as_bytes()), |k| *k)
			}
			p => with_ty!(p, T => history::<T>(ctx, c), else Ok(())),
		}
	}

	/// The two Copy key types: insertion, lookup and removal in both kinds of map.
	fn small<K: Copy + Eq + Ord + std::hash::Hash>(
		ctx: &mut Ctx,
		c: &Case,
		keys: &[K],
		text: impl Fn(&K) -> Vec<u8>,
		twin: impl Fn(&K) -> K,
	) -> Res {
		if keys.is_empty() {
			return Ok(());
		}
		let mut h: HashMap<K, u32> = HashMap::new();
		let mut t: BTreeMap<K, u32> = BTreeMap::new();
		let mut m: BTreeMap<Vec<u8>, u32> = BTreeMap::new();
		for (i, o) in c.c.chunks(3).enumerate() {
			let k = keys[o.get(1).copied().unwrap_or(0) as usize % keys.len()];
			let k = if o.get(2).copied().unwrap_or(0) % 2 == 0 { k } else { twin(&k) };
			let f = text(&k);
			let (a, b, w) = match o[0] % 3 {
				0 => (h.insert(k, i as u32), t.insert(k, i as u32), m.insert(f.clone(), i as u32)),
				1 => (h.remove(&k), t.remove(&k), m.remove(&f)),
				_ => (h.get(&k).copied(), t.get(&k).copied(), m.get(&f).copied()),
			};
			ensure!(a == w && b == w, "{}: operation {i} ({}) on {}: hash map {a:?}, ordered map {b:?}, expected {w:?}", c.prod().name(), o[0] % 3, esc(&f));
			ensure!(h.len() == m.len() && t.len() == m.len(), "{}: sizes differ after operation {i}", c.prod().name());
			ctx.n("map operations", 2);
		}
		ctx.n("histories", 1);
		ctx.saw(&[&[c.p], &c.a, &c.c]);
		let _ = GRANDFATHERED;
		Ok(())
	}

	type Sip = BuildHasherDefault<DefaultHasher>;
	type Wrd = BuildHasherDefault<Words>;
	type Fnb = BuildHasherDefault<Fnv>;

	fn history<T: OTy + ?Sized>(ctx: &mut Ctx, c: &Case) -> Res
	where
		for<'x> &'x T: Ord + Eq + std::hash::Hash,
	{
		let p = T::PROD;
		let name = p.name();
		let pool: Vec<&[u8]> = c.a.split(|b| *b == b'\n').filter(|k| T::parse(k).is_some()).collect();
		if pool.is_empty() {
			return Ok(());
		}
		// Owned twins in a letter case of their own, alive for the whole history.
		let twins: Vec<Vec<u8>> = (0..pool.len() * 4).map(|i| recase(pool[i % pool.len()], c.s ^ i as u64)).collect();
		let mut hs: HashMap<T::Buf, u32, Sip> = Default::default();
		let mut hw: HashMap<T::Buf, u32, Wrd> = Default::default();
		let mut hb: HashMap<&T, u32, Fnb> = Default::default();
		let mut hset: HashSet<T::Buf, Sip> = Default::default();
		let mut bt: BTreeMap<T::Buf, u32> = BTreeMap::new();
		let mut bb: BTreeMap<&T, u32> = BTreeMap::new();
		let mut bset: BTreeSet<T::Buf> = BTreeSet::new();
		let mut sorted: Vec<T::Buf> = Vec::new();
		let mut m: BTreeMap<Key, u32> = BTreeMap::new();
		let key = |b: &[u8]| Key(p, fold(b));
		for (i, o) in c.c.chunks(3).enumerate() {
			let (op, kx, vx) = (o[0], o.get(1).copied().unwrap_or(0) as usize, o.get(2).copied().unwrap_or(0) as usize);
			let b: &[u8] = match vx % 5 {
				4 => pool[kx % pool.len()],
				v => &twins[(kx % pool.len()) + v * pool.len()],
			};
			let (Some(k), Some(ko)) = (T::parse(b), T::obuf(b)) else { continue };
			let f = key(b);
			let v = i as u32;
			ctx.n("map operations", 7);
			match op % 8 {
				0 | 1 | 2 => {
					let w = m.insert(f.clone(), v);
					let got = [
						hs.insert(ko.clone(), v),
						hw.insert(ko.clone(), v),
						hb.insert(k, v),
						bt.insert(ko.clone(), v),
						bb.insert(k, v),
					];
					ensure!(got == [w; 5], "{name}: operation {i}, inserting {}: {got:?}, expected {w:?}", esc(b));
					let got = [hset.insert(ko.clone()), bset.insert(ko.clone())];
					ensure!(got == [w.is_none(); 2], "{name}: operation {i}, inserting {} in sets: {got:?}", esc(b));
					match sorted.binary_search(&ko) {
						Ok(_) => ensure!(w.is_some(), "{name}: operation {i}, binary search finds {} in a list without it", esc(b)),
						Err(at) => {
							ensure!(w.is_none(), "{name}: operation {i}, binary search misses {}", esc(b));
							sorted.insert(at, ko);
						}
					}
				}
				3 => {
					let w = m.remove(&f);
					// Removal by the borrowed or by the owned form.
					let got = if vx & 8 == 0 {
						[hs.remove(k), hw.remove(k), hb.remove(k), bt.remove(k), bb.remove(k)]
					} else {
						[hs.remove(&ko), hw.remove(&ko), hb.remove(k), bt.remove(&ko), bb.remove(k)]
					};
					ensure!(got == [w; 5], "{name}: operation {i}, removing {}: {got:?}, expected {w:?}", esc(b));
					let got = if vx & 8 == 0 { [hset.remove(k), bset.remove(k)] } else { [hset.remove(&ko), bset.remove(&ko)] };
					ensure!(got == [w.is_some(); 2], "{name}: operation {i}, removing {} from sets: {got:?}", esc(b));
					if let Ok(at) = sorted.binary_search(&ko) {
						ensure!(w.is_some(), "{name}: operation {i}, binary search finds {}, which is gone", esc(b));
						sorted.remove(at);
					} else {
						ensure!(w.is_none(), "{name}: operation {i}, binary search misses {}", esc(b));
					}
				}
				4 | 5 => {
					let w = m.get(&f).copied();
					let got = [hs.get(k), hw.get(k), hb.get(k), bt.get(k), bb.get(k), hs.get(&ko), hw.get(&ko), bt.get(&ko)].map(|v| v.copied());
					ensure!(got == [w; 8], "{name}: operation {i}, looking up {}: {got:?}, expected {w:?}", esc(b));
					let got = [hset.contains(k), bset.contains(k), hset.contains(&ko), bset.contains(&ko)];
					ensure!(got == [w.is_some(); 4], "{name}: operation {i}, looking up {} in sets: {got:?}", esc(b));
					let at = sorted.binary_search_by(|x| <T as Ord>::cmp(x, k));
					ensure!(at.is_ok() == w.is_some(), "{name}: operation {i}, binary search for {}: {at:?}", esc(b));
				}
				6 => {
					// Range query, bounds in either form.
					let want: Vec<u32> = m.range((Bound::Included(f.clone()), Bound::Unbounded)).map(|(_, v)| *v).collect();
					let got: Vec<u32> = bt.range::<T, _>((Bound::Included(k), Bound::Unbounded)).map(|(_, v)| *v).collect();
					ensure!(got == want, "{name}: operation {i}, range from {}: {got:?}, expected {want:?}", esc(b));
					let want: Vec<u32> = m.range((Bound::Unbounded, Bound::Excluded(f.clone()))).map(|(_, v)| *v).collect();
					let got: Vec<u32> = bt.range::<T::Buf, _>((Bound::Unbounded, Bound::Excluded(ko))).map(|(_, v)| *v).collect();
					ensure!(got == want, "{name}: operation {i}, range up to {}: {got:?}, expected {want:?}", esc(b));
					let want: Vec<u32> = m.range((Bound::Excluded(f), Bound::Unbounded)).map(|(_, v)| *v).collect();
					let got: Vec<u32> = bb.range::<&T, _>((Bound::Excluded(k), Bound::Unbounded)).map(|(_, v)| *v).collect();
					ensure!(got == want, "{name}: operation {i}, borrowed range after {}: {got:?}, expected {want:?}", esc(b));
				}
				_ => {
					let w = m.entry(f).and_modify(|x| *x += 1).or_insert(v).to_owned();
					let got = [
						*hs.entry(ko.clone()).and_modify(|x| *x += 1).or_insert(v),
						*hw.entry(ko.clone()).and_modify(|x| *x += 1).or_insert(v),
						*hb.entry(k).and_modify(|x| *x += 1).or_insert(v),
						*bt.entry(ko.clone()).and_modify(|x| *x += 1).or_insert(v),
						*bb.entry(k).and_modify(|x| *x += 1).or_insert(v),
					];
					ensure!(got == [w; 5], "{name}: operation {i}, entry {}: {got:?}, expected {w}", esc(b));
					hset.insert(ko.clone());
					bset.insert(ko.clone());
					if let Err(at) = sorted.binary_search(&ko) {
						sorted.insert(at, ko);
					}
				}
			}
			let sizes = [hs.len(), hw.len(), hb.len(), hset.len(), bt.len(), bb.len(), bset.len(), sorted.len()];
			ensure!(sizes == [m.len(); 8], "{name}: after operation {i} on {} sizes are {sizes:?}, expected {}", esc(b), m.len());
		}
		// Iteration: ordered maps in order, hash maps as a set.
		let want: Vec<(&[u8], u32)> = m.iter().map(|(k, v)| (&k.1[..], *v)).collect();
		let a: Vec<(Vec<u8>, u32)> = bt.iter().map(|(k, v)| (fold(T::ob(k)), *v)).collect();
		let b: Vec<(Vec<u8>, u32)> = bb.iter().map(|(k, v)| (fold(k.b()), *v)).collect();
		let same = |x: &[(Vec<u8>, u32)]| x.len() == want.len() && x.iter().zip(&want).all(|(x, w)| x.0 == w.0 && x.1 == w.1);
		ensure!(same(&a) && same(&b), "{name}: ordered maps iterate differently from the model");
		let keys: Vec<Vec<u8>> = bset.iter().map(|k| fold(T::ob(k))).collect();
		ensure!(keys.iter().map(|k| &k[..]).eq(want.iter().map(|w| w.0)), "{name}: ordered set iterates differently");
		let keys: Vec<Vec<u8>> = sorted.iter().map(|k| fold(T::ob(k))).collect();
		ensure!(keys.iter().map(|k| &k[..]).eq(want.iter().map(|w| w.0)), "{name}: sorted list is in another order");
		let mut h: Vec<(Key, u32)> = hs.iter().map(|(k, v)| (key(T::ob(k)), *v)).collect();
		h.sort();
		ensure!(h.iter().map(|(k, v)| (&k.1[..], *v)).eq(want.iter().copied()), "{name}: hash map holds other entries");
		// Sorting, deduplication and partitioning of the whole pool.
		let mut all: Vec<T::Buf> = twins.iter().filter_map(|t| T::obuf(t)).collect();
		all.sort();
		all.dedup();
		let mut mm: Vec<Key> = twins.iter().map(|t| key(t)).collect();
		mm.sort();
		mm.dedup();
		ensure!(
			all.iter().map(|k| fold(T::ob(k))).eq(mm.iter().map(|k| k.1.clone())),
			"{name}: sort and dedup of the pool {} leave {} values, expected {}",
			esc(&c.a), all.len(), mm.len()
		);
		let mut borrowed: Vec<&T> = twins.iter().filter_map(|t| T::parse(t)).collect();
		borrowed.sort_unstable();
		borrowed.dedup();
		ensure!(borrowed.iter().map(|k| fold(k.b())).eq(mm.iter().map(|k| k.1.clone())), "{name}: sort and dedup of borrowed values differ");
		for t in &twins {
			if let Some(k) = T::parse(t) {
				ensure!(borrowed.binary_search(&k).is_ok(), "{name}: binary search misses {}", esc(t));
			}
		}
		ctx.n("histories", 1);
		if mm.len() > 1 {
			ctx.saw(&[&[c.p], &c.a, &c.c]);
		}
		Ok(())
	}
}
