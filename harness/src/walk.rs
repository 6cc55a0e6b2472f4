//! Drive every borrowed operation of the public API on a value and report each
//! answer to a sink. Allocates nothing itself.

use crate::model::Prod;
use core::hash::{Hash, Hasher};
use langtag::*;

pub trait Sink {
	/// A piece of text handed out as a value of type `p`.
	fn item(&mut self, op: &'static str, p: Prod, text: &[u8]);
	/// Any other answer.
	fn num(&mut self, op: &'static str, v: u64);
}

/// FNV hasher (also what the digests use).
pub struct Fnv(pub u64);
impl Default for Fnv {
	fn default() -> Self {
		Fnv(0xcbf2_9ce4_8422_2325)
	}
}
impl Hasher for Fnv {
	fn finish(&self) -> u64 {
		self.0
	}
	fn write(&mut self, bytes: &[u8]) {
		self.0 = crate::rng::fnv_more(self.0, bytes)
	}
}

pub fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
	let mut h = Fnv::default();
	t.hash(&mut h);
	h.finish()
}

fn opt<S: Sink>(s: &mut S, op: &'static str, p: Prod, t: Option<&[u8]>) {
	match t {
		Some(t) => s.item(op, p, t),
		None => s.num(op, u64::MAX),
	}
}

/// At most this many elements are drawn from any iterator: one more than a list of
/// that many bytes can hold.
fn cap(b: &[u8]) -> usize {
	b.len() + 2
}

fn common<T: crate::types::Ty + ?Sized, S: Sink>(t: &T, s: &mut S) {
	s.item("self", T::PROD, t.b());
	s.num("hash", hash_of(t));
	s.num("eq self", (t == t) as u64);
	s.num("cmp self", t.cmp(t) as i8 as u64);
}

pub fn language<S: Sink>(l: &Language, s: &mut S) {
	common(l, s);
	s.item("Language::primary", Prod::Primary, l.primary().as_bytes());
	opt(s, "Language::extension", Prod::Extlang, l.extension().map(|e| e.as_bytes()));
	for e in l.extension_subtags().take(cap(l.as_bytes())) {
		s.item("Language::extension_subtags", Prod::ExtlangTag, e.as_bytes());
	}
	if let Some(e) = l.extension() {
		extlang(e, s);
	}
	common(l.primary(), s);
}

pub fn extlang<S: Sink>(l: &LanguageExtension, s: &mut S) {
	common(l, s);
	for e in l.iter().take(cap(l.as_bytes())) {
		s.item("LanguageExtension::iter", Prod::ExtlangTag, e.as_bytes());
		common(e, s);
	}
}

pub fn variants<S: Sink>(v: &Variants, s: &mut S) {
	common(v, s);
	opt(s, "Variants::first", Prod::Variant, v.first().map(|e| e.as_bytes()));
	opt(s, "Variants::last", Prod::Variant, v.last().map(|e| e.as_bytes()));
	for e in v.iter().take(cap(v.as_bytes())) {
		s.item("Variants::iter", Prod::Variant, e.as_bytes());
		common(e, s);
	}
	for e in v.iter().rev().take(cap(v.as_bytes())) {
		s.item("Variants::iter rev", Prod::Variant, e.as_bytes());
	}
}

pub fn extension<S: Sink>(e: &Extension, s: &mut S) {
	common(e, s);
	s.item("Extension::singleton", Prod::Singleton, &[e.singleton().unwrap()]);
	for t in e.iter().take(cap(e.as_bytes())) {
		s.item("Extension::iter", Prod::ExtensionSubtag, t.as_bytes());
		common(t, s);
	}
}

pub fn extensions<S: Sink>(x: &Extensions, s: &mut S) {
	common(x, s);
	for e in x.iter().take(cap(x.as_bytes())) {
		s.item("Extensions::iter", Prod::Extension, e.as_bytes());
		extension(e, s);
	}
	for c in 0..128u8 {
		if let Ok(k) = Singleton::new(c) {
			// Absent singletons: only report a disagreement-prone summary.
			if let Some(e) = x.get(k) {
				s.item("Extensions::get", Prod::Extension, e.as_bytes());
			}
			for t in x.iter_extension(k).take(cap(x.as_bytes())) {
				s.item("Extensions::iter_extension", Prod::ExtensionSubtag, t.as_bytes());
			}
		}
	}
}

pub fn private<S: Sink>(p: &PrivateUse, s: &mut S) {
	common(p, s);
	for t in p.iter().take(cap(p.as_bytes())) {
		s.item("PrivateUse::iter", Prod::PrivateuseSubtag, t.as_bytes());
		common(t, s);
	}
}

pub fn normal<S: Sink>(n: &NormalLangTag, s: &mut S) {
	common(n, s);
	s.item("Normal::language", Prod::Language, n.language().as_bytes());
	opt(s, "Normal::script", Prod::Script, n.script().map(|e| e.as_bytes()));
	opt(s, "Normal::region", Prod::Region, n.region().map(|e| e.as_bytes()));
	s.item("Normal::variants", Prod::Variants, n.variants().as_bytes());
	s.item("Normal::extensions", Prod::Extensions, n.extensions().as_bytes());
	opt(s, "Normal::private_use", Prod::Privateuse, n.private_use().map(|e| e.as_bytes()));
	for t in n.private_use_subtags().take(cap(n.as_bytes())) {
		s.item("Normal::private_use_subtags", Prod::PrivateuseSubtag, t.as_bytes());
	}
	language(n.language(), s);
	if let Some(x) = n.script() {
		common(x, s);
	}
	if let Some(x) = n.region() {
		common(x, s);
	}
	variants(n.variants(), s);
	extensions(n.extensions(), s);
	if let Some(p) = n.private_use() {
		private(p, s);
	}
}

fn kind_num(k: Kind) -> u64 {
	(match k {
		Kind::Normal => 1,
		Kind::PrivateUse => 2,
		Kind::Grandfathered => 3,
	}) + 10 * k.is_normal() as u64
		+ 20 * k.is_private_use() as u64
		+ 40 * k.is_grandfathered() as u64
}

pub fn tag<S: Sink>(t: &LangTag, s: &mut S) {
	common(t, s);
	s.num("LangTag::kind", kind_num(t.kind()));
	s.num("LangTag::is_normal", t.is_normal() as u64);
	s.num("LangTag::is_private_use", t.is_private_use() as u64);
	s.num("LangTag::is_grandfathered", t.is_grandfathered() as u64);
	opt(s, "LangTag::as_normal", Prod::Langtag, t.as_normal().map(|e| e.as_bytes()));
	opt(s, "LangTag::as_private_use", Prod::Privateuse, t.as_private_use().map(|e| e.as_bytes()));
	if let Some(g) = t.as_grandfathered() {
		s.item("LangTag::as_grandfathered", Prod::Grandfathered, g.as_bytes());
		opt(s, "Grandfathered::language", Prod::Language, g.language().map(|e| e.as_bytes()));
	}
	opt(s, "LangTag::language", Prod::Language, t.language().map(|e| e.as_bytes()));
	opt(s, "LangTag::script", Prod::Script, t.script().map(|e| e.as_bytes()));
	opt(s, "LangTag::region", Prod::Region, t.region().map(|e| e.as_bytes()));
	s.item("LangTag::variants", Prod::Variants, t.variants().as_bytes());
	s.item("LangTag::extensions", Prod::Extensions, t.extensions().as_bytes());
	opt(s, "LangTag::private_use", Prod::Privateuse, t.private_use().map(|e| e.as_bytes()));
	for p in t.private_use_subtags().take(cap(t.as_bytes())) {
		s.item("LangTag::private_use_subtags", Prod::PrivateuseSubtag, p.as_bytes());
	}
	let typed = t.as_typed();
	s.num("Typed::kind", kind_num(typed.kind()));
	s.num("Typed::is_normal", typed.is_normal() as u64);
	s.num("Typed::is_private_use", typed.is_private_use() as u64);
	s.num("Typed::is_grandfathered", typed.is_grandfathered() as u64);
	opt(s, "Typed::language", Prod::Language, typed.language().map(|e| e.as_bytes()));
	opt(s, "Typed::as_normal", Prod::Langtag, typed.as_normal().map(|e| e.as_bytes()));
	opt(s, "Typed::as_private_use", Prod::Privateuse, typed.as_private_use().map(|e| e.as_bytes()));
	if let Some(g) = typed.as_grandfathered() {
		s.item("Typed::as_grandfathered", Prod::Grandfathered, g.as_bytes());
	}
	if let Some(l) = t.language() {
		language(l, s);
	}
	match typed {
		TypedLangTag::Normal(n) => normal(n, s),
		TypedLangTag::PrivateUse(p) => private(p, s),
		TypedLangTag::Grandfathered(g) => s.item("Typed::Grandfathered", Prod::Grandfathered, g.as_str().as_bytes()),
	}
	variants(t.variants(), s);
	extensions(t.extensions(), s);
	// The regular grandfathered tags are normal too.
	if let Some(p) = t.as_private_use() {
		private(p, s);
	}
}

/// Parse `b` as `p` and, if accepted, walk the value. Returns acceptance.
pub fn any<S: Sink>(p: Prod, b: &[u8], s: &mut S) -> bool {
	macro_rules! go {
		($t:ident, $f:expr) => {
			match $t::new(b) {
				Ok(v) => {
					$f(v, s);
					true
				}
				Err(_) => false,
			}
		};
	}
	match p {
		Prod::LanguageTag => go!(LangTag, tag),
		Prod::Langtag => go!(NormalLangTag, normal),
		Prod::Privateuse => go!(PrivateUse, private),
		Prod::PrivateuseSubtag => go!(PrivateUseSubtag, common),
		Prod::Language => go!(Language, language),
		Prod::Primary => go!(PrimaryLanguage, common),
		Prod::Extlang => go!(LanguageExtension, extlang),
		Prod::ExtlangTag => go!(ExtendedLangTag, common),
		Prod::Script => go!(Script, common),
		Prod::Region => go!(Region, common),
		Prod::Variant => go!(Variant, common),
		Prod::Variants => go!(Variants, variants),
		Prod::Extension => go!(Extension, extension),
		Prod::ExtensionSubtag => go!(ExtensionSubtag, common),
		Prod::Extensions => go!(Extensions, extensions),
		Prod::Singleton => {
			if b.len() == 1 {
				match Singleton::new(b[0]) {
					Ok(k) => {
						s.item("Singleton::unwrap", Prod::Singleton, &[k.unwrap()]);
						s.num("Singleton hash", hash_of(&k));
						true
					}
					Err(_) => false,
				}
			} else {
				false
			}
		}
		Prod::Grandfathered => match GrandfatheredLangTag::new(b) {
			Ok(g) => {
				s.item("Grandfathered::as_bytes", Prod::Grandfathered, g.as_bytes());
				s.item("Grandfathered::as_str", Prod::Grandfathered, g.as_str().as_bytes());
				s.num("Grandfathered hash", hash_of(&g));
				opt(s, "Grandfathered::language", Prod::Language, g.language().map(|e| e.as_bytes()));
				true
			}
			Err(_) => false,
		},
	}
}

/// Sink that keeps a running digest and a count.
#[derive(Default)]
pub struct Digest {
	pub h: Fnv,
	pub events: u64,
}

impl Sink for Digest {
	fn item(&mut self, op: &'static str, p: Prod, text: &[u8]) {
		self.events += 1;
		self.h.write(op.as_bytes());
		self.h.write(&[p as u8, 1]);
		self.h.write(&(text.len() as u64).to_le_bytes());
		self.h.write(text);
	}
	fn num(&mut self, op: &'static str, v: u64) {
		self.events += 1;
		self.h.write(op.as_bytes());
		self.h.write(&v.to_le_bytes());
	}
}
