//! Reference model: a hand-written splitter and recogniser for RFC 5646
//! section 2.1, independent of the crate under test (and cross-checked against
//! `abnf`, which is compiled from the RFC's grammar text).

use std::ops::Range;

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord, Hash)]
#[repr(u8)]
pub enum Prod {
	LanguageTag,
	Langtag,
	Privateuse,
	PrivateuseSubtag,
	Language,
	Primary,
	Extlang,
	ExtlangTag,
	Script,
	Region,
	Variant,
	Variants,
	Extension,
	ExtensionSubtag,
	Extensions,
	// Not string newtypes:
	Singleton,
	Grandfathered,
}

use Prod::*;

pub const PRODS: [Prod; 17] = [
	LanguageTag, Langtag, Privateuse, PrivateuseSubtag, Language, Primary, Extlang, ExtlangTag, Script, Region,
	Variant, Variants, Extension, ExtensionSubtag, Extensions, Singleton, Grandfathered,
];

/// The 15 productions with a string newtype of their own.
pub const TYPES: usize = 15;

impl Prod {
	pub fn from_u8(b: u8) -> Prod {
		PRODS[b as usize % PRODS.len()]
	}

	pub fn idx(self) -> usize {
		self as usize
	}

	pub fn name(self) -> &'static str {
		[
			"LangTag", "NormalLangTag", "PrivateUse", "PrivateUseSubtag", "Language", "PrimaryLanguage",
			"LanguageExtension", "ExtendedLangTag", "Script", "Region", "Variant", "Variants", "Extension",
			"ExtensionSubtag", "Extensions", "Singleton", "GrandfatheredLangTag",
		][self.idx()]
	}

	/// Rule name in the ABNF.
	pub fn rule(self) -> &'static str {
		[
			"Language-Tag", "langtag", "privateuse", "privateuse-subtag", "language", "primary", "extlang",
			"extlang-tag", "script", "region", "variant", "variants", "extension", "extension-subtag", "extensions",
			"singleton", "grandfathered",
		][self.idx()]
	}
}

/// RFC 5646 section 2.1: irregular (17), then regular (9), registered spelling.
pub const GRANDFATHERED: [(&str, Option<&str>); 26] = [
	("en-GB-oed", None),
	("i-ami", None),
	("i-bnn", None),
	("i-default", None),
	("i-enochian", None),
	("i-hak", None),
	("i-klingon", None),
	("i-lux", None),
	("i-mingo", None),
	("i-navajo", None),
	("i-pwn", None),
	("i-tao", None),
	("i-tay", None),
	("i-tsu", None),
	("sgn-BE-FR", None),
	("sgn-BE-NL", None),
	("sgn-CH-DE", None),
	("art-lojban", Some("art")),
	("cel-gaulish", Some("cel")),
	("no-bok", Some("no")),
	("no-nyn", Some("no")),
	("zh-guoyu", Some("zh")),
	("zh-hakka", Some("zh")),
	("zh-min", Some("zh")),
	("zh-min-nan", Some("zh")),
	("zh-xiang", Some("zh")),
];

pub fn fold_byte(b: u8) -> u8 {
	match b {
		b'A'..=b'Z' => b - b'A' + b'a',
		_ => b,
	}
}

pub fn fold(b: &[u8]) -> Vec<u8> {
	b.iter().map(|b| fold_byte(*b)).collect()
}

pub fn fold_eq(a: &[u8], b: &[u8]) -> bool {
	a.len() == b.len() && a.iter().zip(b).all(|(a, b)| fold_byte(*a) == fold_byte(*b))
}

fn alpha(s: &[u8], lo: usize, hi: usize) -> bool {
	s.len() >= lo && s.len() <= hi && s.iter().all(|b| b.is_ascii_alphabetic())
}

fn alnum(s: &[u8], lo: usize, hi: usize) -> bool {
	s.len() >= lo && s.len() <= hi && s.iter().all(|b| b.is_ascii_alphanumeric())
}

fn is_script(s: &[u8]) -> bool {
	alpha(s, 4, 4)
}

fn is_region(s: &[u8]) -> bool {
	alpha(s, 2, 2) || (s.len() == 3 && s.iter().all(|b| b.is_ascii_digit()))
}

fn is_variant(s: &[u8]) -> bool {
	alnum(s, 5, 8) || (alnum(s, 4, 4) && s[0].is_ascii_digit())
}

pub fn is_singleton(s: &[u8]) -> bool {
	alnum(s, 1, 1) && fold_byte(s[0]) != b'x'
}

#[derive(Clone, Debug, PartialEq)]
pub struct Ext {
	pub range: Range<usize>,
	pub subtags: Vec<Range<usize>>,
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Normal {
	pub language: Range<usize>,
	pub primary: Range<usize>,
	pub extlang: Option<Range<usize>>,
	pub extlangs: Vec<Range<usize>>,
	pub script: Option<Range<usize>>,
	pub region: Option<Range<usize>>,
	pub variants: Option<Range<usize>>,
	pub variant_list: Vec<Range<usize>>,
	pub extensions: Option<Range<usize>>,
	pub extension_list: Vec<Ext>,
	pub private: Option<Range<usize>>,
	pub private_list: Vec<Range<usize>>,
}

/// Ranges of the `-` separated segments. One (empty) segment for an empty input.
pub fn segments(s: &[u8]) -> Vec<Range<usize>> {
	let mut out = Vec::new();
	let mut start = 0;
	for (i, b) in s.iter().enumerate() {
		if *b == b'-' {
			out.push(start..i);
			start = i + 1;
		}
	}
	out.push(start..s.len());
	out
}

struct Walk<'a> {
	s: &'a [u8],
	seg: Vec<Range<usize>>,
	i: usize,
}

impl<'a> Walk<'a> {
	fn new(s: &'a [u8]) -> Self {
		Self { s, seg: segments(s), i: 0 }
	}

	fn peek(&self) -> Option<&'a [u8]> {
		self.seg.get(self.i).map(|r| &self.s[r.clone()])
	}

	fn take_if(&mut self, f: impl Fn(&[u8]) -> bool) -> Option<Range<usize>> {
		if f(self.peek()?) {
			self.i += 1;
			Some(self.seg[self.i - 1].clone())
		} else {
			None
		}
	}

	fn done(&self) -> bool {
		self.i >= self.seg.len()
	}

	fn language(&mut self, n: &mut Normal) -> bool {
		let Some(p) = self.take_if(|s| alpha(s, 2, 8)) else {
			return false;
		};
		n.primary = p.clone();
		n.language = p.clone();
		if p.len() <= 3 {
			while n.extlangs.len() < 3 {
				match self.take_if(|s| alpha(s, 3, 3)) {
					Some(r) => {
						n.language.end = r.end;
						n.extlangs.push(r);
					}
					None => break,
				}
			}
		}
		n.extlang = span(&n.extlangs);
		true
	}

	fn variants(&mut self, n: &mut Normal) {
		while let Some(r) = self.take_if(is_variant) {
			n.variant_list.push(r);
		}
		n.variants = span(&n.variant_list);
	}

	fn extension(&mut self) -> Option<Option<Ext>> {
		let Some(first) = self.take_if(is_singleton) else {
			return Some(None);
		};
		let mut e = Ext { range: first, subtags: Vec::new() };
		while let Some(r) = self.take_if(|s| alnum(s, 2, 8)) {
			e.range.end = r.end;
			e.subtags.push(r);
		}
		if e.subtags.is_empty() { None } else { Some(Some(e)) }
	}

	fn extensions(&mut self, n: &mut Normal) -> bool {
		loop {
			match self.extension() {
				None => return false,
				Some(None) => break,
				Some(Some(e)) => n.extension_list.push(e),
			}
		}
		if let (Some(a), Some(b)) = (n.extension_list.first(), n.extension_list.last()) {
			n.extensions = Some(a.range.start..b.range.end);
		}
		true
	}

	fn private(&mut self, n: &mut Normal) -> bool {
		let Some(x) = self.take_if(|s| s.len() == 1 && fold_byte(s[0]) == b'x') else {
			return true;
		};
		while let Some(r) = self.take_if(|s| alnum(s, 1, 8)) {
			n.private_list.push(r);
		}
		match n.private_list.last() {
			Some(l) => {
				n.private = Some(x.start..l.end);
				true
			}
			None => false,
		}
	}
}

fn span(list: &[Range<usize>]) -> Option<Range<usize>> {
	Some(list.first()?.start..list.last()?.end)
}

/// Parse as a `langtag`.
pub fn parse_normal(s: &[u8]) -> Option<Normal> {
	let mut n = Normal::default();
	let mut w = Walk::new(s);
	if !w.language(&mut n) {
		return None;
	}
	n.script = w.take_if(is_script);
	n.region = w.take_if(is_region);
	w.variants(&mut n);
	if !w.extensions(&mut n) || !w.private(&mut n) || !w.done() {
		return None;
	}
	Some(n)
}

/// Parse one of the standalone component productions; only the fields that make
/// sense for it are filled.
pub fn parse_part(p: Prod, s: &[u8]) -> Option<Normal> {
	let mut n = Normal::default();
	let mut w = Walk::new(s);
	let ok = match p {
		Langtag => return parse_normal(s),
		Privateuse => w.private(&mut n) && n.private.is_some(),
		Language => w.language(&mut n),
		Extlang => {
			while n.extlangs.len() < 3 {
				match w.take_if(|s| alpha(s, 3, 3)) {
					Some(r) => n.extlangs.push(r),
					None => break,
				}
			}
			n.extlang = span(&n.extlangs);
			n.extlang.is_some()
		}
		Variants => {
			if s.is_empty() {
				return Some(n);
			}
			w.variants(&mut n);
			n.variants.is_some()
		}
		Extension => w.extension().flatten().map(|e| n.extension_list.push(e)).is_some(),
		Extensions => {
			if s.is_empty() {
				return Some(n);
			}
			w.extensions(&mut n) && n.extensions.is_some()
		}
		_ => return None,
	};
	if ok && w.done() { Some(n) } else { None }
}

pub fn grandfathered(s: &[u8]) -> Option<usize> {
	GRANDFATHERED.iter().position(|(g, _)| fold_eq(g.as_bytes(), s))
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
	Normal,
	PrivateUse,
	Grandfathered,
}

pub fn kind(s: &[u8]) -> Option<Kind> {
	if parse_normal(s).is_some() {
		Some(Kind::Normal)
	} else if parse_part(Privateuse, s).is_some() {
		Some(Kind::PrivateUse)
	} else if grandfathered(s).is_some() {
		Some(Kind::Grandfathered)
	} else {
		None
	}
}

pub fn accepts(p: Prod, s: &[u8]) -> bool {
	match p {
		LanguageTag => kind(s).is_some(),
		PrivateuseSubtag => alnum(s, 1, 8),
		Primary => alpha(s, 2, 8),
		ExtlangTag => alpha(s, 3, 3),
		Script => is_script(s),
		Region => is_region(s),
		Variant => is_variant(s),
		ExtensionSubtag => alnum(s, 2, 8),
		Singleton => is_singleton(s),
		Grandfathered => grandfathered(s).is_some(),
		_ => parse_part(p, s).is_some(),
	}
}
