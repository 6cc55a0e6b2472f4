//! Uniform access to the 15 string newtypes of the crate under test.

use crate::model::Prod;
use core::borrow::Borrow;
use core::cmp::Ordering;
use core::fmt::{Debug, Display};
use core::hash::Hash;
use langtag::*;

/// What a fallible constructor answered: the text of the value, or the input handed back and
/// whether that is the very same reference (always `true` for owned inputs).
pub type Verdict<'a> = Result<&'a [u8], (&'a [u8], bool)>;

/// All answers of comparing two operands, as far as the crate offers the comparison.
#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub struct Foreign {
	pub eq: Option<Eqs>,
	pub eq_rev: Option<Eqs>,
	pub ord: Option<Ords>,
	pub ord_rev: Option<Ords>,
}

/// `==` and `!=`.
pub type Eqs = [bool; 2];
/// The order, and `<`, `<=`, `>`, `>=`.
pub type Ords = (Option<Ordering>, [bool; 4]);

impl Foreign {
	/// Whether all answers are the expected ones. A comparison that is no longer offered is not.
	pub fn agrees(&self, want: &Foreign) -> bool {
		self == want
	}

	/// Number of answers.
	pub fn answers(&self) -> u64 {
		let (e, o) = ([self.eq, self.eq_rev], [self.ord, self.ord_rev]);
		2 * e.iter().flatten().count() as u64 + 5 * o.iter().flatten().count() as u64
	}
}

fn eqs<A: ?Sized + PartialEq<B>, B: ?Sized>(a: &A, b: &B) -> Eqs {
	[a.eq(b), a.ne(b)]
}

fn ords<A: ?Sized + PartialOrd<B>, B: ?Sized>(a: &A, b: &B) -> Ords {
	(a.partial_cmp(b), [a.lt(b), a.le(b), a.gt(b), a.ge(b)])
}

pub fn foreign<A: ?Sized + PartialEq<B> + PartialOrd<B>, B: ?Sized + PartialEq<A> + PartialOrd<A>>(
	a: &A,
	b: &B,
) -> Foreign {
	Foreign { eq: Some(eqs(a, b)), eq_rev: Some(eqs(b, a)), ord: Some(ords(a, b)), ord_rev: Some(ords(b, a)) }
}

/// Two operands. The probes compare them if the crate under test offers that comparison, and
/// answer nothing otherwise (the choice is made at compile time).
pub struct Pair<'a, A: ?Sized, B: ?Sized>(pub &'a A, pub &'a B);

pub trait OfferedEq {
	fn probe_eq(&self) -> Option<Eqs>;
}
impl<A: ?Sized + PartialEq<B>, B: ?Sized> OfferedEq for Pair<'_, A, B> {
	fn probe_eq(&self) -> Option<Eqs> {
		Some(eqs(self.0, self.1))
	}
}
pub trait NotOfferedEq {
	fn probe_eq(&self) -> Option<Eqs> {
		None
	}
}
impl<A: ?Sized, B: ?Sized> NotOfferedEq for &Pair<'_, A, B> {}

pub trait OfferedOrd {
	fn probe_ord(&self) -> Option<Ords>;
}
impl<A: ?Sized + PartialOrd<B>, B: ?Sized> OfferedOrd for Pair<'_, A, B> {
	fn probe_ord(&self) -> Option<Ords> {
		Some(ords(self.0, self.1))
	}
}
pub trait NotOfferedOrd {
	fn probe_ord(&self) -> Option<Ords> {
		None
	}
}
impl<A: ?Sized, B: ?Sized> NotOfferedOrd for &Pair<'_, A, B> {}

/// The only consistent set of answers, given equality and order.
pub fn foreign_expected(eq: bool, cmp: Option<Ordering>) -> Foreign {
	let ords = |c: Option<Ordering>| {
		let ops = [
			c == Some(Ordering::Less),
			matches!(c, Some(Ordering::Less | Ordering::Equal)),
			c == Some(Ordering::Greater),
			matches!(c, Some(Ordering::Greater | Ordering::Equal)),
		];
		Some((c, ops))
	};
	Foreign { eq: Some([eq, !eq]), eq_rev: Some([eq, !eq]), ord: ords(cmp), ord_rev: ords(cmp.map(Ordering::reverse)) }
}

pub trait Ty:
	Eq + Ord + Hash + Debug + Display + AsRef<str> + AsRef<[u8]> + AsRef<Self> + Borrow<str> + 'static
{
	const PROD: Prod;

	fn parse(b: &[u8]) -> Option<&Self>;
	fn b(&self) -> &[u8];
	fn s(&self) -> &str;

	/// Feed `input` to every constructor and conversion of the borrowed type.
	fn ctors(input: &[u8], f: &mut dyn FnMut(&'static str, Verdict));

	/// Answers of the bare validation functions.
	fn validators(input: &[u8], f: &mut dyn FnMut(&'static str, bool));

	/// Compare with `text` as every foreign type available.
	fn foreigners(&self, text: &[u8], f: &mut dyn FnMut(&'static str, Foreign));

	/// Text through every borrowed conversion.
	fn texts(&self, f: &mut dyn FnMut(&'static str, &[u8]));
}

/// The owned side.
#[cfg(feature = "std")]
pub trait OTy: Ty + ToOwned<Owned = Self::Buf> {
	type Buf: Eq
		+ Ord
		+ Hash
		+ Clone
		+ Debug
		+ Display
		+ Borrow<Self>
		+ AsRef<Self>
		+ AsRef<str>
		+ AsRef<[u8]>
		+ core::ops::Deref<Target = Self>
		+ Send
		+ Sync
		+ 'static;

	fn obuf(b: &[u8]) -> Option<Self::Buf>;
	fn ob(b: &Self::Buf) -> &[u8];
	fn octors(input: &[u8], f: &mut dyn FnMut(&'static str, Verdict));
	fn oforeigners(b: &Self::Buf, text: &[u8], f: &mut dyn FnMut(&'static str, Foreign));
	fn otexts(b: &Self::Buf, f: &mut dyn FnMut(&'static str, &[u8]));
	/// Consuming conversion number `n`.
	fn ointo(b: Self::Buf, n: usize) -> (&'static str, Vec<u8>);
	/// Mixed borrowed/owned comparisons of `a` and `b`.
	fn mixed(a: &Self, b: &Self, f: &mut dyn FnMut(&'static str, Foreign));
}

fn same(a: &[u8], b: &[u8]) -> bool {
	core::ptr::eq(a.as_ptr(), b.as_ptr()) && a.len() == b.len()
}

macro_rules! verdict {
	($f:ident, $label:literal, $input:expr, $e:expr) => {
		match $e {
			Ok(v) => $f($label, Ok(v.as_bytes())),
			Err(e) => {
				let back: &[u8] = e.0.as_ref();
				$f($label, Err((back, same(back, $input))))
			}
		}
	};
}

#[cfg(feature = "std")]
macro_rules! overdict {
	($f:ident, $label:literal, $e:expr) => {
		match $e {
			Ok(v) => $f($label, Ok(v.as_bytes())),
			Err(e) => {
				let back: &[u8] = e.0.as_ref();
				$f($label, Err((back, true)))
			}
		}
	};
}

macro_rules! offer {
	($f:ident, $label:literal, $A:ty, $B:ty, $a:expr, $b:expr) => {
		{
			let (a, b): (&$A, &$B) = ($a, $b);
			let r = Foreign {
				eq: (&Pair::<$A, $B>(a, b)).probe_eq(),
				eq_rev: (&Pair::<$B, $A>(b, a)).probe_eq(),
				ord: (&Pair::<$A, $B>(a, b)).probe_ord(),
				ord_rev: (&Pair::<$B, $A>(b, a)).probe_ord(),
			};
			$f($label, r)
		}
	};
}

macro_rules! impl_ty {
	($t:ident, $buf:ident, $as_ref:ident, $prod:ident) => {
		impl Ty for $t {
			const PROD: Prod = Prod::$prod;

			fn parse(b: &[u8]) -> Option<&Self> {
				$t::new(b).ok()
			}
			fn b(&self) -> &[u8] {
				self.as_bytes()
			}
			fn s(&self) -> &str {
				self.as_str()
			}

			fn ctors(input: &[u8], f: &mut dyn FnMut(&'static str, Verdict)) {
				verdict!(f, "new(&[u8])", input, $t::new(input));
				verdict!(f, "from_bytes", input, $t::from_bytes(input));
				verdict!(f, "TryFrom<&[u8]>", input, <&$t as TryFrom<&[u8]>>::try_from(input));
				let v = input.to_vec();
				verdict!(f, "new(&Vec<u8>)", &v, $t::new(&v));
				if let Ok(s) = core::str::from_utf8(input) {
					verdict!(f, "new(&str)", input, $t::new(s));
					verdict!(f, "from_str", input, $t::from_str(s));
					verdict!(f, "TryFrom<&str>", input, <&$t as TryFrom<&str>>::try_from(s));
					let string = s.to_string();
					verdict!(f, "new(&String)", string.as_bytes(), $t::new(&string));
				}
			}

			fn validators(input: &[u8], f: &mut dyn FnMut(&'static str, bool)) {
				f("validate_bytes", $t::validate_bytes(input));
				if let Ok(s) = core::str::from_utf8(input) {
					f("validate_str", $t::validate_str(s));
				}
			}

			fn foreigners(&self, text: &[u8], f: &mut dyn FnMut(&'static str, Foreign)) {
				offer!(f, "[u8]", $t, [u8], self, text);
				offer!(f, "&[u8]", $t, &[u8], self, &text);
				if let Ok(s) = core::str::from_utf8(text) {
					offer!(f, "str", $t, str, self, s);
					offer!(f, "&str", $t, &str, self, &s);
				}
				#[cfg(feature = "std")]
				{
					let v = text.to_vec();
					offer!(f, "Vec<u8>", $t, Vec<u8>, self, &v);
					if let Ok(s) = String::from_utf8(v) {
						offer!(f, "String", $t, String, self, &s);
					}
				}
			}

			fn texts(&self, f: &mut dyn FnMut(&'static str, &[u8])) {
				f("as_str", self.as_str().as_bytes());
				f("as_bytes", self.as_bytes());
				f("AsRef<str>", AsRef::<str>::as_ref(self).as_bytes());
				f("AsRef<[u8]>", AsRef::<[u8]>::as_ref(self));
				f("AsRef<Self>", AsRef::<$t>::as_ref(self).as_bytes());
				f("Borrow<str>", Borrow::<str>::borrow(self).as_bytes());
				f("From for &str", <&str>::from(self).as_bytes());
				f("From for &[u8]", <&[u8]>::from(self));
				f("Display", format!("{}", self).as_bytes());
				f("to_string", self.to_string().as_bytes());
			}
		}

		#[cfg(feature = "std")]
		impl OTy for $t {
			type Buf = $buf;

			fn obuf(b: &[u8]) -> Option<$buf> {
				$buf::new(b.to_vec()).ok()
			}
			fn ob(b: &$buf) -> &[u8] {
				b.as_bytes()
			}

			fn octors(input: &[u8], f: &mut dyn FnMut(&'static str, Verdict)) {
				overdict!(f, "Buf::new(Vec<u8>)", $buf::new(input.to_vec()));
				overdict!(f, "Buf::from_bytes", $buf::from_bytes(input.to_vec()));
				overdict!(f, "Buf TryFrom<Vec<u8>>", <$buf as TryFrom<Vec<u8>>>::try_from(input.to_vec()));
				if let Ok(s) = core::str::from_utf8(input) {
					overdict!(f, "Buf::new(String)", $buf::new(s.to_string()));
					overdict!(f, "Buf::from_string", $buf::from_string(s.to_string()));
					overdict!(f, "Buf TryFrom<String>", <$buf as TryFrom<String>>::try_from(s.to_string()));
					overdict!(f, "Buf FromStr", <$buf as core::str::FromStr>::from_str(s));
				}
			}

			fn oforeigners(b: &$buf, text: &[u8], f: &mut dyn FnMut(&'static str, Foreign)) {
				offer!(f, "Buf/[u8]", $buf, [u8], b, text);
				offer!(f, "Buf/&[u8]", $buf, &[u8], b, &text);
				let v = text.to_vec();
				offer!(f, "Buf/Vec<u8>", $buf, Vec<u8>, b, &v);
				if let Ok(s) = core::str::from_utf8(text) {
					offer!(f, "Buf/str", $buf, str, b, s);
					offer!(f, "Buf/&str", $buf, &str, b, &s);
					let string = s.to_string();
					offer!(f, "Buf/String", $buf, String, b, &string);
				}
			}

			fn otexts(b: &$buf, f: &mut dyn FnMut(&'static str, &[u8])) {
				f("Buf::as_str", b.as_str().as_bytes());
				f("Buf::as_bytes", b.as_bytes());
				f("Buf::as_<type>", b.$as_ref().as_bytes());
				f("Buf AsRef<str>", AsRef::<str>::as_ref(b).as_bytes());
				f("Buf AsRef<[u8]>", AsRef::<[u8]>::as_ref(b));
				f("Buf AsRef<T>", AsRef::<$t>::as_ref(b).as_bytes());
				f("Buf Borrow<T>", Borrow::<$t>::borrow(b).as_bytes());
				f("Buf Deref", (**b).as_bytes());
				f("Buf Display", format!("{}", b).as_bytes());
				f("Buf to_string", b.to_string().as_bytes());
			}

			fn ointo(b: $buf, n: usize) -> (&'static str, Vec<u8>) {
				match n % 4 {
					0 => ("Buf::into_string", b.into_string().into_bytes()),
					1 => ("Buf::into_bytes", b.into_bytes()),
					2 => ("String::from(Buf)", String::from(b).into_bytes()),
					_ => ("Vec::from(Buf)", Vec::<u8>::from(b)),
				}
			}

			fn mixed(a: &$t, b: &$t, f: &mut dyn FnMut(&'static str, Foreign)) {
				let (oa, ob) = (a.to_owned(), b.to_owned());
				offer!(f, "T vs T", $t, $t, a, b);
				offer!(f, "Buf vs Buf", $buf, $buf, &oa, &ob);
				offer!(f, "Buf vs T", $buf, $t, &oa, b);
				offer!(f, "Buf vs &T", $buf, &$t, &oa, &b);
				offer!(f, "T vs Buf", $t, $buf, a, &ob);
				offer!(f, "&T vs Buf", &$t, $buf, &a, &ob);
				offer!(f, "&T vs &T", &$t, &$t, &a, &b);
			}
		}
	};
}

impl_ty!(LangTag, LangTagBuf, as_lang_tag, LanguageTag);
impl_ty!(NormalLangTag, NormalLangTagBuf, as_normal_lang_tag, Langtag);
impl_ty!(PrivateUse, PrivateUseBuf, as_private_use, Privateuse);
impl_ty!(PrivateUseSubtag, PrivateUseSubtagBuf, as_private_use_subtag, PrivateuseSubtag);
impl_ty!(Language, LanguageBuf, as_language, Language);
impl_ty!(PrimaryLanguage, PrimaryLanguageBuf, as_primary_language, Primary);
impl_ty!(LanguageExtension, LanguageExtensionBuf, as_language_extension, Extlang);
impl_ty!(ExtendedLangTag, ExtendedLangTagBuf, as_extended_lang_tag, ExtlangTag);
impl_ty!(Script, ScriptBuf, as_script, Script);
impl_ty!(Region, RegionBuf, as_region, Region);
impl_ty!(Variant, VariantBuf, as_variant, Variant);
impl_ty!(Variants, VariantsBuf, as_variants, Variants);
impl_ty!(Extension, ExtensionBuf, as_extension, Extension);
impl_ty!(ExtensionSubtag, ExtensionSubtagBuf, as_extension_subtag, ExtensionSubtag);
impl_ty!(Extensions, ExtensionsBuf, as_extensions, Extensions);

/// Run `$e` with `$T` bound to the newtype for a production; `$none` for the
/// two productions without one.
#[macro_export]
macro_rules! with_ty {
	($p:expr, $T:ident => $e:expr, else $none:expr) => {
		match $p {
			$crate::model::Prod::LanguageTag => { type $T = ::langtag::LangTag; $e }
			$crate::model::Prod::Langtag => { type $T = ::langtag::NormalLangTag; $e }
			$crate::model::Prod::Privateuse => { type $T = ::langtag::PrivateUse; $e }
			$crate::model::Prod::PrivateuseSubtag => { type $T = ::langtag::PrivateUseSubtag; $e }
			$crate::model::Prod::Language => { type $T = ::langtag::Language; $e }
			$crate::model::Prod::Primary => { type $T = ::langtag::PrimaryLanguage; $e }
			$crate::model::Prod::Extlang => { type $T = ::langtag::LanguageExtension; $e }
			$crate::model::Prod::ExtlangTag => { type $T = ::langtag::ExtendedLangTag; $e }
			$crate::model::Prod::Script => { type $T = ::langtag::Script; $e }
			$crate::model::Prod::Region => { type $T = ::langtag::Region; $e }
			$crate::model::Prod::Variant => { type $T = ::langtag::Variant; $e }
			$crate::model::Prod::Variants => { type $T = ::langtag::Variants; $e }
			$crate::model::Prod::Extension => { type $T = ::langtag::Extension; $e }
			$crate::model::Prod::ExtensionSubtag => { type $T = ::langtag::ExtensionSubtag; $e }
			$crate::model::Prod::Extensions => { type $T = ::langtag::Extensions; $e }
			_ => $none,
		}
	};
}

/// Does the library accept `b` as `p`?
pub fn lib_accepts(p: Prod, b: &[u8]) -> bool {
	match p {
		Prod::Singleton => match core::str::from_utf8(b) {
			Ok(s) => Singleton::from_string(s).is_ok(),
			Err(_) => false,
		},
		Prod::Grandfathered => GrandfatheredLangTag::new(b).is_ok(),
		_ => with_ty!(p, T => <T as Ty>::parse(b).is_some(), else false),
	}
}
