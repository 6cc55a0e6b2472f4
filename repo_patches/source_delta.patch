From a1fd9d7aa8c1ca48cf85f81401c69ba592ad7f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:08 +0000
Subject: [PATCH 1/6] fix: do not slice past the end of tags that stop early

---
 src/normal/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/normal/mod.rs b/src/normal/mod.rs
index 6b310f3..17c0873 100644
--- a/src/normal/mod.rs
+++ b/src/normal/mod.rs
@@ -180,6 +180,12 @@ impl Hash for NormalLangTag {
 /// subtag is part of the list.
 fn find_list_end(string: &str, mut offset: usize, mut f: impl FnMut(usize, &str) -> bool) -> usize {
 	let bytes = string.as_bytes();
+
+	// The string ends before the list could start.
+	if offset > bytes.len() {
+		return offset;
+	}
+
 	let mut i = offset;
 	let mut end = i;
 	while i < bytes.len() {
-- 
2.43.0


From b20edb816f1af29e4ffffc9e3ba2669ef98385c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:08 +0000
Subject: [PATCH 2/6] fix: look for the private use subtags after the
 extensions

---
 src/normal/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/normal/mod.rs b/src/normal/mod.rs
index 17c0873..9d8ba4b 100644
--- a/src/normal/mod.rs
+++ b/src/normal/mod.rs
@@ -127,10 +127,10 @@ impl NormalLangTag {
 	}
 
 	fn private_use_offset(&self) -> Option<usize> {
-		let variants_end = self.variants_range().end;
+		let extensions_end = self.extensions_range().end;
 
-		if variants_end < self.0.len() {
-			Some(variants_end + 1)
+		if extensions_end < self.0.len() {
+			Some(extensions_end + 1)
 		} else {
 			None
 		}
-- 
2.43.0


From d633a30bc868de4cbe9dff66e0123138f1630435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:08 +0000
Subject: [PATCH 3/6] fix: ignore letter case when comparing extension
 singletons

---
 src/normal/extension.rs | 38 +++++++++++++++++++++++++++++++++-----
 1 file changed, 33 insertions(+), 5 deletions(-)

diff --git a/src/normal/extension.rs b/src/normal/extension.rs
index 4c52dd1..80e2c8f 100644
--- a/src/normal/extension.rs
+++ b/src/normal/extension.rs
@@ -1,4 +1,4 @@
-use core::{fmt, hash::Hash};
+use core::{cmp::Ordering, fmt, hash::Hash};
 
 use crate::utils;
 
@@ -7,7 +7,9 @@ use crate::utils;
 pub struct InvalidSingleton<T>(pub T);
 
 /// Extension identifier.
-#[derive(Copy, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
+///
+/// Comparison is case-insensitive.
+#[derive(Copy, Clone)]
 pub struct Singleton(u8);
 
 impl Singleton {
@@ -71,15 +73,41 @@ impl TryFrom<char> for Singleton {
 	}
 }
 
+impl PartialEq for Singleton {
+	fn eq(&self, other: &Self) -> bool {
+		self.0.eq_ignore_ascii_case(&other.0)
+	}
+}
+
+impl Eq for Singleton {}
+
+impl PartialOrd for Singleton {
+	fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
+		Some(self.cmp(other))
+	}
+}
+
+impl Ord for Singleton {
+	fn cmp(&self, other: &Self) -> Ordering {
+		utils::into_smallcase(self.0).cmp(&utils::into_smallcase(other.0))
+	}
+}
+
+impl Hash for Singleton {
+	fn hash<H: core::hash::Hasher>(&self, state: &mut H) {
+		utils::into_smallcase(self.0).hash(state)
+	}
+}
+
 impl PartialEq<u8> for Singleton {
 	fn eq(&self, b: &u8) -> bool {
-		self.0 == *b
+		self.0.eq_ignore_ascii_case(b)
 	}
 }
 
 impl PartialEq<char> for Singleton {
 	fn eq(&self, b: &char) -> bool {
-		self.0 as u32 == *b as u32
+		(self.0 as char).eq_ignore_ascii_case(b)
 	}
 }
 
@@ -217,7 +245,7 @@ impl Extensions {
 		let mut starting = true;
 		while i + 1 < self.0.len() {
 			if starting {
-				if bytes[i] == singleton.0 && bytes[i + 1] == b'-' {
+				if singleton == bytes[i] && bytes[i + 1] == b'-' {
 					let end = super::find_list_end(&self.0, i + 2, |_, segment| segment.len() > 1);
 
 					return Some(unsafe { Extension::new_unchecked(&self.0[i..end]) });
-- 
2.43.0


From 919a19bcc7fdfee8ea50b60a141d5ae56453e16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:08 +0000
Subject: [PATCH 4/6] fix: accept primary languages of four to eight letters

---
 src/grammar.abnf |  4 ++--
 src/grammar.rs   | 22 +++++++++++++++++++++-
 2 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/grammar.abnf b/src/grammar.abnf
index 0a8c609..193de89 100644
--- a/src/grammar.abnf
+++ b/src/grammar.abnf
@@ -9,13 +9,13 @@ langtag       = language
                *("-" extension)
                ["-" privateuse]
 
-language      = primary             ; shortest ISO 639 code
+language      = 2*3ALPHA            ; shortest ISO 639 code
                ["-" extlang]        ; sometimes followed by
                                     ; extended language subtags
               / 4ALPHA              ; or reserved for future use
               / 5*8ALPHA            ; or registered language subtag
 
-primary       = 2*3ALPHA
+primary       = 2*8ALPHA            ; first subtag of a language
 
 extlang       = extlang-tag         ; selected ISO 639 codes
                 *2("-" extlang-tag) ; permanently reserved
diff --git a/src/grammar.rs b/src/grammar.rs
index d828ecd..12d08bd 100644
--- a/src/grammar.rs
+++ b/src/grammar.rs
@@ -1822,12 +1822,32 @@ impl Primary {
 				'A'..='Z' | 'a'..='z' => 3u32,
 				_ => return false,
 			},
+			3u32 => match token {
+				'A'..='Z' | 'a'..='z' => 4u32,
+				_ => return false,
+			},
+			4u32 => match token {
+				'A'..='Z' | 'a'..='z' => 5u32,
+				_ => return false,
+			},
+			5u32 => match token {
+				'A'..='Z' | 'a'..='z' => 6u32,
+				_ => return false,
+			},
+			6u32 => match token {
+				'A'..='Z' | 'a'..='z' => 7u32,
+				_ => return false,
+			},
+			7u32 => match token {
+				'A'..='Z' | 'a'..='z' => 8u32,
+				_ => return false,
+			},
 			_ => return false,
 		};
 		true
 	}
 	pub const fn is_accepting(&self) -> bool {
-		matches!(self.state, 2u32 | 3u32)
+		matches!(self.state, 2u32 | 3u32 | 4u32 | 5u32 | 6u32 | 7u32 | 8u32)
 	}
 	pub const fn validate_str(s: &str) -> bool {
 		Self::validate_bytes(s.as_bytes())
-- 
2.43.0


From c6f88a5fd2c3b622d4709cc668695182bdfe8224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:08 +0000
Subject: [PATCH 5/6] fix: always evaluate the langtag macro at compile time

---
 src/lib.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index bd06239..f9d0f89 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -207,9 +207,11 @@ impl Hash for LangTag {
 #[macro_export]
 macro_rules! langtag {
 	($value:literal) => {
-		match $crate::LangTag::from_str($value) {
-			Ok(value) => value,
-			Err(_) => panic!("invalid language tag"),
+		const {
+			match $crate::LangTag::from_str($value) {
+				Ok(value) => value,
+				Err(_) => panic!("invalid language tag"),
+			}
 		}
 	};
 }
-- 
2.43.0


From 3a36fc403d6156e5512224ea0a3d9aece7d26891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:39 +0000
Subject: [PATCH 6/6] fix: refuse byte sequences that are not valid UTF-8

---
 src/lib.rs                     | 45 +++++++++++++++++++++++++++++++++-
 src/normal/extension.rs        |  6 ++---
 src/normal/language/extlang.rs |  4 +--
 src/normal/language/mod.rs     |  2 +-
 src/normal/language/primary.rs |  2 +-
 src/normal/mod.rs              |  2 +-
 src/normal/private_use.rs      |  4 +--
 src/normal/region.rs           |  2 +-
 src/normal/script.rs           |  2 +-
 src/normal/variant.rs          |  4 +--
 10 files changed, 58 insertions(+), 15 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index f9d0f89..9480e15 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -65,9 +65,52 @@ pub use private_use::*;
 )]
 pub(crate) mod grammar {}
 
+/// Grammar automata restricted to ASCII.
+///
+/// The decoder used by the generated automata lets overlong UTF-8 sequences
+/// through, but any byte sequence accepted here is turned into a `str`. The
+/// grammar only contains ASCII characters, so nothing else is lost.
+pub(crate) mod automata {
+	macro_rules! automata {
+		($($name:ident),* $(,)?) => {
+			$(
+				pub struct $name;
+
+				impl $name {
+					pub const fn validate_str(s: &str) -> bool {
+						crate::grammar::$name::validate_str(s)
+					}
+
+					pub const fn validate_bytes(bytes: &[u8]) -> bool {
+						bytes.is_ascii() && crate::grammar::$name::validate_bytes(bytes)
+					}
+				}
+			)*
+		};
+	}
+
+	automata! {
+		LanguageTag,
+		Privateuse,
+		PrivateuseSubtag,
+		Langtag,
+		Language,
+		Primary,
+		Extlang,
+		ExtlangTag,
+		Script,
+		Region,
+		Variant,
+		Variants,
+		Extension,
+		ExtensionSubtag,
+		Extensions,
+	}
+}
+
 /// Any language tag (normal, private use or grandfathered).
 #[derive(static_automata::Validate, str_newtype::StrNewType)]
-#[automaton(crate::grammar::LanguageTag)]
+#[automaton(crate::automata::LanguageTag)]
 #[newtype(
 	no_deref,
 	ord([u8], &[u8], str, &str)
diff --git a/src/normal/extension.rs b/src/normal/extension.rs
index 80e2c8f..1c24835 100644
--- a/src/normal/extension.rs
+++ b/src/normal/extension.rs
@@ -135,7 +135,7 @@ impl fmt::Debug for Singleton {
 /// For instance `a-subtag1-subtag2`.
 /// Each subtag of the extension is represented by the [`ExtensionSubtag`] type.
 #[derive(static_automata::Validate, str_newtype::StrNewType)]
-#[automaton(crate::grammar::Extension)]
+#[automaton(crate::automata::Extension)]
 #[newtype(
 	no_deref,
 	ord([u8], &[u8], str, &str)
@@ -224,7 +224,7 @@ impl<'a> Iterator for ExtensionIter<'a> {
 /// while extension subtags are represented by the [`ExtensionSubtag`]
 /// type.
 #[derive(static_automata::Validate, str_newtype::StrNewType)]
-#[automaton(crate::grammar::Extensions)]
+#[automaton(crate::automata::Extensions)]
 #[newtype(
 	no_deref,
 	ord([u8], &[u8], str, &str)
@@ -332,7 +332,7 @@ impl<'a> Iterator for ExtensionsIter<'a> {
 ///
 /// Extension subtag found in a language tag extension.
 #[derive(static_automata::Validate, str_newtype::StrNewType)]
-#[automaton(crate::grammar::ExtensionSubtag)]
+#[automaton(crate::automata::ExtensionSubtag)]
 #[newtype(
 	no_deref,
 	ord([u8], &[u8], str, &str)
diff --git a/src/normal/language/extlang.rs b/src/normal/language/extlang.rs
index 30729f6..e475eae 100644
--- a/src/normal/language/extlang.rs
+++ b/src/normal/language/extlang.rs
@@ -14,7 +14,7 @@ use crate::utils;
 /// The type [`ExtendedLangTag`] represents a single extended
 /// language subtag.
 #[derive(static_automata::Validate, str_newtype::StrNewType)]
-#[automaton(crate::grammar::Extlang)]
+#[automaton(crate::automata::Extlang)]
 #[newtype(
 	no_deref,
 	ord([u8], &[u8], str, &str)
@@ -99,7 +99,7 @@ impl<'a> Iterator for LanguageExtensionIter<'a> {
 /// The type [`LanguageExtension`] represents a list of
 /// extended language.
 #[derive(static_automata::Validate, str_newtype::StrNewType)]
-#[automaton(crate::grammar::ExtlangTag)]
+#[automaton(crate::automata::ExtlangTag)]
 #[newtype(
 	no_deref,
 	ord([u8], &[u8], str, &str)
diff --git a/src/normal/language/mod.rs b/src/normal/language/mod.rs
index 8152db2..6ccd8bb 100644
--- a/src/normal/language/mod.rs
+++ b/src/normal/language/mod.rs
@@ -13,7 +13,7 @@ pub use primary::*;
 /// This type represents the primary language subtag (first subtag in a
 /// language tag) and the extended language subtags associated with it.
 #[derive(static_automata::Validate, str_newtype::StrNewType)]
-#[automaton(crate::grammar::Language)]
+#[automaton(crate::automata::Language)]
 #[newtype(
 	no_deref,
 	ord([u8], &[u8], str, &str)
diff --git a/src/normal/language/primary.rs b/src/normal/language/primary.rs
index e6e05b5..40216f8 100644
--- a/src/normal/language/primary.rs
+++ b/src/normal/language/primary.rs
@@ -6,7 +6,7 @@ use crate::utils;
 ///
 /// The primary language subtag is the first subtag in a language tag.
 #[derive(static_automata::Validate, str_newtype::StrNewType)]
-#[automaton(crate::grammar::Primary)]
+#[automaton(crate::automata::Primary)]
 #[newtype(
 	no_deref,
 	ord([u8], &[u8], str, &str)
diff --git a/src/normal/mod.rs b/src/normal/mod.rs
index 9d8ba4b..c7aea2b 100644
--- a/src/normal/mod.rs
+++ b/src/normal/mod.rs
@@ -18,7 +18,7 @@ pub use variant::*;
 
 /// Normal language tag.
 #[derive(static_automata::Validate, str_newtype::StrNewType)]
-#[automaton(crate::grammar::Langtag)]
+#[automaton(crate::automata::Langtag)]
 #[newtype(
 	no_deref,
 	ord([u8], &[u8], str, &str)
diff --git a/src/normal/private_use.rs b/src/normal/private_use.rs
index fce5b23..635b3bc 100644
--- a/src/normal/private_use.rs
+++ b/src/normal/private_use.rs
@@ -4,7 +4,7 @@ use crate::utils;
 
 /// Private use.
 #[derive(static_automata::Validate, str_newtype::StrNewType)]
-#[automaton(crate::grammar::Privateuse)]
+#[automaton(crate::automata::Privateuse)]
 #[newtype(
 	no_deref,
 	ord([u8], &[u8], str, &str)
@@ -84,7 +84,7 @@ impl<'a> Iterator for PrivateUseIter<'a> {
 
 /// Private use subtag.
 #[derive(static_automata::Validate, str_newtype::StrNewType)]
-#[automaton(crate::grammar::PrivateuseSubtag)]
+#[automaton(crate::automata::PrivateuseSubtag)]
 #[newtype(
 	no_deref,
 	ord([u8], &[u8], str, &str)
diff --git a/src/normal/region.rs b/src/normal/region.rs
index 0ee0da0..7b38ce8 100644
--- a/src/normal/region.rs
+++ b/src/normal/region.rs
@@ -12,7 +12,7 @@ use crate::utils;
 /// that is appropriate for use throughout a region, for instance,
 /// Spanish content tailored to be useful throughout Latin America.
 #[derive(static_automata::Validate, str_newtype::StrNewType)]
-#[automaton(crate::grammar::Region)]
+#[automaton(crate::automata::Region)]
 #[newtype(
 	no_deref,
 	ord([u8], &[u8], str, &str)
diff --git a/src/normal/script.rs b/src/normal/script.rs
index 0660b17..9b9045b 100644
--- a/src/normal/script.rs
+++ b/src/normal/script.rs
@@ -8,7 +8,7 @@ use crate::utils;
 /// variations that distinguish the written forms of a language or its
 /// dialects.
 #[derive(static_automata::Validate, str_newtype::StrNewType)]
-#[automaton(crate::grammar::Script)]
+#[automaton(crate::automata::Script)]
 #[newtype(
 	no_deref,
 	ord([u8], &[u8], str, &str)
diff --git a/src/normal/variant.rs b/src/normal/variant.rs
index 114b605..e2bc23f 100644
--- a/src/normal/variant.rs
+++ b/src/normal/variant.rs
@@ -8,7 +8,7 @@ use crate::utils;
 /// variations that define a language or its dialects that are not
 /// covered by other available subtags.
 #[derive(static_automata::Validate, str_newtype::StrNewType)]
-#[automaton(crate::grammar::Variant)]
+#[automaton(crate::automata::Variant)]
 #[newtype(
 	no_deref,
 	ord([u8], &[u8], str, &str)
@@ -51,7 +51,7 @@ impl Hash for Variant {
 /// Represents a list of variant subtags separated by a `-` character
 /// as found in a language tag.
 #[derive(static_automata::Validate, str_newtype::StrNewType)]
-#[automaton(crate::grammar::Variants)]
+#[automaton(crate::automata::Variants)]
 #[newtype(
 	no_deref,
 	ord([u8], &[u8], str, &str)
-- 
2.43.0

