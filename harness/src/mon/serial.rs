//! C14: serde round trips and validation.

use crate::ensure;
use crate::model::{self, Prod};
use crate::run::{Case, Ctx, Monitor, Res, esc};
use crate::types::Ty;
use crate::with_ty;
#[allow(unused_imports)]
use serde::de::value::{BorrowedBytesDeserializer, BorrowedStrDeserializer, Error as ValueError};
#[allow(unused_imports)]
use serde::de::{Deserialize, DeserializeOwned, IntoDeserializer};
use serde::ser::Serialize;

pub fn monitors() -> Vec<Monitor> {
	vec![Monitor {
		id: "C14",
		sys: |g, thorough, f| {
			for p in &model::PRODS[..15] {
				f(Case::new(*p, vec![]));
				for x in 0..=127u8 {
					f(Case::new(*p, vec![x]));
				}
				for _ in 0..if thorough { 1000 } else { 60 } {
					let v = g.of(*p);
					f(Case::new(*p, v.clone()));
					for i in 0..=v.len().min(24) {
						for o in crate::gen_::Gen::ODD {
							f(Case::new(*p, [&v[..i], o.as_bytes(), &v[i..]].concat()));
						}
						f(Case::new(*p, v[..i].to_vec()));
					}
				}
			}
		},
		make: |g, _| {
			let p = if g.rng.chance(1, 3) { Prod::LanguageTag } else { model::PRODS[g.rng.below(15)] };
			let a = if g.rng.chance(1, 2) { g.of(p) } else { g.input(p) };
			let a = String::from_utf8_lossy(&a).into_owned().into_bytes();
			Case::new(p, a)
		},
		check,
		quick: 300_000,
		thorough: 12_000_000,
		max_len: 4096,
	}]
}

trait Ser: Ty + Serialize {}
impl<T: Ty + Serialize + ?Sized> Ser for T {}

fn check(ctx: &mut Ctx, c: &Case) -> Res {
	let Ok(s) = core::str::from_utf8(&c.a) else { return Ok(()) };
	ctx.saw(&[&[c.p], &c.a]);
	with_ty!(c.prod(), T => {
		borrowed::<T>(ctx, s)?;
		#[cfg(feature = "std")]
		owned::<T>(ctx, s)?;
	}, else {});
	Ok(())
}

/// Exercise serde for C11; `None` if the type has none.
pub fn touch(p: Prod, a: &[u8]) -> Option<u64> {
	let s = core::str::from_utf8(a).ok()?;
	let mut ctx = Ctx::default();
	with_ty!(p, T => {
		let _ = borrowed::<T>(&mut ctx, s);
	}, else return None);
	ctx.counters.values().next().copied()
}

/// What serde does with `a` as a borrowed `p`, for comparison between builds.
pub fn answers(p: Prod, a: &[u8], d: &mut crate::walk::Digest) {
	use crate::walk::Sink;
	let Ok(s) = core::str::from_utf8(a) else { return };
	with_ty!(p, T => {
		let r = <&T>::deserialize(BorrowedStrDeserializer::<ValueError>::new(s));
		match r {
			Ok(t) => {
				d.item("deserialized", p, t.b());
				d.item("serialized", p, serde_json::to_string(t).unwrap_or_default().as_bytes());
			}
			Err(_) => d.num("deserialized", 0),
		}
		for j in [serde_json::to_string(s).unwrap_or_default(), "17".into(), "null".into()] {
			match serde_json::from_str::<&T>(&j) {
				Ok(t) => d.item("from JSON", p, t.b()),
				Err(_) => d.num("from JSON", 0),
			}
		}
	}, else {});
}

fn borrowed<'x, T: Ser + ?Sized>(ctx: &mut Ctx, s: &'x str) -> Res
where
	for<'a> &'a T: Deserialize<'a> + Serialize,
{
	let name = T::PROD.name();
	let parsed = T::parse(s.as_bytes());
	let ok = parsed.is_some();
	let mut bad = None;
	let mut n = 0;
	let mut judge = |how: &str, r: Result<Vec<u8>, String>| {
		n += 1;
		if bad.is_some() {
			return;
		}
		match r {
			Ok(t) if !ok => bad = Some(format!("{name} {how}: accepted {} as {}", esc(s.as_bytes()), esc(&t))),
			Ok(t) if t != s.as_bytes() => bad = Some(format!("{name} {how}: {} became {}", esc(s.as_bytes()), esc(&t))),
			Err(e) if ok => bad = Some(format!("{name} {how}: refused {} ({e})", esc(s.as_bytes()))),
			_ => (),
		}
	};
	// Deserializers that lend the text.
	judge(
		"from a borrowed str",
		<&T>::deserialize(BorrowedStrDeserializer::<ValueError>::new(s)).map(|t| t.b().to_vec()).map_err(|e| e.to_string()),
	);
	for k in 0..2 {
		judge("from a lent string", <&T>::deserialize(Text(s, k)).map(|t| t.b().to_vec()).map_err(|e| e.to_string()));
	}
	let json = serde_json::to_string(s).map_err(|e| e.to_string())?;
	let plain = json.len() == s.len() + 2;
	if plain {
		judge("from JSON", serde_json::from_str::<&T>(&json).map(|t| t.b().to_vec()).map_err(|e| e.to_string()));
		judge("from JSON bytes", serde_json::from_slice::<&T>(json.as_bytes()).map(|t| t.b().to_vec()).map_err(|e| e.to_string()));
	}
	let bin = bincode::serialize(s).map_err(|e| e.to_string())?;
	judge("from bincode", bincode::deserialize::<&T>(&bin).map(|t| t.b().to_vec()).map_err(|e| e.to_string()));
	if let Some(b) = bad {
		return Err(b);
	}
	ctx.n("deserializations judged", n);
	ctx.n(if ok { "valid strings" } else { "invalid strings" }, 1);
	// Data that is not a string.
	for (what, j) in [("a number", "17"), ("null", "null"), ("an array", "[\"en\"]"), ("a map", "{\"a\":\"en\"}"), ("a boolean", "true"), ("a float", "1.5")] {
		ensure!(serde_json::from_str::<&T>(j).is_err(), "{name}: deserialized from {what}");
	}
	if let Some(t) = parsed {
		serialized(name, s, t)?;
		serialized(name, s, &t)?;
		ctx.n("serializations judged", 8);
	}
	Ok(())
}

fn serialized<S: Serialize + ?Sized>(name: &str, s: &str, t: &S) -> Res {
	let w = esc(s.as_bytes());
	let e = |e: &dyn core::fmt::Display| format!("{name} {w}: serialization failed: {e}");
	let json = serde_json::to_string(t).map_err(|x| e(&x))?;
	ensure!(json == serde_json::to_string(s).map_err(|x| e(&x))?, "{name} {w}: JSON is {}", esc(json.as_bytes()));
	let v = serde_json::to_value(t).map_err(|x| e(&x))?;
	ensure!(v.as_str() == Some(s), "{name} {w}: serializes to {v}");
	let mut c = Vec::new();
	ciborium::into_writer(t, &mut c).map_err(|x| e(&x))?;
	let mut d = Vec::new();
	ciborium::into_writer(s, &mut d).map_err(|x| e(&x))?;
	ensure!(c == d, "{name} {w}: CBOR differs from that of its text");
	let (b, r) = (bincode::serialize(t).map_err(|x| e(&x))?, bincode::serialize(s).map_err(|x| e(&x))?);
	ensure!(b == r, "{name} {w}: bincode differs from that of its text");
	for readable in [true, false] {
		let r = t.serialize(Plain(readable)).map_err(|x| format!("{name} {w}: not serialized as a plain string: {x}"))?;
		ensure!(r == s, "{name} {w}: serialized as {}", esc(r.as_bytes()));
	}
	Ok(())
}

/// A format that has only strings, readable by humans or not.
struct Plain(bool);

type Never = serde::ser::Impossible<String, ValueError>;

macro_rules! refuse {
	($($f:ident($($t:ty),*) -> $r:ty;)*) => {
		$(fn $f(self, $(_: $t),*) -> Result<$r, ValueError> {
			Err(serde::ser::Error::custom(stringify!($f)))
		})*
	};
}

impl serde::Serializer for Plain {
	type Ok = String;
	type Error = ValueError;
	type SerializeSeq = Never;
	type SerializeTuple = Never;
	type SerializeTupleStruct = Never;
	type SerializeTupleVariant = Never;
	type SerializeMap = Never;
	type SerializeStruct = Never;
	type SerializeStructVariant = Never;

	fn is_human_readable(&self) -> bool {
		self.0
	}

	fn serialize_str(self, s: &str) -> Result<String, ValueError> {
		Ok(s.to_string())
	}

	fn serialize_some<T: Serialize + ?Sized>(self, _: &T) -> Result<String, ValueError> {
		Err(serde::ser::Error::custom("serialize_some"))
	}

	fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, _: &T) -> Result<String, ValueError> {
		Err(serde::ser::Error::custom("serialize_newtype_struct"))
	}

	fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<String, ValueError> {
		Err(serde::ser::Error::custom("serialize_newtype_variant"))
	}

	refuse! {
		serialize_bool(bool) -> String;
		serialize_i8(i8) -> String;
		serialize_i16(i16) -> String;
		serialize_i32(i32) -> String;
		serialize_i64(i64) -> String;
		serialize_u8(u8) -> String;
		serialize_u16(u16) -> String;
		serialize_u32(u32) -> String;
		serialize_u64(u64) -> String;
		serialize_f32(f32) -> String;
		serialize_f64(f64) -> String;
		serialize_char(char) -> String;
		serialize_bytes(&[u8]) -> String;
		serialize_none() -> String;
		serialize_unit() -> String;
		serialize_unit_struct(&'static str) -> String;
		serialize_unit_variant(&'static str, u32, &'static str) -> String;
		serialize_seq(Option<usize>) -> Never;
		serialize_tuple(usize) -> Never;
		serialize_tuple_struct(&'static str, usize) -> Never;
		serialize_tuple_variant(&'static str, u32, &'static str, usize) -> Never;
		serialize_map(Option<usize>) -> Never;
		serialize_struct(&'static str, usize) -> Never;
		serialize_struct_variant(&'static str, u32, &'static str, usize) -> Never;
	}
}

/// Strings lent, shown or given, by a format that is not readable by humans and knows the type.
struct Text<'de>(&'de str, u8);

impl<'de> serde::Deserializer<'de> for Text<'de> {
	type Error = ValueError;

	fn is_human_readable(&self) -> bool {
		self.1 % 2 == 0
	}

	fn deserialize_any<V: serde::de::Visitor<'de>>(self, v: V) -> Result<V::Value, ValueError> {
		match self.1 / 2 {
			0 => v.visit_borrowed_str(self.0),
			1 => v.visit_str(self.0),
			_ => v.visit_string(self.0.to_string()),
		}
	}

	serde::forward_to_deserialize_any! {
		bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit
		unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
	}
}

#[cfg(feature = "std")]
fn owned<T: crate::types::OTy + ?Sized>(ctx: &mut Ctx, s: &str) -> Res
where
	T::Buf: Serialize + DeserializeOwned,
{
	let name = T::PROD.name();
	let made = T::obuf(s.as_bytes());
	let ok = made.is_some();
	let mut bad = None;
	let mut n = 0;
	let mut judge = |how: &str, r: Result<T::Buf, String>| {
		n += 1;
		if bad.is_some() {
			return;
		}
		match r {
			Ok(t) if !ok => bad = Some(format!("{name}Buf {how}: accepted {} as {t}", esc(s.as_bytes()))),
			Ok(t) if T::ob(&t) != s.as_bytes() => {
				bad = Some(format!("{name}Buf {how}: {} became {}", esc(s.as_bytes()), esc(T::ob(&t))))
			}
			Err(e) if ok => bad = Some(format!("{name}Buf {how}: refused {} ({e})", esc(s.as_bytes()))),
			_ => (),
		}
	};
	let es = |e: ValueError| e.to_string();
	judge("from a borrowed str", T::Buf::deserialize(BorrowedStrDeserializer::<ValueError>::new(s)).map_err(es));
	let d: serde::de::value::StrDeserializer<ValueError> = s.into_deserializer();
	judge("from a str", T::Buf::deserialize(d).map_err(es));
	let d: serde::de::value::StringDeserializer<ValueError> = s.to_string().into_deserializer();
	judge("from a String", T::Buf::deserialize(d).map_err(es));
	for k in 0..6 {
		judge("from a lent, shown or given string", T::Buf::deserialize(Text(s, k)).map_err(es));
	}
	let json = serde_json::to_string(s).map_err(|e| e.to_string())?;
	judge("from JSON", serde_json::from_str(&json).map_err(|e| e.to_string()));
	judge("from a JSON reader", serde_json::from_reader(json.as_bytes()).map_err(|e| e.to_string()));
	judge("from a JSON value", serde_json::from_value(serde_json::Value::String(s.to_string())).map_err(|e| e.to_string()));
	// Every character escaped.
	let esc_json: String =
		format!("\"{}\"", s.encode_utf16().map(|u| format!("\\u{u:04x}")).collect::<String>());
	judge("from escaped JSON", serde_json::from_str(&esc_json).map_err(|e| e.to_string()));
	let mut cb = Vec::new();
	ciborium::into_writer(s, &mut cb).map_err(|e| e.to_string())?;
	judge("from CBOR", ciborium::from_reader(&cb[..]).map_err(|e| e.to_string()));
	let bin = bincode::serialize(s).map_err(|e| e.to_string())?;
	judge("from bincode", bincode::deserialize(&bin).map_err(|e| e.to_string()));
	if let Some(b) = bad {
		return Err(b);
	}
	ctx.n("deserializations judged", n);
	for v in [
		serde_json::json!(17),
		serde_json::json!(null),
		serde_json::json!([s]),
		serde_json::json!({ "a": s }),
		serde_json::json!(true),
		serde_json::json!(-1.5),
	] {
		let shown = v.to_string();
		ensure!(serde_json::from_value::<T::Buf>(v).is_err(), "{name}Buf: deserialized from {shown}");
	}
	let d: serde::de::value::U32Deserializer<ValueError> = 7u32.into_deserializer();
	ensure!(T::Buf::deserialize(d).is_err(), "{name}Buf: deserialized from a number");
	// Serde lets bytes stand for a string; if they do here, then for that one.
	if let Ok(t) = T::Buf::deserialize(BorrowedBytesDeserializer::<ValueError>::new(s.as_bytes())) {
		ensure!(ok && T::ob(&t) == s.as_bytes(), "{name}Buf from bytes: {} became {t}", esc(s.as_bytes()));
	}
	if let Some(o) = made {
		serialized(name, s, &o)?;
		ctx.n("serializations judged", 4);
		// Containers of values keep each text.
		let list = vec![o.clone(), o.clone()];
		let back: Vec<T::Buf> = serde_json::from_str(&serde_json::to_string(&list).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
		ensure!(back.iter().all(|b| T::ob(b) == s.as_bytes()) && back.len() == 2, "{name}Buf: list round trip of {}", esc(s.as_bytes()));
		let some: Option<T::Buf> = serde_json::from_str(&serde_json::to_string(&Some(&o)).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
		ensure!(some.as_ref() == Some(&o), "{name}Buf: option round trip of {}", esc(s.as_bytes()));
		let map = std::collections::BTreeMap::from([(o.clone(), 1u8)]);
		let json = serde_json::to_string(&map).map_err(|e| e.to_string())?;
		ensure!(json == format!("{{\"{s}\":1}}"), "{name}Buf: as a key, {} is {}", esc(s.as_bytes()), esc(json.as_bytes()));
		let back: std::collections::BTreeMap<T::Buf, u8> = serde_json::from_str(&json).map_err(|e| e.to_string())?;
		ensure!(back.keys().all(|k| T::ob(k) == s.as_bytes()) && back.len() == 1, "{name}Buf: key round trip of {}", esc(s.as_bytes()));
	}
	Ok(())
}
