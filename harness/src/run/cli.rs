//! Command line: run a shard of a monitor's workload, replay one case, write answer digests.

use super::*;
use crate::gen_::{Dict, Gen};
use crate::model;
use std::fmt::Write as _;
use std::time::Instant;

pub struct Args(pub Vec<String>);
impl Args {
	pub fn opt(&self, k: &str) -> Option<&str> {
		let i = self.0.iter().position(|a| a == k)?;
		self.0.get(i + 1).map(|s| s.as_str())
	}
	pub fn num(&self, k: &str, d: u64) -> u64 {
		self.opt(k).and_then(|v| v.parse().ok()).unwrap_or(d)
	}
}

pub fn json_str(s: &str) -> String {
	let mut o = String::from("\"");
	for c in s.chars() {
		match c {
			'"' => o.push_str("\\\""),
			'\\' => o.push_str("\\\\"),
			c if (c as u32) < 0x20 => {
				let _ = write!(o, "\\u{:04x}", c as u32);
			}
			c => o.push(c),
		}
	}
	o.push('"');
	o
}

/// Lines `w <hex>` (a word) and `n <number>` found in the source of the code under test.
pub fn dict(path: Option<&str>) -> Dict {
	let mut d = Dict::default();
	if let Some(t) = path.and_then(|p| std::fs::read_to_string(p).ok()) {
		for l in t.lines() {
			if let Some(w) = l.strip_prefix("w ").and_then(unhex) {
				d.words.push(w);
			} else if let Some(n) = l.strip_prefix("n ").and_then(|n| n.parse().ok()) {
				d.nums.push(n);
			}
		}
	}
	d
}

pub fn main() -> i32 {
	let a = Args(std::env::args().skip(1).collect());
	install_hook();
	let id = a.0.get(1).map(|s| s.as_str()).unwrap_or("");
	match a.0.first().map(|s| s.as_str()) {
		Some("list") => {
			for m in crate::mon::all() {
				println!("{}", m.id);
			}
			0
		}
		Some("run") => run(id, &a),
		Some("replay") => replay(id, a.0.get(2).map(|s| s.as_str()).unwrap_or(""), a.num("--hang", 60)),
		Some("union") => union(&a.0[1..]),
		Some("decode") => {
			// Turn a case file left by a dead process into text.
			match std::fs::read(id).ok().and_then(|b| Case::decode(&b)) {
				Some(c) => {
					println!("{}# {}", c.to_text(), c.show());
					0
				}
				None => 2,
			}
		}
		Some("digest") => digests(&a),
		Some("digest-case") => {
			let c = digest_case(&a, a.num("--index", 0));
			println!("{}# {}", c.to_text(), c.show());
			0
		}
		Some("seeds") => {
			let Some(m) = find(id) else { return 2 };
			let mut g = Gen::new(a.num("--seed", 1) ^ 0x5eed, dict(a.opt("--dict")), 400);
			let dir = a.opt("--out").expect("--out");
			for i in 0..a.num("--count", 100) {
				std::fs::write(format!("{dir}/seed-{i}"), (m.make)(&mut g, i).to_fuzz()).expect("write seed");
			}
			0
		}
		Some("unfuzz") => match a.0.get(2).and_then(|f| std::fs::read(f).ok()).and_then(|b| Case::from_fuzz(&b)) {
			Some(c) => {
				println!("{}# {}", c.to_text(), c.show());
				0
			}
			None => 2,
		},
		Some("literals") => literals(&a),
		#[cfg(not(miri))]
		Some("cost") => crate::mon::cost::main(&a),
		_ => {
			eprintln!("usage: monitor run|replay|list|decode|digest|cost ...");
			2
		}
	}
}

fn find(id: &str) -> Option<Monitor> {
	crate::mon::all().into_iter().find(|m| m.id == id)
}

fn run(id: &str, a: &Args) -> i32 {
	let Some(m) = find(id) else {
		eprintln!("no monitor {id}");
		return 2;
	};
	let t0 = Instant::now();
	let (shard, shards) = (a.num("--shard", 0), a.num("--shards", 1).max(1));
	let seed = a.num("--seed", 1);
	let thorough = a.opt("--tier") == Some("thorough");
	let wall = a.num("--wall", 3600);
	// One of `share` of the usual workload.
	let share = a.num("--share", 1).max(1);
	let count = (a.num("--count", if thorough { m.thorough } else { m.quick }) / share).div_ceil(shards);
	let sys = a.num("--sys", 1) != 0;
	let d = dict(a.opt("--dict"));
	let max_len = a.num("--max-len", m.max_len as u64) as usize;
	let mut ctx = Ctx { tier_thorough: thorough, miri: cfg!(miri), ..Default::default() };
	let mut file = a.opt("--case-file").map(|p| CaseFile::new(p).expect("case file"));
	watchdog::start(a.num("--hang", 60));

	let mut evaluations = 0u64;
	let mut samples: Vec<String> = Vec::new();
	let mut next_sample = 1u64;
	let mut found: Option<(Case, Fail)> = None;
	let mut out_of_time = false;
	let (mut slowest, mut last) = (0f64, 0f64);

	{
		let mut one = |ctx: &mut Ctx, c: Case| -> bool {
			if found.is_some() || out_of_time {
				return false;
			}
			if (cfg!(miri) || evaluations.is_multiple_of(64) || last > 0.05) && t0.elapsed().as_secs() >= wall {
				out_of_time = true;
				return false;
			}
			if let Some(f) = &mut file {
				f.set(&c);
			}
			watchdog::case();
			evaluations += 1;
			if evaluations == next_sample {
				samples.push(c.show());
				next_sample = next_sample * 7 + 3;
			}
			let begun = Instant::now();
			let done = exec(&m, ctx, &c);
			last = begun.elapsed().as_secs_f64();
			slowest = slowest.max(last);
			if let Err(e) = done {
				found = Some((c, e));
				return false;
			}
			true
		};
		if sys {
			// All shards generate the same sequence and keep their share.
			let mut g = Gen::new(seed ^ 0x5157_e55e, d.clone(), max_len);
			let mut i = 0u64;
			let mut mine = 0u64;
			(m.sys)(&mut g, thorough, &mut |c| {
				if i % shards == shard && (i / shards).is_multiple_of(share) {
					one(&mut ctx, c);
					mine += 1;
				}
				i += 1;
			});
			ctx.n("systematic cases", mine);
		}
		let mut g = Gen::new(fnv_more(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15), id.as_bytes()) ^ (shard << 48) ^ (share << 40), d, max_len);
		for i in 0..count {
			watchdog::idle();
			let mut c = (m.make)(&mut g, i);
			// The interpreter takes minutes for what is long.
			for _ in 0..if cfg!(miri) { 40 } else { 0 } {
				if c.a.len() + c.b.len() + c.c.len() > 2 * max_len {
					c = (m.make)(&mut g, i);
				}
			}
			if !one(&mut ctx, c) {
				break;
			}
		}
		// A few with very long texts.
		g.long = true;
		let longs = a.num("--longs", 0).div_ceil(shards);
		let mut seen = 0;
		for i in 0..longs {
			watchdog::idle();
			let c = (m.make)(&mut g, i);
			let l = c.a.len() as u64;
			if !one(&mut ctx, c) {
				break;
			}
			seen += (l > 4000) as u64;
		}
		ctx.n("texts of more than 4000 bytes on purpose", seen);
	}

	let counters: Vec<String> = ctx.counters.iter().map(|(k, v)| format!("{}:{v}", json_str(k))).collect();
	let samples: Vec<String> = samples.iter().map(|s| json_str(s)).collect();
	let head = format!(
		"{{\"evaluations\":{evaluations},\"distinct\":{},\"out_of_time\":{out_of_time},\"wall\":{:.3},\"slowest\":{slowest:.3},\"counters\":{{{}}},\"samples\":[{}]",
		ctx.distinct.len(),
		t0.elapsed().as_secs_f64(),
		counters.join(","),
		samples.join(","),
	);
	let emit = |found: Option<&(Case, Fail)>| {
		let mut text = head.clone();
		if let Some((c, e)) = found {
			let (kind, why) = match e {
				Fail::Oracle(w) => ("oracle", w),
				Fail::Panic(w) => ("panic", w),
				Fail::Harness(w) => ("harness", w),
			};
			let _ = write!(
				text,
				",\"violation\":{{\"kind\":\"{kind}\",\"why\":{},\"case\":{},\"show\":{}}}",
				json_str(why),
				json_str(&c.to_text()),
				json_str(&c.show())
			);
		}
		text.push_str("}\n");
		match a.opt("--out") {
			Some(p) => std::fs::write(p, &text).expect("write result"),
			None => print!("{text}"),
		}
	};
	// Before shrinking, which may itself end badly.
	emit(found.as_ref());
	if let Some(p) = a.opt("--hashes") {
		// Fingerprints, so that distinct cases can be counted over all shards.
		let mut v: Vec<u64> = ctx.distinct.drain().collect();
		v.sort_unstable();
		let b: Vec<u8> = v.iter().flat_map(|h| h.to_le_bytes()).collect();
		std::fs::write(p, b).expect("write fingerprints");
	}
	let code = match found {
		None => 0,
		Some((_, Fail::Harness(_))) => 3,
		Some((c, e)) => {
			emit(Some(&shrink(&m, &mut ctx, &c, e)));
			1
		}
	};
	if let Some(f) = &mut file {
		f.clear();
	}
	code
}

/// Number of distinct fingerprints in several sorted files.
fn union(files: &[String]) -> i32 {
	let mut v: Vec<u64> = Vec::new();
	for f in files {
		let Ok(b) = std::fs::read(f) else { return 2 };
		v.extend(b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap_or_default())));
	}
	v.sort_unstable();
	v.dedup();
	println!("{}", v.len());
	0
}

fn replay(id: &str, path: &str, hang: u64) -> i32 {
	let Some(m) = find(id) else {
		eprintln!("no monitor {id}");
		return 2;
	};
	let Some(c) = std::fs::read_to_string(path).ok().and_then(|t| Case::from_text(&t)) else {
		eprintln!("cannot read the case in {path}");
		return 2;
	};
	println!("{}", c.show());
	let mut ctx = Ctx { miri: cfg!(miri), ..Default::default() };
	watchdog::start(hang);
	watchdog::case();
	match exec(&m, &mut ctx, &c) {
		Ok(()) => {
			println!("holds");
			0
		}
		Err(Fail::Harness(e)) => {
			println!("harness failure: {e}");
			3
		}
		Err(Fail::Oracle(e) | Fail::Panic(e)) => {
			println!("violated: {e}");
			1
		}
	}
}

/// Case number `i` of the digest workload: independent of every feature of the build.
fn digest_case(a: &Args, i: u64) -> Case {
	let mut g = Gen::new(0, dict(a.opt("--dict")), a.num("--max-len", 2048) as usize);
	g.reset(digest_seed(a).wrapping_add(i));
	g.long = i % 2000 == 1999;
	digest_make(&mut g)
}

fn digest_seed(a: &Args) -> u64 {
	a.num("--seed", 1).wrapping_mul(0x9E37_79B9_7F4A_7C15)
}

fn digest_make(g: &mut Gen) -> Case {
	let p = if g.rng.chance(1, 3) { model::Prod::LanguageTag } else { *g.rng.pick(&model::PRODS) };
	let a = if g.rng.chance(1, 4) { g.input(p) } else { g.of(p) };
	let b = g.near(p, &a);
	let n = g.rng.below(10);
	let c = (0..n).map(|_| g.rng.next() as u8).collect();
	Case { p: p as u8, a, b, c, s: 0 }
}

/// Write, for each case of this shard, one digest of the answers per group of operations. The
/// cases are taken in order, from the last to the first, or each in a process of its own that has
/// asked the library nothing before.
fn digests(a: &Args) -> i32 {
	let (shard, shards, count) = (a.num("--shard", 0), a.num("--shards", 1).max(1), a.num("--count", 10000));
	let seed = digest_seed(a);
	let order = a.opt("--order").unwrap_or("forward");
	let mut g = Gen::new(0, dict(a.opt("--dict")), a.num("--max-len", 2048) as usize);
	let mut file = a.opt("--case-file").map(|p| CaseFile::new(p).expect("case file"));
	if order != "alone" {
		watchdog::start(a.num("--hang", 60));
	}
	let mut indices: Vec<u64> = (shard..count).step_by(shards as usize).collect();
	let mut out = vec![0u8; indices.len() * 24];
	let mut events = 0u64;
	if order == "backward" {
		indices.reverse();
	}
	for i in indices {
		g.reset(seed.wrapping_add(i));
		g.long = i % 2000 == 1999;
		let c = digest_make(&mut g);
		if let Some(f) = &mut file {
			f.set(&c);
		}
		let slot = ((i - shard) / shards * 24) as usize;
		let got = if order == "alone" {
			alone(&c, a.num("--hang", 60))
		} else {
			watchdog::case();
			one_digest(&c)
		};
		match got {
			Some((v, n)) => {
				out[slot..slot + 24].copy_from_slice(&v);
				events += n;
			}
			None => return 3,
		}
	}
	println!("{events}");
	if let Some(p) = a.opt("--out") {
		std::fs::write(p, out).expect("write digests");
	}
	if let Some(f) = &mut file {
		f.clear();
	}
	0
}

/// The three digests of a case, and the number of answers in them.
fn one_digest(c: &Case) -> Option<([u8; 24], u64)> {
	let mut out = [0; 24];
	let mut events = 0;
	for group in 0..3 {
		let v = match catch_unwind(AssertUnwindSafe(|| crate::mon::pure::group_digest(group, c))) {
			Ok((h, n)) => {
				events += n;
				h
			}
			Err(_) => {
				let (loc, msg) = take_panic();
				if harness_loc(&loc) {
					eprintln!("harness failure: {msg} at {loc}");
					return None;
				}
				1
			}
		};
		out[group as usize * 8..][..8].copy_from_slice(&v.to_le_bytes());
	}
	Some((out, events))
}

/// The digests of a case by a process forked for it. How that process ends, if it does not give
/// digests, stands for them.
#[cfg(all(unix, not(miri)))]
fn alone(c: &Case, hang: u64) -> Option<([u8; 24], u64)> {
	use std::io::{Read, Write};
	use std::os::fd::FromRawFd;
	let mut fds = [0; 2];
	// SAFETY: plain system calls; this process has a single thread, and the descriptors are owned
	// by exactly one file on each side.
	unsafe {
		if libc::pipe(fds.as_mut_ptr()) != 0 {
			eprintln!("harness failure: pipe");
			return None;
		}
		let pid = libc::fork();
		if pid < 0 {
			eprintln!("harness failure: fork");
			return None;
		}
		let mut r = std::fs::File::from_raw_fd(fds[0]);
		let mut w = std::fs::File::from_raw_fd(fds[1]);
		if pid == 0 {
			drop(r);
			watchdog::start(hang);
			watchdog::case();
			let code = match one_digest(c) {
				Some((v, n)) => {
					let mut b = v.to_vec();
					b.extend(n.to_le_bytes());
					w.write_all(&b).map_or(4, |_| 0)
				}
				None => 3,
			};
			libc::_exit(code)
		}
		drop(w);
		let mut b = Vec::new();
		let read = r.read_to_end(&mut b);
		let mut status = 0;
		libc::waitpid(pid, &mut status, 0);
		if read.is_ok() && b.len() == 32 {
			let mut v = [0; 24];
			v.copy_from_slice(&b[..24]);
			return Some((v, u64::from_le_bytes(b[24..].try_into().unwrap_or_default())));
		}
		if status == 3 << 8 || status == 4 << 8 {
			return None;
		}
		let mut v = [0xff; 24];
		v[..4].copy_from_slice(&status.to_le_bytes());
		Some((v, 0))
	}
}

#[cfg(not(all(unix, not(miri))))]
fn alone(_: &Case, _: u64) -> Option<([u8; 24], u64)> {
	eprintln!("harness failure: no processes here");
	None
}

/// What people write where a language tag is expected.
const NAMES: &[&str] = &[
	"root", "C", "POSIX", "c", "posix", "mis", "zxx", "x-default", "x-none", "i-none", "*", "en-*", "en_US", "en_US.UTF-8", "en-US-posix",
	"en-US-u-va-posix", "zh-CN", "zh-TW", "zh-Hans-CN", "sr-Latn-RS", "de-DE-1996", "de-CH-1901", "pt-BR", "es-419", "iw", "he", "in", "ji", "sh",
	"fil", "tl", "nb", "nn", "ca-ES-valencia", "sl-rozaj-biske-1994", "hy-Latn-IT-arevela", "zh-cmn-Hans-CN", "zh-yue-HK", "en-a-myext-b-another",
	"ar-a-aaa-b-bbb-a-ccc", "a-DE", "de-419-DE", "de-1-a-value-x-foo", "qaa-Qaaa-QM-x-southern", "x-whatever", "en-GB-oed", "EN", "english", "English",
	" en", "en ", "en\n", "en\0", "en-", "-en", "e", "en--US", "en-x", "x", "x-", "12", "419", "US", "Latn", "true", "null", "0",
];

/// Texts for the compile-time checks: production, text in hex, and whether the library parses it
/// now, at run time.
fn literals(a: &Args) -> i32 {
	let mut g = Gen::new(a.num("--seed", 1) ^ 0x11f7, dict(a.opt("--dict")), 300);
	let count = a.num("--count", 300);
	let mut seen = HashSet::new();
	let mut emit = |p: model::Prod, t: Vec<u8>| {
		if t.len() <= 400 && core::str::from_utf8(&t).is_ok() && seen.insert((p, t.clone())) {
			let ok = crate::types::lib_accepts(p, &t);
			println!("{} {} {}", p.idx(), ok as u8, hex(&t));
		}
	};
	for (t, _) in model::GRANDFATHERED {
		emit(model::Prod::LanguageTag, t.as_bytes().to_vec());
		let r = g.recase(t.as_bytes());
		emit(model::Prod::LanguageTag, r);
	}
	emit(model::Prod::LanguageTag, vec![]);
	// Words as they stand: a macro may treat a particular literal in a particular way.
	let words: Vec<Vec<u8>> = crate::gen_::WORDS.iter().chain(NAMES).map(|w| w.as_bytes().to_vec()).chain(g.dict.words.clone()).collect();
	for w in words {
		emit(model::Prod::LanguageTag, w);
	}
	for i in 0..count {
		let p = model::Prod::LanguageTag;
		let v = if i % 2 == 0 { g.of(p) } else { g.input(p) };
		emit(p, v);
		let p = model::PRODS[1 + g.rng.below(14)];
		let v = if i % 2 == 0 { g.of(p) } else { g.input(p) };
		emit(p, v);
	}
	0
}
