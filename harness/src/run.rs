//! Cases, execution of one case under supervision, shrinking, replay files.

use crate::gen_::Gen;
use crate::model::Prod;
use crate::rng::fnv_more;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Mutex;

pub mod cli;

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Case {
	/// Production index.
	pub p: u8,
	pub a: Vec<u8>,
	pub b: Vec<u8>,
	pub c: Vec<u8>,
	pub s: u64,
}

impl Case {
	pub fn new(p: Prod, a: Vec<u8>) -> Case {
		Case { p: p as u8, a, ..Default::default() }
	}
	pub fn pair(p: Prod, a: Vec<u8>, b: Vec<u8>) -> Case {
		Case { p: p as u8, a, b, ..Default::default() }
	}
	pub fn prod(&self) -> Prod {
		Prod::from_u8(self.p)
	}

	pub fn encode(&self) -> Vec<u8> {
		let mut out = vec![1, self.p];
		out.extend(self.s.to_le_bytes());
		for f in [&self.a, &self.b, &self.c] {
			out.extend((f.len() as u32).to_le_bytes());
			out.extend(f.iter());
		}
		out
	}

	pub fn decode(b: &[u8]) -> Option<Case> {
		if *b.first()? != 1 {
			return None;
		}
		let p = *b.get(1)?;
		let s = u64::from_le_bytes(b.get(2..10)?.try_into().ok()?);
		let mut at = 10;
		let mut f = || -> Option<Vec<u8>> {
			let n = u32::from_le_bytes(b.get(at..at + 4)?.try_into().ok()?) as usize;
			let v = b.get(at + 4..at + 4 + n)?.to_vec();
			at += 4 + n;
			Some(v)
		};
		Some(Case { p, a: f()?, b: f()?, c: f()?, s })
	}

	pub fn show(&self) -> String {
		let mut s = format!("{} {}", self.prod().name(), esc(&self.a));
		if !self.b.is_empty() {
			s.push_str(&format!(" / {}", esc(&self.b)));
		}
		if !self.c.is_empty() {
			s.push_str(&format!(" / {}", esc(&self.c)));
		}
		if self.s != 0 {
			s.push_str(&format!(" (s={})", self.s));
		}
		s
	}

	/// Production, history seed, then the texts separated by 0xff.
	pub fn from_fuzz(b: &[u8]) -> Option<Case> {
		let (head, rest) = b.split_at_checked(3)?;
		let mut f = rest.splitn(3, |x| *x == 0xff).map(|x| x.to_vec());
		let mut next = || f.next().unwrap_or_default();
		let s = u16::from_le_bytes([head[1], head[2]]) as u64;
		Some(Case { p: head[0] % crate::model::PRODS.len() as u8, s: s.wrapping_mul(0x9E37_79B9_7F4A_7C15), a: next(), b: next(), c: next() })
	}

	pub fn to_fuzz(&self) -> Vec<u8> {
		let mut o = vec![self.p, self.s as u8, (self.s >> 8) as u8];
		o.extend(&self.a);
		o.push(0xff);
		o.extend(&self.b);
		o.push(0xff);
		o.extend(&self.c);
		o
	}

	/// Text form for replay files.
	pub fn to_text(&self) -> String {
		format!("p={}\na={}\nb={}\nc={}\ns={}\n", self.p, hex(&self.a), hex(&self.b), hex(&self.c), self.s)
	}

	pub fn from_text(t: &str) -> Option<Case> {
		let mut c = Case::default();
		let mut seen = 0;
		for l in t.lines() {
			let Some((k, v)) = l.split_once('=') else { continue };
			match k {
				"p" => c.p = v.parse().ok()?,
				"a" => c.a = unhex(v)?,
				"b" => c.b = unhex(v)?,
				"c" => c.c = unhex(v)?,
				"s" => c.s = v.parse().ok()?,
				_ => continue,
			}
			seen += 1;
		}
		(seen == 5).then_some(c)
	}
}

pub fn hex(b: &[u8]) -> String {
	b.iter().map(|b| format!("{b:02x}")).collect()
}

pub fn unhex(s: &str) -> Option<Vec<u8>> {
	(0..s.len() / 2).map(|i| u8::from_str_radix(s.get(2 * i..2 * i + 2)?, 16).ok()).collect()
}

/// Bounded, escaped rendering.
pub fn esc(b: &[u8]) -> String {
	let cut = b.len().min(160);
	let mut s: String = b[..cut].escape_ascii().to_string();
	if cut < b.len() {
		s.push_str(&format!("...({} bytes)", b.len()));
	}
	format!("\"{s}\"")
}

pub type Res = Result<(), String>;

#[derive(Default)]
pub struct Ctx {
	pub counters: BTreeMap<&'static str, u64>,
	pub distinct: HashSet<u64>,
	pub tier_thorough: bool,
	pub miri: bool,
	/// Scratch handed to monitors that need state across cases.
	pub scratch: BTreeMap<String, Vec<u8>>,
}

impl Ctx {
	pub fn n(&mut self, what: &'static str, k: u64) {
		*self.counters.entry(what).or_insert(0) += k;
	}
	/// Record a non-trivial case by fingerprint of its parts.
	pub fn saw(&mut self, parts: &[&[u8]]) {
		let mut h = 0xcbf2_9ce4_8422_2325;
		for p in parts {
			h = fnv_more(h, p);
			h = fnv_more(h, &[0xff, 0xfe]);
		}
		if self.distinct.len() < 6_000_000 {
			self.distinct.insert(h);
		}
	}
}

pub struct Monitor {
	pub id: &'static str,
	/// Systematic cases, emitted in a fixed order; `bool` is the thorough flag.
	pub sys: fn(&mut Gen, bool, &mut dyn FnMut(Case)),
	pub make: fn(&mut Gen, u64) -> Case,
	pub check: fn(&mut Ctx, &Case) -> Res,
	/// Random cases in total over all shards.
	pub quick: u64,
	pub thorough: u64,
	/// Longest generated input.
	pub max_len: usize,
}

pub fn no_sys(_: &mut Gen, _: bool, _: &mut dyn FnMut(Case)) {}

#[derive(Debug, Clone)]
pub enum Fail {
	/// The oracle rejected what it observed.
	Oracle(String),
	/// The code under test panicked.
	Panic(String),
	/// The harness itself panicked.
	Harness(String),
}

static LAST_PANIC: Mutex<Option<(String, String)>> = Mutex::new(None);

thread_local! {
	static QUIET: RefCell<bool> = const { RefCell::new(false) };
}

pub fn install_hook() {
	std::panic::set_hook(Box::new(|info| {
		let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
		let msg = info
			.payload()
			.downcast_ref::<&str>()
			.map(|s| s.to_string())
			.or_else(|| info.payload().downcast_ref::<String>().cloned())
			.unwrap_or_default();
		if let Ok(mut l) = LAST_PANIC.lock() {
			*l = Some((loc, msg));
		}
	}));
}

/// Is a panic raised at `loc` the harness's own fault?
fn harness_loc(loc: &str) -> bool {
	let l = loc.replace('\\', "/");
	// Paths are relative to the harness package (src/...) or absolute inside it.
	l.starts_with("src/") || l.contains("/verif/harness/") || l.contains("/verif/fuzz/")
}

pub fn take_panic() -> (String, String) {
	LAST_PANIC.lock().ok().and_then(|mut l| l.take()).unwrap_or_default()
}

pub fn exec(m: &Monitor, ctx: &mut Ctx, case: &Case) -> Result<(), Fail> {
	match catch_unwind(AssertUnwindSafe(|| (m.check)(ctx, case))) {
		Ok(Ok(())) => Ok(()),
		Ok(Err(e)) => Err(Fail::Oracle(e)),
		Err(_) => {
			let (loc, msg) = take_panic();
			if let Some(m) = msg.strip_prefix("VIOLATED: ") {
				Err(Fail::Oracle(m.to_string()))
			} else if harness_loc(&loc) {
				Err(Fail::Harness(format!("{msg} at {loc}")))
			} else {
				Err(Fail::Panic(format!("panicked: {msg} at {loc}")))
			}
		}
	}
}

/// Greedy shrinking that keeps the case failing (not as a harness failure).
pub fn shrink(m: &Monitor, ctx: &mut Ctx, case: &Case, fail: Fail) -> (Case, Fail) {
	let mut best = case.clone();
	let mut why = fail;
	let mut budget = 4000;
	if best.a.len() + best.b.len() + best.c.len() > 20_000 {
		budget = 300;
	}
	let mut try_it = |c: Case, best: &mut Case, why: &mut Fail, budget: &mut i32| -> bool {
		if *budget <= 0 || c == *best {
			return false;
		}
		*budget -= 1;
		watchdog::case();
		match exec(m, ctx, &c) {
			Err(f @ (Fail::Oracle(_) | Fail::Panic(_))) => {
				*best = c;
				*why = f;
				true
			}
			_ => false,
		}
	};
	loop {
		let mut progress = false;
		for field in 0..3 {
			let len = |c: &Case| [c.a.len(), c.b.len(), c.c.len()][field];
			let mut step = len(&best).next_power_of_two();
			while step >= 1 {
				let mut i = 0;
				while i < len(&best) {
					let mut c = best.clone();
					let f = match field {
						0 => &mut c.a,
						1 => &mut c.b,
						_ => &mut c.c,
					};
					let e = (i + step).min(f.len());
					f.drain(i..e);
					if try_it(c, &mut best, &mut why, &mut budget) {
						progress = true;
					} else {
						i += step;
					}
				}
				step /= 2;
			}
		}
		if !progress || budget <= 0 {
			break;
		}
	}
	(best, why)
}

/// The case being executed, kept where it survives the death of the process.
pub struct CaseFile {
	#[cfg(not(miri))]
	ptr: *mut u8,
	#[cfg(not(miri))]
	cap: usize,
	path: String,
}

impl CaseFile {
	#[cfg(not(miri))]
	pub fn new(path: &str) -> std::io::Result<Self> {
		use std::os::fd::AsRawFd;
		let cap = 4 << 20;
		let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(path)?;
		f.set_len(cap as u64)?;
		let ptr = unsafe {
			libc::mmap(
				std::ptr::null_mut(),
				cap,
				libc::PROT_READ | libc::PROT_WRITE,
				libc::MAP_SHARED,
				f.as_raw_fd(),
				0,
			)
		};
		if ptr == libc::MAP_FAILED {
			return Err(std::io::Error::last_os_error());
		}
		Ok(CaseFile { ptr: ptr as *mut u8, cap, path: path.to_string() })
	}

	#[cfg(miri)]
	pub fn new(path: &str) -> std::io::Result<Self> {
		Ok(CaseFile { path: path.to_string() })
	}

	#[cfg(not(miri))]
	pub fn set(&mut self, c: &Case) {
		let total = 22 + c.a.len() + c.b.len() + c.c.len();
		if total > self.cap {
			return;
		}
		unsafe {
			let mut at = self.ptr;
			let mut put = |b: &[u8]| {
				std::ptr::copy_nonoverlapping(b.as_ptr(), at, b.len());
				at = at.add(b.len());
			};
			put(&[1, c.p]);
			put(&c.s.to_le_bytes());
			for f in [&c.a, &c.b, &c.c] {
				put(&(f.len() as u32).to_le_bytes());
				put(f);
			}
		}
	}

	#[cfg(miri)]
	pub fn set(&mut self, c: &Case) {
		let _ = std::fs::write(&self.path, c.encode());
	}

	pub fn clear(&mut self) {
		#[cfg(not(miri))]
		unsafe {
			*self.ptr = 0;
		}
		#[cfg(miri)]
		let _ = std::fs::write(&self.path, [0u8]);
		let _ = &self.path;
	}
}

/// CPU-time watchdog: ends the process with status 87 when a single case burns more than
/// `secs` seconds of CPU.
#[cfg(not(miri))]
pub mod watchdog {
	use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
	static CASE: AtomicU64 = AtomicU64::new(0);
	static BUSY: AtomicU64 = AtomicU64::new(0);
	static SEEN: AtomicU64 = AtomicU64::new(u64::MAX);
	static TICKS: AtomicU64 = AtomicU64::new(0);
	static LIMIT: AtomicU64 = AtomicU64::new(20);

	extern "C" fn tick(_: libc::c_int) {
		let now = CASE.load(Relaxed);
		if SEEN.swap(now, Relaxed) == now && BUSY.load(Relaxed) != 0 {
			if TICKS.fetch_add(1, Relaxed) + 1 >= LIMIT.load(Relaxed) {
				unsafe { libc::_exit(87) }
			}
		} else {
			TICKS.store(0, Relaxed);
		}
	}

	pub fn start(secs: u64) {
		LIMIT.store(secs, Relaxed);
		unsafe {
			let mut sa: libc::sigaction = std::mem::zeroed();
			sa.sa_sigaction = tick as *const () as usize;
			sa.sa_flags = libc::SA_RESTART;
			libc::sigaction(libc::SIGVTALRM, &sa, std::ptr::null_mut());
			let t = libc::timeval { tv_sec: 1, tv_usec: 0 };
			let it = libc::itimerval { it_interval: t, it_value: t };
			libc::setitimer(libc::ITIMER_VIRTUAL, &it, std::ptr::null_mut());
		}
	}

	pub fn case() {
		CASE.fetch_add(1, Relaxed);
		BUSY.store(1, Relaxed);
	}
	pub fn idle() {
		BUSY.store(0, Relaxed);
	}
}
#[cfg(miri)]
pub mod watchdog {
	pub fn start(_: u64) {}
	pub fn case() {}
	pub fn idle() {}
}
