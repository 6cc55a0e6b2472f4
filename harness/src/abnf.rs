//! Second, independent oracle: the ABNF of RFC 5646 section 2.1, compiled at run
//! time to a minimal DFA for each production.

use crate::model::Prod;
use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};

/// Transcribed from RFC 5646 section 2.1. The rules below the line are names for
/// parts of it that the library exposes as types.
pub const RFC5646: &str = r#"
Language-Tag  = langtag / privateuse / grandfathered
langtag       = language ["-" script] ["-" region] *("-" variant) *("-" extension) ["-" privateuse]
language      = 2*3ALPHA ["-" extlang] / 4ALPHA / 5*8ALPHA
extlang       = 3ALPHA *2("-" 3ALPHA)
script        = 4ALPHA
region        = 2ALPHA / 3DIGIT
variant       = 5*8alphanum / (DIGIT 3alphanum)
extension     = singleton 1*("-" (2*8alphanum))
singleton     = DIGIT / %x41-57 / %x59-5A / %x61-77 / %x79-7A
privateuse    = "x" 1*("-" (1*8alphanum))
grandfathered = irregular / regular
irregular     = "en-GB-oed" / "i-ami" / "i-bnn" / "i-default" / "i-enochian" / "i-hak" / "i-klingon" / "i-lux" / "i-mingo" / "i-navajo" / "i-pwn" / "i-tao" / "i-tay" / "i-tsu" / "sgn-BE-FR" / "sgn-BE-NL" / "sgn-CH-DE"
regular       = "art-lojban" / "cel-gaulish" / "no-bok" / "no-nyn" / "zh-guoyu" / "zh-hakka" / "zh-min" / "zh-min-nan" / "zh-xiang"
alphanum      = (ALPHA / DIGIT)
ALPHA         = %x41-5A / %x61-7A
DIGIT         = %x30-39
primary           = 2*3ALPHA / 4ALPHA / 5*8ALPHA
extlang-tag       = 3ALPHA
variants          = [variant *("-" variant)]
extensions        = [extension *("-" extension)]
extension-subtag  = 2*8alphanum
privateuse-subtag = 1*8alphanum
"#;

#[derive(Debug, Clone)]
enum Node {
	Set(Vec<(u8, u8)>),
	Lit(Vec<u8>),
	Cat(Vec<Node>),
	Alt(Vec<Node>),
	Rep(usize, Option<usize>, Box<Node>),
	Rule(String),
}

struct P<'a> {
	s: &'a [u8],
	i: usize,
}

impl P<'_> {
	fn ws(&mut self) {
		while self.i < self.s.len() && (self.s[self.i] == b' ' || self.s[self.i] == b'\t') {
			self.i += 1;
		}
	}
	fn peek(&self) -> u8 {
		*self.s.get(self.i).unwrap_or(&0)
	}
	fn num(&mut self) -> Option<usize> {
		let st = self.i;
		while self.peek().is_ascii_digit() {
			self.i += 1;
		}
		std::str::from_utf8(&self.s[st..self.i]).ok()?.parse().ok()
	}
	fn alt(&mut self) -> Node {
		let mut v = vec![self.cat()];
		loop {
			self.ws();
			if self.peek() == b'/' {
				self.i += 1;
				v.push(self.cat());
			} else {
				break;
			}
		}
		if v.len() == 1 { v.pop().unwrap() } else { Node::Alt(v) }
	}
	fn cat(&mut self) -> Node {
		let mut v = Vec::new();
		loop {
			self.ws();
			match self.peek() {
				0 | b'/' | b')' | b']' => break,
				_ => v.push(self.rep()),
			}
		}
		Node::Cat(v)
	}
	fn rep(&mut self) -> Node {
		let lo = self.num();
		if self.peek() == b'*' {
			self.i += 1;
			let hi = self.num();
			let e = self.elem();
			Node::Rep(lo.unwrap_or(0), hi, Box::new(e))
		} else if let Some(n) = lo {
			let e = self.elem();
			Node::Rep(n, Some(n), Box::new(e))
		} else {
			self.elem()
		}
	}
	fn hex(&mut self) -> u8 {
		let st = self.i;
		while self.peek().is_ascii_hexdigit() {
			self.i += 1;
		}
		u8::from_str_radix(std::str::from_utf8(&self.s[st..self.i]).unwrap(), 16).unwrap()
	}
	fn elem(&mut self) -> Node {
		match self.peek() {
			b'(' => {
				self.i += 1;
				let n = self.alt();
				assert_eq!(self.peek(), b')');
				self.i += 1;
				n
			}
			b'[' => {
				self.i += 1;
				let n = self.alt();
				assert_eq!(self.peek(), b']');
				self.i += 1;
				Node::Rep(0, Some(1), Box::new(n))
			}
			b'"' => {
				self.i += 1;
				let st = self.i;
				while self.peek() != b'"' {
					self.i += 1;
				}
				self.i += 1;
				Node::Lit(self.s[st..self.i - 1].to_vec())
			}
			b'%' => {
				self.i += 2;
				let a = self.hex();
				let b = if self.peek() == b'-' {
					self.i += 1;
					self.hex()
				} else {
					a
				};
				Node::Set(vec![(a, b)])
			}
			c => {
				assert!(c.is_ascii_alphabetic(), "abnf: unexpected {:?}", c as char);
				let st = self.i;
				while self.peek().is_ascii_alphanumeric() || self.peek() == b'-' {
					self.i += 1;
				}
				Node::Rule(String::from_utf8(self.s[st..self.i].to_vec()).unwrap())
			}
		}
	}
}

#[derive(Default)]
struct Nfa {
	eps: Vec<Vec<usize>>,
	edges: Vec<Vec<(u8, u8, usize)>>,
}

impl Nfa {
	fn state(&mut self) -> usize {
		self.eps.push(Vec::new());
		self.edges.push(Vec::new());
		self.eps.len() - 1
	}
	fn add(&mut self, rules: &BTreeMap<String, Node>, n: &Node, from: usize) -> usize {
		match n {
			Node::Set(rs) => {
				let to = self.state();
				for (a, b) in rs {
					self.edges[from].push((*a, *b, to));
				}
				to
			}
			Node::Lit(s) => {
				let mut cur = from;
				for c in s {
					let to = self.state();
					let (l, u) = (c.to_ascii_lowercase(), c.to_ascii_uppercase());
					self.edges[cur].push((l, l, to));
					self.edges[cur].push((u, u, to));
					cur = to;
				}
				cur
			}
			Node::Cat(v) => v.iter().fold(from, |f, n| self.add(rules, n, f)),
			Node::Alt(v) => {
				let to = self.state();
				for n in v {
					let f = self.state();
					self.eps[from].push(f);
					let e = self.add(rules, n, f);
					self.eps[e].push(to);
				}
				to
			}
			Node::Rep(lo, hi, n) => {
				let mut cur = from;
				for _ in 0..*lo {
					cur = self.add(rules, n, cur);
				}
				match hi {
					Some(hi) => {
						let to = self.state();
						self.eps[cur].push(to);
						for _ in *lo..*hi {
							cur = self.add(rules, n, cur);
							self.eps[cur].push(to);
						}
						to
					}
					None => {
						let start = self.state();
						self.eps[cur].push(start);
						let e = self.add(rules, n, start);
						self.eps[e].push(start);
						let to = self.state();
						self.eps[start].push(to);
						to
					}
				}
			}
			Node::Rule(r) => {
				let n = rules.get(r).unwrap_or_else(|| panic!("abnf: no rule {r}"));
				self.add(rules, n, from)
			}
		}
	}
}

/// Minimal complete DFA over ASCII; any other byte leads to `dead`.
pub struct Dfa {
	pub start: usize,
	pub dead: usize,
	pub accept: Vec<bool>,
	pub trans: Vec<[u32; 128]>,
	/// Shortest access word of every state (lower-case letters first).
	pub access: Vec<Vec<u8>>,
	/// Characterisation set: suffixes that tell any two states apart.
	pub suffixes: Vec<Vec<u8>>,
}

impl Dfa {
	pub fn run(&self, s: &[u8]) -> usize {
		let mut q = self.start;
		for b in s {
			q = if *b < 128 { self.trans[q][*b as usize] as usize } else { self.dead };
		}
		q
	}
	pub fn accepts(&self, s: &[u8]) -> bool {
		self.accept[self.run(s)]
	}

	/// Bytes that stand for all bytes: one per class of identical columns, letters in both
	/// cases as separate classes never merge different rows.
	pub fn classes(&self) -> Vec<u8> {
		let mut seen: HashMap<Vec<u32>, u8> = HashMap::new();
		let mut out = Vec::new();
		for b in 0..128u8 {
			let col: Vec<u32> = self.trans.iter().map(|r| r[b as usize]).collect();
			if let std::collections::hash_map::Entry::Vacant(e) = seen.entry(col) {
				e.insert(b);
				out.push(b);
			}
		}
		out
	}
}

pub fn compile(p: Prod) -> Dfa {
	let mut rules = BTreeMap::new();
	for line in RFC5646.lines() {
		if let Some((name, body)) = line.split_once('=') {
			let mut q = P { s: body.as_bytes(), i: 0 };
			let n = q.alt();
			q.ws();
			assert_eq!(q.i, q.s.len(), "abnf: trailing input in {line}");
			rules.insert(name.trim().to_string(), n);
		}
	}
	let mut nfa = Nfa::default();
	let s0 = nfa.state();
	let end = nfa.add(&rules, &Node::Rule(p.rule().to_string()), s0);

	// Subset construction.
	let close = |set: BTreeSet<usize>| -> BTreeSet<usize> {
		let mut out = set.clone();
		let mut todo: Vec<usize> = set.into_iter().collect();
		while let Some(q) = todo.pop() {
			for e in &nfa.eps[q] {
				if out.insert(*e) {
					todo.push(*e);
				}
			}
		}
		out
	};
	let mut ids: HashMap<BTreeSet<usize>, usize> = HashMap::new();
	let mut rows: Vec<[u32; 128]> = Vec::new();
	let mut acc: Vec<bool> = Vec::new();
	let mut todo = VecDeque::new();
	let first = close(BTreeSet::from([s0]));
	ids.insert(first.clone(), 0);
	todo.push_back(first);
	while let Some(set) = todo.pop_front() {
		acc.push(set.contains(&end));
		let mut row = [0u32; 128];
		let mut cache: HashMap<Vec<usize>, u32> = HashMap::new();
		for b in 0..128u8 {
			let mut next: Vec<usize> = Vec::new();
			for q in &set {
				for (lo, hi, to) in &nfa.edges[*q] {
					if *lo <= b && b <= *hi {
						next.push(*to);
					}
				}
			}
			next.sort();
			next.dedup();
			row[b as usize] = *cache.entry(next.clone()).or_insert_with(|| {
				let c = close(next.into_iter().collect());
				let n = ids.len();
				*ids.entry(c.clone()).or_insert_with(|| {
					todo.push_back(c);
					n
				}) as u32
			});
		}
		rows.push(row);
	}

	// Moore minimisation.
	let n = rows.len();
	let mut part: Vec<u32> = acc.iter().map(|a| *a as u32).collect();
	let mut count = 0;
	loop {
		let mut sig: HashMap<(u32, Vec<u32>), u32> = HashMap::new();
		let mut next = vec![0u32; n];
		for q in 0..n {
			let key = (part[q], rows[q].iter().map(|t| part[*t as usize]).collect::<Vec<_>>());
			let k = sig.len() as u32;
			next[q] = *sig.entry(key).or_insert(k);
		}
		part = next;
		if sig.len() == count {
			break;
		}
		count = sig.len();
	}
	let mut trans = vec![[0u32; 128]; count];
	let mut accept = vec![false; count];
	for q in 0..n {
		let c = part[q] as usize;
		accept[c] = acc[q];
		for b in 0..128 {
			trans[c][b] = part[rows[q][b] as usize];
		}
	}
	let start = part[0] as usize;
	let dead = (0..count)
		.find(|q| !accept[*q] && trans[*q].iter().all(|t| *t as usize == *q))
		.expect("abnf: no dead state");

	// Access words (BFS).
	let order: Vec<u8> = (b'a'..=b'z').chain(b'0'..=b'9').chain([b'-']).chain(0..128).collect();
	let mut access: Vec<Option<Vec<u8>>> = vec![None; count];
	access[start] = Some(Vec::new());
	let mut todo = VecDeque::from([start]);
	while let Some(q) = todo.pop_front() {
		for b in &order {
			let t = trans[q][*b as usize] as usize;
			if access[t].is_none() {
				let mut w = access[q].clone().unwrap();
				w.push(*b);
				access[t] = Some(w);
				todo.push_back(t);
			}
		}
	}

	// Characterisation set: table filling backwards, remembering one suffix per pair, then greedy.
	let reps: Vec<u8> = {
		let d = Dfa { start, dead, accept: accept.clone(), trans: trans.clone(), access: vec![], suffixes: vec![] };
		d.classes()
	};
	let mut groups: Vec<Vec<usize>> = vec![(0..count).collect()];
	let mut suffixes: Vec<Vec<u8>> = Vec::new();
	let dfa0 = Dfa { start, dead, accept, trans, access: access.into_iter().map(|a| a.unwrap_or_default()).collect(), suffixes: vec![] };
	let run_from = |mut q: usize, s: &[u8]| {
		for b in s {
			q = dfa0.trans[q][*b as usize] as usize;
		}
		dfa0.accept[q]
	};
	while let Some(g) = groups.iter().find(|g| g.len() > 1).cloned() {
		// BFS for the shortest suffix telling g[0] and g[1] apart.
		let (a, b) = (g[0], g[1]);
		let mut seen = HashMap::from([((a, b), Vec::new())]);
		let mut todo = VecDeque::from([(a, b)]);
		let suffix = loop {
			let (x, y) = todo.pop_front().expect("abnf: DFA not minimal");
			let w: Vec<u8> = seen[&(x, y)].clone();
			if dfa0.accept[x] != dfa0.accept[y] {
				break w;
			}
			for c in &reps {
				let t = (dfa0.trans[x][*c as usize] as usize, dfa0.trans[y][*c as usize] as usize);
				if t.0 != t.1 && !seen.contains_key(&t) {
					let mut w2 = w.clone();
					w2.push(*c);
					seen.insert(t, w2);
					todo.push_back(t);
				}
			}
		};
		let mut next = Vec::new();
		for g in groups {
			let (x, y): (Vec<_>, Vec<_>) = g.into_iter().partition(|q| run_from(*q, &suffix));
			next.extend([x, y].into_iter().filter(|g| !g.is_empty()));
		}
		groups = next;
		suffixes.push(suffix);
	}
	Dfa { suffixes, ..dfa0 }
}
