//! Random numbers, JSON in and out.

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
	pub fn new(seed: u64) -> Self {
		let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03);
		for _ in 0..4 {
			r.next();
		}
		r
	}
	pub fn next(&mut self) -> u64 {
		self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
		let mut z = self.0;
		z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
		z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
		z ^ (z >> 31)
	}
	/// 0..n
	pub fn below(&mut self, n: usize) -> usize {
		if n == 0 {
			0
		} else {
			(self.next() % n as u64) as usize
		}
	}
	pub fn range(&mut self, lo: usize, hi: usize) -> usize {
		lo + self.below(hi - lo + 1)
	}
	/// True with chance `n` in `d`
	pub fn chance(&mut self, n: usize, d: usize) -> bool {
		self.below(d) < n
	}
	pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T {
		&s[self.below(s.len())]
	}
	pub fn weighted(&mut self, w: &[usize]) -> usize {
		let total: usize = w.iter().sum();
		let mut x = self.below(total);
		for (i, &v) in w.iter().enumerate() {
			if x < v {
				return i;
			}
			x -= v;
		}
		0
	}
}

#[derive(Clone, Debug)]
pub enum J {
	Null,
	Bool(bool),
	Int(i64),
	Str(String),
	Arr(Vec<J>),
	Obj(Vec<(String, J)>),
}

impl J {
	pub fn get(&self, k: &str) -> &J {
		match self {
			J::Obj(o) => o.iter().find(|(n, _)| n == k).map(|(_, v)| v).unwrap_or(&J::Null),
			_ => &J::Null,
		}
	}
	pub fn int(&self) -> i64 {
		match self {
			J::Int(i) => *i,
			J::Bool(b) => *b as i64,
			_ => 0,
		}
	}
	pub fn us(&self) -> usize {
		self.int() as usize
	}
	pub fn str(&self) -> &str {
		match self {
			J::Str(s) => s,
			_ => "",
		}
	}
	pub fn arr(&self) -> &[J] {
		match self {
			J::Arr(a) => a,
			_ => &[],
		}
	}
	pub fn is_null(&self) -> bool {
		matches!(self, J::Null)
	}
	pub fn parse(s: &str) -> J {
		let b = s.as_bytes();
		let mut i = 0;
		parse(b, &mut i)
	}
	pub fn write(&self, out: &mut String) {
		match self {
			J::Null => out.push_str("null"),
			J::Bool(b) => out.push_str(if *b { "true" } else { "false" }),
			J::Int(i) => out.push_str(&i.to_string()),
			J::Str(s) => {
				out.push('"');
				for c in s.chars() {
					match c {
						'"' => out.push_str("\\\""),
						'\\' => out.push_str("\\\\"),
						c if (c as u32) < 32 => out.push_str(&format!("\\u{:04x}", c as u32)),
						c => out.push(c),
					}
				}
				out.push('"');
			}
			J::Arr(a) => {
				out.push('[');
				for (i, v) in a.iter().enumerate() {
					if i > 0 {
						out.push(',');
					}
					v.write(out);
				}
				out.push(']');
			}
			J::Obj(o) => {
				out.push('{');
				for (i, (k, v)) in o.iter().enumerate() {
					if i > 0 {
						out.push(',');
					}
					J::Str(k.clone()).write(out);
					out.push(':');
					v.write(out);
				}
				out.push('}');
			}
		}
	}
	pub fn to_string(&self) -> String {
		let mut s = String::new();
		self.write(&mut s);
		s
	}
}

fn ws(b: &[u8], i: &mut usize) {
	while *i < b.len() && (b[*i] as char).is_ascii_whitespace() {
		*i += 1;
	}
}

fn parse(b: &[u8], i: &mut usize) -> J {
	ws(b, i);
	match b[*i] {
		b'{' => {
			*i += 1;
			let mut o = vec![];
			loop {
				ws(b, i);
				if b[*i] == b'}' {
					*i += 1;
					return J::Obj(o);
				}
				if b[*i] == b',' {
					*i += 1;
					continue;
				}
				let k = match parse(b, i) {
					J::Str(s) => s,
					_ => panic!("json key"),
				};
				ws(b, i);
				assert!(b[*i] == b':');
				*i += 1;
				let v = parse(b, i);
				o.push((k, v));
			}
		}
		b'[' => {
			*i += 1;
			let mut a = vec![];
			loop {
				ws(b, i);
				if b[*i] == b']' {
					*i += 1;
					return J::Arr(a);
				}
				if b[*i] == b',' {
					*i += 1;
					continue;
				}
				a.push(parse(b, i));
			}
		}
		b'"' => {
			*i += 1;
			let mut s = vec![];
			while b[*i] != b'"' {
				if b[*i] == b'\\' {
					*i += 1;
					match b[*i] {
						b'n' => s.push(b'\n'),
						b't' => s.push(b'\t'),
						b'u' => {
							let h = std::str::from_utf8(&b[*i + 1..*i + 5]).unwrap();
							let c = char::from_u32(u32::from_str_radix(h, 16).unwrap()).unwrap_or('?');
							let mut buf = [0; 4];
							s.extend_from_slice(c.encode_utf8(&mut buf).as_bytes());
							*i += 4;
						}
						c => s.push(c),
					}
				} else {
					s.push(b[*i]);
				}
				*i += 1;
			}
			*i += 1;
			J::Str(String::from_utf8(s).unwrap())
		}
		b't' => {
			*i += 4;
			J::Bool(true)
		}
		b'f' => {
			*i += 5;
			J::Bool(false)
		}
		b'n' => {
			*i += 4;
			J::Null
		}
		_ => {
			let st = *i;
			while *i < b.len() && (b[*i] == b'-' || b[*i].is_ascii_digit()) {
				*i += 1;
			}
			J::Int(std::str::from_utf8(&b[st..*i]).unwrap().parse().expect("json int"))
		}
	}
}

#[macro_export]
macro_rules! obj {
	($($k:ident : $v:expr),* $(,)?) => {
		$crate::util::J::Obj(vec![$((stringify!($k).to_string(), $crate::util::IntoJ::j($v))),*])
	};
}

pub trait IntoJ {
	fn j(self) -> J;
}
impl IntoJ for J {
	fn j(self) -> J {
		self
	}
}
impl IntoJ for usize {
	fn j(self) -> J {
		J::Int(clamp(self))
	}
}
impl IntoJ for i64 {
	fn j(self) -> J {
		J::Int(self)
	}
}
impl IntoJ for i32 {
	fn j(self) -> J {
		J::Int(self as i64)
	}
}
impl IntoJ for u32 {
	fn j(self) -> J {
		J::Int(self as i64)
	}
}
impl IntoJ for bool {
	fn j(self) -> J {
		J::Bool(self)
	}
}
impl IntoJ for &str {
	fn j(self) -> J {
		J::Str(self.to_string())
	}
}
impl IntoJ for String {
	fn j(self) -> J {
		J::Str(self)
	}
}
impl<T: IntoJ> IntoJ for Vec<T> {
	fn j(self) -> J {
		J::Arr(self.into_iter().map(|x| x.j()).collect())
	}
}

/// TLC integers have 32 bits. Maximum capacities from 2^30 up are written as 2^30, other numbers
/// beyond 2^30 as 2^30 + 1: the drivers that use this never ask for amounts between 2^30 and the
/// real maximum (the wide driver does, with limbs).
pub const INF: usize = 1 << 30;
pub fn clamp(x: usize) -> i64 {
	x.min(INF + 1) as i64
}
pub fn clamp_max(x: usize) -> i64 {
	x.min(INF) as i64
}

pub fn hash_bytes(h: u64, b: &[u8]) -> u64 {
	let mut h = h ^ 0xcbf29ce484222325;
	for &x in b {
		h = (h ^ x as u64).wrapping_mul(0x100000001b3);
		h ^= h >> 29;
	}
	h
}

/// A number too big for TLC, in units of 2^30 and a rest. Up to 2^60; what is beyond stays at 2^60.
pub fn limbs(x: usize) -> Vec<i64> {
	let x = x.min(1 << 60);
	vec![(x >> 30) as i64, (x & (INF - 1)) as i64]
}
