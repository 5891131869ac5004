//! Values of many types: how to make them, and what they own.

use crate::util::Rng;
use num_bigint::{BigInt, BigUint, Sign};
use ser_raw::pos::Addr;
use ser_raw::{Serialize, SerializeWith, Serializer};
use std::mem::{align_of, size_of};
use std::num;

/// One allocation of a value, in the order in which they are reached depth first
pub struct Blk {
	pub sz: usize,
	pub al: usize,
	pub n: usize,
	pub addr: usize,
	pub snap: Vec<u8>,
}
/// A pointer (with length and capacity, unless it is a box) to an allocation. Offsets within block `blk`.
pub struct Head {
	pub blk: usize,
	pub list: bool,
	pub esz: usize,
	pub eal: usize,
	pub len: usize,
	pub cap: usize,
	pub ptr: usize,
	/// 0: none
	pub child: usize,
	pub po: usize,
	pub lo: usize,
	pub co: usize,
}
#[derive(Default)]
pub struct W {
	pub blks: Vec<Blk>,
	pub heads: Vec<Head>,
	cur: usize,
	/// serializing it has to panic
	pub bomb: bool,
}

unsafe fn bytes(a: usize, n: usize) -> Vec<u8> {
	std::slice::from_raw_parts(a as *const u8, n).to_vec()
}
unsafe fn word(a: usize) -> usize {
	*(a as *const usize)
}

impl W {
	pub fn root<T: Val>(v: &T) -> W {
		let mut w = W::default();
		w.block(v as *const T as usize, size_of::<T>(), align_of::<T>(), 1);
		v.walk(&mut w);
		w
	}
	fn block(&mut self, addr: usize, sz: usize, al: usize, n: usize) -> usize {
		self.blks.push(Blk { sz, al, n, addr, snap: unsafe { bytes(addr, sz * n) } });
		self.blks.len() - 1
	}
	fn off(&self, a: usize) -> usize {
		a - self.blks[self.cur].addr
	}
	/// A list of `len` elements `T` whose three words start at `a`
	fn list<T>(&mut self, a: usize, (po, lo, co): (usize, usize, usize), walk: impl FnOnce(&mut W)) {
		let (ptr, len, cap) = unsafe { (word(a + po), word(a + lo), word(a + co)) };
		let o = self.off(a);
		let h = self.heads.len();
		self.heads.push(Head {
			blk: self.cur,
			list: true,
			esz: size_of::<T>(),
			eal: align_of::<T>(),
			len: len.min(1 << 29),
			cap,
			ptr,
			child: 0,
			po: o + po,
			lo: o + lo,
			co: o + co,
		});
		if len > 0 && size_of::<T>() > 0 {
			let b = self.block(ptr, size_of::<T>(), align_of::<T>(), len);
			self.heads[h].child = b;
			let cur = std::mem::replace(&mut self.cur, b);
			walk(self);
			self.cur = cur;
		}
	}
}

/// Offsets of pointer, length and capacity
pub fn vec_words<T>() -> (usize, usize, usize) {
	// (the capacity of these is not in any word)
	if size_of::<T>() == 0 {
		return vec_words::<u64>();
	}
	let mut v = Vec::<T>::with_capacity(7);
	unsafe { v.set_len(3) };
	let r = find(&v as *const Vec<T> as usize, v.as_ptr() as usize, 3, v.capacity());
	unsafe { v.set_len(0) };
	r
}
fn string_words() -> (usize, usize, usize) {
	let mut v = String::with_capacity(7);
	v.push_str("abc");
	find(&v as *const String as usize, v.as_ptr() as usize, 3, v.capacity())
}
fn find(a: usize, ptr: usize, len: usize, cap: usize) -> (usize, usize, usize) {
	let at = |x| (0..3).map(|i| i * 8).find(|&i| unsafe { word(a + i) } == x).expect("list of three words");
	(at(ptr), at(len), at(cap))
}

pub trait Val: Sized + Clone {
	fn arb(r: &mut Rng, d: usize) -> Self;
	fn walk(&self, w: &mut W);
	fn same(&self, o: &Self) -> bool;
}

macro_rules! prim {
	($($t:ty),*) => { $(impl Val for $t {
		fn arb(r: &mut Rng, _: usize) -> Self { ((r.next() as u128) << 64 | r.next() as u128) as $t }
		fn walk(&self, _: &mut W) {}
		fn same(&self, o: &Self) -> bool { self == o }
	})* };
}
prim!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);
macro_rules! nonzero {
	($($t:ident $p:ty),*) => { $(impl Val for num::$t {
		fn arb(r: &mut Rng, d: usize) -> Self { num::$t::new(<$p>::arb(r, d) | 1).unwrap() }
		fn walk(&self, _: &mut W) {}
		fn same(&self, o: &Self) -> bool { self == o }
	})* };
}
nonzero!(NonZeroU8 u8, NonZeroU16 u16, NonZeroU32 u32, NonZeroU64 u64, NonZeroU128 u128, NonZeroUsize usize,
	NonZeroI8 i8, NonZeroI16 i16, NonZeroI32 i32, NonZeroI64 i64, NonZeroI128 i128, NonZeroIsize isize);
impl Val for f32 {
	fn arb(r: &mut Rng, _: usize) -> f32 {
		f32::from_bits(r.next() as u32)
	}
	fn walk(&self, _: &mut W) {}
	fn same(&self, o: &f32) -> bool {
		self.to_bits() == o.to_bits()
	}
}
impl Val for f64 {
	fn arb(r: &mut Rng, _: usize) -> f64 {
		f64::from_bits(r.next())
	}
	fn walk(&self, _: &mut W) {}
	fn same(&self, o: &f64) -> bool {
		self.to_bits() == o.to_bits()
	}
}
impl Val for bool {
	fn arb(r: &mut Rng, _: usize) -> bool {
		r.chance(1, 2)
	}
	fn walk(&self, _: &mut W) {}
	fn same(&self, o: &bool) -> bool {
		self == o
	}
}
impl Val for char {
	fn arb(r: &mut Rng, _: usize) -> char {
		*r.pick(&['a', 'Z', '\u{7f}', '\u{20ac}', '\u{10ffff}', '\0'])
	}
	fn walk(&self, _: &mut W) {}
	fn same(&self, o: &char) -> bool {
		self == o
	}
}
impl Val for () {
	fn arb(_: &mut Rng, _: usize) {}
	fn walk(&self, _: &mut W) {}
	fn same(&self, _: &()) -> bool {
		true
	}
}

/// How many elements a list gets
fn len(r: &mut Rng, d: usize) -> usize {
	if r.chance(1, 5) {
		0
	} else if d == 0 {
		r.range(1, 3)
	} else if r.chance(1, 20) {
		r.range(8, 40)
	} else {
		r.range(1, 5)
	}
}
thread_local! {
	/// How many bytes, and how many elements that own something, long lists may still use
	pub static BIG: std::cell::Cell<(usize, usize)> = std::cell::Cell::new((0, 0));
}
/// How many elements more a list gets, if lists may be long
fn longer<T>(r: &mut Rng) -> usize {
	let (b, e) = BIG.with(|x| x.get());
	if b == 0 || size_of::<T>() == 0 || (e <= 10_000 && !r.chance(1, 2)) {
		return 0;
	}
	let k = if std::mem::needs_drop::<T>() && e > 10_000 {
		e
	} else if std::mem::needs_drop::<T>() {
		(1 << r.range(1, if e > 400 { 13 } else { 8 })).min(e)
	} else {
		// around powers of two, and anywhere
		let p = 1usize << r.range(7, 20);
		let n = match r.below(3) {
			0 => p,
			1 => p - 8 + r.below(17),
			_ => p + r.below(p),
		};
		n.min(b) / size_of::<T>()
	};
	BIG.with(|x| x.set((b - (k * size_of::<T>()).min(b), if std::mem::needs_drop::<T>() { e - k } else { e })));
	k
}
/// Spare capacity of some kind
pub fn spare<T>(r: &mut Rng, v: &mut Vec<T>) {
	match r.below(4) {
		0 if BIG.with(|x| x.get().0) > 0 && r.chance(1, 8) => v.reserve_exact(r.range(1, 5000)),
		0 => v.reserve_exact(r.range(1, 40)),
		1 => v.shrink_to_fit(),
		_ => {}
	}
}

impl<T: Val> Val for Vec<T> {
	fn arb(r: &mut Rng, d: usize) -> Self {
		let d = d.saturating_sub(1);
		let n = len(r, d);
		let mut v: Vec<T> = if r.chance(1, 3) { Vec::with_capacity(n) } else { Vec::new() };
		for _ in 0..n {
			v.push(T::arb(r, d));
		}
		// (elements that are bytes: now and then a long list)
		if size_of::<T>() <= 2 && d > 0 && r.chance(1, 30) {
			let k = 1 << r.range(5, 11);
			for _ in 0..k {
				v.push(T::arb(r, 0));
			}
		}
		for _ in 0..longer::<T>(r) {
			v.push(T::arb(r, 0));
		}
		spare(r, &mut v);
		v
	}
	fn walk(&self, w: &mut W) {
		let words = vec_words::<T>();
		w.list::<T>(self as *const Self as usize, words, |w| {
			for x in self {
				x.walk(w)
			}
		})
	}
	fn same(&self, o: &Self) -> bool {
		self.len() == o.len() && self.iter().zip(o).all(|(a, b)| a.same(b))
	}
}
impl Val for String {
	fn arb(r: &mut Rng, d: usize) -> String {
		let n = len(r, d.max(1));
		let mut s = String::new();
		for _ in 0..n {
			s.push(char::arb(r, d));
		}
		for _ in 0..longer::<u8>(r) {
			s.push((r.next() & 127) as u8 as char);
		}
		match r.below(4) {
			0 => s.reserve_exact(r.range(1, 40)),
			1 => s.shrink_to_fit(),
			_ => {}
		}
		s
	}
	fn walk(&self, w: &mut W) {
		w.list::<u8>(self as *const Self as usize, string_words(), |_| {})
	}
	fn same(&self, o: &String) -> bool {
		self == o
	}
}
impl<T: Val> Val for Box<T> {
	fn arb(r: &mut Rng, d: usize) -> Self {
		Box::new(T::arb(r, d.saturating_sub(1)))
	}
	fn walk(&self, w: &mut W) {
		let o = w.off(self as *const Self as usize);
		let ptr = &**self as *const T as usize;
		let h = w.heads.len();
		w.heads.push(Head {
			blk: w.cur,
			list: false,
			esz: size_of::<T>(),
			eal: align_of::<T>(),
			len: 1,
			cap: 1,
			ptr,
			child: 0,
			po: o,
			lo: o,
			co: o,
		});
		if size_of::<T>() > 0 {
			let b = w.block(ptr, size_of::<T>(), align_of::<T>(), 1);
			w.heads[h].child = b;
			let cur = std::mem::replace(&mut w.cur, b);
			(**self).walk(w);
			w.cur = cur;
		}
	}
	fn same(&self, o: &Self) -> bool {
		(**self).same(&**o)
	}
}
impl<T: Val> Val for Option<T> {
	fn arb(r: &mut Rng, d: usize) -> Self {
		if r.chance(1, 3) {
			None
		} else {
			Some(T::arb(r, d))
		}
	}
	fn walk(&self, w: &mut W) {
		if let Some(x) = self {
			x.walk(w)
		}
	}
	fn same(&self, o: &Self) -> bool {
		match (self, o) {
			(None, None) => true,
			(Some(a), Some(b)) => a.same(b),
			_ => false,
		}
	}
}
impl<T: Val, const N: usize> Val for [T; N] {
	fn arb(r: &mut Rng, d: usize) -> Self {
		std::array::from_fn(|_| T::arb(r, d))
	}
	fn walk(&self, w: &mut W) {
		for x in self {
			x.walk(w)
		}
	}
	fn same(&self, o: &Self) -> bool {
		self.iter().zip(o).all(|(a, b)| a.same(b))
	}
}
impl Val for BigUint {
	fn arb(r: &mut Rng, _: usize) -> BigUint {
		let k = if r.chance(1, 2) { r.below(9) } else { longer::<u32>(r) };
		let digits: Vec<u32> = (0..k).map(|_| r.next() as u32 | 1).collect();
		let mut b = BigUint::new(digits);
		// Assigning keeps the capacity there was
		if r.chance(1, 2) {
			let j = r.below(k + 1);
			let less: Vec<u32> = (0..j).map(|_| r.next() as u32 | 1).collect();
			b.assign_from_slice(&less);
		}
		b
	}
	fn walk(&self, w: &mut W) {
		w.list::<u64>(self as *const Self as usize, vec_words::<u64>(), |_| {})
	}
	fn same(&self, o: &BigUint) -> bool {
		self == o
	}
}
impl Val for BigInt {
	fn arb(r: &mut Rng, d: usize) -> BigInt {
		let s = *r.pick(&[Sign::Plus, Sign::Minus]);
		BigInt::from_biguint(s, BigUint::arb(r, d))
	}
	fn walk(&self, w: &mut W) {
		self.magnitude().walk(w)
	}
	fn same(&self, o: &BigInt) -> bool {
		self == o
	}
}

macro_rules! tuple {
	($($i:tt $t:ident),+) => {
		impl<$($t: Val),+> Val for ($($t,)+) where Self: Clone {
			fn arb(r: &mut Rng, d: usize) -> Self { ($($t::arb(r, d),)+) }
			fn walk(&self, w: &mut W) { $(self.$i.walk(w);)+ }
			fn same(&self, o: &Self) -> bool { $(self.$i.same(&o.$i))&&+ }
		}
	};
}
tuple!(0 A);
tuple!(0 A, 1 B);
tuple!(0 A, 1 B, 2 C);
tuple!(0 A, 1 B, 2 C, 3 D);
tuple!(0 A, 1 B, 2 C, 3 D, 4 E);
tuple!(0 A, 1 B, 2 C, 3 D, 4 E, 5 F);
tuple!(0 A, 1 B, 2 C, 3 D, 4 E, 5 F, 6 G);
tuple!(0 A, 1 B, 2 C, 3 D, 4 E, 5 F, 6 G, 7 H);
tuple!(0 A, 1 B, 2 C, 3 D, 4 E, 5 F, 6 G, 7 H, 8 I);
tuple!(0 A, 1 B, 2 C, 3 D, 4 E, 5 F, 6 G, 7 H, 8 I, 9 J);
tuple!(0 A, 1 B, 2 C, 3 D, 4 E, 5 F, 6 G, 7 H, 8 I, 9 J, 10 K);
tuple!(0 A, 1 B, 2 C, 3 D, 4 E, 5 F, 6 G, 7 H, 8 I, 9 J, 10 K, 11 L);

/// Longer tuples have no `Clone` of their own: they sit in a struct here
macro_rules! long_tuple {
	($name:ident: $($i:tt $t:ty),+) => {
		#[derive(ser_raw::Serialize)]
		pub struct $name(pub ($($t,)+));
		impl Clone for $name {
			fn clone(&self) -> Self { $name(($(self.0.$i.clone(),)+)) }
		}
		impl Val for $name {
			fn arb(r: &mut Rng, d: usize) -> Self { $name(($(<$t>::arb(r, d),)+)) }
			fn walk(&self, w: &mut W) { $(self.0.$i.walk(w);)+ }
			fn same(&self, o: &Self) -> bool { $(self.0.$i.same(&o.0.$i))&&+ }
		}
	};
}
type BU = Box<u32>;
type VU = Vec<u8>;
type S_ = String;
long_tuple!(T13: 0 BU, 1 VU, 2 S_, 3 BU, 4 VU, 5 S_, 6 BU, 7 VU, 8 S_, 9 BU, 10 VU, 11 S_, 12 BU);
long_tuple!(T14: 0 BU, 1 VU, 2 S_, 3 BU, 4 VU, 5 S_, 6 BU, 7 VU, 8 S_, 9 BU, 10 VU, 11 S_, 12 BU, 13 BU);
long_tuple!(T15: 0 BU, 1 VU, 2 S_, 3 BU, 4 VU, 5 S_, 6 BU, 7 VU, 8 S_, 9 BU, 10 VU, 11 S_, 12 BU, 13 BU, 14 BU);
long_tuple!(T16: 0 BU, 1 VU, 2 S_, 3 BU, 4 VU, 5 S_, 6 BU, 7 VU, 8 S_, 9 BU, 10 VU, 11 S_, 12 BU, 13 BU, 14 BU, 15 BU);
long_tuple!(T17: 0 BU, 1 VU, 2 S_, 3 BU, 4 VU, 5 S_, 6 BU, 7 VU, 8 S_, 9 BU, 10 VU, 11 S_, 12 BU, 13 BU, 14 BU, 15 BU, 16 VU);
long_tuple!(T18: 0 BU, 1 VU, 2 S_, 3 BU, 4 VU, 5 S_, 6 BU, 7 VU, 8 S_, 9 BU, 10 VU, 11 S_, 12 BU, 13 BU, 14 BU, 15 BU, 16 VU, 17 BU);
long_tuple!(T19: 0 BU, 1 VU, 2 S_, 3 BU, 4 VU, 5 S_, 6 BU, 7 VU, 8 S_, 9 BU, 10 VU, 11 S_, 12 BU, 13 BU, 14 BU, 15 BU, 16 VU, 17 BU, 18 BU);
long_tuple!(T20: 0 BU, 1 VU, 2 S_, 3 BU, 4 VU, 5 S_, 6 BU, 7 VU, 8 S_, 9 BU, 10 VU, 11 S_, 12 BU, 13 BU, 14 BU, 15 BU, 16 VU, 17 BU, 18 BU, 19 BU);
long_tuple!(T21: 0 BU, 1 VU, 2 S_, 3 BU, 4 VU, 5 S_, 6 BU, 7 VU, 8 S_, 9 BU, 10 VU, 11 S_, 12 BU, 13 BU, 14 BU, 15 BU, 16 VU, 17 BU, 18 BU, 19 BU, 20 BU);
long_tuple!(T22: 0 BU, 1 VU, 2 S_, 3 BU, 4 VU, 5 S_, 6 BU, 7 VU, 8 S_, 9 BU, 10 VU, 11 S_, 12 BU, 13 BU, 14 BU, 15 BU, 16 VU, 17 BU, 18 BU, 19 BU, 20 BU, 21 BU);
long_tuple!(T23: 0 BU, 1 VU, 2 S_, 3 BU, 4 VU, 5 S_, 6 BU, 7 VU, 8 S_, 9 BU, 10 VU, 11 S_, 12 BU, 13 BU, 14 BU, 15 BU, 16 VU, 17 BU, 18 BU, 19 BU, 20 BU, 21 BU, 22 BU);
long_tuple!(T24: 0 BU, 1 VU, 2 S_, 3 BU, 4 VU, 5 S_, 6 BU, 7 VU, 8 S_, 9 BU, 10 VU, 11 S_, 12 BU, 13 BU, 14 BU, 15 BU, 16 VU, 17 BU, 18 BU, 19 BU, 20 BU, 21 BU, 22 BU, 23 BU);
long_tuple!(T25: 0 BU, 1 VU, 2 S_, 3 BU, 4 VU, 5 S_, 6 BU, 7 VU, 8 S_, 9 BU, 10 VU, 11 S_, 12 BU, 13 BU, 14 BU, 15 BU, 16 VU, 17 BU, 18 BU, 19 BU, 20 BU, 21 BU, 22 BU, 23 BU, 24 BU);
long_tuple!(T26: 0 BU, 1 VU, 2 S_, 3 BU, 4 VU, 5 S_, 6 BU, 7 VU, 8 S_, 9 BU, 10 VU, 11 S_, 12 BU, 13 BU, 14 BU, 15 BU, 16 VU, 17 BU, 18 BU, 19 BU, 20 BU, 21 BU, 22 BU, 23 BU, 24 BU, 25 BU);
long_tuple!(T27: 0 BU, 1 VU, 2 S_, 3 BU, 4 VU, 5 S_, 6 BU, 7 VU, 8 S_, 9 BU, 10 VU, 11 S_, 12 BU, 13 BU, 14 BU, 15 BU, 16 VU, 17 BU, 18 BU, 19 BU, 20 BU, 21 BU, 22 BU, 23 BU, 24 BU, 25 BU, 26 BU);
long_tuple!(T28: 0 BU, 1 VU, 2 S_, 3 BU, 4 VU, 5 S_, 6 BU, 7 VU, 8 S_, 9 BU, 10 VU, 11 S_, 12 BU, 13 BU, 14 BU, 15 BU, 16 VU, 17 BU, 18 BU, 19 BU, 20 BU, 21 BU, 22 BU, 23 BU, 24 BU, 25 BU, 26 BU, 27 BU);
long_tuple!(T29: 0 BU, 1 VU, 2 S_, 3 BU, 4 VU, 5 S_, 6 BU, 7 VU, 8 S_, 9 BU, 10 VU, 11 S_, 12 BU, 13 BU, 14 BU, 15 BU, 16 VU, 17 BU, 18 BU, 19 BU, 20 BU, 21 BU, 22 BU, 23 BU, 24 BU, 25 BU, 26 BU, 27 BU, 28 BU);
long_tuple!(T30: 0 BU, 1 VU, 2 S_, 3 BU, 4 VU, 5 S_, 6 BU, 7 VU, 8 S_, 9 BU, 10 VU, 11 S_, 12 BU, 13 BU, 14 BU, 15 BU, 16 VU, 17 BU, 18 BU, 19 BU, 20 BU, 21 BU, 22 BU, 23 BU, 24 BU, 25 BU, 26 BU, 27 BU, 28 BU, 29 BU);
long_tuple!(T31: 0 BU, 1 VU, 2 S_, 3 BU, 4 VU, 5 S_, 6 BU, 7 VU, 8 S_, 9 BU, 10 VU, 11 S_, 12 BU, 13 BU, 14 BU, 15 BU, 16 VU, 17 BU, 18 BU, 19 BU, 20 BU, 21 BU, 22 BU, 23 BU, 24 BU, 25 BU, 26 BU, 27 BU, 28 BU, 29 BU, 30 VU);
long_tuple!(T32: 0 BU, 1 VU, 2 S_, 3 BU, 4 VU, 5 S_, 6 BU, 7 VU, 8 S_, 9 BU, 10 VU, 11 S_, 12 BU, 13 BU, 14 BU, 15 BU, 16 VU, 17 BU, 18 BU, 19 BU, 20 BU, 21 BU, 22 BU, 23 BU, 24 BU, 25 BU, 26 BU, 27 BU, 28 BU, 29 BU, 30 VU, 31 VU);

/// Derived types, as users write them
macro_rules! named {
	($(#[$m:meta])* $name:ident { $($(#[$fm:meta])* $f:ident: $t:ty),* $(,)? }) => {
		#[derive(Clone, ser_raw::Serialize)]
		$(#[$m])*
		pub struct $name { $($(#[$fm])* pub $f: $t),* }
		impl Val for $name {
			#[allow(unused)]
			fn arb(r: &mut Rng, d: usize) -> Self { Self { $($f: <$t>::arb(r, d)),* } }
			#[allow(unused)]
			fn walk(&self, w: &mut W) { $(self.$f.walk(w);)* }
			#[allow(unused)]
			fn same(&self, o: &Self) -> bool { true $(&& self.$f.same(&o.$f))* }
		}
	};
}
named!(AllPrims { a: u8, b: u16, c: u32, d: u64, e: u128, f: usize, g: i8, h: i16, i: i32, j: i64, k: i128, l: isize,
	m: num::NonZeroU8, n: num::NonZeroU16, o: num::NonZeroU32, p: num::NonZeroU64, q: num::NonZeroU128, r: num::NonZeroUsize,
	s: num::NonZeroI8, t: num::NonZeroI16, u: num::NonZeroI32, v: num::NonZeroI64, w: num::NonZeroI128, x: num::NonZeroIsize,
	y: f32, z: f64, aa: bool, bb: char, cc: () });
named!(VecPrims { a: Vec<u8>, b: Vec<u16>, c: Vec<u32>, d: Vec<u64>, e: Vec<u128>, f: Vec<usize>, g: Vec<i8>, h: Vec<i16>,
	i: Vec<i32>, j: Vec<i64>, k: Vec<i128>, l: Vec<isize>, m: Vec<num::NonZeroU8>, n: Vec<num::NonZeroU16>,
	o: Vec<num::NonZeroU32>, p: Vec<num::NonZeroU64>, q: Vec<num::NonZeroU128>, r: Vec<num::NonZeroUsize>,
	s: Vec<num::NonZeroI8>, t: Vec<num::NonZeroI16>, u: Vec<num::NonZeroI32>, v: Vec<num::NonZeroI64>,
	w: Vec<num::NonZeroI128>, x: Vec<num::NonZeroIsize>, y: Vec<f32>, z: Vec<f64>, aa: Vec<bool>, bb: Vec<char>, cc: Vec<()> });
named!(BoxPrims { a: Box<u8>, b: Box<u16>, c: Box<u32>, d: Box<u64>, e: Box<u128>, f: Box<usize>, g: Box<i8>, h: Box<i16>,
	i: Box<i32>, j: Box<i64>, k: Box<i128>, l: Box<isize>, m: Box<num::NonZeroU8>, n: Box<num::NonZeroU16>,
	o: Box<num::NonZeroU32>, p: Box<num::NonZeroU64>, q: Box<num::NonZeroU128>, r: Box<num::NonZeroUsize>,
	s: Box<num::NonZeroI8>, t: Box<num::NonZeroI16>, u: Box<num::NonZeroI32>, v: Box<num::NonZeroI64>,
	w: Box<num::NonZeroI128>, x: Box<num::NonZeroIsize>, y: Box<f32>, z: Box<f64>, aa: Box<bool>, bb: Box<char>, cc: Box<()> });
named!(SEmpty {});
named!(SNamed { a: u8, v: Vec<u32>, b: u16, s: String, c: Option<Box<u64>>, serializer: Vec<u8>, r#type: Box<u8>, self_: String });
named!(SNest { a: SNamed, v: Vec<SNamed>, b: Box<SNamed>, o: Option<SNamed>, z: SEmpty });
named!(SZst { a: [Al16; 0], v: Vec<u8>, z: (), u: Vec<SEmpty>, w: Box<SEmpty>, x: Vec<[Al16; 0]>, s: String });
named!(#[repr(align(16))] Al16 { v: Vec<u8>, x: u8, w: Box<u16> });
named!(#[repr(align(32))] Al32 { v: Vec<u8>, x: u8, w: Box<Al16> });
named!(#[repr(align(64))] Al64 { v: Vec<Al16>, x: u8, w: Option<Box<Al32>> });
named!(SBig { i: BigInt, x: u8, u: BigUint, v: Vec<BigInt>, w: Vec<BigUint>, o: Option<BigInt>, b: Box<BigUint> });
named!(Fat { pad: [u64; 1000], v: Vec<u8>, s: String, more: [Box<u16>; 5], on: Option<Box<[u16; 3000]>> });
/// An enum with very many variants, those that own something among those that do not
macro_rules! many {
	($([$a:ident $b:ident $c:ident $d:ident])*) => {
		#[derive(Clone, ser_raw::Serialize)]
		pub enum Many { $($a, $b(u16, String), $c { a: Vec<u16>, #[ser_with(Proxy)] f: Foreign }, $d(Box<u8>)),* }
		impl Val for Many {
			fn arb(r: &mut Rng, d: usize) -> Self {
				const N: usize = [$(stringify!($a)),*].len() * 4;
				let k = r.below(N);
				let mut i = 0;
				$(
					if k == i { return Many::$a; }
					if k == i + 1 { return Many::$b(k as u16, String::arb(r, d)); }
					if k == i + 2 { return Many::$c { a: Vec::arb(r, d), f: Foreign::arb(r, d) }; }
					if k == i + 3 { return Many::$d(Box::arb(r, d)); }
					i += 4;
				)*
				unreachable!("{}", i)
			}
			fn walk(&self, w: &mut W) {
				match self {
					$(
						Many::$a => {}
						Many::$b(_, s) => s.walk(w),
						Many::$c { a, f } => {
							a.walk(w);
							f.walk(w)
						}
						Many::$d(b) => b.walk(w),
					)*
				}
			}
			fn same(&self, o: &Self) -> bool {
				match (self, o) {
					$(
						(Many::$a, Many::$a) => true,
						(Many::$b(i, s), Many::$b(j, t)) => i == j && s.same(t),
						(Many::$c { a, f }, Many::$c { a: b, f: g }) => a.same(b) && f.same(g),
						(Many::$d(b), Many::$d(c)) => b.same(c),
					)*
					_ => false,
				}
			}
		}
	};
}
many!([A0 B0 C0 D0] [A1 B1 C1 D1] [A2 B2 C2 D2] [A3 B3 C3 D3] [A4 B4 C4 D4] [A5 B5 C5 D5] [A6 B6 C6 D6] [A7 B7 C7 D7] [A8 B8 C8 D8] [A9 B9 C9 D9] [A10 B10 C10 D10] [A11 B11 C11 D11] [A12 B12 C12 D12] [A13 B13 C13 D13] [A14 B14 C14 D14] [A15 B15 C15 D15] [A16 B16 C16 D16] [A17 B17 C17 D17] [A18 B18 C18 D18] [A19 B19 C19 D19] [A20 B20 C20 D20] [A21 B21 C21 D21] [A22 B22 C22 D22] [A23 B23 C23 D23] [A24 B24 C24 D24] [A25 B25 C25 D25] [A26 B26 C26 D26] [A27 B27 C27 D27] [A28 B28 C28 D28] [A29 B29 C29 D29] [A30 B30 C30 D30] [A31 B31 C31 D31] [A32 B32 C32 D32] [A33 B33 C33 D33] [A34 B34 C34 D34] [A35 B35 C35 D35] [A36 B36 C36 D36] [A37 B37 C37 D37] [A38 B38 C38 D38] [A39 B39 C39 D39] [A40 B40 C40 D40] [A41 B41 C41 D41] [A42 B42 C42 D42] [A43 B43 C43 D43] [A44 B44 C44 D44] [A45 B45 C45 D45] [A46 B46 C46 D46] [A47 B47 C47 D47] [A48 B48 C48 D48] [A49 B49 C49 D49] [A50 B50 C50 D50] [A51 B51 C51 D51] [A52 B52 C52 D52] [A53 B53 C53 D53] [A54 B54 C54 D54] [A55 B55 C55 D55] [A56 B56 C56 D56] [A57 B57 C57 D57] [A58 B58 C58 D58] [A59 B59 C59 D59] [A60 B60 C60 D60] [A61 B61 C61 D61] [A62 B62 C62 D62] [A63 B63 C63 D63] [A64 B64 C64 D64] [A65 B65 C65 D65] [A66 B66 C66 D66] [A67 B67 C67 D67] [A68 B68 C68 D68] [A69 B69 C69 D69]);
named!(#[repr(C)] SC { a: u8, v: Vec<u16>, b: u8, w: Vec<u8>, c: u32, d: Box<u8> });
#[derive(Clone, ser_raw::Serialize)]
pub struct SConst<const N: usize> {
	pub a: [String; N],
	pub b: Vec<[u8; N]>,
	pub c: Box<[Vec<u8>; N]>,
}
impl<const N: usize> Val for SConst<N> {
	fn arb(r: &mut Rng, d: usize) -> Self {
		SConst { a: Val::arb(r, d), b: Val::arb(r, d), c: Val::arb(r, d) }
	}
	fn walk(&self, w: &mut W) {
		self.a.walk(w);
		self.b.walk(w);
		self.c.walk(w)
	}
	fn same(&self, o: &Self) -> bool {
		self.a.same(&o.a) && self.b.same(&o.b) && self.c.same(&o.c)
	}
}
macro_rules! unnamed {
	($name:ident ( $($i:tt $t:ty),* )) => {
		#[derive(Clone, ser_raw::Serialize)]
		pub struct $name($(pub $t),*);
		impl Val for $name {
			fn arb(r: &mut Rng, d: usize) -> Self { Self($(<$t>::arb(r, d)),*) }
			fn walk(&self, w: &mut W) { $(self.$i.walk(w);)* }
			fn same(&self, o: &Self) -> bool { true $(&& self.$i.same(&o.$i))* }
		}
	};
}
unnamed!(STup(0 u8, 1 Vec<u16>, 2 String, 3 Box<Vec<u8>>, 4 u128));
unnamed!(SNew(0 Vec<String>));
#[derive(Clone, ser_raw::Serialize)]
pub struct SUnit;
impl Val for SUnit {
	fn arb(_: &mut Rng, _: usize) -> Self {
		SUnit
	}
	fn walk(&self, _: &mut W) {}
	fn same(&self, _: &Self) -> bool {
		true
	}
}

/// A foreign type and its proxies
#[derive(Clone)]
pub struct Foreign {
	pub list: Vec<u32>,
	pub text: String,
}
impl Val for Foreign {
	fn arb(r: &mut Rng, d: usize) -> Self {
		Foreign { list: Vec::arb(r, d), text: String::arb(r, d) }
	}
	fn walk(&self, w: &mut W) {
		self.list.walk(w);
		self.text.walk(w)
	}
	fn same(&self, o: &Self) -> bool {
		self.list.same(&o.list) && self.text.same(&o.text)
	}
}
pub struct Proxy;
impl<S: Serializer> SerializeWith<Foreign, S> for Proxy {
	fn serialize_data_with(v: &Foreign, s: &mut S) {
		v.list.serialize_data(s);
		v.text.serialize_data(s)
	}
}
pub struct GProxy<T>(std::marker::PhantomData<T>);
impl<T: Serialize<S>, S: Serializer> SerializeWith<Wrap<T>, S> for GProxy<T> {
	fn serialize_data_with(v: &Wrap<T>, s: &mut S) {
		v.0.serialize_data(s)
	}
}
#[derive(Clone)]
pub struct Wrap<T>(pub T);
impl<T: Val> Val for Wrap<T> {
	fn arb(r: &mut Rng, d: usize) -> Self {
		Wrap(T::arb(r, d))
	}
	fn walk(&self, w: &mut W) {
		self.0.walk(w)
	}
	fn same(&self, o: &Self) -> bool {
		self.0.same(&o.0)
	}
}
named!(SWith { a: Vec<u8>, #[ser_with(Proxy)] f: Foreign, b: String, #[ser_with(GProxy<Vec<u16>>)] g: Wrap<Vec<u16>> });
named!(SWith2 { #[ser_with(crate::val::Proxy)] f: Foreign, v: Vec<SWith> });

#[derive(Clone, ser_raw::Serialize)]
pub enum En {
	A,
	B(),
	C {},
	D(u8),
	E(Vec<u8>, u32, String),
	F { x: Box<u16>, serializer: Vec<u16>, r#type: String },
	G(#[ser_with(Proxy)] Foreign, u8, Vec<u64>),
	H { a: u8, #[ser_with(Proxy)] f: Foreign, b: Vec<String> },
	I(Box<En>),
	J(Vec<En>),
	K([String; 2], (Vec<u8>, Box<u8>)),
	L(Option<Vec<En>>, Option<Box<En>>),
}
impl Val for En {
	fn arb(r: &mut Rng, d: usize) -> Self {
		let k = if d == 0 { 8 } else { 12 };
		let e = d.saturating_sub(1);
		match r.below(k) {
			0 => En::A,
			1 => En::B(),
			2 => En::C {},
			3 => En::D(r.next() as u8),
			4 => En::E(Vec::arb(r, e), r.next() as u32, String::arb(r, e)),
			5 => En::F { x: Box::arb(r, e), serializer: Vec::arb(r, e), r#type: String::arb(r, e) },
			6 => En::G(Foreign::arb(r, e), 7, Vec::arb(r, e)),
			7 => En::H { a: 9, f: Foreign::arb(r, e), b: Vec::arb(r, e) },
			8 => En::I(Box::arb(r, d)),
			9 => En::J(Vec::arb(r, d)),
			10 => En::K(Val::arb(r, e), Val::arb(r, e)),
			_ => En::L(Option::arb(r, d), Option::arb(r, d)),
		}
	}
	fn walk(&self, w: &mut W) {
		match self {
			En::A | En::B() | En::C {} | En::D(_) => {}
			En::E(a, _, b) => {
				a.walk(w);
				b.walk(w)
			}
			En::F { x, serializer, r#type } => {
				x.walk(w);
				serializer.walk(w);
				r#type.walk(w)
			}
			En::G(f, _, v) => {
				f.walk(w);
				v.walk(w)
			}
			En::H { f, b, .. } => {
				f.walk(w);
				b.walk(w)
			}
			En::I(b) => b.walk(w),
			En::J(v) => v.walk(w),
			En::K(a, b) => {
				a.walk(w);
				b.walk(w)
			}
			En::L(a, b) => {
				a.walk(w);
				b.walk(w)
			}
		}
	}
	fn same(&self, o: &Self) -> bool {
		match (self, o) {
			(En::A, En::A) | (En::B(), En::B()) | (En::C {}, En::C {}) => true,
			(En::D(a), En::D(b)) => a == b,
			(En::E(a, b, c), En::E(x, y, z)) => a.same(x) && b == y && c == z,
			(En::F { x, serializer, r#type }, En::F { x: a, serializer: b, r#type: c }) => {
				x.same(a) && serializer.same(b) && r#type == c
			}
			(En::G(a, b, c), En::G(x, y, z)) => a.same(x) && b == y && c.same(z),
			(En::H { a, f, b }, En::H { a: x, f: y, b: z }) => a == x && f.same(y) && b.same(z),
			(En::I(a), En::I(b)) => a.same(b),
			(En::J(a), En::J(b)) => a.same(b),
			(En::K(a, b), En::K(x, y)) => a.same(x) && b.same(y),
			(En::L(a, b), En::L(x, y)) => a.same(x) && b.same(y),
			_ => false,
		}
	}
}
#[derive(Clone, ser_raw::Serialize)]
pub enum One {
	Only(Vec<u8>, Box<String>),
}
impl Val for One {
	fn arb(r: &mut Rng, d: usize) -> Self {
		One::Only(Vec::arb(r, d), Box::arb(r, d))
	}
	fn walk(&self, w: &mut W) {
		let One::Only(a, b) = self;
		a.walk(w);
		b.walk(w)
	}
	fn same(&self, o: &Self) -> bool {
		let (One::Only(a, b), One::Only(x, y)) = (self, o);
		a.same(x) && b.same(y)
	}
}

/// Recursive types
#[derive(Clone, ser_raw::Serialize)]
pub struct Node {
	pub v: u8,
	pub next: Option<Box<Node>>,
}
impl Val for Node {
	fn arb(r: &mut Rng, d: usize) -> Self {
		let many = BIG.with(|x| x.get().1) > 400;
		let k = if many { r.below(3000) } else if d > 3 { r.below(120) } else { r.below(6) };
		let mut n = Node { v: 0, next: None };
		for i in 0..k {
			n = Node { v: (i as u8).wrapping_add(1), next: Some(Box::new(n)) };
		}
		n
	}
	fn walk(&self, w: &mut W) {
		self.next.walk(w)
	}
	fn same(&self, o: &Self) -> bool {
		self.v == o.v && self.next.same(&o.next)
	}
}
#[derive(Clone, ser_raw::Serialize)]
pub struct Tree {
	pub name: String,
	pub ch: Vec<Tree>,
	pub x: u8,
	pub data: Vec<u16>,
}
impl Val for Tree {
	fn arb(r: &mut Rng, d: usize) -> Self {
		let name = String::arb(r, d);
		let ch = if d == 0 { Vec::new() } else { Vec::arb(r, d) };
		Tree { name, ch, x: 5, data: Vec::arb(r, d) }
	}
	fn walk(&self, w: &mut W) {
		self.name.walk(w);
		self.ch.walk(w);
		self.data.walk(w)
	}
	fn same(&self, o: &Self) -> bool {
		self.name == o.name && self.ch.same(&o.ch) && self.x == o.x && self.data == o.data
	}
}

/// Serialization of this one panics half way, if armed
#[derive(Clone)]
pub struct Bomb {
	pub a: Vec<u32>,
	pub armed: u8,
	pub b: String,
}
impl Val for Bomb {
	fn arb(r: &mut Rng, d: usize) -> Self {
		Bomb { a: Vec::arb(r, d), armed: r.below(2) as u8, b: String::arb(r, d) }
	}
	fn walk(&self, w: &mut W) {
		self.a.walk(w);
		w.bomb |= self.armed == 1;
		self.b.walk(w)
	}
	fn same(&self, o: &Self) -> bool {
		self.a == o.a && self.armed == o.armed && self.b == o.b
	}
}
impl<S: Serializer> Serialize<S> for Bomb {
	fn serialize_data(&self, s: &mut S) {
		self.a.serialize_data(s);
		if self.armed == 1 {
			std::panic::resume_unwind(Box::new(()));
		}
		self.b.serialize_data(s)
	}
}
/// Something serialized by hand: a list by its length and a thin pointer
pub struct Thin {
	pub ptr: *const u64,
	pub len: usize,
}
impl Clone for Thin {
	fn clone(&self) -> Self {
		let b: Box<[u64]> = self.slice().to_vec().into_boxed_slice();
		Thin { len: b.len(), ptr: Box::leak(b).as_ptr() }
	}
}
impl Drop for Thin {
	fn drop(&mut self) {
		unsafe { drop(Box::from_raw(std::ptr::slice_from_raw_parts_mut(self.ptr as *mut u64, self.len))) }
	}
}
impl Thin {
	pub fn slice(&self) -> &[u64] {
		unsafe { std::slice::from_raw_parts(self.ptr, self.len) }
	}
}
impl Val for Thin {
	fn arb(r: &mut Rng, _: usize) -> Self {
		let b: Box<[u64]> = (0..r.below(5)).map(|_| r.next()).collect();
		Thin { len: b.len(), ptr: Box::leak(b).as_ptr() }
	}
	fn walk(&self, w: &mut W) {
		if self.len == 0 {
			return;
		}
		let po = w.off(&self.ptr as *const _ as usize);
		let child = w.block(self.ptr as usize, 8, 8, self.len);
		w.heads.push(Head {
			blk: w.cur,
			list: false,
			esz: 8,
			eal: 8,
			len: 1,
			cap: 1,
			ptr: self.ptr as usize,
			child,
			po,
			lo: po,
			co: po,
		});
	}
	fn same(&self, o: &Self) -> bool {
		self.slice() == o.slice()
	}
}
impl<S: Serializer> Serialize<S> for Thin {
	fn serialize_data(&self, s: &mut S) {
		if self.len > 0 {
			s.push_slice(self.slice(), S::Addr::from_ref(&self.ptr));
		}
	}
}

/// Everything, for values that the specification generates
#[derive(Clone, ser_raw::Serialize)]
pub enum U {
	Unit,
	N8(u8),
	N64(u64),
	N128(u128),
	Str(String),
	Bytes(Vec<u8>),
	Halves(Vec<u16>),
	Quads(Vec<u128>),
	List(Vec<U>),
	Boxed(Box<U>),
	Maybe(Option<Box<U>>),
	MaybeList(Option<Vec<U>>),
	Pair(Box<(U, U)>),
	Arr(Box<[U; 3]>),
	Strs(Vec<String>),
	Units(Vec<()>),
	UnitBox(Box<()>),
	Big(BigInt),
	BigU(BigUint),
	Named { serializer: Vec<U>, r#type: String },
}
impl Val for U {
	fn arb(r: &mut Rng, d: usize) -> Self {
		let k = if d == 0 { 9 } else { 20 };
		let e = d.saturating_sub(1);
		match r.below(k) {
			0 => U::Unit,
			1 => U::N8(r.next() as u8),
			2 => U::N64(r.next()),
			3 => U::N128(u128::arb(r, 0)),
			4 => U::Str(String::arb(r, d)),
			5 => U::Bytes(Vec::arb(r, d)),
			6 => U::Halves(Vec::arb(r, d)),
			7 => U::Quads(Vec::arb(r, d)),
			8 => U::Units(Vec::arb(r, d)),
			9 => U::List(Vec::arb(r, d)),
			10 => U::Boxed(Box::arb(r, d)),
			11 => U::Maybe(Option::arb(r, e)),
			12 => U::MaybeList(Option::arb(r, d)),
			13 => U::Pair(Val::arb(r, d)),
			14 => U::Arr(Val::arb(r, d)),
			15 => U::Strs(Vec::arb(r, d)),
			16 => U::UnitBox(Box::new(())),
			17 => U::Big(BigInt::arb(r, d)),
			18 => U::BigU(BigUint::arb(r, d)),
			_ => U::Named { serializer: Vec::arb(r, d), r#type: String::arb(r, d) },
		}
	}
	fn walk(&self, w: &mut W) {
		match self {
			U::Unit | U::N8(_) | U::N64(_) | U::N128(_) => {}
			U::Str(x) => x.walk(w),
			U::Bytes(x) => x.walk(w),
			U::Halves(x) => x.walk(w),
			U::Quads(x) => x.walk(w),
			U::List(x) => x.walk(w),
			U::Boxed(x) => x.walk(w),
			U::Maybe(x) => x.walk(w),
			U::MaybeList(x) => x.walk(w),
			U::Pair(x) => x.walk(w),
			U::Arr(x) => x.walk(w),
			U::Strs(x) => x.walk(w),
			U::Units(x) => x.walk(w),
			U::UnitBox(x) => x.walk(w),
			U::Big(x) => x.walk(w),
			U::BigU(x) => x.walk(w),
			U::Named { serializer, r#type } => {
				serializer.walk(w);
				r#type.walk(w)
			}
		}
	}
	fn same(&self, o: &Self) -> bool {
		match (self, o) {
			(U::Unit, U::Unit) => true,
			(U::N8(a), U::N8(b)) => a == b,
			(U::N64(a), U::N64(b)) => a == b,
			(U::N128(a), U::N128(b)) => a == b,
			(U::Str(a), U::Str(b)) => a == b,
			(U::Bytes(a), U::Bytes(b)) => a == b,
			(U::Halves(a), U::Halves(b)) => a == b,
			(U::Quads(a), U::Quads(b)) => a == b,
			(U::List(a), U::List(b)) => a.same(b),
			(U::Boxed(a), U::Boxed(b)) => a.same(b),
			(U::Maybe(a), U::Maybe(b)) => a.same(b),
			(U::MaybeList(a), U::MaybeList(b)) => a.same(b),
			(U::Pair(a), U::Pair(b)) => a.same(b),
			(U::Arr(a), U::Arr(b)) => a.same(b),
			(U::Strs(a), U::Strs(b)) => a.same(b),
			(U::Units(a), U::Units(b)) => a.len() == b.len(),
			(U::UnitBox(_), U::UnitBox(_)) => true,
			(U::Big(a), U::Big(b)) => a == b,
			(U::BigU(a), U::BigU(b)) => a == b,
			(U::Named { serializer: a, r#type: b }, U::Named { serializer: c, r#type: d }) => a.same(c) && b == d,
			_ => false,
		}
	}
}
