//! Types that are stored, and storage configurations.

use ser_raw::storage::{ContiguousStorage, RandomAccessStorage, Storage};

#[derive(Clone, Copy)]
#[repr(C, align(16))]
pub struct A16(pub [u64; 2]);
#[derive(Clone, Copy)]
#[repr(C, align(32))]
pub struct A32(pub [u64; 4]);
#[derive(Clone, Copy)]
#[repr(C, align(64))]
pub struct A64(pub [u64; 8]);
#[derive(Clone, Copy)]
#[repr(C, align(128))]
pub struct A128(pub [u64; 16]);

#[derive(Clone, Copy)]
#[repr(C, align(4096))]
pub struct A4K(pub [u8; 4096]);
#[derive(Clone, Copy)]
#[repr(C, align(131072))]
pub struct A128K(pub [u8; 131072]);

/// (size, align) by type number; must agree with the lists below (checked at start)
pub const TYPES: &[(usize, usize)] = &[
	(1, 1),
	(2, 2),
	(4, 4),
	(8, 8),
	(3, 1),
	(6, 2),
	(12, 4),
	(24, 8),
	(16, 16),
	(48, 16),
	(32, 32),
	(64, 64),
	(128, 128),
	(0, 1),
	(0, 8),
	(17, 1),
	(100, 1),
	(0, 16),
	(0, 64),
	(4096, 1),
	(512, 8),
	(56, 8),
	(4096, 4096),
	(131072, 131072),
];

#[macro_export]
macro_rules! l1 {
	($cb:ident!($($a:tt)*)) => { $crate::$cb!($($a)*, [0 => u8, 4 => [u8; 3], 13 => (), 15 => [u8; 17], 16 => [u8; 100], 19 => [u8; 4096]]); };
}
#[macro_export]
macro_rules! l2 {
	($cb:ident!($($a:tt)*)) => { $crate::$cb!($($a)*, [0 => u8, 4 => [u8; 3], 13 => (), 15 => [u8; 17], 16 => [u8; 100], 19 => [u8; 4096],
		1 => u16, 5 => [u16; 3]]); };
}
#[macro_export]
macro_rules! l8 {
	($cb:ident!($($a:tt)*)) => { $crate::$cb!($($a)*, [0 => u8, 4 => [u8; 3], 13 => (), 15 => [u8; 17], 16 => [u8; 100], 19 => [u8; 4096],
		1 => u16, 5 => [u16; 3], 2 => u32, 6 => [u32; 3], 3 => u64, 7 => [u64; 3], 14 => [u64; 0], 20 => [u64; 64], 21 => [u64; 7]]); };
}
#[macro_export]
macro_rules! l16 {
	($cb:ident!($($a:tt)*)) => { $crate::$cb!($($a)*, [0 => u8, 4 => [u8; 3], 13 => (), 15 => [u8; 17], 16 => [u8; 100], 19 => [u8; 4096],
		1 => u16, 5 => [u16; 3], 2 => u32, 6 => [u32; 3], 3 => u64, 7 => [u64; 3], 14 => [u64; 0], 20 => [u64; 64], 21 => [u64; 7],
		8 => A16, 9 => [A16; 3], 17 => [A16; 0]]); };
}
#[macro_export]
macro_rules! l32 {
	($cb:ident!($($a:tt)*)) => { $crate::$cb!($($a)*, [0 => u8, 4 => [u8; 3], 13 => (), 15 => [u8; 17], 16 => [u8; 100], 19 => [u8; 4096],
		1 => u16, 5 => [u16; 3], 2 => u32, 6 => [u32; 3], 3 => u64, 7 => [u64; 3], 14 => [u64; 0], 20 => [u64; 64], 21 => [u64; 7],
		8 => A16, 9 => [A16; 3], 17 => [A16; 0], 10 => A32]); };
}
#[macro_export]
macro_rules! l64 {
	($cb:ident!($($a:tt)*)) => { $crate::$cb!($($a)*, [0 => u8, 4 => [u8; 3], 13 => (), 15 => [u8; 17], 16 => [u8; 100], 19 => [u8; 4096],
		1 => u16, 5 => [u16; 3], 2 => u32, 6 => [u32; 3], 3 => u64, 7 => [u64; 3], 14 => [u64; 0], 20 => [u64; 64], 21 => [u64; 7],
		8 => A16, 9 => [A16; 3], 17 => [A16; 0], 10 => A32, 11 => A64, 18 => [A64; 0]]); };
}
#[macro_export]
macro_rules! l128 {
	($cb:ident!($($a:tt)*)) => { $crate::$cb!($($a)*, [0 => u8, 4 => [u8; 3], 13 => (), 15 => [u8; 17], 16 => [u8; 100], 19 => [u8; 4096],
		1 => u16, 5 => [u16; 3], 2 => u32, 6 => [u32; 3], 3 => u64, 7 => [u64; 3], 14 => [u64; 0], 20 => [u64; 64], 21 => [u64; 7],
		8 => A16, 9 => [A16; 3], 17 => [A16; 0], 10 => A32, 11 => A64, 18 => [A64; 0], 12 => A128]); };
}

#[macro_export]
macro_rules! lhuge {
	($cb:ident!($($a:tt)*)) => { $crate::$cb!($($a)*, [0 => u8, 4 => [u8; 3], 13 => (), 3 => u64, 9 => [A16; 3], 22 => A4K, 23 => A128K]); };
}

/// Byte `i` of what is pushed under token `tok` (below 0x80, so never one of the allocator's fills)
pub fn pat(tok: u32, i: usize) -> u8 {
	let h = (tok as u64).wrapping_mul(0x9E3779B97F4A7C15).wrapping_add((i as u64).wrapping_mul(0xD6E8FEB86659FD93));
	((h ^ (h >> 29)).wrapping_mul(0xBF58476D1CE4E5B9) >> 57) as u8
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum TOp {
	Push,
	PushS,
	Unchecked,
	Empty,
	EmptyS,
	AlignFor,
	AlignAfter,
	Write,
	WriteS,
	ReadMut,
	Read,
}

/// What a typed operation returned
pub struct TRet {
	pub ret: usize,
	pub rb: bool,
}

/// Aligned bytes with the pattern of `tok`
pub struct Buf {
	p: *mut u8,
	len: usize,
	lay: std::alloc::Layout,
	/// this many zeros come first
	gap: usize,
}
impl Buf {
	/// As `new`, after `gap` more elements of zeros
	pub fn after(gap: usize, sz: usize, al: usize, n: usize, tok: u32) -> Option<Buf> {
		let (zeros, len) = (sz * gap, sz * (gap + n));
		let p = crate::alloc::source(len)? as *mut u8;
		for i in 0..sz * n {
			unsafe { p.add(zeros + i).write(pat(tok, i)) };
		}
		let lay = std::alloc::Layout::from_size_align(len, al).unwrap();
		Some(Buf { p, len, lay, gap: zeros })
	}
	pub fn new(sz: usize, al: usize, n: usize, tok: u32) -> Buf {
		let len = sz * n;
		let lay = std::alloc::Layout::from_size_align(len.max(1), al).unwrap();
		let p = unsafe { std::alloc::alloc(lay) };
		for i in 0..len {
			unsafe { p.add(i).write(pat(tok, i)) };
		}
		Buf { p, len, lay, gap: 0 }
	}
	pub fn slice<T>(&self, n: usize) -> &[T] {
		unsafe { std::slice::from_raw_parts(self.p as *const T, n) }
	}
	pub fn bytes(&self) -> &[u8] {
		unsafe { std::slice::from_raw_parts(self.p, self.len) }
	}
}
impl Drop for Buf {
	fn drop(&mut self) {
		if self.gap > 0 {
			crate::alloc::release_source(self.p as usize)
		} else {
			unsafe { std::alloc::dealloc(self.p, self.lay) }
		}
	}
}

/// Run code under test; Err if it panicked
pub fn run(f: &mut dyn FnMut() -> usize) -> Result<usize, ()> {
	std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| crate::alloc::armed(|| f()))).map_err(|e| drop(e))
}

/// The operations of one element type, as plain calls into the code under test
pub struct Vt<S> {
	pub op: unsafe fn(&mut S, TOp, &Buf, usize, usize) -> usize,
	/// addresses of elements `p` and `q` as seen by `read`
	pub read2: unsafe fn(&S, usize, usize) -> (usize, usize),
}

unsafe fn op_t<T, S: Storage + RandomAccessStorage + ContiguousStorage>(
	s: &mut S,
	op: TOp,
	b: &Buf,
	n: usize,
	p: usize,
) -> usize {
	let sz = std::mem::size_of::<T>();
	match op {
		TOp::Push => s.push::<T>(&b.slice::<T>(1)[0]),
		TOp::PushS => s.push_slice::<T>(b.slice::<T>(n)),
		TOp::Unchecked => {
			s.align_for::<T>();
			s.reserve(n * sz);
			let pos = s.pos();
			s.push_slice_unchecked::<T>(b.slice::<T>(n), n * sz);
			pos
		}
		TOp::Empty => s.push_empty::<T>(),
		TOp::EmptyS => s.push_empty_slice::<T>(n),
		TOp::AlignFor => {
			s.align_for::<T>();
			0
		}
		TOp::AlignAfter => {
			s.align_after::<T>();
			0
		}
		TOp::Write => {
			s.write::<T>(p, &b.slice::<T>(1)[0]);
			p
		}
		TOp::WriteS => {
			s.write_slice::<T>(p, b.slice::<T>(n));
			p
		}
		TOp::ReadMut => {
			let r = s.read_mut::<T>(p);
			std::ptr::copy_nonoverlapping(b.slice::<T>(1).as_ptr(), r as *mut T, 1);
			p
		}
		TOp::Read => (s.read::<T>(p) as *const T as usize).wrapping_sub(s.as_ptr() as usize),
	}
}
unsafe fn read2_t<T, S: RandomAccessStorage>(s: &S, p: usize, q: usize) -> (usize, usize) {
	(s.read::<T>(p) as *const T as usize, s.read::<T>(q) as *const T as usize)
}
pub fn vt<T, S: Storage + RandomAccessStorage + ContiguousStorage>() -> Vt<S> {
	Vt { op: op_t::<T, S>, read2: read2_t::<T, S> }
}

/// Perform a typed storage operation. Returns Err if it panicked.
pub fn tyop<S: Storage + RandomAccessStorage + ContiguousStorage>(
	s: &mut S,
	vt: Vt<S>,
	(sz, al): (usize, usize),
	op: TOp,
	n: usize,
	p: usize,
	tok: u32,
) -> Result<TRet, ()> {
	let n = match op {
		TOp::Push | TOp::Write | TOp::ReadMut => 1,
		_ => n,
	};
	let writes = !matches!(op, TOp::Empty | TOp::EmptyS | TOp::AlignFor | TOp::AlignAfter | TOp::Read);
	let b = Buf::new(sz, al, if writes { n } else { 0 }, tok);
	let ret = run(&mut || unsafe { (vt.op)(s, op, &b, n, p) })?;
	let mut rb = true;
	if writes && n > 0 && sz > 0 {
		// Reading back is part of what is observed: a panic in it counts as not reading back
		rb = run(&mut || {
			if ret.checked_add(n * sz).map_or(true, |e| e > s.capacity()) {
				return 0;
			}
			// After unchecked pushes the last element may lie beyond `pos` only if something is wrong
			let (a, last) = unsafe { (vt.read2)(s, ret, ret + (n - 1) * sz) };
			let b0 = unsafe { s.ptr(ret) } as usize;
			let got = unsafe { std::slice::from_raw_parts(b0 as *const u8, n * sz) };
			(a == b0 && last == b0 + (n - 1) * sz && got == b.bytes()) as usize
		}) == Ok(1);
	}
	Ok(TRet { ret, rb })
}

pub trait StoreCfg {
	/// What does not fit into a page goes to the next one (0: there are no pages)
	const PAGE: usize;
	type S: Storage + RandomAccessStorage + ContiguousStorage;
	const SA: usize;
	const MVA: usize;
	const VA: usize;
	const MAX: usize;
	fn types() -> &'static [usize];
	fn tyop(s: &mut Self::S, ty: usize, op: TOp, n: usize, p: usize, tok: u32) -> Result<TRet, ()>;
}

#[macro_export]
macro_rules! store_cfg {
	($name:ident, $sa:expr, $mva:expr, $va:expr, $max:expr, $l:tt) => {
		$crate::store_cfg_of!($name, AlignedVec, 0, $sa, $mva, $va, $max, $l);
	};
}
#[macro_export]
macro_rules! hop_cfg {
	($name:ident, $sa:expr, $mva:expr, $va:expr, $max:expr, $l:tt) => {
		$crate::store_cfg_of!($name, Hop, $crate::hop::page_of($va), $sa, $mva, $va, $max, $l);
	};
}
#[macro_export]
macro_rules! store_cfg_of {
	($name:ident, $S:ident, $page:expr, $sa:expr, $mva:expr, $va:expr, $max:expr, [$($i:expr => $t:ty),*]) => {
		pub struct $name;
		impl StoreCfg for $name {
			type S = $S<{ $sa }, { $mva }, { $va }, { $max }>;
			const PAGE: usize = $page;
			const SA: usize = $sa;
			const MVA: usize = $mva;
			const VA: usize = $va;
			const MAX: usize = $max;
			fn types() -> &'static [usize] {
				&[$($i),*]
			}
			fn tyop(s: &mut Self::S, ty: usize, op: TOp, n: usize, p: usize, tok: u32) -> Result<TRet, ()> {
				match ty {
					$($i => {
						debug_assert!(TYPES[$i] == (std::mem::size_of::<$t>(), std::mem::align_of::<$t>()));
						$crate::cfg::tyop::<Self::S>(s, $crate::cfg::vt::<$t, Self::S>(), TYPES[$i], op, n, p, tok)
					})*
					_ => panic!("type {} not available", ty),
				}
			}
		}
	};
}
