//! Serializes values of many types with every kind of serializer, looks at the output the way a reader
//! would, and records what it found.
//!
//!   values random OUT SEED FROM COUNT STYLE
//!   values replay OUT FILE SEED       one JSON object per line {cfg, kind, script, vals}

#![feature(alloc_error_hook)]

mod alloc;
mod sers;
#[macro_use]
mod util;
mod val;

use alloc::Policy;
use sers::*;
use ser_raw::storage::{AlignedVec, ContiguousStorage, Storage};
use ser_raw::util::aligned_max_capacity;
use ser_raw::{CompleteSerializer, PtrOffsetSerializer, PureCopySerializer, Serializer};
use std::borrow::Borrow;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::Ordering;
use util::*;
use val::*;

#[global_allocator]
static GLOBAL: alloc::Tracker = alloc::Tracker;

type Cfg = (usize, usize, usize, usize);
const V0: Cfg = (16, 16, 8, aligned_max_capacity(16));
const V1: Cfg = (64, 32, 1, 1 << 20);
const V2: Cfg = (32, 16, 16, 4096);
const V3: Cfg = (128, 64, 4, aligned_max_capacity(128));
const VCFG: [Cfg; 4] = [V0, V1, V2, V3];
type S0 = AlignedVec<{ V0.0 }, { V0.1 }, { V0.2 }, { V0.3 }>;
type S1 = AlignedVec<{ V1.0 }, { V1.1 }, { V1.2 }, { V1.3 }>;
type S2 = AlignedVec<{ V2.0 }, { V2.1 }, { V2.2 }, { V2.3 }>;
type S3 = AlignedVec<{ V3.0 }, { V3.1 }, { V3.2 }, { V3.3 }>;

/// A value whose type is known by number only
trait Dyn {
	fn addr(&self) -> usize;
	fn look(&self) -> W;
	unsafe fn same_at(&self, addr: usize) -> bool;
	fn size(&self) -> usize;
}
impl<T: Val> Dyn for Box<T> {
	fn addr(&self) -> usize {
		&**self as *const T as usize
	}
	fn look(&self) -> W {
		W::root(&**self)
	}
	unsafe fn same_at(&self, addr: usize) -> bool {
		(**self).same(&*(addr as *const T))
	}
	fn size(&self) -> usize {
		std::mem::size_of::<T>()
	}
}
/// The value and a copy of it that stays
fn two<T: Val + 'static>(v: T) -> (Box<dyn Dyn>, Box<dyn Dyn>) {
	let c = v.clone();
	(Box::new(Box::new(v)), Box::new(Box::new(c)))
}

trait Kind: Serializer
where Self::Storage: ContiguousStorage
{
	const KIND: &'static str;
	fn ser(&mut self, ty: usize, addr: usize) -> usize;
	fn ser_last(self, ty: usize, addr: usize) -> (usize, Self::BorrowedStorage);
}

macro_rules! zoo {
	($cb:ident!($($a:tt)*)) => { $cb!($($a)* [
		0 => U,
		1 => AllPrims,
		2 => VecPrims,
		3 => BoxPrims,
		4 => Vec<String>,
		5 => Vec<Vec<Vec<u16>>>,
		6 => Box<Box<Box<u8>>>,
		7 => Option<Box<Vec<String>>>,
		8 => Vec<Option<String>>,
		9 => Vec<Option<Box<u128>>>,
		10 => (String,),
		11 => (Vec<u8>, String),
		12 => (Vec<u8>, u8, String),
		13 => (String, Box<u8>, Vec<u16>, String),
		14 => (String, Box<u8>, Vec<u16>, String, Box<u8>),
		15 => (String, Box<u8>, Vec<u16>, String, Box<u8>, Vec<u8>),
		16 => (String, Box<u8>, Vec<u16>, String, Box<u8>, Vec<u8>, Box<u64>),
		17 => (String, Box<u8>, Vec<u16>, String, Box<u8>, Vec<u8>, Box<u64>, Vec<u8>),
		18 => (String, Box<u8>, Vec<u16>, String, Box<u8>, Vec<u8>, Box<u64>, Vec<u8>, String),
		19 => (String, Box<u8>, Vec<u16>, String, Box<u8>, Vec<u8>, Box<u64>, Vec<u8>, String, Box<u8>),
		20 => (String, Box<u8>, Vec<u16>, String, Box<u8>, Vec<u8>, Box<u64>, Vec<u8>, String, Box<u8>, Vec<u32>),
		21 => (String, Box<u8>, Vec<u16>, String, Box<u8>, Vec<u8>, Box<u64>, Vec<u8>, String, Box<u8>, Vec<u32>, Box<u16>),
		22 => T13,
		23 => T14,
		24 => T15,
		25 => T16,
		26 => T17,
		27 => T18,
		28 => T19,
		29 => T20,
		30 => T21,
		31 => T22,
		32 => T23,
		33 => T24,
		34 => T25,
		35 => T26,
		36 => T27,
		37 => T28,
		38 => T29,
		39 => T30,
		40 => T31,
		41 => T32,
		42 => [String; 1],
		43 => [Vec<u8>; 2],
		44 => [Box<u16>; 3],
		45 => [String; 17],
		46 => [Vec<u8>; 33],
		47 => [[Vec<u8>; 2]; 3],
		48 => Vec<[String; 2]>,
		49 => [u8; 100],
		50 => SNamed,
		51 => SNest,
		52 => SZst,
		53 => Al16,
		54 => SBig,
		55 => SC,
		56 => SConst<3>,
		57 => STup,
		58 => SNew,
		59 => SWith,
		60 => SWith2,
		61 => En,
		62 => One,
		63 => Node,
		64 => Tree,
		65 => Bomb,
		66 => Thin,
		67 => Vec<Thin>,
		68 => Vec<BigInt_>,
		69 => Box<BigUint_>,
		70 => Vec<[u8; 1000]>,
		71 => Box<[u64; 64]>,
		72 => Vec<Al16>,
		73 => Vec<En>,
		74 => u8,
		75 => Vec<u8>,
		76 => String,
		77 => Vec<(u8, u32, Vec<u8>)>,
		78 => Vec<()>,
		79 => Vec<Bomb>,
		80 => Option<Vec<Node>>,
		81 => [Vec<u8>; 0],
		82 => SUnit,
		83 => Box<SUnit>,
		84 => Vec<[u8; 3]>,
		85 => (u8, Vec<[u32; 3]>, String),
		86 => Vec<Vec<[u16; 5]>>,
		87 => Box<[u8; 5000]>,
		88 => Vec<[u8; 70_000]>,
		89 => Box<Fat>,
		90 => [String; 300],
		91 => Many,
		92 => Vec<Many>,
		93 => Option<Box<[[Vec<u8>; 40]; 8]>>,
		94 => Vec<Fat>
	]); };
}
type BigInt_ = num_bigint::BigInt;
type BigUint_ = num_bigint::BigUint;
const NTYPE: usize = 95;

macro_rules! make_fn {
	([$($i:expr => $t:ty),*]) => {
		fn make(ty: usize, r: &mut Rng, d: usize) -> (Box<dyn Dyn>, Box<dyn Dyn>) {
			match ty {
				$($i => two(<$t>::arb(r, d)),)*
				100 => two(Al32::arb(r, d)),
				101 => two(Vec::<Al32>::arb(r, d)),
				102 => two(Al64::arb(r, d)),
				103 => two(Vec::<Al64>::arb(r, d)),
				_ => die("no such type"),
			}
		}
	};
}
zoo!(make_fn!());

fn die(m: &str) -> ! {
	eprintln!("harness error: {}", m);
	std::process::exit(3)
}

macro_rules! kind_impl {
	([$($l:lifetime)?] [$K:ty] $kind:expr, [$($xi:expr => $xt:ty),*] [$($i:expr => $t:ty),*]) => {
		impl$(<$l>)? Kind for $K {
			const KIND: &'static str = $kind;
			fn ser(&mut self, ty: usize, addr: usize) -> usize {
				unsafe {
					match ty {
						$($i => self.serialize_value(&*(addr as *const $t)),)*
						$($xi => self.serialize_value(&*(addr as *const $xt)),)*
						_ => die("no such type here"),
					}
				}
			}
			fn ser_last(self, ty: usize, addr: usize) -> (usize, Self::BorrowedStorage) {
				unsafe {
					match ty {
						0 => self.serialize(&*(addr as *const U)),
						4 => self.serialize(&*(addr as *const Vec<String>)),
						51 => self.serialize(&*(addr as *const SNest)),
						61 => self.serialize(&*(addr as *const En)),
						_ => die("no such type here"),
					}
				}
			}
		}
	};
}
const LAST: [usize; 4] = [0, 4, 51, 61];

/// What was serialized, and what is known of it
struct Rec {
	ty: usize,
	ok: bool,
	pos0: usize,
	pos1: usize,
	ret: usize,
	w: W,
	copy: Box<dyn Dyn>,
	/// input, unless it was dropped at once
	keep: Option<Box<dyn Dyn>>,
	bomb: bool,
	/// what the specification made it from
	tree: Option<J>,
}

enum Ev {
	Open { kind: &'static str, pos: usize },
	Value(Rec),
	Bytes { pos0: usize, pos1: usize, n: usize, ok: bool },
	Store { op: &'static str, pos0: usize, pos1: usize, n: usize, ok: bool },
	Fin { pos: usize, kept: bool, side: usize, errs: u32 },
	Done(J),
}

#[derive(Clone)]
enum Op {
	/// type, seed or tree, depth
	Value(usize, u64, usize, bool),
	Tree(J),
	Bytes(usize),
	Reserve(usize),
	Last(usize, u64, usize),
}

struct Ctx {
	evs: Vec<Ev>,
	bias: usize,
	/// bytes that sessions before this one left: position and contents
	old: Vec<(usize, Vec<u8>)>,
}

fn make_tree(j: &J) -> (Box<dyn Dyn>, Box<dyn Dyn>) {
	two(tree(j))
}
/// [k, n, x, ch] of the specification: kind, length or tag, spare capacity, children
fn tree(j: &J) -> U {
	let n = j.get("n").us();
	let x = j.get("x").us();
	let ch = || j.get("ch").arr().iter().map(tree).collect::<Vec<U>>();
	fn cap<T>(mut v: Vec<T>, x: usize) -> Vec<T> {
		let n = v.len();
		v.shrink_to_fit();
		if x > 0 {
			v.reserve_exact(n + x - v.len());
		}
		v
	}
	fn text(n: usize, x: usize) -> String {
		unsafe { String::from_utf8_unchecked(cap((0..n).map(|i| b'a' + i as u8 % 26).collect(), x)) }
	}
	match j.get("k").str() {
		"leaf" => U::N8(n as u8),
		"str" => U::Str(text(n, x)),
		"bytes" => U::Bytes(cap((0..n).map(|i| i as u8).collect(), x)),
		"halves" => U::Halves(cap((0..n).map(|i| i as u16 * 257).collect(), x)),
		"quads" => U::Quads(cap((0..n).map(|i| (i as u128) << 64 | 5).collect(), x)),
		"list" => U::List(cap(ch(), x)),
		"box" => U::Boxed(Box::new(ch().pop().unwrap_or(U::Unit))),
		"some" => U::Maybe(Some(Box::new(ch().pop().unwrap_or(U::Unit)))),
		"none" => U::Maybe(None),
		"pair" => {
			let mut c = ch();
			let b = c.pop().unwrap();
			let a = c.pop().unwrap();
			U::Pair(Box::new((a, b)))
		}
		"units" => U::Units(vec![(); n]),
		"big" => U::Big(num_bigint::BigInt::from_biguint(
			num_bigint::Sign::Minus,
			num_bigint::BigUint::new((0..2 * n as u32).map(|i| i + 7).collect()),
		)),
		"named" => U::Named { serializer: cap(ch(), x), r#type: text(n, x) },
		k => die(&format!("no tree {}", k)),
	}
}

fn value<K: Kind>(
	s: &mut K, c: &mut Ctx, (ty, drop_now): (usize, bool), (v, copy): (Box<dyn Dyn>, Box<dyn Dyn>), tree: Option<J>,
) where K::Storage: ContiguousStorage {
	let w = v.look();
	let bomb = w.bomb;
	let pos0 = s.pos();
	let addr = v.addr();
	let r = catch_unwind(AssertUnwindSafe(|| alloc::armed(|| s.ser(ty, addr))));
	let ok = r.is_ok();
	let ret = *r.as_ref().unwrap_or(&0);
	drop(r);
	let pos1 = s.pos();
	// What the output says must not depend on the input being alive
	let keep = if drop_now {
		alloc::POISON.store(true, Ordering::Relaxed);
		drop(v);
		alloc::POISON.store(false, Ordering::Relaxed);
		None
	} else {
		Some(v)
	};
	c.evs.push(Ev::Value(Rec { ty, ok, pos0, pos1, ret, w, copy, keep, bomb, tree }));
}

fn session<K: Kind>(mut s: K, c: &mut Ctx, ops: &[Op]) -> K::BorrowedStorage
where K::Storage: ContiguousStorage {
	let first = c.evs.len();
	c.evs.push(Ev::Open { kind: K::KIND, pos: s.pos() });
	for o in ops {
		match o {
			Op::Value(ty, seed, d, drop_now) => {
				let mut r = Rng::new(*seed);
				value(&mut s, c, (*ty, *drop_now), make(*ty, &mut r, *d), None)
			}
			Op::Tree(j) => value(&mut s, c, (0, true), make_tree(j), Some(j.clone())),
			Op::Bytes(n) => {
				let b: Vec<u8> = (0..*n).map(|i| i as u8 ^ 0x5c).collect();
				let pos0 = s.pos();
				let ok = catch_unwind(AssertUnwindSafe(|| alloc::armed(|| s.push_raw_bytes(&b)))).map_err(drop).is_ok();
				let pos1 = s.pos();
				c.evs.push(Ev::Bytes { pos0, pos1, n: *n, ok });
				if ok {
					let got = unsafe { std::slice::from_raw_parts((s.storage().as_ptr() as usize + pos0) as *const u8, *n) };
					c.old.push((pos0, if got == &b[..] { b } else { vec![1, 2, 3] }));
				}
			}
			Op::Reserve(n) => {
				let pos0 = s.pos();
				let r = catch_unwind(AssertUnwindSafe(|| alloc::armed(|| s.storage_mut().reserve(*n))));
				let ok = r.map_err(drop).is_ok();
				let pos1 = s.pos();
				c.evs.push(Ev::Store { op: "reserve", pos0, pos1, n: *n, ok });
			}
			Op::Last(ty, seed, d) => {
				let mut r = Rng::new(*seed);
				let (v, copy) = make(*ty, &mut r, *d);
				let w = v.look();
				let pos0 = s.pos();
				let addr = v.addr();
				let (ret, st) = alloc::armed(|| s.ser_last(*ty, addr));
				let stb: &K::Storage = st.borrow();
				let pos1 = stb.pos();
				alloc::POISON.store(true, Ordering::Relaxed);
				drop(v);
				alloc::POISON.store(false, Ordering::Relaxed);
				c.evs.push(Ev::Value(Rec { ty: *ty, ok: true, pos0, pos1, ret, w, copy, keep: None, bomb: false, tree: None }));
				return fin::<K>(c, st, first);
			}
		}
	}
	fin::<K>(c, alloc::armed(|| s.finalize()), first)
}

fn fin<K: Kind>(c: &mut Ctx, st: K::BorrowedStorage, first: usize) -> K::BorrowedStorage
where K::Storage: ContiguousStorage {
	{
		let s: &K::Storage = st.borrow();
		let (addr, cap, pos) = (s.as_ptr() as usize, s.capacity(), s.pos());
		let side = alloc::side_live();
		let errs = alloc::audit(addr).errs;
		let kept = kept(c, addr, cap);
		for i in first..c.evs.len() {
			if let Ev::Value(r) = &c.evs[i] {
				let j = judge(r, K::KIND, addr, cap, pos, c.bias);
				// (bytes stay as they are now, whatever happens to the storage)
				if r.ok && r.pos0 <= r.pos1 && r.pos1 <= cap {
					let b = unsafe { std::slice::from_raw_parts((addr + r.pos0) as *const u8, r.pos1 - r.pos0).to_vec() };
					let p = r.pos0;
					c.old.push((p, b));
				}
				c.evs[i] = Ev::Done(j);
			}
		}
		c.evs.push(Ev::Fin { pos, kept, side, errs });
	}
	st
}

fn kept(c: &Ctx, addr: usize, cap: usize) -> bool {
	c.old.iter().all(|(p, b)| {
		p + b.len() <= cap && unsafe { std::slice::from_raw_parts((addr + p) as *const u8, b.len()) == &b[..] }
	})
}

/// Look at the copy of a value in a finished output
fn judge(r: &Rec, kind: &str, addr: usize, cap: usize, pos: usize, bias: usize) -> J {
	let _ = &r.keep;
	let w = &r.w;
	let nb = w.blks.len();
	let rel = |p: usize| if p >= bias && p - bias < INF { (p - bias) as i64 } else { -1 };
	let va = VA.with(|v| v.get());
	let base_j = |at: Vec<i64>, heads: Vec<Vec<i64>>, diff: Vec<Vec<i64>>, inb: bool, eq: bool| {
		let o = obj! {
			api: "value", kind: kind, ty: r.ty, ok: r.ok, bomb: r.bomb, pos0: rel(r.pos0), pos1: rel(r.pos1), ret: rel(r.ret),
			blks: w.blks.iter().map(|b| vec![b.sz, b.al, b.n]).collect::<Vec<_>>(), at: at, heads: heads, diff: diff,
			inb: inb, eq: eq,
		};
		match (o, &r.tree) {
			(J::Obj(mut f), Some(t)) => {
				f.push(("tree".into(), t.clone()));
				let sizes = obj! {
					usz: std::mem::size_of::<U>(), ual: std::mem::align_of::<U>(), qal: std::mem::align_of::<u128>(),
				};
				f.push(("sizes".into(), sizes));
				J::Obj(f)
			}
			(o, _) => o,
		}
	};
	let fits = |p: usize, n: usize| p.checked_add(n).map_or(false, |e| e <= cap && e <= pos);
	let zst = w.blks[0].sz == 0;
	if !r.ok || (!zst && !fits(r.ret, w.blks[0].sz)) {
		return base_j(vec![-1; nb], vec![], vec![], false, false);
	}
	let writer = kind == "offset" || kind == "complete";
	// Where each allocation's copy is: found by its pointer, or by walking in order
	let mut at: Vec<Option<usize>> = vec![None; nb];
	at[0] = Some(if zst { r.pos0 } else { r.ret });
	let rd = |p: usize| unsafe { ((addr + p) as *const usize).read_unaligned() };
	if writer {
		for h in &w.heads {
			if h.child > 0 {
				if let Some(p) = at[h.blk] {
					let v = rd(p + h.po).wrapping_sub(if kind == "complete" { addr } else { 0 });
					let b = &w.blks[h.child];
					if fits(v, b.sz * b.n) {
						at[h.child] = Some(v);
					}
				}
			}
		}
	} else {
		let mut p = r.ret + w.blks[0].sz;
		p = (p + va - 1) / va * va;
		if zst {
			p = r.pos0;
		}
		for i in 1..nb {
			let b = &w.blks[i];
			if b.al > va {
				p = (p + b.al - 1) / b.al * b.al;
			}
			if fits(p, b.sz * b.n) {
				at[i] = Some(p);
			}
			p += b.sz * b.n;
			p = (p + va - 1) / va * va;
		}
	}
	let all = at.iter().all(|a| a.is_some());
	// Memory addresses are aligned
	let inb = at.iter().zip(&w.blks).all(|(a, b)| a.map_or(false, |p| b.sz == 0 || (addr + p) % b.al == 0));
	// Which words differ from the input's
	let mut diff = vec![];
	for (i, b) in w.blks.iter().enumerate() {
		if let Some(p) = at[i] {
			let got = unsafe { std::slice::from_raw_parts((addr + p) as *const u8, b.snap.len()) };
			let mut k = 0;
			while k < got.len() {
				let e = (k + 8).min(got.len());
				if got[k..e] != b.snap[k..e] {
					diff.push(vec![i as i64 + 1, k as i64]);
					if diff.len() > 30000 {
						break;
					}
				}
				k = e;
			}
		}
	}
	let mut heads = vec![];
	for h in &w.heads {
		if let Some(p) = at[h.blk] {
			let (op, ol, oc) = (rd(p + h.po), rd(p + h.lo), rd(p + h.co));
			let t = op.wrapping_sub(if kind == "complete" { addr } else { 0 });
			let target = if t < cap { rel(t) } else { -1 };
			let raw = (op != 0 && op % h.eal == 0) as i64;
			let n = |x: usize| x.min(INF) as i64;
			heads.push(vec![
				h.blk as i64 + 1,
				h.list as i64,
				h.esz as i64,
				h.eal as i64,
				n(h.len),
				n(h.cap),
				if h.child == 0 { 0 } else { h.child as i64 + 1 },
				h.po as i64,
				h.lo as i64,
				h.co as i64,
				target,
				raw,
				n(ol),
				n(oc),
				(op == h.ptr) as i64,
			]);
		}
	}
	// The value as a reader gets it
	let mut eq = false;
	if all && inb && heads.iter().all(|h| h[1] == 0 || h[4] == h[12]) {
		if kind == "complete" {
			eq = unsafe { r.copy.same_at(addr + at[0].unwrap()) };
		} else {
			// Bytes alone, moved elsewhere
			let lo = r.pos0 & !255;
			let hi = r.pos1.min(pos).min(cap);
			let n = hi.saturating_sub(lo);
			let lay = std::alloc::Layout::from_size_align(n + 256, 256).unwrap();
			let m = unsafe { std::alloc::alloc(lay) } as usize;
			unsafe { std::ptr::copy_nonoverlapping((addr + lo) as *const u8, m as *mut u8, n) };
			for h in &w.heads {
				if h.child > 0 {
					let p = m + at[h.blk].unwrap() - lo + h.po;
					let t = if kind == "offset" {
						// what the output says, not what was found before
						unsafe { (p as *const usize).read_unaligned() }
					} else {
						at[h.child].unwrap()
					};
					unsafe { (p as *mut usize).write_unaligned(m.wrapping_add(t).wrapping_sub(lo)) };
				}
			}
			eq = unsafe { r.copy.same_at(m + at[0].unwrap() - lo) };
			unsafe { std::alloc::dealloc(m as *mut u8, lay) };
		}
	}
	let at: Vec<i64> = at.iter().map(|a| a.map_or(-1, rel)).collect();
	base_j(at, heads, diff, inb, eq)
}

thread_local! {
	static VA: std::cell::Cell<usize> = std::cell::Cell::new(8);
}

/// Storage operations between sessions
fn store<S: Storage + ContiguousStorage>(st: &mut S, c: &mut Ctx, op: &'static str, n: usize) {
	let pos0 = st.pos();
	let r = catch_unwind(AssertUnwindSafe(|| {
		alloc::armed(|| match op {
			"clear" => st.clear(),
			"shrink" => st.shrink_to_fit(),
			"reserve" => st.reserve(n),
			"wide" => {
				st.push_empty_slice::<u8>(n);
			}
			_ => {
				st.push_bytes(&vec![0x33; n]);
			}
		})
	}));
	let ok = r.map_err(drop).is_ok();
	if op == "clear" {
		c.old.clear();
	}
	if op == "wide" {
		c.bias = st.pos();
		c.evs.push(Ev::Store { op, pos0: c.bias, pos1: c.bias, n: 0, ok });
		return;
	}
	if op == "bytes" && ok {
		c.old.push((pos0, vec![0x33; n]));
	}
	c.evs.push(Ev::Store { op, pos0, pos1: st.pos(), n, ok });
}

#[derive(Clone)]
enum Step {
	Store(&'static str, usize),
	/// kind, how (0 on what there is, 1 own new, else capacity), operations
	Session(usize, usize, Vec<Op>),
}

macro_rules! kinds {
	($S:ident, $P:ident, $run:ident, $names:ident, $x:tt, [$($k:expr => $kind:expr, $owned:ident, $Ser:ident;)*]) => {
		const $names: &[usize] = &[$($k),*];
		$(kinds!(@impl $owned $Ser $S $P $kind, $x);)*
		fn $run(c: &mut Ctx, steps: &[Step]) {
			let mut st: Option<$S> = None;
			for step in steps {
				match step {
					Step::Store(op, n) => store(st.get_or_insert_with(|| alloc::armed(|| $S::new())), c, op, *n),
					Step::Session(kind, how, ops) => {
						if st.is_none() || *how > 0 {
							alloc::armed(|| st = None);
							c.old.clear();
							c.bias = 0;
							let n = alloc::armed(|| if *how > 1 { $S::with_capacity(*how) } else { $S::new() });
							st = Some(n);
							c.evs.push(Ev::Store { op: "new", pos0: 0, pos1: st.as_ref().unwrap().pos(), n: *how, ok: true });
						}
						match *kind {
							$($k => kinds!(@open $owned $Ser $S $P st c ops how),)*
							_ => die("no such kind"),
						}
					}
				}
			}
			alloc::armed(|| st = None);
		}
	};
	(@open own $Ser:ident $S:ident $P:ident $st:ident $c:ident $ops:ident $how:ident) => {{
		type K = $Ser<{ $P.0 }, { $P.1 }, { $P.2 }, { $P.3 }, $S>;
		// (a serializer's own new storage is as good as one made before)
		let k = alloc::armed(|| match *$how {
			0 => K::from_storage($st.take().unwrap()),
			1 => { $st = None; K::new() }
			n => { $st = None; K::with_capacity(n) }
		});
		$st = Some(session(k, $c, $ops));
	}};
	(@open bor $Ser:ident $S:ident $P:ident $st:ident $c:ident $ops:ident $how:ident) => {{
		let s: &mut $S = $st.as_mut().unwrap();
		let k = alloc::armed(|| $Ser::<{ $P.0 }, { $P.1 }, { $P.2 }, { $P.3 }, &mut $S>::from_storage(s));
		session(k, $c, $ops);
	}};
	(@impl own $Ser:ident $S:ident $P:ident $kind:expr, $x:tt) => {
		zoo!(kind_impl!([] [$Ser<{ $P.0 }, { $P.1 }, { $P.2 }, { $P.3 }, $S>] $kind, $x));
	};
	(@impl bor $Ser:ident $S:ident $P:ident $kind:expr, $x:tt) => {
		zoo!(kind_impl!(['a] [$Ser<{ $P.0 }, { $P.1 }, { $P.2 }, { $P.3 }, &'a mut $S>] $kind, $x));
	};
}

kinds!(S0, V0, run0, K0, [], [
	0 => "pure", own, PureCopySerializer;
	1 => "pure", bor, PureCopySerializer;
	2 => "offset", own, PtrOffsetSerializer;
	3 => "offset", bor, PtrOffsetSerializer;
	4 => "complete", own, CompleteSerializer;
	5 => "complete", bor, CompleteSerializer;
	6 => "pure", own, DPure;
	7 => "track", own, DTrack;
	8 => "offset", own, DOffset;
	9 => "complete", own, DComplete;
]);
kinds!(S1, V1, run1, K1, [100 => Al32, 101 => Vec<Al32>], [
	0 => "pure", own, PureCopySerializer;
	3 => "offset", bor, PtrOffsetSerializer;
	4 => "complete", own, CompleteSerializer;
	7 => "track", bor, DTrack;
]);
kinds!(S2, V2, run2, K2, [], [
	1 => "pure", bor, PureCopySerializer;
	2 => "offset", own, PtrOffsetSerializer;
	4 => "complete", own, CompleteSerializer;
	9 => "complete", bor, DComplete;
]);
kinds!(S3, V3, run3, K3, [100 => Al32, 101 => Vec<Al32>, 102 => Al64, 103 => Vec<Al64>], [
	0 => "pure", own, PureCopySerializer;
	2 => "offset", own, PtrOffsetSerializer;
	5 => "complete", bor, CompleteSerializer;
]);
const KINDS: [&[usize]; 4] = [K0, K1, K2, K3];

fn execute(id: usize, vc: usize, steps: &[Step], how: &str) -> String {
	VA.with(|v| v.set(VCFG[vc].2));
	let mut c = Ctx { evs: vec![], bias: 0, old: vec![] };
	match vc {
		0 => run0(&mut c, steps),
		1 => run1(&mut c, steps),
		2 => run2(&mut c, steps),
		_ => run3(&mut c, steps),
	}
	let (sa, mva, va, max) = VCFG[vc];
	let mut bias = 0;
	let mut ev = vec![];
	for e in c.evs {
		let rel = |p: usize| if p >= bias && p - bias < INF { (p - bias) as i64 } else { -1 };
		ev.push(match e {
			Ev::Open { kind, pos } => obj! { api: "open", kind: kind, pos0: rel(pos) },
			Ev::Bytes { pos0, pos1, n, ok } => obj! { api: "bytes", pos0: rel(pos0), pos1: rel(pos1), n: n, ok: ok },
			Ev::Store { op, pos0, pos1, n, ok } => {
				if op == "wide" {
					bias = pos0;
					obj! { api: "wide", pos0: 0usize, pos1: 0usize, n: 0usize, ok: ok && pos0 >= 1 << 31 }
				} else {
					if op == "new" {
						bias = 0;
						obj! { api: op, pos0: 0usize, pos1: pos1, n: n, ok: ok }
					} else {
						obj! { api: op, pos0: rel(pos0), pos1: if pos1 < bias { pos1 as i64 } else { rel(pos1) }, n: n, ok: ok }
					}
				}
			}
			Ev::Fin { pos, kept, side, errs } => obj! { api: "fin", pos1: rel(pos), kept: kept, side: side, errs: errs },
			Ev::Done(j) => j,
			Ev::Value(_) => die("value not looked at"),
		});
	}
	obj! {
		id: id, how: how, moves: alloc::moves(),
		cfg: obj! { sa: sa, mva: mva, va: va, max: clamp_max(max), page: 0usize },
		ev: ev,
	}
	.to_string()
}

fn replay(id: usize, j: &J, seed: u64) -> String {
	let vc = j.get("cfg").us();
	alloc::begin(VCFG[vc].0, Policy::Random, seed);
	let script: Vec<u16> = j.get("script").arr().iter().map(|x| x.us() as u16).collect();
	if !script.is_empty() {
		alloc::set_script(&script);
	}
	let mut kinds: Vec<usize> = KINDS[vc].to_vec();
	if !j.get("kinds").is_null() {
		let want: Vec<usize> = j.get("kinds").arr().iter().map(|x| x.us()).collect();
		kinds.retain(|k| want.contains(k));
	}
	let mut r = Rng::new(seed);
	let kind = *r.pick(&kinds);
	let ops: Vec<Op> = j.get("vals").arr().iter().map(|t| Op::Tree(t.clone())).collect();
	execute(id, vc, &[Step::Session(kind, 1, ops)], "replay")
}

/// Styles: 0 anything, 1 every type in turn, 2 failing, 3 beyond 32 bits, 4 many sessions, 5 long lists, 6 tens of thousands of pointers
fn random(id: usize, seed: u64, style: usize) -> String {
	let mut r = Rng::new(seed);
	let policy = match r.below(6) {
		_ if style == 6 => Policy::Always,
		0 => Policy::InPlace,
		1 => Policy::Always,
		2 => Policy::PingPong,
		_ => Policy::Random,
	};
	let vc = match style {
		2 => 2,
		3 | 6 => 0,
		_ => [0, 0, 0, 1, 2, 3][r.below(6)],
	};
	alloc::begin(VCFG[vc].0, policy, r.next());
	let mut steps = vec![];
	// (now and then thousands of pointers)
	let many = if style == 5 && r.chance(1, 20) { 9000 } else { 400 };
	BIG.with(|b| b.set(if style == 5 { (1 << 21, many) } else { (0, 0) }));
	if style == 3 {
		let (n, off): (usize, usize) = [(1, 32), (1, 33), (5, 30), (1, 34), (3, 32), (3, 31)][r.below(6)];
		let less = [0, 1, 1, 2, 8][r.below(5)];
		steps.push(Step::Store("wide", (n << off) - less * 256));
	}
	if style == 6 {
		// One list with very many pointers, in room made for all of it, or not; then a move
		BIG.with(|b| b.set((1 << 22, r.range(84_000, 96_000))));
		if r.chance(3, 4) {
			steps.push(Step::Store("reserve", 1 << 23));
		}
		let mut ops = vec![Op::Value(*r.pick(&[4, 4, 4, 8]), r.next(), 1, true), Op::Reserve(1 << 24)];
		if r.chance(1, 2) {
			ops.push(Op::Bytes(8));
		}
		steps.push(Step::Session(*r.pick(&[4, 5, 9, 4, 5, 9, 3, 7]), 0, ops));
		return execute(id, vc, &steps, "random");
	}
	let sessions = match style {
		4 => r.range(2, 4),
		_ => 1 + r.chance(1, 4) as usize,
	};
	for k in 0..sessions {
		if style != 3 && (k > 0 || r.chance(1, 6)) {
			for _ in 0..r.below(3) {
				let op = *r.pick(&["clear", "shrink", "reserve", "bytes"]);
				let n = r.below(200);
				steps.push(Step::Store(op, n));
			}
		}
		let kind = *r.pick(KINDS[vc]);
		let how = if style == 3 || k > 0 { 0 } else { [0, 0, 1, 16, 1000, 4096][r.below(6)] };
		let mut ops = vec![];
		for i in 0..r.range(1, 4) {
			if r.chance(1, 4) {
				ops.push(Op::Bytes(r.below(40)));
			}
			if r.chance(1, 8) {
				ops.push(Op::Reserve(r.below(2000)));
			}
			let ty = if style == 1 && i == 0 {
				id % NTYPE
			} else if vc == 1 && r.chance(1, 6) {
				r.range(100, 101)
			} else if vc == 3 && r.chance(1, 4) {
				r.range(100, 103)
			} else if style == 5 && r.chance(1, 3) {
				*r.pick(if many > 400 { &[3, 4, 8, 63, 67, 73, 77][..] } else { &[2, 4, 5, 8, 54, 59, 68, 69, 70, 72, 75, 76, 77, 84, 84, 85, 85, 86] })
			} else if style == 2 && r.chance(1, 3) {
				*r.pick(&[65, 79, 64, 70, 0])
			} else if r.chance(1, 4) {
				0
			} else {
				r.below(NTYPE)
			};
			let d = if r.chance(1, 5) { 4 } else { r.range(1, 3) };
			let dr = r.chance(4, 5);
			ops.push(Op::Value(ty, r.next(), d, dr));
		}
		if r.chance(1, 4) && vc != 2 && (style != 5 || vc != 1) {
			ops.push(Op::Last(*r.pick(&LAST), r.next(), 2));
		}
		steps.push(Step::Session(kind, how, ops));
	}
	execute(id, vc, &steps, "random")
}

fn main() {
	let args: Vec<String> = std::env::args().collect();
	std::panic::set_hook(Box::new(|info| {
		if std::env::var_os("HARNESS_PANICS").is_some() {
			alloc::disarmed(|| eprintln!("{}", info));
		}
	}));
	alloc::init();
	let _ = catch_unwind(|| panic!("warm up"));
	let out = std::fs::File::create(&args[2]).expect("output file");
	let mut out = std::io::BufWriter::new(out);
	match args[1].as_str() {
		"random" => {
			let n = |i: usize| args[i].parse::<u64>().unwrap();
			let (seed, from, count, style) = (n(3), n(4) as usize, n(5) as usize, n(6) as usize);
			for i in from..from + count {
				eprintln!("scenario {}", i);
				writeln!(out, "{}", random(i, seed.wrapping_mul(1_000_003).wrapping_add(i as u64), style)).unwrap();
				out.flush().unwrap();
			}
		}
		"replay" => {
			let f = std::io::BufReader::new(std::fs::File::open(&args[3]).unwrap());
			let seed: u64 = args[4].parse().unwrap();
			for (i, l) in f.lines().enumerate() {
				eprintln!("scenario {}", i);
				writeln!(out, "{}", replay(i, &J::parse(&l.unwrap()), seed + i as u64)).unwrap();
				out.flush().unwrap();
			}
		}
		x => die(&format!("unknown command {}", x)),
	}
	out.flush().unwrap();
}
