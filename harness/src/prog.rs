//! Drives serializers through user-written serialization programs and records a trace of every
//! operation. A program is a flat list of operations; "end" closes what "sval", "pap1", "paps" or "oww"
//! opened.

use crate::alloc::{self, Policy};
use crate::cfg::*;
use crate::util::*;
use crate::obj;
use crate::hop::*;
use crate::sers::*;
use ser_raw::pos::{ActiveAddr, Addr, TrackingAddr};
use ser_raw::ser_traits::PosTracking;
use ser_raw::storage::{AlignedVec, ContiguousStorage, Storage};
use ser_raw::util::aligned_max_capacity;
use ser_raw::{CompleteSerializer, PtrOffsetSerializer, PureCopySerializer, Serialize, Serializer};
use std::borrow::Borrow;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

pub const P0: (usize, usize, usize, usize) = (16, 16, 8, aligned_max_capacity(16));
pub const P1: (usize, usize, usize, usize) = (64, 32, 1, 1 << 20);
pub const P2: (usize, usize, usize, usize) = (32, 16, 16, 2048);
/// Numbers 3 and 4: storages of the user's own, see hop.rs
pub const P3: (usize, usize, usize, usize) = (16, 16, 8, aligned_max_capacity(16));
pub const P4: (usize, usize, usize, usize) = (64, 32, 1, 1 << 20);
pub const PCFG: [(usize, usize, usize, usize); 5] = [P0, P1, P2, P3, P4];
pub const PAGE: [usize; 5] = [0, 0, 0, page_of(P3.2), page_of(P4.2)];
pub type S0 = AlignedVec<{ P0.0 }, { P0.1 }, { P0.2 }, { P0.3 }>;
pub type S1 = AlignedVec<{ P1.0 }, { P1.1 }, { P1.2 }, { P1.3 }>;
pub type S2 = AlignedVec<{ P2.0 }, { P2.1 }, { P2.2 }, { P2.3 }>;
pub type S3 = Hop<{ P3.0 }, { P3.1 }, { P3.2 }, { P3.3 }>;
pub type S4 = Hop<{ P4.0 }, { P4.1 }, { P4.2 }, { P4.3 }>;

#[derive(Clone, Debug)]
pub struct POp {
	pub api: String,
	pub ty: usize,
	pub n: usize,
	/// byte offset in the block being processed, of pointer or of whatever else
	pub off: usize,
	/// how an address is made: 0 from the place itself, 1 from start of block and offset
	pub via: usize,
	/// go on after a panic of this operation
	pub catch: bool,
	/// this many times `GAP` bytes more, which come first
	pub big: usize,
}
/// A multiple of all sizes and alignments of elements
const GAP: usize = 48 << 27;
impl POp {
	pub fn new(api: &str, ty: usize, n: usize, off: usize) -> POp {
		POp { api: api.to_string(), ty, n, off, via: 0, catch: false, big: 0 }
	}
	pub fn from_j(j: &J) -> POp {
		let g = |k: &str| if j.get(k).is_null() { 0 } else { j.get(k).us() };
		POp { api: j.get("api").str().to_string(), ty: g("ty"), n: g("n"), off: g("off"), via: g("via"), catch: g("catch") == 1, big: g("big") }
	}
}

/// Element types: number, size, alignment
pub const ETYPES: [(usize, usize); 7] = [(1, 1), (8, 8), (16, 16), (0, 1), (24, 8), (3, 1), (12, 4)];

#[derive(Clone, Copy)]
struct Frame {
	addr: usize,
	len: usize,
	pos: usize,
}
#[derive(Clone, Copy, PartialEq, Debug)]
struct Run {
	p: usize,
	n: usize,
	tok: u32,
	off: usize,
}
const FROZEN: u32 = 500_000_000;

pub struct Ctx {
	ops: Vec<POp>,
	pc: usize,
	cfg: (usize, usize, usize, usize),
	page: usize,
	kind: &'static str,
	frames: Vec<Frame>,
	runs: Vec<Run>,
	frozen: BTreeMap<u32, [u8; 8]>,
	words: Vec<usize>,
	locs: Vec<usize>,
	bufs: Vec<Buf>,
	tok: u32,
	entered: bool,
	events: Vec<J>,
	open: bool,
	/// scenario works beyond 32 bits
	wide: bool,
	/// from the (recorded) position on, everything is recorded as if it came that much earlier
	folds: Vec<(usize, usize)>,
}
/// Stands for positions that nothing should be at
const NOWHERE: usize = usize::MAX / 2;

static mut CTX: *mut Ctx = std::ptr::null_mut();
fn ctx() -> &'static mut Ctx {
	unsafe { &mut *CTX }
}

fn align_up(x: usize, a: usize) -> usize {
	(x + a - 1) / a * a
}

impl Ctx {
	fn cut(&mut self, p: usize, n: usize) {
		let (lo, hi) = (p, p + n);
		let mut out = vec![];
		for r in &self.runs {
			let (a, b) = (r.p, r.p + r.n);
			if b <= lo || a >= hi {
				out.push(*r);
				continue;
			}
			if a < lo {
				out.push(Run { n: lo - a, ..*r });
			}
			if b > hi {
				out.push(Run { p: hi, n: b - hi, tok: r.tok, off: r.off + (hi - a) });
			}
		}
		self.runs = out;
		self.words.retain(|&w| w + 8 <= lo || w >= hi);
	}
	fn put(&mut self, p: usize, n: usize, tok: u32) {
		if n > 0 {
			self.cut(p, n);
			self.runs.push(Run { p, n, tok, off: 0 });
		}
	}
	/// Where `n` bytes of alignment `al` are expected to go
	fn start(&self, pos: usize, al: usize, n: u128) -> usize {
		let p = if al > self.cfg.2 { align_up(pos, al) } else { pos };
		if self.page == 0 || n == 0 || (p % self.page) as u128 + n <= self.page as u128 {
			p
		} else {
			align_up(p, self.page)
		}
	}
	/// How much is left out altogether
	fn bias(&self) -> usize {
		self.folds.iter().map(|f| f.1).sum()
	}
	/// A position, as it is recorded
	fn rel(&self, pos: usize) -> usize {
		let mut p = pos;
		for &(at, gap) in &self.folds {
			if p > at {
				if p - at < gap {
					return NOWHERE;
				}
				p -= gap;
			}
		}
		p
	}
	/// The position of the storage
	fn pos_rel(&self, pos: usize) -> usize {
		let p = pos.wrapping_sub(self.bias());
		match self.folds.last() {
			Some(&(at, _)) if p < at => NOWHERE,
			_ => p,
		}
	}
	/// Where what is recorded as being at `p` really is
	fn real(&self, p: usize) -> usize {
		p + self.folds.iter().filter(|f| f.0 <= p).map(|f| f.1).sum::<usize>()
	}
	fn fold(&mut self, at: usize, gap: usize) {
		if gap > 0 {
			self.folds.push((at, gap));
		}
	}
	/// What an operation returned, as it is recorded (0 is also what pushes of no size return)
	fn ret(&self, pos: usize) -> i64 {
		if pos == 0 {
			0
		} else {
			clamp(self.rel(pos))
		}
	}
	fn byte(&self, r: &Run, i: usize) -> u8 {
		match self.frozen.get(&r.tok) {
			Some(b) => b[(r.off + i) % 8],
			None => pat(r.tok, r.off + i),
		}
	}
	fn writes(&self) -> bool {
		self.kind == "complete" || self.kind == "offset"
	}
	/// A pointer at byte `off` of the block being processed
	fn ptr_written(&mut self, off: usize) {
		if self.writes() {
			let p = self.frames.last().unwrap().pos + off;
			self.cut(p, 8);
			self.words.push(p);
		}
	}
	fn freeze(&mut self, addr: usize) {
		for p in std::mem::take(&mut self.words) {
			let mut b = [0; 8];
			unsafe { std::ptr::copy_nonoverlapping((addr + self.real(p)) as *const u8, b.as_mut_ptr(), 8) };
			let tok = FROZEN + p as u32;
			self.frozen.insert(tok, b);
			self.runs.push(Run { p, n: 8, tok, off: 0 });
		}
	}
	/// What can be seen of the storage
	fn seen<S: Storage + ContiguousStorage>(&mut self, s: Option<&S>, full: bool) -> Vec<(String, J)> {
		let (cap, pos, addr) = match s {
			Some(s) => (s.capacity(), s.pos(), s.as_ptr() as usize),
			None => (0, 0, 0),
		};
		let mut a = alloc::audit(addr);
		let capw = limbs(cap);
		let bias = self.bias();
		// Capacity is as good as unlimited in wide scenarios, and checked by its limbs
		let cap = if self.wide && cap >= bias {
			a.size = if a.size == cap { INF } else { 0 };
			INF
		} else {
			cap
		};
		let pos = if s.is_some() { self.pos_rel(pos) } else { 0 };
		let loc = if cap == 0 {
			0
		} else {
			match self.locs.iter().position(|&x| x == addr) {
				Some(i) => i + 1,
				None => {
					self.locs.push(addr);
					self.locs.len()
				}
			}
		};
		let limit = pos.min(cap).min(if a.n > 0 { a.size } else { 0 });
		let (mut bad, mut mem) = (vec![], vec![]);
		let full = full || self.runs.len() <= 16;
		if full {
			for r in &self.runs {
				let good = r.p.checked_add(r.n).map_or(false, |e| e <= limit)
					&& (0..r.n).all(|i| unsafe { *((addr + self.real(r.p) + i) as *const u8) } == self.byte(r, i));
				let t = vec![r.p, r.n, r.tok as usize, r.off];
				if good {
					mem.push(t);
				} else {
					bad.push(t);
				}
			}
		}
		match (obj! {
			cap: cap, capw: capw, bias: limbs(bias), pos: pos, loc: loc, am: addr % 65536, bn: a.n, bs: a.size, ba: a.align, er: a.errs,
			side: alloc::side_live(), live: s.is_some(), bad: bad, full: full, mem: mem,
		}) {
			J::Obj(v) => v,
			_ => unreachable!(),
		}
	}
	fn emit(&mut self, mut e: J, seen: Vec<(String, J)>) {
		if let J::Obj(v) = &mut e {
			v.extend(seen);
			v.push(("depth".into(), J::Int(self.frames.len() as i64)));
		}
		self.events.push(e);
	}
	fn words_now(&self, addr: usize, cap: usize) -> Vec<Vec<i64>> {
		let base = if self.kind == "complete" { addr } else { 0 };
		self.words
			.iter()
			.map(|&p| {
				let at = self.real(p);
				if at + 8 > cap {
					return vec![p as i64, -1];
				}
				let v = unsafe { ((addr + at) as *const usize).read_unaligned() };
				vec![p as i64, clamp(self.rel(v.wrapping_sub(base)))]
			})
			.collect()
	}
}

/// A serializer type that programs can be run with
pub trait Kind: Serializer
where Self::Storage: ContiguousStorage
{
	const KIND: &'static str;
	/// position looked up for address `base + off`, if this serializer can
	fn pm(&self, base: usize, off: usize) -> i64;
}

type Res = Result<usize, Box<dyn std::any::Any + Send>>;
fn c_ret(r: &Res) -> i64 {
	ctx().ret(*r.as_ref().unwrap_or(&0))
}
fn guard(f: impl FnOnce() -> usize) -> Res {
	catch_unwind(AssertUnwindSafe(|| alloc::armed(f)))
}

/// The typed operations
unsafe fn typed<T, K: Kind>(s: &mut K, o: &POp, data: usize, fbase: usize) -> usize
where K::Storage: ContiguousStorage {
	let addr = if o.via == 0 {
		K::Addr::from_ref(&*((fbase + o.off) as *const u64))
	} else {
		K::Addr::from_ref_offset(&*(fbase as *const u8), o.off)
	};
	let one = &*(data as *const T);
	let many = std::slice::from_raw_parts(data as *const T, o.n);
	match o.api.as_str() {
		"push1" => s.push(one, addr),
		"pushs" => s.push_slice(many, addr),
		"pap1" => s.push_and_process(one, addr, |s| inner(s)),
		"paps" => s.push_and_process_slice(many, addr, |s| inner(s)),
		"raw1" => s.push_raw(one),
		"raws" => s.push_raw_slice(many),
		"empty1" => s.push_empty::<T>(),
		"emptys" => s.push_empty_slice::<T>(o.n),
		"ow" => {
			s.overwrite(addr, one);
			0
		}
		"spush" => s.storage_mut().push(one),
		_ => unreachable!(),
	}
}

fn inner<K: Kind>(s: &mut K)
where K::Storage: ContiguousStorage {
	alloc::disarmed(|| {
		ctx().entered = true;
		interp(s)
	})
}

fn skip_to_end(c: &mut Ctx) {
	let mut d = 0;
	while c.pc < c.ops.len() {
		match c.ops[c.pc].api.as_str() {
			"pap1" | "paps" | "oww" | "sval" | "serialize" => d += 1,
			"end" => {
				if d == 0 {
					c.pc += 1;
					return;
				}
				d -= 1
			}
			_ => {}
		}
		c.pc += 1;
	}
}

#[derive(Clone, Copy)]
struct Pending {
	frame: Frame,
	sz: usize,
	al: usize,
	n: usize,
	tok: u32,
	off: usize,
	ptr: bool,
	gap: usize,
}
static mut PENDING: Option<Pending> = None;

fn acc<K: Kind>(s: &K) -> bool
where K::Storage: ContiguousStorage {
	s.pos() == s.storage().pos() && s.capacity() == s.storage().capacity()
}

fn pm_now<K: Kind>(s: &K) -> i64
where K::Storage: ContiguousStorage {
	match ctx().frames.last() {
		Some(f) => s.pm(f.addr, 0),
		None => -1,
	}
}

/// Run operations up to the matching "end" (which is consumed)
fn interp<K: Kind>(s: &mut K)
where K::Storage: ContiguousStorage {
	// A block was just pushed: this is the first thing that its processing sees
	if let Some(p) = unsafe { (*std::ptr::addr_of_mut!(PENDING)).take() } {
		let c = ctx();
		let (sz, al) = (p.sz, p.al);
		c.fold(p.frame.pos, p.gap);
		c.put(p.frame.pos, sz * p.n, p.tok);
		if p.ptr {
			c.ptr_written(p.off);
		}
		c.frames.push(p.frame);
		let seen = c.seen(Some(s.storage()), false);
		c.emit(
			obj! { api: "begin", op: "pushs", sz: sz, al: al, n: p.n, add: sz * p.n, p: 0usize, tok: p.tok, ok: true, ret: 0usize,
			rb: true, off: if p.ptr { p.off as i64 } else { -1 }, pm: pm_now(s), acc: acc(s) },
			seen,
		);
	}
	loop {
		let c = ctx();
		if c.pc >= c.ops.len() {
			return;
		}
		let o = c.ops[c.pc].clone();
		c.pc += 1;
		if o.api == "end" {
			return;
		}
		one(s, &o);
	}
}

fn one<K: Kind>(s: &mut K, o: &POp)
where K::Storage: ContiguousStorage {
	let c = ctx();
	c.tok += 1;
	let tok = c.tok;
	let (sz, al) = if o.api.ends_with("bytes") { (1, 1) } else { ETYPES[o.ty] };
	let n = match o.api.as_str() {
		"push1" | "pap1" | "raw1" | "empty1" | "ow" | "spush" => 1,
		_ => o.n,
	};
	let f = c.frames.last().copied();
	let fbase = f.map_or(0, |f| f.addr);
	let pos0 = ctx().pos_rel(s.storage().pos());
	let hasdata = matches!(o.api.as_str(), "push1" | "pushs" | "pap1" | "paps" | "raw1" | "raws" | "ow" | "spush");
	// Gibibytes more come first
	let mut more = if sz == 0 || !c.wide { 0 } else { o.big * GAP / sz };
	let data = if hasdata {
		let big = if more > 0 { Buf::after(more, sz, al, n, tok) } else { None };
		if big.is_none() {
			more = 0;
		}
		let b = big.unwrap_or_else(|| Buf::new(sz, al, n, tok));
		let a = b.bytes().as_ptr() as usize;
		c.bufs.push(b);
		a
	} else {
		0
	};
	let gap = more * sz;
	let all = POp { n: o.n + more, ..o.clone() };
	let o = &all;
	let call = |s: &mut K| -> Res {
		guard(|| unsafe {
			match o.ty {
				0 => typed::<u8, K>(s, o, data, fbase),
				1 => typed::<u64, K>(s, o, data, fbase),
				2 => typed::<A16, K>(s, o, data, fbase),
				3 => typed::<(), K>(s, o, data, fbase),
				5 => typed::<[u8; 3], K>(s, o, data, fbase),
				6 => typed::<[u32; 3], K>(s, o, data, fbase),
				_ => typed::<[u64; 3], K>(s, o, data, fbase),
			}
		})
	};
	let mut ev_op = "nop";
	let mut add: u128 = 0;
	let mut res: Res = Ok(0);
	let mut api = o.api.as_str();
	let mut off: i64 = -1;
	let mut called = false;
	let start = c.start(pos0, al, sz as u128 * n as u128);
	match o.api.as_str() {
		"push1" | "pushs" | "raw1" | "raws" | "spush" => {
			ev_op = "pushs";
			add = (sz * n) as u128;
			res = call(s);
			let c = ctx();
			let ptr = api == "push1" || api == "pushs";
			if res.is_ok() {
				c.fold(start, gap);
				c.put(start, sz * n, tok);
				if ptr {
					c.ptr_written(o.off);
				}
			}
			off = if ptr { o.off as i64 } else { -1 };
			api = if ptr { "push" } else { "raw" };
		}
		"empty1" | "emptys" => {
			ev_op = "emptys";
			add = sz as u128 * n as u128;
			res = call(s);
			if res.is_ok() {
				ctx().fold(start, gap);
			}
			api = "raw";
		}
		"bytes" | "sbytes" => {
			ev_op = "bytes";
			add = n as u128;
			let big = if more > 0 { Buf::after(more, 1, 1, n, tok) } else { None };
			let gap = if big.is_some() { gap } else { 0 };
			let b = big.unwrap_or_else(|| Buf::new(1, 1, n, tok));
			let direct = o.api == "sbytes";
			res = guard(|| if direct { s.storage_mut().push_bytes(b.bytes()) } else { s.push_raw_bytes(b.bytes()) });
			if res.is_ok() {
				ctx().fold(start, gap);
				ctx().put(start, n, tok);
			}
			api = "raw";
		}
		"reserve" => {
			ev_op = "reserve";
			add = n as u128;
			res = guard(|| {
				s.storage_mut().reserve(n);
				0
			});
			api = "raw";
		}
		"sshrink" => {
			if c.wide && c.folds.is_empty() {
				return;
			}
			ev_op = "shrink";
			res = guard(|| {
				s.storage_mut().shrink_to_fit();
				0
			});
			api = "raw";
		}
		"pap1" | "paps" => {
			let frame = Frame { addr: data + gap, len: sz * n, pos: start };
			unsafe {
				PENDING = Some(Pending { frame, sz, al, n, tok, off: o.off, ptr: true, gap });
			}
			let depth = c.frames.len();
			c.entered = false;
			res = call(s);
			let pending = unsafe { (*std::ptr::addr_of_mut!(PENDING)).take() };
			let c = ctx();
			match (&res, pending) {
				// panicked before the block's processing began
				(Err(_), Some(_)) => {
					ev_op = "pushs";
					add = (sz * n) as u128;
					api = "begin";
					off = o.off as i64;
					let seen = c.seen(Some(s.storage()), false);
					c.emit(
						obj! { api: api, op: ev_op, sz: sz, al: al, n: n, add: clampu(add), p: 0usize, tok: tok, ok: false, ret: 0usize, rb: true,
						off: off, pm: pm_now(s), acc: acc(s) },
						seen,
					);
					if o.catch {
						skip_to_end(ctx());
						drop(res);
						return;
					}
					resume(res);
				}
				// panicked while it was processed
				(Err(_), None) => resume(res),
				(Ok(_), pending) => {
					// processing that never ran shows up as a missing "begin"
					if pending.is_some() {
						skip_to_end(c);
					}
					c.frames.truncate(depth);
					api = "end";
				}
			}
		}
		"ow" => {
			ev_op = "ow";
			off = o.off as i64;
			let c = ctx();
			let complete = c.kind == "complete";
			let p = f.unwrap().pos + o.off;
			res = call(s);
			if complete && res.is_ok() {
				ctx().put(p, sz, tok);
			}
		}
		"oww" => {
			res = guard(|| {
				s.overwrite_with(|s| {
					alloc::disarmed(|| {
						called = true;
						interp(s)
					})
				});
				0
			});
			if !called {
				skip_to_end(ctx());
			}
			if res.is_err() {
				resume(res);
			}
		}
		"posfor" => {
			off = o.off as i64;
			let v = s.pm(fbase, o.off);
			let c = ctx();
			let seen = c.seen(Some(s.storage()), false);
			c.emit(
				obj! { api: "posfor", op: "nop", sz: 0usize, al: 1usize, n: 0usize, add: 0usize, p: 0usize, tok: 0usize, ok: true,
				ret: v, rb: true, off: off, pm: pm_now(s), acc: acc(s) },
				seen,
			);
			return;
		}
		"panic" => {
			resume_unwind(Box::new("user code"));
		}
		x => die(&format!("unknown operation {}", x)),
	}
	let ok = res.is_ok();
	let ret = c_ret(&res);
	let c = ctx();
	let res = if o.catch { drop(res); Ok(0) } else { res };
	let seen = c.seen(Some(s.storage()), false);
	c.emit(
		obj! { api: api, op: ev_op, sz: sz, al: al, n: clamp(n), add: clampu(add), p: 0usize, tok: tok, ok: ok, ret: ret, rb: true,
		off: off, pm: pm_now(s), acc: acc(s), called: called },
		seen,
	);
	if res.is_err() {
		resume(res);
	}
}

pub fn die(m: &str) -> ! {
	eprintln!("harness error: {}", m);
	std::process::exit(3)
}
fn clampu(x: u128) -> i64 {
	x.min(INF as u128 + 1) as i64
}
fn resume(r: Res) -> ! {
	match r {
		Err(e) => resume_unwind(e),
		Ok(_) => unreachable!(),
	}
}

macro_rules! root {
	($name:ident, $align:expr, $n:expr) => {
		#[repr(C, align($align))]
		pub struct $name(pub [u64; $n]);
	};
}
root!(R1, 8, 1);
root!(R4, 8, 4);
root!(RA, 16, 6);
pub const ROOTS: [(usize, usize); 3] = [(8, 8), (32, 8), (48, 16)];

/// One serializer from creation to its end. Returns what `finalize` returned.
fn session<K: Kind>(mut s: K) -> Option<K::BorrowedStorage>
where
	K::Storage: ContiguousStorage,
	R1: Serialize<K>,
	R4: Serialize<K>,
	RA: Serialize<K>,
{
	{
		let c = ctx();
		c.kind = K::KIND;
		c.frames.clear();
		c.words.clear();
		c.open = true;
		let seen = c.seen(Some(s.storage()), true);
		c.emit(nop("open", 0, K::KIND), seen);
	}
	loop {
		let c = ctx();
		let o = if c.pc < c.ops.len() { c.ops[c.pc].clone() } else { POp::new("finalize", 0, 0, 0) };
		c.pc += 1;
		match o.api.as_str() {
			"sval" | "serialize" => {
				c.tok += 1;
				let tok = c.tok;
				let (sz, al) = ROOTS[o.ty];
				let b = Buf::new(sz, al, 1, tok);
				let data = b.bytes().as_ptr() as usize;
				c.bufs.push(b);
				let pos0 = ctx().pos_rel(s.storage().pos());
				let frame = Frame { addr: data, len: sz, pos: c.start(pos0, al, sz as u128) };
				unsafe { PENDING = Some(Pending { frame, sz, al, n: 1, tok, off: 0, ptr: false, gap: 0 }) };
				let consume = o.api == "serialize";
				if consume {
					let r = catch_unwind(AssertUnwindSafe(|| {
						alloc::armed(|| unsafe {
							match o.ty {
								0 => s.serialize(&*(data as *const R1)),
								1 => s.serialize(&*(data as *const R4)),
								_ => s.serialize(&*(data as *const RA)),
							}
						})
					}));
					let c = ctx();
					let begun = unsafe { (*std::ptr::addr_of_mut!(PENDING)).take() }.is_none();
					c.frames.clear();
					match r {
						Ok((ret, st)) => {
							if !begun {
								skip_to_end(c);
							}
							let ret = c.ret(ret);
							ended::<K::Storage>(c, st.borrow(), "serialized", ret);
							return Some(st);
						}
						Err(e) => {
							drop(e);
							if !begun {
								skip_to_end(c);
							} else {
								skip_rest(c);
							}
							c.words.clear();
							c.open = false;
							c.emit(nop("lost", 0, ""), vec![]);
							return None;
						}
					}
				}
				let r = guard(|| unsafe {
					match o.ty {
						0 => s.serialize_value(&*(data as *const R1)),
						1 => s.serialize_value(&*(data as *const R4)),
						_ => s.serialize_value(&*(data as *const RA)),
					}
				});
				let begun = unsafe { (*std::ptr::addr_of_mut!(PENDING)).take() }.is_none();
				let c = ctx();
				match r {
					Ok(ret) => {
						if !begun {
							skip_to_end(c);
						}
						c.frames.clear();
						let mut w = vec![];
						if c.kind == "offset" {
							w = c.words_now(s.storage().as_ptr() as usize, s.storage().capacity());
						}
						let seen = c.seen(Some(s.storage()), true);
						let mut e = nop("send", c.ret(ret), "");
						if let J::Obj(v) = &mut e {
							v.push(("words".into(), w.j()));
						}
						c.emit(e, seen);
					}
					Err(e) => {
						drop(e);
						if begun {
							skip_rest(c);
							c.frames.clear();
							let seen = c.seen(Some(s.storage()), true);
							c.emit(nop("unwind", 0, ""), seen);
						} else {
							skip_to_end(c);
							let seen = c.seen(Some(s.storage()), true);
							c.emit(
								obj! { api: "sval", op: "pushs", sz: sz, al: al, n: 1usize, add: sz, p: 0usize, tok: tok, ok: false, ret: 0usize, rb: true,
								off: -1i32, pm: -1i32, acc: acc(&s) },
								seen,
							);
						}
					}
				}
			}
			"finalize" => {
				let st = alloc::armed(|| s.finalize());
				ended::<K::Storage>(ctx(), st.borrow(), "finalize", 0);
				return Some(st);
			}
			"abandon" => {
				alloc::armed(|| drop(s));
				let c = ctx();
				c.words.clear();
				c.open = false;
				c.emit(nop("lost", 0, ""), vec![]);
				return None;
			}
			_ => {
				let r = catch_unwind(AssertUnwindSafe(|| one(&mut s, &o)));
				drop(r);
			}
		}
	}
}

/// After a panic: the rest of the value's program is not run
fn skip_rest(c: &mut Ctx) {
	// The depth at which the panic happened is the number of open "end"s
	let mut d = 0usize;
	for i in 0..c.pc {
		match c.ops[i].api.as_str() {
			"pap1" | "paps" | "oww" | "sval" | "serialize" => d += 1,
			"end" => d = d.saturating_sub(1),
			_ => {}
		}
	}
	for _ in 0..d {
		skip_to_end(c);
	}
}

fn ended<S: Storage + ContiguousStorage>(c: &mut Ctx, st: &S, api: &str, ret: i64) {
	let w = c.words_now(st.as_ptr() as usize, st.capacity());
	let seen = c.seen(Some(st), true);
	let mut e = nop(api, ret, "");
	if let J::Obj(v) = &mut e {
		v.push(("words".into(), w.j()));
	}
	c.emit(e, seen);
	if st.capacity() > 0 {
		let a = st.as_ptr() as usize;
		c.freeze(a);
	}
	c.open = false;
}

fn nop(api: &str, ret: i64, kind: &str) -> J {
	obj! { api: api, op: "nop", sz: 0usize, al: 1usize, n: 0usize, add: 0usize, p: 0usize, tok: 0usize, ok: true, ret: ret, rb: true,
	off: -1i32, pm: -1i32, acc: true, kind: kind }
}

/// An operation on the storage itself, between sessions
fn store_op<S: Storage + ContiguousStorage>(st: &mut S, o: &POp) {
	let c = ctx();
	c.tok += 1;
	let tok = c.tok;
	let pos0 = ctx().pos_rel(st.pos());
	let (mut op, mut add) = (o.api.clone(), 0u128);
	if o.api == "shrink" && c.wide && c.folds.is_empty() {
		// (not as good as unlimited any more)
		return;
	}
	let r = match o.api.as_str() {
		"clear" => guard(|| {
			st.clear();
			0
		}),
		"shrink" => guard(|| {
			st.shrink_to_fit();
			0
		}),
		"reserve" => {
			add = o.n as u128;
			guard(|| {
				st.reserve(o.n);
				0
			})
		}
		// Put `n` << `off` less `ty` * 256 bytes before everything else
		"wide" => {
			let bias = (o.n << o.off) - o.ty * 256;
			let r = guard(|| {
				st.clear();
				st.push_empty_slice::<u8>(bias);
				st.pos()
			});
			let c = ctx();
			c.wide = true;
			c.folds = vec![(0, bias)];
			c.runs.clear();
			op = "withcapu".into();
			add = INF as u128;
			r
		}
		// From here on positions may go beyond 32 bits
		"far" => {
			let r = guard(|| {
				st.clear();
				st.reserve(o.n << o.off);
				0
			});
			let c = ctx();
			c.wide = true;
			c.folds.clear();
			c.runs.clear();
			op = "withcapu".into();
			add = INF as u128;
			r
		}
		_ => {
			op = "bytes".into();
			add = o.n as u128;
			let b = Buf::new(1, 1, o.n, tok);
			guard(|| st.push_bytes(b.bytes()))
		}
	};
	let (ok, ret) = (r.is_ok(), c_ret(&r));
	drop(r);
	let c = ctx();
	if ok {
		match op.as_str() {
			"clear" => {
				c.runs.clear();
				c.folds.clear()
			}
			"bytes" => {
				let p = c.start(pos0, 1, o.n as u128);
				c.put(p, o.n, tok)
			}
			_ => {}
		}
	}
	let seen = c.seen(Some(st), true);
	c.emit(
		obj! { api: "store", op: op, sz: 1usize, al: 1usize, n: clamp(o.n), add: clampu(add), p: 0usize, tok: tok, ok: ok,
		ret: ret, rb: true, off: -1i32, pm: -1i32, acc: true },
		seen,
	);
}

/// "withcap" and friends: a new storage
fn made<S: Storage + ContiguousStorage>(op: &str, n: usize, st: Option<&S>, ok: bool) {
	let c = ctx();
	c.runs.clear();
	c.words.clear();
	c.wide = false;
	c.folds.clear();
	let seen = c.seen(st, true);
	c.emit(
		obj! { api: "store", op: op, sz: 1usize, al: 1usize, n: clamp(n), add: clamp(n), p: 0usize, tok: 0usize, ok: ok, ret: 0usize,
		rb: true, off: -1i32, pm: -1i32, acc: true },
		seen,
	);
}

macro_rules! kinds {
	($S:ident, $P:ident, [$($k:expr => $kind:expr, $owned:ident, $Ser:ident, $active:ident;)*]) => {
		kinds!(@impls $S $P $($owned $Ser $kind, $active;)*);
		impl Runner for $S {
			/// Runs one whole scenario
			fn run() {
				let mut st: Option<$S> = None;
				while ctx().pc < ctx().ops.len() {
					let o = ctx().ops[ctx().pc].clone();
					ctx().pc += 1;
					match o.api.as_str() {
						"new" | "withcap" => {
							alloc::armed(|| st = None);
							let r = catch_unwind(AssertUnwindSafe(|| alloc::armed(|| if o.api == "new" { $S::new() } else { $S::with_capacity(o.n) })));
							let ok = r.is_ok();
							st = Some(r.unwrap_or_else(|e| { drop(e); $S::new() }));
							made(&o.api, o.n, st.as_ref(), ok);
						}
						// open a serializer: kind `ty`; n: 0 on the storage there is, 1 its own new, otherwise with capacity `off`
						"open" => {
							match o.ty {
								$($k => kinds!(@open $owned $Ser $S $P st o),)*
								_ => die("no such kind"),
							}
						}
						_ => {
							let s = st.get_or_insert_with(|| $S::new());
							store_op(s, &o);
						}
					}
				}
				alloc::armed(|| st = None);
				made::<$S>("drop", 0, None, true);
			}
			fn kinds() -> &'static [usize] {
				&[$($k),*]
			}
		}
	};
	(@open own $Ser:ident $S:ident $P:ident $st:ident $o:ident) => {{
		type K = $Ser<{ $P.0 }, { $P.1 }, { $P.2 }, { $P.3 }, $S>;
		let k: Option<K> = match $o.n {
			0 => {
				let s = $st.take();
				Some(match s {
					Some(s) => alloc::armed(|| K::from_storage(s)),
					None => {
						let k = alloc::armed(|| K::new());
						made("new", 0, Some(k.storage()), true);
						k
					}
				})
			}
			1 => {
				alloc::armed(|| $st = None);
				let k = alloc::armed(|| K::new());
				made("new", 0, Some(k.storage()), true);
				Some(k)
			}
			_ => {
				alloc::armed(|| $st = None);
				let r = catch_unwind(AssertUnwindSafe(|| alloc::armed(|| K::with_capacity($o.off))));
				match r {
					Ok(k) => {
						made("withcap", $o.off, Some(k.storage()), true);
						Some(k)
					}
					Err(e) => {
						drop(e);
						$st = Some($S::new());
						made("withcap", $o.off, $st.as_ref(), false);
						None
					}
				}
			}
		};
		match k {
			Some(k) => {
				$st = session(k);
				if $st.is_none() {
					made::<$S>("drop", 0, None, true);
				}
			}
			None => skip_session(ctx()),
		}
	}};
	(@open bor $Ser:ident $S:ident $P:ident $st:ident $o:ident) => {{
		if $st.is_none() || $o.n == 1 {
			alloc::armed(|| $st = None);
			$st = Some(alloc::armed(|| $S::new()));
			made("new", 0, $st.as_ref(), true);
		}
		let s: &mut $S = $st.as_mut().unwrap();
		let k = alloc::armed(|| $Ser::<{ $P.0 }, { $P.1 }, { $P.2 }, { $P.3 }, &mut $S>::from_storage(s));
		let r = session(k).is_some();
		if !r {
			// what is there is still there
			let s = $st.as_ref().unwrap();
			let c = ctx();
			let seen = c.seen(Some(s), true);
			c.emit(nop("kept", 0, ""), seen);
		}
	}};
	(@impls $S:ident $P:ident) => {};
	(@impls $S:ident $P:ident own $Ser:ident $kind:expr, $active:ident; $($rest:tt)*) => {
		kinds!(@one [] [$Ser<{ $P.0 }, { $P.1 }, { $P.2 }, { $P.3 }, $S>] $kind, $active);
		kinds!(@impls $S $P $($rest)*);
	};
	(@impls $S:ident $P:ident bor $Ser:ident $kind:expr, $active:ident; $($rest:tt)*) => {
		kinds!(@one ['a] [$Ser<{ $P.0 }, { $P.1 }, { $P.2 }, { $P.3 }, &'a mut $S>] $kind, $active);
		kinds!(@impls $S $P $($rest)*);
	};
	(@one [$($l:lifetime)?] [$K:ty] $kind:expr, $active:ident) => {
		impl$(<$l>)? Kind for $K {
			const KIND: &'static str = $kind;
			fn pm(&self, base: usize, off: usize) -> i64 {
				kinds!(@pm $active self base off)
			}
		}
		impl$(<$l>)? Serialize<$K> for R1 {
			fn serialize_data(&self, s: &mut $K) { inner(s) }
		}
		impl$(<$l>)? Serialize<$K> for R4 {
			fn serialize_data(&self, s: &mut $K) { inner(s) }
		}
		impl$(<$l>)? Serialize<$K> for RA {
			fn serialize_data(&self, s: &mut $K) { inner(s) }
		}
	};
	(@pm no $self:ident $base:ident $off:ident) => {{ let _ = ($base, $off); -1 }};
	(@pm track $self:ident $base:ident $off:ident) => { clamp(ctx().rel($self.pos_for(unsafe { &*(($base + $off) as *const u8) }))) };
	(@pm addr $self:ident $base:ident $off:ident) => {{
		let a = clamp(ctx().rel($self.pos_for(unsafe { &*(($base + $off) as *const u8) })));
		let t = TrackingAddr::from_ref_offset(unsafe { &*($base as *const u8) }, $off);
		let b = clamp(ctx().rel($self.pos_mapping().pos_for_addr(t)));
		if a == b && t.addr() == $base + $off { a } else { -2 }
	}};
}

pub trait Runner {
	fn run();
	fn kinds() -> &'static [usize];
}

fn skip_session(c: &mut Ctx) {
	while c.pc < c.ops.len() {
		c.pc += 1;
		match c.ops[c.pc - 1].api.as_str() {
			"finalize" | "abandon" | "serialize" => {
				if c.ops[c.pc - 1].api == "serialize" {
					skip_to_end(c);
				}
				return;
			}
			_ => {}
		}
	}
}

kinds!(S0, P0, [
	0 => "pure", own, PureCopySerializer, no;
	1 => "pure", bor, PureCopySerializer, no;
	2 => "offset", own, PtrOffsetSerializer, addr;
	3 => "offset", bor, PtrOffsetSerializer, addr;
	4 => "complete", own, CompleteSerializer, addr;
	5 => "complete", bor, CompleteSerializer, addr;
	6 => "pure", own, DPure, no;
	7 => "track", own, DTrack, track;
	8 => "offset", own, DOffset, addr;
	9 => "complete", own, DComplete, addr;
]);
kinds!(S1, P1, [
	0 => "pure", own, PureCopySerializer, no;
	1 => "pure", bor, PureCopySerializer, no;
	2 => "offset", own, PtrOffsetSerializer, addr;
	3 => "offset", bor, PtrOffsetSerializer, addr;
	4 => "complete", own, CompleteSerializer, addr;
	5 => "complete", bor, CompleteSerializer, addr;
	7 => "track", bor, DTrack, track;
	9 => "complete", bor, DComplete, addr;
]);
kinds!(S2, P2, [
	0 => "pure", own, PureCopySerializer, no;
	2 => "offset", own, PtrOffsetSerializer, addr;
	3 => "offset", bor, PtrOffsetSerializer, addr;
	4 => "complete", own, CompleteSerializer, addr;
	5 => "complete", bor, CompleteSerializer, addr;
	6 => "pure", bor, DPure, no;
	7 => "track", own, DTrack, track;
	8 => "offset", bor, DOffset, addr;
	9 => "complete", own, DComplete, addr;
]);

kinds!(S3, P3, [
	6 => "pure", own, HPure, no;
	7 => "track", own, HTrack, track;
	8 => "offset", own, HOffset, addr;
	9 => "complete", own, HComplete, addr;
	5 => "complete", bor, HComplete, addr;
]);
kinds!(S4, P4, [
	1 => "pure", bor, HPure, no;
	7 => "track", bor, HTrack, track;
	3 => "offset", bor, HOffset, addr;
	5 => "complete", bor, HComplete, addr;
	9 => "complete", own, HComplete, addr;
]);

fn execute(id: usize, pc: usize, ops: Vec<POp>, how: &str) -> String {
	let mut c = Box::new(Ctx {
		ops,
		pc: 0,
		cfg: PCFG[pc],
		page: PAGE[pc],
		kind: "",
		frames: vec![],
		runs: vec![],
		frozen: BTreeMap::new(),
		words: vec![],
		locs: vec![],
		bufs: vec![],
		tok: 0,
		entered: false,
		events: vec![],
		open: false,
		wide: false,
		folds: vec![],
	});
	unsafe {
		CTX = &mut *c;
		PENDING = None;
	}
	match pc {
		0 => S0::run(),
		1 => S1::run(),
		2 => S2::run(),
		3 => S3::run(),
		_ => S4::run(),
	}
	let c = ctx();
	let (sa, mva, va, max) = c.cfg;
	let j = obj! {
		id: id, how: how, moves: alloc::moves(),
		cfg: obj! { sa: sa, mva: mva, va: va, max: clamp_max(max), page: c.page },
		ev: std::mem::take(&mut c.events),
	};
	unsafe { CTX = std::ptr::null_mut() };
	j.to_string()
}

pub fn replay(id: usize, j: &J, seed: u64) -> String {
	let pc = j.get("cfg").us();
	alloc::begin(PCFG[pc].0, Policy::Random, seed);
	let script: Vec<u16> = j.get("script").arr().iter().map(|x| x.us() as u16).collect();
	if !script.is_empty() {
		alloc::set_script(&script);
	}
	execute(id, pc, j.get("ops").arr().iter().map(POp::from_j).collect(), "replay")
}

/// Random programs
struct Gen<'a> {
	rng: &'a mut Rng,
	ops: Vec<POp>,
	style: usize,
	budget: usize,
	max: usize,
	/// huge things still to come, and whether no serializer is open
	bigs: usize,
	idle: bool,
}

impl<'a> Gen<'a> {
	fn count(&mut self, sz: usize) -> usize {
		let lim = if self.style == 1 { let k = if self.rng.chance(1, 8) { 19 } else { 14 }; 1 << self.rng.range(2, k) } else if self.rng.chance(1, 12) { 1 << self.rng.range(6, 12) } else { 64 };
		let lim = if self.style == 4 { lim.min(512) } else { lim };
		if self.rng.chance(1, 12) {
			0
		} else {
			self.rng.below(lim / sz.max(1) + 2)
		}
	}
	fn push(&mut self, api: &str, ty: usize, n: usize, off: usize) {
		let mut o = POp::new(api, ty, n, off);
		o.via = self.rng.below(2);
		o.catch = self.rng.chance(2, 3);
		let can = matches!(api, "pushs" | "paps" | "raws" | "bytes" | "sbytes" | "emptys") && ty != 3 && n > 0 && !self.idle;
		if self.style == 7 && can && self.bigs > 0 && self.rng.chance(1, 6) {
			o.big = self.rng.range(1, 2);
			self.bigs -= 1;
		}
		self.ops.push(o);
	}
	/// Operations while a block of `len` bytes is processed
	fn body(&mut self, len: usize, words: bool, depth: usize) {
		let mut slots: Vec<usize> = if words { (0..(len / 8).min(400)).collect() } else { vec![] };
		let steps = match self.style {
			2 => 3,
			3 | 8 if depth == 1 => 300,
			_ => self.rng.range(0, 10),
		};
		for _ in 0..steps {
			if self.budget == 0 {
				return;
			}
			self.budget -= 1;
			let deep = depth < if self.style == 2 { 120 } else { 6 };
			let w: [usize; 12] = match self.style {
				2 => [4, if deep { 30 } else { 0 }, 2, 2, 1, 2, 1, 4, 1, 1, 0, 0],
				8 => [20, if deep { 4 } else { 0 }, 1, 1, 1, 1, 1, 1, 20, 1, 0, 0],
				3 => [40, if deep { 6 } else { 0 }, 3, 1, 1, 1, 1, 2, 1, 0, 0, 0],
				4 => [20, if deep { 10 } else { 0 }, 6, 4, 4, 4, 2, 8, 4, 4, 2, 3],
				_ => [20, if deep { 12 } else { 0 }, 6, 3, 3, 4, 2, 8, 4, 2, 1, 0],
			};
			match self.rng.weighted(&w) {
				k @ (0 | 1) if !slots.is_empty() => {
					let i = self.rng.below(slots.len());
					let slot = slots.swap_remove(i);
					let one = self.rng.chance(1, 3);
					let ty = if k == 1 && self.rng.chance(3, 4) { [1, 1, 4, 2][self.rng.below(4)] } else { self.rng.below(7) };
					let n = if one { 1 } else { self.count(ETYPES[ty].0) };
					let api = match (k, one) {
						(0, true) => "push1",
						(0, false) => "pushs",
						(_, true) => "pap1",
						_ => "paps",
					};
					self.push(api, ty, n, slot * 8);
					if k == 1 {
						self.body(ETYPES[ty].0 * n, matches!(ty, 1 | 2 | 4), depth + 1);
						self.push("end", 0, 0, 0);
					}
				}
				2 => {
					let ty = self.rng.below(7);
					let n = self.count(ETYPES[ty].0);
					let api = if self.rng.chance(1, 2) { "raw1" } else { "raws" };
					self.push(api, ty, n, 0);
				}
				3 => {
					let n = self.count(1);
					let api = if self.rng.chance(1, 2) { "bytes" } else { "sbytes" };
					self.push(api, 0, n, 0);
				}
				4 => {
					let ty = self.rng.below(7);
					let n = self.count(ETYPES[ty].0);
					let api = if self.rng.chance(1, 2) { "empty1" } else { "emptys" };
					self.push(api, ty, n, 0);
				}
				5 => {
					// a correction, of a word or a byte that is no pointer
					if let Some(&slot) = slots.last() {
						if self.rng.chance(1, 2) {
							slots.pop();
							self.push("ow", 1, 1, slot * 8);
						} else {
							let b = self.rng.below(8);
							slots.pop();
							self.push("ow", 0, 1, slot * 8 + b);
						}
					} else if !words && len > 0 {
						let b = self.rng.below(len);
						self.push("ow", 0, 1, b);
					}
				}
				6 => {
					self.push("oww", 0, 0, 0);
					for _ in 0..self.rng.below(3) {
						if let Some(slot) = slots.pop() {
							self.push("ow", 1, 1, slot * 8);
						}
					}
					self.push("end", 0, 0, 0);
				}
				7 => {
					if len > 0 {
						let b = self.rng.below(len);
						self.push("posfor", 0, 0, b);
					}
				}
				8 if self.rng.chance(if self.style == 8 { 4 } else { 1 }, 5) => self.push("sshrink", 0, 0, 0),
				8 => {
					let n = self.count(1) * 2;
					let big = self.style == 4 && self.rng.chance(1, 3);
					let n = if big { self.max.min(1 << 20) - self.rng.below(64) } else { n };
					self.push("reserve", 0, n, 0);
				}
				9 => {
					let ty = self.rng.below(7);
					self.push("spush", ty, 1, 0);
				}
				10 => self.push("reserve", 0, usize::MAX - 7, 0),
				11 => {
					if self.rng.chance(1, 3) {
						self.push("panic", 0, 0, 0)
					}
				}
				_ => {}
			}
		}
	}
}

pub fn random(id: usize, seed: u64, style: usize) -> String {
	// (styles from 10: storages of the user's own)
	let hop = style >= 10;
	let style = style % 10;
	let mut rng = Rng::new(seed);
	let policy = match rng.below(6) {
		0 => Policy::InPlace,
		1 => Policy::Always,
		2 => Policy::PingPong,
		_ => Policy::Random,
	};
	let pc = if style == 6 || style == 7 { 0 } else if style == 4 { [1, 2, 2, 2][rng.below(4)] } else if style == 2 || style == 3 || style == 8 { rng.below(2) } else { rng.below(3) };
	let pc = if hop { if style == 4 { 4 } else { 3 + rng.below(2) } } else { pc };
	let kinds = match pc {
		0 => S0::kinds(),
		1 => S1::kinds(),
		2 => S2::kinds(),
		3 => S3::kinds(),
		_ => S4::kinds(),
	};
	alloc::begin(PCFG[pc].0, policy, rng.next());
	let budget = match style {
		2 => 400,
		3 | 8 => 350,
		1 => 40,
		_ => 60,
	};
	let mut g = Gen { rng: &mut rng, ops: vec![], style, budget, max: PCFG[pc].3, bigs: 3, idle: true };
	let sessions = match style {
		5 => g.rng.range(2, 4),
		2 | 3 | 8 => 1,
		_ => g.rng.range(1, 2),
	};
	if style == 6 {
		let (n, off) = [(1, 32), (1, 33), (5, 30), (1, 34), (1, 32), (3, 32)][g.rng.below(6)];
		let less = [0, 1, 1, 2, 3][g.rng.below(5)];
		g.push("wide", less, n, off);
	}
	if style == 7 {
		let (n, off) = [(16, 0), (1, 12), (1, 16), (1, 32), (5, 30), (40, 30)][g.rng.below(6)];
		g.push("far", 0, n, off);
	}
	for k in 0..sessions {
		if k > 0 || g.rng.chance(1, 3) {
			for _ in 0..g.rng.below(if style == 5 { 5 } else { 3 }) {
				let n = g.count(1);
				let api = ["clear", "shrink", "reserve", "sbytes"][g.rng.below(4)];
				g.push(api, 0, n, 0);
			}
		}
		let kind = *g.rng.pick(kinds);
		let kind = if style == 8 && g.rng.chance(2, 3) { [4, 5, 9, 9][g.rng.below(4)] } else { kind };
		let kind = if kinds.contains(&kind) { kind } else { 5 };
		let how = if style == 6 || style == 7 || g.rng.chance(2, 3) { 0 } else { g.rng.range(1, 2) };
		let n = g.count(1);
		g.push("open", kind, how, n);
		g.idle = false;
		let mut done = false;
		for _ in 0..g.rng.range(1, if matches!(style, 2 | 3 | 8) { 1 } else { 4 }) {
			if g.rng.chance(1, 5) {
				let n = g.count(1);
				let api = ["bytes", "raws", "reserve", "emptys"][g.rng.below(4)];
				g.push(api, 0, n, 0);
			}
			let ty = g.rng.below(3);
			let last = g.rng.chance(1, 4);
			g.push(if last { "serialize" } else { "sval" }, ty, 1, 0);
			if style == 3 || style == 8 {
				g.push("paps", 1, 380, 0);
				g.body(380 * 8, true, 1);
				g.push("end", 0, 0, 0);
			} else {
				g.body(ROOTS[ty].0, true, 1);
			}
			g.push("end", 0, 0, 0);
			if last {
				done = true;
				break;
			}
		}
		if !done {
			let api = if g.rng.chance(1, 12) { "abandon" } else { "finalize" };
			g.push(api, 0, 0, 0);
		}
		g.idle = true;
	}
	let ops = g.ops;
	execute(id, pc, ops, "random")
}
