//! Drives a storage through sequences of operations and records a trace of every step.

use crate::alloc::{self, Policy};
use crate::cfg::*;
use crate::util::*;
use crate::{l1, l128, l16, l2, l32, l64, l8, lhuge, obj};
use crate::hop::Hop;
use ser_raw::storage::{AlignedVec, ContiguousStorage, RandomAccessStorage, Storage};
use ser_raw::util::aligned_max_capacity;
use std::panic::{catch_unwind, AssertUnwindSafe};

l16!(store_cfg!(C0, 16, 16, 8, aligned_max_capacity(16)));
l16!(store_cfg!(C1, 16, 16, 16, 1024));
l8!(store_cfg!(C2, 16, 8, 8, 40));
l16!(store_cfg!(C3, 64, 16, 4, 4096));
l32!(store_cfg!(C4, 32, 32, 1, 96));
l64!(store_cfg!(C5, 128, 64, 2, 1 << 20));
l8!(store_cfg!(C6, 4096, 8, 1, 1 << 16));
l8!(store_cfg!(C7, 8, 8, 8, aligned_max_capacity(8)));
l1!(store_cfg!(C8, 1, 1, 1, 100));
l2!(store_cfg!(C9, 2, 2, 2, 6));
l16!(store_cfg!(C10, 16, 16, 1, 48));
l64!(store_cfg!(C11, 64, 64, 64, 320));
l16!(store_cfg!(C12, 16, 16, 8, 1 << 32));
l32!(store_cfg!(C13, 256, 32, 8, 992));
l128!(store_cfg!(C14, 128, 128, 8, 1 << 24));
l16!(store_cfg!(C15, 16, 16, 8, 3 << 19));
l8!(store_cfg!(C16, 8, 8, 4, 24));
l16!(store_cfg!(C17, 32, 16, 4, 80));
l16!(store_cfg!(C18, 16, 16, 16, 64));
l8!(store_cfg!(C19, 16, 8, 2, 64));
pub const NCFG: usize = 20;
// Storages of the user's own
l16!(hop_cfg!(C20, 16, 16, 8, 4096));
l32!(hop_cfg!(C21, 64, 32, 1, 960));
l16!(hop_cfg!(C22, 16, 16, 16, aligned_max_capacity(16)));
l8!(hop_cfg!(C23, 8, 8, 4, 72));
pub const NHOP: usize = 4;
// Alignments beyond 16 bits
lhuge!(store_cfg!(C24, 131072, 131072, 8, 1 << 24));

#[macro_export]
macro_rules! with_store_cfg {
	($id:expr, $C:ident => $e:expr) => {{
		use $crate::store::*;
		match $id {
			0 => { type $C = C0; $e }
			1 => { type $C = C1; $e }
			2 => { type $C = C2; $e }
			3 => { type $C = C3; $e }
			4 => { type $C = C4; $e }
			5 => { type $C = C5; $e }
			6 => { type $C = C6; $e }
			7 => { type $C = C7; $e }
			8 => { type $C = C8; $e }
			9 => { type $C = C9; $e }
			10 => { type $C = C10; $e }
			11 => { type $C = C11; $e }
			12 => { type $C = C12; $e }
			13 => { type $C = C13; $e }
			14 => { type $C = C14; $e }
			15 => { type $C = C15; $e }
			16 => { type $C = C16; $e }
			17 => { type $C = C17; $e }
			18 => { type $C = C18; $e }
			19 => { type $C = C19; $e }
			20 => { type $C = C20; $e }
			21 => { type $C = C21; $e }
			22 => { type $C = C22; $e }
			23 => { type $C = C23; $e }
			24 => { type $C = C24; $e }
			_ => panic!("no such configuration"),
		}
	}};
}

#[derive(Clone, Debug)]
pub struct Op {
	pub op: String,
	pub ty: usize,
	pub n: usize,
	pub p: usize,
	/// memory that it asks for is refused
	pub refuse: bool,
}

impl Op {
	fn new(op: &str, ty: usize, n: usize, p: usize) -> Op {
		Op { op: op.to_string(), ty, n, p, refuse: false }
	}
	pub fn from_j(j: &J) -> Op {
		let refuse = !j.get("refuse").is_null() && j.get("refuse").us() == 1;
		Op { op: j.get("op").str().to_string(), ty: j.get("ty").us(), n: j.get("n").us(), p: j.get("p").us(), refuse }
	}
}

#[derive(Clone, Copy, PartialEq, Debug)]
struct Run {
	p: usize,
	n: usize,
	tok: u32,
	off: usize,
}

/// Everything the driver knows about one storage
pub struct Sim<C: StoreCfg> {
	s: Option<C::S>,
	runs: Vec<Run>,
	locs: Vec<usize>,
	tok: u32,
	pub events: Vec<J>,
	/// the program would have been stopped
	stopped: bool,
}

fn big(x: u128) -> usize {
	if x > INF as u128 {
		INF + 1
	} else {
		x as usize
	}
}

impl<C: StoreCfg> Sim<C> {
	pub fn new() -> Self {
		Sim { s: None, runs: vec![], locs: vec![], tok: 0, events: vec![], stopped: false }
	}

	fn cut(&mut self, p: usize, n: usize) {
		let (lo, hi) = (p, p + n);
		let mut out = vec![];
		for r in &self.runs {
			let (a, b) = (r.p, r.p + r.n);
			if b <= lo || a >= hi {
				out.push(*r);
				continue;
			}
			if a < lo {
				out.push(Run { n: lo - a, ..*r });
			}
			if b > hi {
				out.push(Run { p: hi, n: b - hi, tok: r.tok, off: r.off + (hi - a) });
			}
		}
		self.runs = out;
	}

	fn put(&mut self, p: usize, n: usize, tok: u32) {
		if n > 0 {
			self.cut(p, n);
			self.runs.push(Run { p, n, tok, off: 0 });
		}
	}

	pub fn pos(&self) -> usize {
		self.s.as_ref().map_or(0, |s| s.pos())
	}
	pub fn cap(&self) -> usize {
		self.s.as_ref().map_or(0, |s| s.capacity())
	}

	/// Perform one operation and record it
	pub fn step(&mut self, o: &Op) {
		if self.stopped {
			return;
		}
		let (sz, al) = TYPES[o.ty];
		let mut n = 1usize;
		let mut add: u128 = 0;
		let mut ret = 0usize;
		let mut rb = true;
		let mut res: Result<(), ()> = Ok(());
		self.tok += 1;
		let tok = self.tok;
		let mut wrote: Option<(usize, usize)> = None;
		let mut dropped = false;
		if o.refuse {
			alloc::refuse(true);
		}
		match o.op.as_str() {
			"new" => {
				self.s = None;
				self.runs.clear();
				match catch_unwind(|| alloc::armed(|| C::S::new())) {
					Ok(s) => self.s = Some(s),
					Err(e) => {
						drop(e);
						res = Err(())
					}
				}
			}
			"withcap" | "withcapu" => {
				n = o.n;
				add = o.n as u128;
				alloc::armed(|| self.s = None);
				self.runs.clear();
				let u = o.op == "withcapu";
				let r = catch_unwind(|| {
					alloc::armed(|| {
						if u {
							unsafe { C::S::with_capacity_unchecked(o.n) }
						} else {
							C::S::with_capacity(o.n)
						}
					})
				});
				match r {
					Ok(s) => self.s = Some(s),
					Err(e) => {
						drop(e);
						res = Err(());
						self.s = Some(C::S::new());
					}
				}
			}
			"drop" => {
				alloc::armed(|| self.s = None);
				self.runs.clear();
				dropped = true;
			}
			_ => {
				let s = self.s.as_mut().expect("storage");
				let t = match o.op.as_str() {
					"push" => Some(TOp::Push),
					"pushs" => Some(TOp::PushS),
					"unchecked" => Some(TOp::Unchecked),
					"empty" => Some(TOp::Empty),
					"emptys" => Some(TOp::EmptyS),
					"alignfor" => Some(TOp::AlignFor),
					"alignafter" => Some(TOp::AlignAfter),
					"write" => Some(TOp::Write),
					"writes" => Some(TOp::WriteS),
					"readmut" => Some(TOp::ReadMut),
					"read" => Some(TOp::Read),
					_ => None,
				};
				if let Some(t) = t {
					if matches!(t, TOp::PushS | TOp::Unchecked | TOp::EmptyS | TOp::WriteS) {
						n = o.n;
					}
					if !matches!(t, TOp::AlignFor | TOp::AlignAfter | TOp::Write | TOp::WriteS | TOp::ReadMut | TOp::Read) {
						add = sz as u128 * n as u128;
					}
					match C::tyop(s, o.ty, t, o.n, o.p, tok) {
						Ok(r) => {
							ret = r.ret;
							rb = r.rb;
							match t {
								TOp::Push | TOp::PushS | TOp::Unchecked => wrote = Some((ret, sz * n)),
								TOp::Write | TOp::WriteS | TOp::ReadMut => wrote = Some((o.p, sz * n)),
								_ => {}
							}
						}
						Err(()) => res = Err(()),
					}
				} else {
					n = o.n;
					let bytes = if o.op == "bytes" { Buf::new(1, 1, o.n, tok) } else { Buf::new(1, 1, 0, tok) };
					let fill = if o.op == "setpos" { Buf::new(1, 1, o.n, tok) } else { Buf::new(1, 1, 0, tok) };
					let r = catch_unwind(AssertUnwindSafe(|| {
						alloc::armed(|| match o.op.as_str() {
							"bytes" => s.push_bytes(bytes.bytes()),
							"reserve" => {
								s.reserve(o.n);
								0
							}
							"clear" => {
								s.clear();
								0
							}
							"shrink" => {
								s.shrink_to_fit();
								0
							}
							"alignany" => {
								s.align_after_any();
								0
							}
							"align" => {
								unsafe { s.align(o.n) };
								0
							}
							// Write at the end and then advance position, as `reserve` is documented for
							"setpos" => {
								s.reserve(o.n);
								let pos = s.pos();
								unsafe {
									if o.n > 0 {
										std::ptr::copy_nonoverlapping(fill.bytes().as_ptr(), s.mut_ptr(pos), o.n);
									}
									s.set_pos(pos + o.n);
								}
								pos
							}
							x => panic!("unknown operation {}", x),
						})
					}));
					match o.op.as_str() {
						"bytes" | "reserve" | "setpos" => add = o.n as u128,
						_ => {}
					}
					match r {
						Ok(r) => {
							ret = r;
							match o.op.as_str() {
								"bytes" | "setpos" => wrote = Some((ret, o.n)),
								"clear" => self.runs.clear(),
								_ => {}
							}
						}
						Err(e) => {
							drop(e);
							res = Err(())
						}
					}
				}
			}
		}
		if o.refuse {
			alloc::refuse(false);
			let (refused, handled) = alloc::refusal();
			let panicked = res.is_err();
			// (anything else is as if it had not been refused)
			if let (Some((rs, ra)), true) = (refused, handled.is_some() || panicked) {
				let (hs, ha) = handled.unwrap_or((0, 0));
				self.refused(o, (sz, al, n, add), tok, (rs, ra), (hs, ha), handled.is_some());
				return;
			}
		}
		if let Some((p, n)) = wrote {
			self.put(p, n, tok);
		}
		self.observe(o, sz, al, n, add, tok, res.is_ok(), ret, rb, dropped);
	}

	/// Memory was refused in this operation: that is where the program ends, if it is told
	fn refused(
		&mut self, o: &Op, (sz, al, n, add): (usize, usize, usize, u128), tok: u32, (rs, ra): (usize, usize),
		(hs, ha): (usize, usize), stopped: bool,
	) {
		std::mem::forget(self.s.take());
		let a = alloc::audit(0);
		self.stopped = true;
		let j = obj! {
			op: o.op.as_str(), sz: sz, al: al, n: clamp(n), add: big(add), p: clamp(o.p), tok: tok as usize,
			refused: true, stopped: stopped, rs: clamp(rs), ra: ra, hs: clamp(hs), ha: ha, er: a.errs,
		};
		self.events.push(j);
	}

	fn observe(
		&mut self,
		o: &Op,
		sz: usize,
		al: usize,
		n: usize,
		add: u128,
		tok: u32,
		ok: bool,
		ret: usize,
		rb: bool,
		dropped: bool,
	) {
		let (cap, pos, addr) = match &self.s {
			Some(s) => (s.capacity(), s.pos(), s.as_ptr() as usize),
			None => (0, 0, 0),
		};
		let a = alloc::audit(addr);
		let loc = if cap == 0 {
			0
		} else {
			match self.locs.iter().position(|&x| x == addr) {
				Some(i) => i + 1,
				None => {
					self.locs.push(addr);
					self.locs.len()
				}
			}
		};
		// Contents: which of the runs can still be read
		let limit = pos.min(cap).min(if a.n > 0 { a.size } else { 0 });
		let mut bad = vec![];
		let mut mem = vec![];
		for r in &self.runs {
			let good = r.p.checked_add(r.n).map_or(false, |e| e <= limit)
				&& (0..r.n).all(|i| unsafe { *(addr as *const u8).add(r.p + i) } == pat(r.tok, r.off + i));
			let t = vec![r.p, r.n, r.tok as usize, r.off];
			if good {
				mem.push(t);
			} else {
				bad.push(t);
			}
		}
		let full = self.runs.len() <= 24 || o.op == "read";
		let j = obj! {
			op: o.op.as_str(), sz: sz, al: al, n: clamp(n), add: big(add), p: clamp(o.p), tok: tok as usize,
			ok: ok, ret: clamp(ret), rb: rb,
			cap: cap, pos: pos, loc: loc, am: addr % 65536,
			bn: a.n, bs: a.size, ba: a.align, er: a.errs, live: !dropped && self.s.is_some(),
			bad: bad, full: full, mem: if full { mem } else { vec![] },
		};
		self.events.push(j);
	}
}

pub fn line<C: StoreCfg>(id: usize, cid: usize, sim: &Sim<C>, how: &str) -> String {
	let j = obj! {
		id: id, cid: cid, how: how,
		cfg: obj! { sa: C::SA, mva: C::MVA, va: C::VA, max: clamp_max(C::MAX), page: C::PAGE },
		ev: sim.events.clone(),
	};
	j.to_string()
}

/// Run a given sequence of operations
pub fn replay<C: StoreCfg>(id: usize, cid: usize, ops: &[Op], script: &[u16], seed: u64) -> String {
	alloc::begin(C::SA, Policy::Random, seed);
	if !script.is_empty() {
		alloc::set_script(script);
	}
	let mut sim = Sim::<C>::new();
	for o in ops {
		sim.step(o);
	}
	line(id, cid, &sim, "replay")
}

fn near(rng: &mut Rng, x: usize) -> usize {
	match rng.below(4) {
		0 => x.saturating_sub(1),
		1 => x + 1,
		_ => x,
	}
}

/// Number of bytes to ask for next: often at or just beyond a boundary
fn amount<C: StoreCfg>(rng: &mut Rng, sim: &Sim<C>, lim: usize) -> usize {
	let pos = sim.pos();
	let cap = sim.cap();
	let x = match rng.below(10) {
		0 => near(rng, cap - pos.min(cap)),
		1 => {
			let k = rng.range(1, 12);
			near(rng, (1usize << k).saturating_sub(pos))
		}
		2 if C::MAX < 1 << 21 => near(rng, C::MAX.saturating_sub(pos)),
		3 => near(rng, cap),
		4 => rng.below(2000),
		5 => {
			let k = rng.range(0, 17);
			rng.below(1 << k)
		}
		_ => rng.below(64),
	};
	x.min(lim)
}

pub fn random<C: StoreCfg>(id: usize, cid: usize, seed: u64, style: usize, nops: usize) -> String {
	let mut rng = Rng::new(seed);
	let policy = match rng.below(6) {
		0 => Policy::InPlace,
		1 => Policy::Always,
		2 => Policy::PingPong,
		_ => Policy::Random,
	};
	alloc::begin(C::SA, policy, rng.next());
	let mut sim = Sim::<C>::new();
	let types = C::types();
	// A few types per scenario, so that particular ones meet often
	let sub: Vec<usize> = (0..rng.range(1, 5)).map(|_| *rng.pick(types)).collect();
	let lim = if rng.chance(1, 20) { 1 << 20 } else { 1 << 13 };
	if rng.chance(1, 2) {
		sim.step(&Op::new("new", 0, 0, 0));
	} else {
		let c = amount::<C>(&mut rng, &sim, lim);
		let c = if C::MAX < 1 << 21 && rng.chance(1, 8) { near(&mut rng, C::MAX) } else { c };
		sim.step(&Op { refuse: style == 5 && rng.chance(1, 12), ..Op::new("withcap", 0, c, 0) });
	}
	let w: &[usize] = match style {
		// all kinds of operations
		0 => &[12, 12, 6, 5, 6, 6, 10, 3, 3, 2, 2, 2, 4, 3, 3, 2, 2, 1, 4],
		// clearing, shrinking and reuse
		1 => &[10, 10, 4, 2, 4, 4, 5, 10, 12, 1, 1, 1, 3, 1, 1, 1, 1, 3, 3],
		// gaps and in-place writes
		2 => &[8, 8, 3, 2, 12, 14, 3, 1, 3, 1, 1, 1, 14, 12, 10, 4, 4, 0, 1],
		// pushing only: long outputs
		3 => &[20, 20, 8, 5, 3, 3, 3, 0, 0, 0, 0, 0, 2, 1, 1, 1, 1, 0, 1],
		// memory refused
		5 => &[10, 10, 4, 4, 6, 6, 6, 4, 10, 1, 1, 1, 4, 1, 1, 1, 1, 3, 3],
		// failures
		_ => &[8, 10, 6, 3, 6, 10, 14, 2, 4, 1, 1, 1, 3, 2, 2, 1, 1, 2, 14],
	};
	for _ in 0..nops {
		let ty = *rng.pick(&sub);
		let (sz, al) = TYPES[ty];
		let cnt = |rng: &mut Rng, sim: &Sim<C>| -> usize {
			if sz == 0 {
				rng.below(5)
			} else if rng.chance(1, 6) {
				0
			} else {
				amount::<C>(rng, sim, lim) / sz + rng.below(2)
			}
		};
		let pos = sim.pos();
		let o = match rng.weighted(w) {
			0 => Op::new("push", ty, 1, 0),
			1 => Op::new("pushs", ty, cnt(&mut rng, &sim), 0),
			2 => Op::new("bytes", 0, amount::<C>(&mut rng, &sim, lim), 0),
			3 => {
				sim.step(&Op::new("unchecked", ty, cnt(&mut rng, &sim), 0));
				if rng.chance(1, 2) {
					Op::new("alignafter", ty, 0, 0)
				} else {
					Op::new("alignany", 0, 0, 0)
				}
			}
			4 => Op::new("empty", ty, 1, 0),
			5 => Op::new("emptys", ty, cnt(&mut rng, &sim), 0),
			6 => Op::new("reserve", 0, amount::<C>(&mut rng, &sim, lim), 0),
			7 => Op::new("clear", 0, 0, 0),
			8 => Op::new("shrink", 0, 0, 0),
			9 => Op::new("alignfor", ty, 0, 0),
			10 => {
				let k = rng.below(1 + (C::MVA / C::VA).trailing_zeros() as usize);
				Op::new("align", 0, C::VA << k, 0)
			}
			11 => {
				let n = amount::<C>(&mut rng, &sim, lim);
				Op::new("setpos", 0, (n + C::VA - 1) / C::VA * C::VA, 0)
			}
			k @ (12 | 13 | 14 | 15 | 16) => {
				let name = ["write", "writes", "readmut", "read", "write"][k - 12];
				let n = if name == "writes" && sz > 0 { rng.below(1 + (pos / sz).min(20)) } else { 1 };
				if n * sz > pos || (pos == 0 && name != "read") || sim.cap() == 0 {
					Op::new("reserve", 0, rng.below(40), 0)
				} else {
					let q = rng.below((pos - n * sz) / al + 1) * al;
					if sz == 0 && name != "read" {
						Op::new("reserve", 0, 0, 0)
					} else {
						Op::new(name, ty, n, q)
					}
				}
			}
			17 => match rng.below(3) {
				0 => Op::new("new", 0, 0, 0),
				1 => Op::new("withcap", 0, amount::<C>(&mut rng, &sim, lim), 0),
				_ => {
					let n = amount::<C>(&mut rng, &sim, lim).min(C::MAX);
					Op::new("withcapu", 0, ((n + C::MVA - 1) / C::MVA * C::MVA).max(C::MVA), 0)
				}
			},
			// requests that cannot be met, or only just
			_ => {
				let m = C::MAX;
				match rng.below(7) {
					0 => Op::new("reserve", 0, usize::MAX - rng.below(40), 0),
					1 => Op::new("reserve", 0, (isize::MAX as usize) + 1 + rng.below(1 << 20), 0),
					2 if sz > 0 => {
						let x = [usize::MAX, (usize::MAX / sz).saturating_add(1), (usize::MAX / sz).wrapping_add(2 + rng.below(9)), 1 << 63];
						let n = x[rng.below(4)].max(1);
						if (n as u128 * sz as u128) > m as u128 {
							Op::new("emptys", ty, n, 0)
						} else {
							Op::new("reserve", 0, usize::MAX, 0)
						}
					}
					3 if m < 1 << 21 => Op::new("reserve", 0, near(&mut rng, m - pos.min(m)), 0),
					4 if m < 1 << 21 && sz > 0 => Op::new("pushs", ty, near(&mut rng, (m - pos.min(m)) / sz), 0),
					5 if m < 1 << 21 && sz > 0 => Op::new("emptys", ty, near(&mut rng, (m - pos.min(m)) / sz), 0),
					6 => Op::new("withcap", 0, if m < 1 << 21 { near(&mut rng, m) } else { m + 1 + rng.below(100) }, 0),
					_ => Op::new("reserve", 0, m - pos.min(m) + 1 + rng.below(9), 0),
				}
			}
		};
		sim.step(&Op { refuse: style == 5 && rng.chance(1, 8), ..o });
	}
	// Read everything back at the end
	if sim.s.is_some() {
		sim.step(&Op::new("read", 13, 1, 0));
	}
	sim.step(&Op::new("drop", 0, 0, 0));
	line(id, cid, &sim, "random")
}
