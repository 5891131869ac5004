//! Global allocator that plays the environment of the specification: it decides where each storage
//! block lives (scripted or random placements in a sparse arena), and it audits every block.
//!
//! Only active ("armed") while code under test runs. Armed requests whose alignment equals the
//! configured storage alignment go to the arena; other armed requests go to a counted side heap.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, Ordering};

extern "C" {
	fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
	fn munmap(addr: *mut u8, len: usize) -> i32;
	fn madvise(addr: *mut u8, len: usize, advice: i32) -> i32;
}
const PROT_RW: i32 = 3;
const MAP_FLAGS: i32 = 0x2 | 0x20 | 0x4000; // PRIVATE | ANONYMOUS | NORESERVE
const MADV_DONTNEED: i32 = 4;

pub const NSLOT: usize = 32;
const SLOT: usize = 1 << 33;
const ARENA: usize = SLOT * NSLOT;
const SIDE: usize = 1 << 36;
const REDZONE: usize = 512;
/// Distance between neighbouring offsets within a slot
const STRIDE: usize = 1 << 16;
/// Blocks larger than this are not filled and get a mapping of their own
const FILL_MAX: usize = 1 << 25;
const RED: u8 = 0xEE;
const FREED: u8 = 0xDD;
const FRESH: u8 = 0xA7;
const FREED_CHECK: usize = 1 << 16;

#[derive(Clone, Copy, PartialEq)]
enum Kind {
	Empty,
	Slot(usize),
	Mapped,
	Fake,
}

#[derive(Clone, Copy)]
struct Block {
	kind: Kind,
	addr: usize,
	size: usize,
	align: usize,
}
const NOBLOCK: Block = Block { kind: Kind::Empty, addr: 0, size: 0, align: 0 };

pub const MAXB: usize = 64;
pub const MAXSCRIPT: usize = 4096;

#[derive(Clone, Copy, PartialEq)]
pub enum Policy {
	/// stay wherever possible
	InPlace,
	/// anything goes, seeded
	Random,
	/// every realloc goes to another place
	Always,
	/// alternate between few addresses
	PingPong,
	/// follow script of location ids
	Script,
}

struct State {
	init: bool,
	base: usize,
	side: usize,
	side_bump: usize,
	side_live: usize,
	blocks: [Block; MAXB],
	/// (addr, len) of freed range in each slot that should still be poisoned
	freed: [(usize, usize); NSLOT],
	/// history of recent addresses
	hist: [usize; 8],
	nhist: usize,
	errs: u32,
	sa: usize,
	policy: Policy,
	rng: u64,
	script: [u16; MAXSCRIPT],
	script_len: usize,
	script_pos: usize,
	fake_next: usize,
	moves: usize,
	allocs: usize,
	frees: usize,
	/// refuse the next storage block that is asked for
	refuse: bool,
	/// size and alignment that were refused, and that the handler of allocation errors was told
	refused: Option<(usize, usize)>,
	handled: Option<(usize, usize)>,
	/// huge inputs that the harness made
	sources: [(usize, usize); NSRC],
}
const NSRC: usize = 16;

pub const E_LAYOUT: u32 = 1; // released or resized with a layout it was not obtained with
pub const E_BADFREE: u32 = 2; // released or resized memory that is not a live block
pub const E_REDZONE: u32 = 4; // write outside of a block
pub const E_UAF: u32 = 8; // write to released memory
pub const E_ZERO: u32 = 16; // request of size 0 or invalid size
pub const E_MANY: u32 = 32; // too many blocks

struct Lock(AtomicBool);
static LOCK: Lock = Lock(AtomicBool::new(false));
static mut ST: State = State {
	init: false,
	base: 0,
	side: 0,
	side_bump: 0,
	side_live: 0,
	blocks: [NOBLOCK; MAXB],
	freed: [(0, 0); NSLOT],
	hist: [0; 8],
	nhist: 0,
	errs: 0,
	sa: 16,
	policy: Policy::InPlace,
	rng: 1,
	script: [0; MAXSCRIPT],
	script_len: 0,
	script_pos: 0,
	fake_next: 0,
	moves: 0,
	allocs: 0,
	frees: 0,
	refuse: false,
	refused: None,
	handled: None,
	sources: [(0, 0); NSRC],
};

thread_local! {
	static ARMED: Cell<bool> = const { Cell::new(false) };
}
static INIT: AtomicBool = AtomicBool::new(false);

fn with<R>(f: impl FnOnce(&mut State) -> R) -> R {
	while LOCK.0.compare_exchange_weak(false, true, Ordering::Acquire, Ordering::Relaxed).is_err() {
		std::hint::spin_loop();
	}
	let r = unsafe { f(&mut *std::ptr::addr_of_mut!(ST)) };
	LOCK.0.store(false, Ordering::Release);
	r
}

fn map(len: usize) -> Option<usize> {
	let p = unsafe { mmap(std::ptr::null_mut(), len, PROT_RW, MAP_FLAGS, -1, 0) };
	if p as isize == -1 {
		None
	} else {
		Some(p as usize)
	}
}

unsafe fn fill(addr: usize, len: usize, b: u8) {
	std::ptr::write_bytes(addr as *mut u8, b, len);
}
unsafe fn all(addr: usize, len: usize, b: u8) -> bool {
	std::slice::from_raw_parts(addr as *const u8, len).iter().all(|&x| x == b)
}

impl State {
	fn next(&mut self) -> u64 {
		// xorshift*
		let mut x = self.rng;
		x ^= x >> 12;
		x ^= x << 25;
		x ^= x >> 27;
		self.rng = x;
		x.wrapping_mul(0x2545F4914F6CDD1D) >> 11
	}

	/// Address for offset number `j` in `slot`: aligned to `align`, but not to twice that
	fn place(&self, slot: usize, j: usize, align: usize) -> usize {
		let a = (self.base + slot * SLOT + STRIDE * (1 + j)).max(1);
		let a = (a + 2 * align - 1) & !(2 * align - 1);
		a + align
	}

	fn slot_free(&self, slot: usize) -> bool {
		!self.blocks.iter().any(|b| b.kind == Kind::Slot(slot))
	}

	fn slot_of(&self, addr: usize) -> usize {
		(addr - self.base) / SLOT
	}

	fn record(&mut self, b: Block) {
		for i in 0..MAXB {
			if self.blocks[i].kind == Kind::Empty {
				self.blocks[i] = b;
				let n = self.nhist;
				self.hist[n % 8] = b.addr;
				self.nhist += 1;
				return;
			}
		}
		self.errs |= E_MANY;
	}

	fn find(&self, addr: usize) -> Option<usize> {
		(0..MAXB).find(|&i| self.blocks[i].kind != Kind::Empty && self.blocks[i].addr == addr)
	}

	/// Choose an address for a block; `cur` is the block being resized
	fn choose(&mut self, align: usize, cur: Option<Block>) -> usize {
		if self.policy == Policy::Script {
			if self.script_pos < self.script_len {
				let id = self.script[self.script_pos] as usize;
				self.script_pos += 1;
				return self.place(id % NSLOT, 2 * (id / NSLOT), align);
			}
			if let Some(c) = cur {
				return c.addr;
			}
		}
		let slot_cur = cur.and_then(|c| match c.kind {
			Kind::Slot(s) => Some(s),
			_ => None,
		});
		for _ in 0..64 {
			let r = self.next();
			let k = match self.policy {
				Policy::InPlace | Policy::Script => 0,
				Policy::Always => 1 + r % 3,
				Policy::PingPong => 3,
				Policy::Random => [0, 0, 1, 1, 2, 3, 3][(r % 7) as usize],
			};
			match k {
				0 => {
					if let Some(c) = cur {
						return c.addr;
					}
				}
				1 => {
					// nearby, in the same slot
					if let Some(s) = slot_cur {
						let j = (self.next() % 12) as usize;
						return self.place(s, j, align);
					}
				}
				3 => {
					// an address it had before
					if self.nhist > 0 {
						let m = if self.policy == Policy::PingPong { 3 } else { 8 };
						let i = (self.next() as usize) % self.nhist.min(m);
						let a = self.hist[i];
						if a >= self.base && a < self.base + ARENA {
							let s = self.slot_of(a);
							let ok_align = a % align == 0 && a % (2 * align) != 0;
							if ok_align && (self.slot_free(s) || slot_cur == Some(s)) {
								return a;
							}
						}
					}
				}
				_ => {}
			}
			let s = (self.next() as usize) % NSLOT;
			if self.slot_free(s) {
				let j = (self.next() % 12) as usize;
				return self.place(s, j, align);
			}
		}
		for s in 0..NSLOT {
			if self.slot_free(s) {
				return self.place(s, 0, align);
			}
		}
		self.errs |= E_MANY;
		self.place(NSLOT - 1, 20, align)
	}

	/// Choose an address where no block lives
	fn choose_free(&mut self, align: usize) -> usize {
		let addr = self.choose(align, None);
		if self.slot_free(self.slot_of(addr)) {
			return addr;
		}
		match (0..NSLOT).find(|&s| self.slot_free(s)) {
			Some(s) => self.place(s, 0, align),
			None => {
				self.errs |= E_MANY;
				addr
			}
		}
	}

	/// Set up a block (contents undefined) at `addr`
	unsafe fn open(&mut self, addr: usize, size: usize, align: usize) -> Block {
		let s = self.slot_of(addr);
		self.check_freed(s);
		self.freed[s] = (0, 0);
		fill(addr - REDZONE, REDZONE, RED);
		fill(addr + size, REDZONE, RED);
		Block { kind: Kind::Slot(s), addr, size, align }
	}

	fn check_freed(&mut self, s: usize) {
		let (a, l) = self.freed[s];
		if l > 0 && unsafe { !all(a, l, FREED) } {
			self.errs |= E_UAF;
		}
	}

	unsafe fn check_block(&mut self, i: usize) {
		let b = self.blocks[i];
		if let Kind::Slot(_) = b.kind {
			if !all(b.addr - REDZONE, REDZONE, RED) || !all(b.addr + b.size, REDZONE, RED) {
				self.errs |= E_REDZONE;
			}
		}
	}

	unsafe fn close(&mut self, i: usize) {
		self.check_block(i);
		let b = self.blocks[i];
		self.blocks[i] = NOBLOCK;
		match b.kind {
			Kind::Slot(s) => {
				fill(b.addr, b.size, FREED);
				let l = (b.size + REDZONE).min(FREED_CHECK);
				fill(b.addr + b.size, REDZONE, FREED);
				self.freed[s] = (b.addr, l);
			}
			Kind::Mapped => {
				munmap((b.addr - b.align) as *mut u8, b.size + 2 * b.align + 8192);
			}
			_ => {}
		}
	}

	unsafe fn huge(&mut self, size: usize, align: usize) -> Block {
		let len = size.checked_add(2 * align + 8192);
		if let Some(len) = len {
			if len < (1 << 44) {
				if let Some(p) = map(len) {
					// `align` extra at the start keeps `addr - align` == start of the mapping
					let addr = p + align;
					if addr % align == 0 {
						return Block { kind: Kind::Mapped, addr, size, align };
					}
					munmap(p as *mut u8, len);
				}
			}
		}
		// Memory which must never be touched
		self.fake_next += 1;
		let addr = (1 << 46) + self.fake_next * 2 * align.max(4096) + align;
		Block { kind: Kind::Fake, addr, size, align }
	}

	unsafe fn arena_alloc(&mut self, size: usize, align: usize) -> *mut u8 {
		if size == 0 || size > isize::MAX as usize + 1 - align {
			self.errs |= E_ZERO;
		}
		self.allocs += 1;
		if self.refuse && !std::thread::panicking() {
			self.refuse = false;
			self.refused = Some((size, align));
			return std::ptr::null_mut();
		}
		let b = if size > FILL_MAX {
			self.huge(size, align)
		} else {
			let addr = self.choose_free(align);
			let b = self.open(addr, size, align);
			fill(addr, size, FRESH);
			b
		};
		self.record(b);
		b.addr as *mut u8
	}

	unsafe fn arena_realloc(&mut self, p: *mut u8, layout: Layout, new: usize) -> *mut u8 {
		let i = match self.find(p as usize) {
			Some(i) => i,
			None => {
				self.errs |= E_BADFREE;
				return self.arena_alloc(new, layout.align());
			}
		};
		self.check_block(i);
		let b = self.blocks[i];
		if b.size != layout.size() || b.align != layout.align() {
			self.errs |= E_LAYOUT;
		}
		if new == 0 || new > isize::MAX as usize + 1 - layout.align() {
			self.errs |= E_ZERO;
		}
		if self.refuse && !std::thread::panicking() {
			self.refuse = false;
			self.refused = Some((new, layout.align()));
			return std::ptr::null_mut();
		}
		let keep = b.size.min(new);
		if new > FILL_MAX || b.size > FILL_MAX {
			let nb = if new > FILL_MAX {
				self.huge(new, b.align)
			} else {
				let addr = self.choose_free(b.align);
				let nb = self.open(addr, new, b.align);
				fill(addr, new, FRESH);
				nb
			};
			if b.kind != Kind::Fake && nb.kind != Kind::Fake {
				if keep > FILL_MAX {
					copy_sparse(b.addr, nb.addr, keep, true);
				} else {
					std::ptr::copy_nonoverlapping(b.addr as *const u8, nb.addr as *mut u8, keep);
				}
			}
			self.blocks[i] = NOBLOCK;
			if let Kind::Slot(_) = b.kind {
				self.blocks[i] = b;
				self.close(i);
			} else if b.kind == Kind::Mapped {
				munmap((b.addr - b.align) as *mut u8, b.size + 2 * b.align + 8192);
			}
			self.moves += 1;
			self.record(nb);
			return nb.addr as *mut u8;
		}
		let addr = self.choose(b.align, Some(b));
		let cur_slot = self.slot_of(b.addr);
		let new_slot = self.slot_of(addr);
		if addr != b.addr {
			self.moves += 1;
		}
		if new_slot == cur_slot {
			// Possibly overlapping
			std::ptr::copy(b.addr as *const u8, addr as *mut u8, keep);
			if addr != b.addr {
				// poison what the old block occupied outside of the new block
				let (lo, hi) = (addr - REDZONE, addr + new + REDZONE);
				let (olo, ohi) = (b.addr - REDZONE, b.addr + b.size + REDZONE);
				if olo < lo {
					fill(olo, lo.min(ohi) - olo, FREED);
				}
				if ohi > hi {
					fill(hi.max(olo), ohi - hi.max(olo), FREED);
				}
			}
			self.blocks[i] = NOBLOCK;
			let nb = self.open(addr, new, b.align);
			if new > keep {
				fill(addr + keep, new - keep, FRESH);
			}
			self.record(nb);
			return addr as *mut u8;
		}
		let nb = self.open(addr, new, b.align);
		std::ptr::copy_nonoverlapping(b.addr as *const u8, addr as *mut u8, keep);
		if new > keep {
			fill(addr + keep, new - keep, FRESH);
		}
		self.close(i);
		self.record(nb);
		addr as *mut u8
	}

	unsafe fn arena_free(&mut self, p: *mut u8, layout: Layout) {
		match self.find(p as usize) {
			Some(i) => {
				let b = self.blocks[i];
				if b.size != layout.size() || b.align != layout.align() {
					self.errs |= E_LAYOUT;
				}
				self.frees += 1;
				self.close(i);
			}
			None => self.errs |= E_BADFREE,
		}
	}

	fn is_arena(&self, a: usize) -> bool {
		(a >= self.base && a < self.base + ARENA) || self.find(a).is_some()
	}
	fn is_side(&self, a: usize) -> bool {
		a >= self.side && a < self.side + SIDE
	}
}

/// Pages of 16 MiB from page `a` on that were ever touched
unsafe fn touched(a: usize, n: usize, vec: &mut [u8; 4096]) {
	extern "C" {
		fn mincore(addr: *mut u8, len: usize, vec: *mut u8) -> i32;
	}
	if mincore(a as *mut u8, n * 4096, vec.as_mut_ptr()) != 0 {
		vec.fill(1);
	}
}

/// Copy contents of a huge block to another, without touching pages that were never written
unsafe fn copy_sparse(from: usize, to: usize, len: usize, fresh: bool) {
	let page = 4096;
	let (mut src, mut dst) = ([0u8; 4096], [0u8; 4096]);
	let mut a = from & !(page - 1);
	let end = from + len;
	while a < end {
		let n = ((end - a + page - 1) / page).min(4096);
		touched(a, n, &mut src);
		if !fresh {
			touched((to + a.max(from) - from) & !(page - 1), n.min(4095) + 1, &mut dst);
		}
		for k in 0..n {
			let lo = (a + k * page).max(from);
			let hi = (a + (k + 1) * page).min(end);
			if src[k] & 1 != 0 && !all(lo, hi - lo, 0) {
				std::ptr::copy_nonoverlapping(lo as *const u8, (to + (lo - from)) as *mut u8, hi - lo);
			} else if !fresh && (k == 4095 || (dst[k] | dst[k + 1]) & 1 != 0) {
				fill(to + (lo - from), hi - lo, 0);
			}
		}
		a += n * page;
	}
}

/// Copying as the code under test does it. A copy out of a huge block leaves pages alone that were never
/// written, so that code which grows its buffer by hand needs no more memory than code that reallocates
unsafe fn copy_huge(to: *mut u8, from: *const u8, len: usize) -> bool {
	let (a, b) = (from as usize, to as usize);
	if !INIT.load(Ordering::Relaxed) || a.max(b) - a.min(b) < len {
		return false;
	}
	let (both, beyond) = with(|st| {
		let part = |x: usize, n: usize| st.blocks.iter().any(|k| k.kind == Kind::Mapped && x >= k.addr && x - k.addr <= k.size && n <= k.size - (x - k.addr));
		let source = st.sources.iter().any(|&(p, n)| a >= p && a - p <= n && len <= n - (a - p));
		((part(a, len) || source) && part(b, len), source && part(b, 0) && !part(b, len))
	});
	if beyond {
		// (as good as a fault)
		std::process::abort();
	}
	if both {
		copy_sparse(a, b, len, false);
	}
	both
}

/// A huge input of zeros that takes no memory
pub fn source(len: usize) -> Option<usize> {
	let p = map(len)?;
	with(|st| {
		let i = st.sources.iter().position(|s| s.1 == 0)?;
		st.sources[i] = (p, len);
		Some(p)
	})
}
pub fn release_source(p: usize) {
	let len = with(|st| {
		let i = st.sources.iter().position(|s| s.0 == p).unwrap();
		std::mem::replace(&mut st.sources[i], (0, 0)).1
	});
	unsafe { munmap(p as *mut u8, len) };
}
#[no_mangle]
unsafe extern "C" fn memcpy(to: *mut u8, from: *const u8, len: usize) -> *mut u8 {
	if len <= FILL_MAX || !copy_huge(to, from, len) {
		std::arch::asm!("rep movsb", inout("rcx") len => _, inout("rdi") to => _, inout("rsi") from => _,
			options(nostack, preserves_flags));
	}
	to
}
#[no_mangle]
unsafe extern "C" fn memmove(to: *mut u8, from: *const u8, len: usize) -> *mut u8 {
	if (to as usize).wrapping_sub(from as usize) >= len {
		return memcpy(to, from, len);
	}
	std::arch::asm!("std", "rep movsb", "cld", inout("rcx") len => _, inout("rdi") to.wrapping_add(len).wrapping_sub(1) => _,
		inout("rsi") from.wrapping_add(len).wrapping_sub(1) => _, options(nostack));
	to
}

/// Overwrite what the harness itself releases (inputs, after they were serialized)
pub static POISON: AtomicBool = AtomicBool::new(false);

pub struct Tracker;

unsafe impl GlobalAlloc for Tracker {
	unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
		if !INIT.load(Ordering::Relaxed) || !ARMED.with(|a| a.get()) {
			return System.alloc(layout);
		}
		with(|st| {
			if layout.align() == st.sa {
				st.arena_alloc(layout.size(), layout.align())
			} else {
				let a = (st.side_bump + layout.align() - 1) & !(layout.align() - 1);
				st.side_bump = a + layout.size() + 16;
				st.side_live += 1;
				a as *mut u8
			}
		})
	}

	unsafe fn alloc_zeroed(&self, layout: Layout) -> *mut u8 {
		let p = self.alloc(layout);
		if p.is_null() {
			return p;
		}
		if layout.size() <= FILL_MAX || !with(|st| st.find(p as usize).is_some()) {
			std::ptr::write_bytes(p, 0, layout.size());
		}
		p
	}

	unsafe fn dealloc(&self, p: *mut u8, layout: Layout) {
		if INIT.load(Ordering::Relaxed) {
			let done = with(|st| {
				if st.is_arena(p as usize) {
					st.arena_free(p, layout);
					true
				} else if st.is_side(p as usize) {
					st.side_live -= 1;
					if st.side_live == 0 {
						if st.side_bump - st.side > 1 << 24 {
							madvise(st.side as *mut u8, st.side_bump - st.side, MADV_DONTNEED);
						}
						st.side_bump = st.side;
					}
					true
				} else if ARMED.with(|a| a.get()) && layout.align() == st.sa {
					// Code under test releases something that is not a storage block
					st.errs |= E_BADFREE;
					true
				} else {
					false
				}
			});
			if done {
				return;
			}
		}
		if POISON.load(Ordering::Relaxed) {
			std::ptr::write_bytes(p, FREED, layout.size());
		}
		System.dealloc(p, layout)
	}

	unsafe fn realloc(&self, p: *mut u8, layout: Layout, new: usize) -> *mut u8 {
		if INIT.load(Ordering::Relaxed) {
			let r = with(|st| {
				if st.is_arena(p as usize) {
					return Some(st.arena_realloc(p, layout, new));
				}
				if st.is_side(p as usize) {
					let a = (st.side_bump + layout.align() - 1) & !(layout.align() - 1);
					st.side_bump = a + new + 16;
					std::ptr::copy_nonoverlapping(p, a as *mut u8, layout.size().min(new));
					return Some(a as *mut u8);
				}
				if ARMED.with(|a| a.get()) && layout.align() == st.sa {
					st.errs |= E_BADFREE;
					return Some(st.arena_alloc(new, layout.align()));
				}
				None
			});
			if let Some(r) = r {
				return r;
			}
		}
		System.realloc(p, layout, new)
	}
}

pub fn init() {
	with(|st| {
		let a = map(ARENA + (1 << 21)).expect("arena");
		st.base = (a + (1 << 21) - 1) & !((1 << 21) - 1);
		st.side = map(SIDE).expect("side heap");
		st.side_bump = st.side;
		st.init = true;
	});
	INIT.store(true, Ordering::SeqCst);
	std::alloc::set_alloc_error_hook(on_error);
}

/// Begin a scenario: no live blocks, errors cleared
pub fn begin(sa: usize, policy: Policy, seed: u64) {
	with(|st| {
		for i in 0..MAXB {
			if st.blocks[i].kind != Kind::Empty {
				unsafe { st.close(i) };
			}
		}
		st.errs = 0;
		st.refuse = false;
		st.refused = None;
		st.handled = None;
		st.freed = [(0, 0); NSLOT];
		st.hist = [0; 8];
		st.nhist = 0;
		st.sa = sa;
		st.policy = policy;
		st.rng = seed | 1;
		for _ in 0..4 {
			st.next();
		}
		st.script_len = 0;
		st.script_pos = 0;
		st.moves = 0;
		st.allocs = 0;
		st.frees = 0;
	})
}

pub fn set_script(ids: &[u16]) {
	with(|st| {
		let n = ids.len().min(MAXSCRIPT);
		st.script[..n].copy_from_slice(&ids[..n]);
		st.script_len = n;
		st.script_pos = 0;
		st.policy = Policy::Script;
	})
}

pub fn set_policy(p: Policy) {
	with(|st| st.policy = p)
}

#[derive(Clone, Copy, Debug)]
pub struct Audit {
	/// live storage blocks
	pub n: usize,
	/// size and alignment of the block that starts at `addr` (0 if there is none)
	pub size: usize,
	pub align: usize,
	pub errs: u32,
}

pub fn audit(addr: usize) -> Audit {
	with(|st| {
		for i in 0..MAXB {
			if st.blocks[i].kind != Kind::Empty {
				unsafe { st.check_block(i) };
			}
		}
		for s in 0..NSLOT {
			if st.slot_free(s) {
				st.check_freed(s);
			}
		}
		let n = st.blocks.iter().filter(|b| b.kind != Kind::Empty).count();
		let (size, align) = st.find(addr).map_or((0, 0), |i| (st.blocks[i].size, st.blocks[i].align));
		Audit { n, size, align, errs: st.errs }
	})
}

/// Refuse the next storage block
pub fn refuse(on: bool) {
	with(|st| st.refuse = on)
}
/// What was refused, and what the handler of allocation errors was called with
pub fn refusal() -> (Option<(usize, usize)>, Option<(usize, usize)>) {
	with(|st| (st.refused.take(), st.handled.take()))
}
fn on_error(l: Layout) {
	if ARMED.with(|a| a.get()) {
		with(|st| st.handled = Some((l.size(), l.align())));
		// (the program would end here; the harness goes on without the storage)
		disarmed(|| std::panic::resume_unwind(Box::new(())));
	}
}

pub fn side_live() -> usize {
	with(|st| st.side_live)
}
pub fn moves() -> usize {
	with(|st| st.moves)
}

/// Run code under test with the allocator armed
pub fn armed<R>(f: impl FnOnce() -> R) -> R {
	struct G;
	impl Drop for G {
		fn drop(&mut self) {
			ARMED.with(|a| a.set(false));
		}
	}
	ARMED.with(|a| a.set(true));
	let _g = G;
	f()
}

/// Run harness code called back from code under test
pub fn disarmed<R>(f: impl FnOnce() -> R) -> R {
	struct G(bool);
	impl Drop for G {
		fn drop(&mut self) {
			let b = self.0;
			ARMED.with(|a| a.set(b));
		}
	}
	let _g = G(ARMED.with(|a| a.replace(false)));
	f()
}
