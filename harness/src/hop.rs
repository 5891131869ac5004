//! A storage and serializers as a user of the crate would write them.
//!
//! `Hop` keeps to pages: what does not fit into the rest of a page goes to the start of the next one, so that its
//! `reserve` moves the position on. Everything that `Storage` and `RandomAccessStorage` provide is left to them.

use ser_raw::pos::{PosMapping, Ptrs};
use ser_raw::storage::{AlignedVec, ContiguousStorage, RandomAccessStorage, Storage};
use ser_raw::Serializer;
use std::borrow::BorrowMut;

pub const fn page_of(va: usize) -> usize {
	match va {
		1 => 96,
		4 => 24,
		_ => 64,
	}
}

pub struct Hop<const SA: usize, const MVA: usize, const VA: usize, const MAX: usize> {
	v: AlignedVec<SA, MVA, VA, MAX>,
}

impl<const SA: usize, const MVA: usize, const VA: usize, const MAX: usize> Hop<SA, MVA, VA, MAX> {
	pub const PAGE: usize = page_of(VA);
}

impl<const SA: usize, const MVA: usize, const VA: usize, const MAX: usize> Storage for Hop<SA, MVA, VA, MAX> {
	const STORAGE_ALIGNMENT: usize = SA;
	const MAX_VALUE_ALIGNMENT: usize = MVA;
	const VALUE_ALIGNMENT: usize = VA;
	const MAX_CAPACITY: usize = MAX;

	fn new() -> Self {
		let _ = Self::ASSERT_ALIGNMENTS_VALID;
		Hop { v: AlignedVec::new() }
	}
	unsafe fn with_capacity_unchecked(capacity: usize) -> Self {
		let _ = Self::ASSERT_ALIGNMENTS_VALID;
		Hop { v: AlignedVec::with_capacity_unchecked(capacity) }
	}
	fn capacity(&self) -> usize {
		self.v.capacity()
	}
	fn pos(&self) -> usize {
		self.v.pos()
	}
	unsafe fn set_pos(&mut self, new_pos: usize) {
		self.v.set_pos(new_pos)
	}
	unsafe fn push_slice_unchecked<T>(&mut self, slice: &[T], size: usize) {
		self.v.push_slice_unchecked(slice, size)
	}
	fn reserve(&mut self, additional: usize) {
		let pos = self.v.pos();
		let used = pos % Self::PAGE;
		let hop = if additional > 0 && used > 0 && additional > Self::PAGE - used { Self::PAGE - used } else { 0 };
		self.v.reserve(additional.checked_add(hop).expect("Cannot grow"));
		if hop > 0 {
			unsafe { self.v.set_pos(pos + hop) };
		}
	}
	fn shrink_to_fit(&mut self) {
		self.v.shrink_to_fit()
	}
}

impl<const SA: usize, const MVA: usize, const VA: usize, const MAX: usize> RandomAccessStorage for Hop<SA, MVA, VA, MAX> {
	unsafe fn write_slice<T>(&mut self, pos: usize, slice: &[T]) {
		self.v.write_slice(pos, slice)
	}
	unsafe fn read<T>(&self, pos: usize) -> &T {
		self.v.read(pos)
	}
	unsafe fn read_mut<T>(&mut self, pos: usize) -> &mut T {
		self.v.read_mut(pos)
	}
	unsafe fn ptr(&self, pos: usize) -> *const u8 {
		self.v.ptr(pos)
	}
	unsafe fn mut_ptr(&mut self, pos: usize) -> *mut u8 {
		self.v.mut_ptr(pos)
	}
}

impl<const SA: usize, const MVA: usize, const VA: usize, const MAX: usize> ContiguousStorage for Hop<SA, MVA, VA, MAX> {
	fn as_ptr(&self) -> *const u8 {
		self.v.as_ptr()
	}
	fn as_mut_ptr(&mut self) -> *mut u8 {
		self.v.as_mut_ptr()
	}
}

macro_rules! ctors {
	($name:ident, $storage:ident, { $($f:ident = $e:expr),* }) => {
		impl<const SA: usize, const MVA: usize, const VA: usize, const MAX: usize, B> $name<SA, MVA, VA, MAX, B>
		where B: BorrowMut<Hop<SA, MVA, VA, MAX>>
		{
			pub fn from_storage($storage: B) -> Self {
				Self { $($f: $e,)* $storage }
			}
		}
		impl<const SA: usize, const MVA: usize, const VA: usize, const MAX: usize>
			$name<SA, MVA, VA, MAX, Hop<SA, MVA, VA, MAX>>
		{
			pub fn new() -> Self {
				Self::from_storage(Hop::new())
			}
			pub fn with_capacity(n: usize) -> Self {
				Self::from_storage(Hop::with_capacity(n))
			}
		}
	};
}

// Fields in all kinds of order, others of the same types beside the ones that are meant, names that macros could use

#[derive(Serializer)]
#[ser_type(pure_copy)]
#[allow(dead_code)]
pub struct HPure<const SA: usize, const MVA: usize, const VA: usize, const MAX: usize, B>
where B: BorrowMut<Hop<SA, MVA, VA, MAX>>
{
	storage: Vec<u8>,
	#[ser_storage(Hop<SA, MVA, VA, MAX>)]
	s: B,
	pos: usize,
}
ctors!(HPure, s, { storage = vec![], pos = 77 });

#[derive(Serializer)]
#[ser_type(pos_tracking)]
#[allow(dead_code)]
pub struct HTrack<const SA: usize, const MVA: usize, const VA: usize, const MAX: usize, B: BorrowMut<Hop<SA, MVA, VA, MAX>>> {
	before: PosMapping,
	#[ser_pos_mapping]
	value: PosMapping,
	#[ser_storage(Hop<SA, MVA, VA, MAX>)]
	slice: B,
	pos_mapping: PosMapping,
}
ctors!(HTrack, slice, { before = PosMapping::new(1, 2), value = PosMapping::dummy(), pos_mapping = PosMapping::new(8, 16) });

#[derive(Serializer)]
#[ser_type(ptr_offset)]
#[allow(dead_code)]
pub struct HOffset<const SA: usize, const MVA: usize, const VA: usize, const MAX: usize, B>
where
	B: BorrowMut<Hop<SA, MVA, VA, MAX>>,
{
	#[ser_storage(Hop<SA, MVA, VA, MAX>)]
	storage: B,
	pos_mapping: PosMapping,
	storage_mut: Option<Hop<SA, MVA, VA, MAX>>,
	#[ser_pos_mapping]
	ptr_addr: PosMapping,
}
ctors!(HOffset, storage, { pos_mapping = PosMapping::new(64, 0), storage_mut = None, ptr_addr = PosMapping::dummy() });

#[derive(Serializer)]
#[ser_type(complete)]
#[allow(dead_code)]
pub struct HComplete<const SA: usize, const MVA: usize, const VA: usize, const MAX: usize, B: BorrowMut<Hop<SA, MVA, VA, MAX>>> {
	ptrs: Ptrs,
	pos_mapping: PosMapping,
	#[ser_ptrs]
	finalize: Ptrs,
	/// the output
	#[ser_storage(Hop<SA, MVA, VA, MAX>)]
	r#type: B,
	#[ser_pos_mapping]
	addr: PosMapping,
	storage: u8,
}
ctors!(HComplete, r#type, {
	ptrs = Ptrs::new(),
	pos_mapping = PosMapping::new(24, 48),
	finalize = Ptrs::new(),
	addr = PosMapping::dummy(),
	storage = 1
});
