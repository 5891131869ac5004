//! Serializers made with the derive macro

use ser_raw::pos::{PosMapping, Ptrs};
use ser_raw::storage::{AlignedVec, Storage};
use ser_raw::Serializer;
use std::borrow::BorrowMut;

/// As a user would
macro_rules! derived {
	($name:ident, $ty:ident, { $($(#[$a:meta])* $f:ident: $t:ty = $e:expr),* }) => {
		#[derive(Serializer)]
		#[ser_type($ty)]
		pub struct $name<
			const SA: usize,
			const MVA: usize,
			const VA: usize,
			const MAX: usize,
			B: BorrowMut<AlignedVec<SA, MVA, VA, MAX>>,
		> {
			$($(#[$a])* $f: $t,)*
			#[ser_storage(AlignedVec<SA, MVA, VA, MAX>)]
			storage: B,
		}
		impl<const SA: usize, const MVA: usize, const VA: usize, const MAX: usize, B: BorrowMut<AlignedVec<SA, MVA, VA, MAX>>>
			$name<SA, MVA, VA, MAX, B>
		{
			pub fn from_storage(storage: B) -> Self {
				Self { $($f: $e,)* storage }
			}
		}
		impl<const SA: usize, const MVA: usize, const VA: usize, const MAX: usize>
			$name<SA, MVA, VA, MAX, AlignedVec<SA, MVA, VA, MAX>>
		{
			pub fn new() -> Self {
				Self::from_storage(AlignedVec::new())
			}
			pub fn with_capacity(n: usize) -> Self {
				Self::from_storage(AlignedVec::with_capacity(n))
			}
		}
	};
}
derived!(DPure, pure_copy, {});
derived!(DTrack, pos_tracking, { #[ser_pos_mapping] m: PosMapping = PosMapping::dummy() });
derived!(DOffset, ptr_offset, { #[ser_pos_mapping] m: PosMapping = PosMapping::dummy() });
derived!(DComplete, complete, {
	#[ser_pos_mapping] m: PosMapping = PosMapping::dummy(),
	#[ser_ptrs] ptrs: Ptrs = Ptrs::new()
});

