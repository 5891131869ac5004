//! Demonstrations of known defects that are recorded, not repaired: findings NAME exits with 0 if ser_raw does
//! what the property says, with 1 (or dies) if it does not.

use std::alloc::{GlobalAlloc, Layout, System};

use ser_raw::{pos::Addr, storage::*, CompleteSerializer, Serialize, Serializer};

/// Every block that is resized goes to a place where none has been
struct Moving;
unsafe impl GlobalAlloc for Moving {
	unsafe fn alloc(&self, l: Layout) -> *mut u8 {
		System.alloc(l)
	}
	unsafe fn dealloc(&self, _: *mut u8, _: Layout) {}
}
#[global_allocator]
static ALLOC: Moving = Moving;

type Buf = AlignedVec<16, 16, 8, 0x7fff_ffff_ffff_fff0>;
type Ser = CompleteSerializer<16, 16, 8, 0x7fff_ffff_ffff_fff0, Buf>;

#[repr(C)]
struct Twice {
	ptr: usize,
	x: u64,
	y: u64,
}
impl<S: Serializer> Serialize<S> for Twice {
	fn serialize_data(&self, ser: &mut S) {
		ser.push(&self.x, S::Addr::from_ref(&self.ptr));
		ser.push(&self.y, S::Addr::from_ref(&self.ptr));
	}
}

#[repr(C)]
struct Cleared {
	ptr: usize,
	x: u64,
}
impl<S: Serializer> Serialize<S> for Cleared {
	fn serialize_data(&self, ser: &mut S) {
		ser.push(&self.x, S::Addr::from_ref(&self.ptr));
		ser.overwrite_with(|ser| unsafe { ser.overwrite(S::Addr::from_ref(&self.ptr), &0usize) });
	}
}

fn main() {
	let name = std::env::args().nth(1).unwrap();
	let fine = match name.as_str() {
		"pointer-pushed-twice" => {
			let mut ser = Ser::new();
			let pos = ser.serialize_value(&Twice { ptr: 0, x: 1, y: 2 });
			ser.push_raw_slice(&[0u8; 500]);
			let out = ser.finalize();
			let t: &Twice = unsafe { out.read(pos) };
			// x is behind the value, y behind x
			t.ptr == out.as_ptr() as usize + pos + 24 + 8
		}
		"pointer-overwritten" => {
			let mut ser = Ser::new();
			let pos = ser.serialize_value(&Cleared { ptr: 0, x: 1 });
			ser.push_raw_slice(&[0u8; 500]);
			let out = ser.finalize();
			let t: &Cleared = unsafe { out.read(pos) };
			t.ptr == 0
		}
		"storage-released-while-serializing" => {
			let mut ser = Ser::new();
			ser.serialize_value(&Box::new(1u64));
			ser.storage_mut().clear();
			ser.storage_mut().shrink_to_fit();
			let out = ser.finalize();
			out.capacity() == 0
		}
		"storage-cleared-while-serializing" => {
			let mut ser = Ser::new();
			ser.serialize_value(&Box::new(1u64));
			ser.storage_mut().clear();
			let bytes = [7u8; 500];
			let pos = ser.push_raw_slice(&bytes);
			let out = ser.finalize();
			unsafe { *out.read::<[u8; 500]>(pos) == bytes }
		}
		_ => panic!("no such finding"),
	};
	std::process::exit(if fine { 0 } else { 1 });
}
