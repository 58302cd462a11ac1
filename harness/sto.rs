// A node storage that checks how it is used (C09).  Identifiers are never
// used twice, so a stale one is always noticed; every instance only knows its
// own nodes.  With D the storage asks for explicit dropping, without it drops
// its nodes itself.
use super::common::*;
use core::mem::ManuallyDrop;
use raw_btree::storage::{Dropper, Storage};
use raw_btree::Node;

pub const SLOTS: usize = 512;
#[derive(Clone, Copy)]
struct Slot {
	state: u8, // 0 unused, 1 active, 2 released
	inst: u32,
	mem: *mut u8,
	gets: u32,
}
static mut SLOT: [Slot; SLOTS] = [Slot { state: 0, inst: 0, mem: core::ptr::null_mut(), gets: 0 }; SLOTS];
static mut NSLOT: usize = 0;
static mut ACTIVE: u64 = 0;
static mut INST: u32 = 100;
/// release_node and drop_node calls so far
pub static mut RELEASED: u64 = 0;
pub static mut DROPPED: u64 = 0;

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Id(u32);
// (far from small numbers: see `discover`)
fn id_of(slot: usize) -> Id {
	Id(slot as u32 * 5 + 40)
}
fn slot_of(i: Id) -> usize {
	((i.0 - 40) / 5) as usize
}
impl From<Id> for usize {
	fn from(i: Id) -> usize {
		i.0 as usize
	}
}

pub struct Arena<const D: bool> {
	inst: u32,
}
impl<const D: bool> Default for Arena<D> {
	fn default() -> Self {
		unsafe {
			INST += 7;
			Arena { inst: INST }
		}
	}
}
pub struct Drp<const D: bool> {
	inst: u32,
}
unsafe fn mine(id: Id, inst: u32, check: u32) -> usize {
	let s = slot_of(id);
	v_check(id.0 >= 40 && s < NSLOT, check);
	v_check(SLOT[s].state == 1 && SLOT[s].inst == inst, check);
	s
}
unsafe impl<T, const D: bool> Dropper<T, Arena<D>> for Drp<D> {
	unsafe fn drop_node(&mut self, id: Id) {
		v_check(D, 94);
		let s = mine(id, self.inst, 93);
		SLOT[s].state = 2;
		ACTIVE -= 1;
		DROPPED += 1;
		drop(Box::from_raw(SLOT[s].mem as *mut Node<T, Arena<D>>))
	}
}
unsafe impl<T, const D: bool> Storage<T> for Arena<D> {
	type Node = Id;
	type Dropper = Drp<D>;
	fn allocate_node(&mut self, node: Node<T, Self>) -> Id {
		unsafe {
			let s = NSLOT;
			v_check(s < SLOTS, 9);
			NSLOT += 1;
			SLOT[s] = Slot { state: 1, inst: self.inst, mem: Box::into_raw(Box::new(node)) as *mut u8, gets: 0 };
			ACTIVE += 1;
			id_of(s)
		}
	}
	unsafe fn release_node(&mut self, id: Id) -> Node<T, Self> {
		let s = mine(id, self.inst, 90);
		SLOT[s].state = 2;
		ACTIVE -= 1;
		RELEASED += 1;
		*Box::from_raw(SLOT[s].mem as *mut Node<T, Self>)
	}
	fn start_dropping(&self) -> Option<Drp<D>> {
		if D {
			Some(Drp { inst: self.inst })
		} else {
			None
		}
	}
	unsafe fn get(&self, id: Id) -> &Node<T, Self> {
		let s = mine(id, self.inst, 91);
		SLOT[s].gets += 1;
		&*(SLOT[s].mem as *const Node<T, Self>)
	}
	unsafe fn get_mut(&mut self, id: Id) -> &mut Node<T, Self> {
		let s = mine(id, self.inst, 92);
		SLOT[s].gets += 1;
		&mut *(SLOT[s].mem as *mut Node<T, Self>)
	}
}
impl<const D: bool> Drop for Arena<D> {
	fn drop(&mut self) {
		unsafe {
			if !D {
				// what the nodes hold is dropped with the storage; their type
				// is known to whoever allocated them
				FREE.unwrap()(self.inst)
			}
		}
	}
}
/// frees the nodes of an instance (the storage has no item type of its own)
pub static mut FREE: Option<unsafe fn(u32)> = None;
pub unsafe fn free_all<T, const D: bool>(inst: u32) {
	let mut s = 0;
	while s < NSLOT {
		if SLOT[s].state == 1 && SLOT[s].inst == inst {
			SLOT[s].state = 2;
			ACTIVE -= 1;
			drop(Box::from_raw(SLOT[s].mem as *mut Node<T, Arena<D>>))
		}
		s += 1
	}
}
impl<T, const D: bool> Sto<T> for Arena<D> {
	fn k(n: Id) -> usize {
		n.0 as usize
	}
	fn live() -> u64 {
		unsafe { ACTIVE }
	}
	fn alive(n: Id) -> bool {
		unsafe { n.0 >= 40 && slot_of(n) < NSLOT && SLOT[slot_of(n)].state == 1 }
	}
	unsafe fn raw(n: Id) -> *mut Node<T, Self> {
		SLOT[slot_of(n)].mem as *mut Node<T, Self>
	}
	unsafe fn here() -> ManuallyDrop<Self> {
		ManuallyDrop::new(Arena { inst: INST })
	}
	unsafe fn begin() {
		FREE = Some(free_all::<T, D>)
	}
	unsafe fn reads(n: Id) -> u64 {
		SLOT[slot_of(n)].gets as u64
	}
	unsafe fn reset_reads() {
		let mut s = 0;
		while s < NSLOT {
			SLOT[s].gets = 0;
			s += 1
		}
	}
	unsafe fn one_by_one() -> u64 {
		if D {
			0
		} else {
			RELEASED
		}
	}
}
type Yes = Arena<true>;
type No = Arena<false>;
macro_rules! both { ($($y:ident $n:ident $m:ident::$f:ident $(<$t:ty>)?;)*) => { $(
	#[no_mangle]
	pub extern "C-unwind" fn $y() { unsafe { super::$m::$f::<$($t,)? Yes>() } }
	#[no_mangle]
	pub extern "C-unwind" fn $n() { unsafe { super::$m::$f::<$($t,)? No>() } }
)* } }
both! {
	h_step_y h_step_n step::step<It>;
	h_nav_y h_nav_n nav::nav<It>;
	h_look_y h_look_n nav::look<It>;
	h_iter_y h_iter_n iter::borrowed<It>;
	h_into_y h_into_n iter::consume<It>;
	h_end_y h_end_n whole::end<It>;
	h_clone_y h_clone_n whole::clone<super::whole::Cl>;
	h_visit_y h_visit_n whole::visit<It>;
	h_valid_y h_valid_n whole::valid<It>;
	h_arb_y h_arb_n arb::arb<It>;
	h_fault_cmp_y h_fault_cmp_n fault::cmp_fault<It>;
	h_fault_drop_y h_fault_drop_n fault::drop_fault<It>;
	h_fault_clone_y h_fault_clone_n fault::clone_fault;
	h_fault_visit_y h_fault_visit_n fault::visit_fault<It>;
}
