// What operations cost (C21): which nodes they access, how often, and how
// often they compare.  Over the storage that counts accesses.
use super::common::*;
use super::nav::{addr, first_leaf, last_leaf, m_next, m_next_back, m_prev, m_prev_front};
use super::step::hand_back;
use super::sto::Arena;
use core::cmp::Ordering;
use core::mem::{forget, ManuallyDrop};
use raw_btree::RawBTree;

const FAR: u8 = 0;
const CHILD: u8 = 1; // child of a path node or of one beside it
const BESIDE: u8 = 2; // neighbour of a path node, under the same parent
const ON: u8 = 3; // on the path
static mut NEAR: [u8; NO] = [FAR; NO];
static mut SEEN: [u16; NO] = [0; NO];
static mut STRAY: bool = false;
static mut CMPS: u64 = 0;

/// o and everything above it is on the path
unsafe fn path_to(mut o: usize) {
	loop {
		NEAR[o] = ON;
		if org(o).parent == NONE {
			break;
		}
		o = org(o).parent
	}
}
unsafe fn surroundings() {
	let mut o = 0;
	while o < NORG {
		if NEAR[o] == ON && org(o).parent != NONE {
			let (p, i) = (org(o).parent, org(o).pos as usize);
			if i > 0 && NEAR[child(p, i - 1)] == FAR {
				NEAR[child(p, i - 1)] = BESIDE
			}
			if i < org(p).nphys && NEAR[child(p, i + 1)] == FAR {
				NEAR[child(p, i + 1)] = BESIDE
			}
		}
		o += 1
	}
	o = 0;
	while o < NORG {
		if NEAR[o] >= BESIDE && !org(o).leaf {
			let mut j = 0;
			while j <= org(o).nphys {
				if NEAR[child(o, j)] == FAR {
					NEAR[child(o, j)] = CHILD
				}
				j += 1
			}
		}
		o += 1
	}
}
unsafe fn note<T: Lab>(a: &T) {
	CMPS += 1;
	let id = a.id() as usize;
	if id < NIDS {
		SEEN[owner(id).0] += 1
	} else {
		STRAY = true
	}
}
fn cmp2<T: Lab>(a: &T, b: &T) -> Ordering {
	unsafe { note(a) }
	a.key().cmp(&b.key())
}
fn cmp1<T: Lab>(a: &T, b: &u16) -> Ordering {
	unsafe { note(a) }
	a.key().cmp(b)
}
/// accesses to a node near the path, whatever its fill: generous, but no
/// function of the size of the tree
pub const NODE_MOST: u64 = 32;
unsafe fn within<T: Lab, S: Sto<T>>() {
	v_check(!STRAY, 67);
	let mut most = 0;
	let mut o = 0;
	while o < NORG {
		if ORG[o].ptr != 0 {
			let r = S::reads(node_id::<T, S>(o));
			v_check(r == 0 || NEAR[o] != FAR, 150);
			v_check(r <= NODE_MOST, 151);
			if r > most {
				most = r
			}
			if SEEN[o] > 0 {
				v_check(NEAR[o] == ON, 67);
				v_check(SEEN[o] as u64 <= org(o).cnt + 1, 68);
			}
		}
		o += 1
	}
	v_observe(CMPS);
	v_observe(most);
}
pub unsafe fn cost<T: Lab, S: Sto<T>>() {
	let h = par(P_HEIGHT) as usize;
	let op = par(P_OP);
	let mut t = make::<T, S>(h);
	MASK = 0;
	if h == 0 {
		return;
	}
	if op <= 1 {
		let q = any_key();
		let (hit, o, j) = oracle(q);
		v_cover(if hit { 1 } else { 2 });
		path_to(o);
		if hit && op == 1 && !org(o).leaf {
			// an item of a leaf takes its place
			path_to(last_leaf(child(o, j)));
			path_to(first_leaf(child(o, j + 1)))
		}
		surroundings();
		S::reset_reads();
		let r = if op == 0 { t.insert(cmp2, T::mk(q, NEWID)) } else { t.remove(cmp1, &q) };
		within::<T, S>();
		hand_back(r.map(ManuallyDrop::new));
		return;
	}
	if op <= 5 {
		let o = any_node(S_NODE);
		// 2: insert_at a position, 3: remove_at an item, 4: next item, 5: previous item
		let off = v_sym(S_OFF, 0, org(o).nphys as u64);
		v_assume(off < org(o).cnt + (op == 2) as u64);
		let off = v_concretize(off) as usize;
		v_cover(if org(o).leaf { 3 } else { 4 });
		let a = addr::<T, S>(o, off as i64);
		path_to(o);
		match op {
			2 => {
				if !org(o).leaf {
					path_to(last_leaf(child(o, off)))
				}
				surroundings();
				let q = gap_key(o, off);
				S::reset_reads();
				t.insert_at(Some(a), T::mk(q, NEWID));
				within::<T, S>()
			}
			3 => {
				if !org(o).leaf {
					path_to(last_leaf(child(o, off)));
					path_to(first_leaf(child(o, off + 1)))
				}
				surroundings();
				S::reset_reads();
				let r = t.remove_at(a);
				within::<T, S>();
				hand_back(r.map(|x| ManuallyDrop::new(x.0)));
			}
			_ => {
				if let Some((n, _)) = if op == 4 { m_next(o, off as i64) } else { m_prev(o, off as i64) } {
					path_to(n)
				}
				S::reset_reads();
				if op == 4 {
					t.next_item_address(a);
				} else {
					t.previous_item_address(a);
				}
				within::<T, S>()
			}
		}
		return;
	}
	if op >= 16 && op <= 18 {
		// 16: next back address, 17: previous front address, 18: at an item
		let o = any_node(S_NODE);
		let s = v_sym(S_OFF, 0, org(o).nphys as u64 + 1);
		v_assume(s <= org(o).cnt + 1);
		let off = v_concretize(s) as i64 - 1;
		if off == if op == 16 { -1 } else { org(o).cnt as i64 } || (op == 18 && off == -1) {
			v_stop()
		}
		let a = addr::<T, S>(o, off);
		path_to(o);
		if op < 18 {
			if let Some((n, _)) = if op == 16 { m_next_back(o, off) } else { m_prev_front(o, off) } {
				path_to(n)
			}
		}
		S::reset_reads();
		match op {
			16 => {
				t.next_back_address(a);
			}
			17 => {
				t.previous_front_address(a);
			}
			_ => {
				t.get_at(a);
				if let Some(x) = t.get_mut_at(a) {
					x.set(NEWID)
				}
				hand_back(Some(ManuallyDrop::new(t.replace_at(a, T::mk(0, NEWID)))));
			}
		}
		within::<T, S>();
		return;
	}
	match op {
		6 => {
			path_to(first_leaf(ROOT));
			S::reset_reads();
			t.first();
			t.first_mut();
			t.first_item_address();
			within::<T, S>()
		}
		7 => {
			path_to(last_leaf(ROOT));
			S::reset_reads();
			t.last();
			t.last_mut();
			within::<T, S>()
		}
		_ => {
			// whole traversals: every node a bounded number of times per item and child
			S::reset_reads();
			match op {
				8 => {
					let mut i = t.iter();
					while i.next().is_some() {}
				}
				9 => {
					let mut i = t.iter();
					while i.next_back().is_some() {}
				}
				10 => {
					let mut i = t.iter_mut();
					while i.next().is_some() {}
				}
				11 => {
					let mut i = t.iter_mut();
					while i.next_back().is_some() {}
				}
				12 => t.visit_from_leaves(|_| ()),
				13 => t.visit_from_leaves_mut(|_, _| ()),
				14 | 15 => {
					let mut i = ManuallyDrop::new(ManuallyDrop::take(&mut t).into_iter());
					while let Some(x) = if op == 14 { i.next() } else { i.next_back() } {
						forget(x)
					}
					ManuallyDrop::drop(&mut i)
				}
				_ => t.clear(),
			}
			let mut most = 0;
			let mut o = 0;
			while o < NORG {
				if ORG[o].ptr != 0 && in_tree(o) {
					let r = S::reads(node_id::<T, S>(o));
					let parts = org(o).cnt + if org(o).leaf { 0 } else { org(o).cnt + 1 };
					v_check(r <= PART_MOST * (parts + 2), 152);
					if r > most {
						most = r
					}
				}
				o += 1
			}
			v_observe(most)
		}
	}
}
pub const PART_MOST: u64 = 8;
#[no_mangle]
pub extern "C-unwind" fn h_cost() {
	unsafe { cost::<It, Arena<true>>() }
}
