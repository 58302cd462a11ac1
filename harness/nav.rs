// Address navigation (C07) and lookups with in-place access (C08, C17).
use super::common::*;
use super::step::hand_back;
use core::cmp::Ordering;
use raw_btree::storage::BoxStorage;
use raw_btree::{Address, Offset, RawBTree};

// ---------------------------------------------------------------- the model
// Positions are (node, offset) with offset -1 for "before".
pub type Pos = Option<(usize, i64)>;

pub unsafe fn climb_right(mut o: usize) -> Pos {
	while org(o).parent != NONE {
		let p = org(o).parent;
		if org(o).pos < org(p).cnt {
			return Some((p, org(o).pos as i64));
		}
		o = p
	}
	None
}
pub unsafe fn climb_left(mut o: usize) -> Pos {
	while org(o).parent != NONE {
		let p = org(o).parent;
		if org(o).pos > 0 {
			return Some((p, org(o).pos as i64 - 1));
		}
		o = p
	}
	None
}
pub unsafe fn first_leaf(mut o: usize) -> usize {
	while !org(o).leaf {
		o = child(o, 0)
	}
	o
}
pub unsafe fn last_leaf(mut o: usize) -> usize {
	while !org(o).leaf {
		o = child(o, v_concretize(org(o).cnt) as usize)
	}
	o
}
pub unsafe fn cnt(o: usize) -> i64 {
	org(o).cnt as i64
}
pub unsafe fn m_next(o: usize, off: i64) -> Pos {
	if off == -1 {
		return Some((first_leaf(o), 0));
	}
	if off >= cnt(o) {
		return climb_right(o);
	}
	if org(o).leaf {
		if off + 1 < cnt(o) {
			Some((o, off + 1))
		} else {
			climb_right(o)
		}
	} else {
		Some((first_leaf(child(o, off as usize + 1)), 0))
	}
}
pub unsafe fn m_prev(o: usize, off: i64) -> Pos {
	if off == -1 {
		return climb_left(o);
	}
	if org(o).leaf {
		if off > 0 {
			Some((o, off - 1))
		} else {
			climb_left(o)
		}
	} else {
		let l = last_leaf(child(o, off as usize));
		Some((l, v_concretize(org(l).cnt) as i64 - 1))
	}
}
/// the order of the front addresses: before a node, then its children and
/// items alternating
pub unsafe fn m_prev_front(o: usize, off: i64) -> Pos {
	if off == -1 {
		if org(o).parent == NONE {
			return None;
		}
		return Some((org(o).parent, org(o).pos as i64 - 1));
	}
	if org(o).leaf {
		return Some((o, off - 1));
	}
	let l = last_leaf(child(o, off as usize));
	Some((l, v_concretize(org(l).cnt) as i64 - 1))
}
/// the order of the back addresses: a node's children and items alternating,
/// then the address after its last item
pub unsafe fn m_next_back(o: usize, off: i64) -> Pos {
	if off == cnt(o) {
		if org(o).parent == NONE {
			return None;
		}
		return Some((org(o).parent, org(o).pos as i64));
	}
	if org(o).leaf {
		return Some((o, off + 1));
	}
	Some((first_leaf(child(o, (off + 1) as usize)), 0))
}
unsafe fn m_leaf(o: usize, off: i64) -> Pos {
	if org(o).leaf {
		return Some((o, off));
	}
	let l = last_leaf(child(o, off as usize));
	Some((l, v_concretize(org(l).cnt) as i64))
}

pub fn offset(off: i64) -> Offset {
	if off < 0 {
		Offset::before()
	} else {
		Offset::from(off as usize)
	}
}
pub unsafe fn addr<T: Lab, S: Sto<T>>(o: usize, off: i64) -> Address<S::Node> {
	Address::new(node_id::<T, S>(o), offset(off))
}
pub unsafe fn is_at<T: Lab, S: Sto<T>>(a: Option<Address<S::Node>>, p: Pos) -> bool {
	match (a, p) {
		(None, None) => true,
		(Some(a), Some((o, off))) => {
			let ok = match a.offset.value() {
				Some(v) => v as i64 == off,
				None => off == -1,
			};
			v_observe(match a.offset.value() {
				Some(v) => v as u64,
				None => 99,
			});
			ok && same::<T, S>(a.node, node_id::<T, S>(o))
		}
		_ => false,
	}
}

pub const N_NEXT: u64 = 0;
pub const N_PREV: u64 = 1;
pub const N_FRONT: u64 = 2;
pub const N_BACK: u64 = 3;
pub const N_NORM: u64 = 4;
pub const N_LEAF: u64 = 5;
pub const N_GET: u64 = 6;
pub const N_ITEM_OR_BACK: u64 = 7;
pub const N_ENDS: u64 = 8;

pub unsafe fn nav<T: Lab, S: Sto<T>>() {
	let h = par(P_HEIGHT) as usize;
	let op = par(P_OP);
	let t = make::<T, S>(h);
	if op == N_ENDS {
		let f = t.first_item_address();
		if h == 0 {
			v_check(f.is_none() && t.root().is_none(), 50);
		} else {
			v_check(is_at::<T, S>(f, Some((first_leaf(ROOT), 0))), 50);
			v_check(t.root().map(S::k) == Some(S::k(node_id::<T, S>(ROOT))), 50);
		}
		return;
	}
	if h == 0 {
		return;
	}
	let o = any_node(S_NODE);
	let s = v_sym(S_OFF, 0, org(o).nphys as u64 + 1);
	v_assume(s <= org(o).cnt + 1);
	let off = v_concretize(s) as i64 - 1;
	let end = off == cnt(o);
	if off >= 0 && !end {
		v_cover(20)
	} else {
		v_cover(21)
	}
	let a = addr::<T, S>(o, off);
	let (got, want, id) = match op {
		N_NEXT => (t.next_item_address(a), m_next(o, off), 51),
		N_PREV => (t.previous_item_address(a), m_prev(o, off), 52),
		N_FRONT => {
			if end {
				// not a front address: reaches the front address before it
				if org(o).leaf {
					(t.previous_front_address(a), Some((o, off - 1)), 53)
				} else {
					let l = last_leaf(child(o, off as usize));
					(t.previous_front_address(a), Some((l, v_concretize(org(l).cnt) as i64 - 1)), 53)
				}
			} else {
				(t.previous_front_address(a), m_prev_front(o, off), 53)
			}
		}
		N_BACK => (t.next_back_address(a), m_next_back(o, off), 54),
		N_NORM => (t.normalize(a), if off >= 0 && !end { Some((o, off)) } else { m_next(o, off) }, 55),
		N_LEAF => {
			if off == -1 {
				v_stop()
			}
			(Some(t.leaf_address(a)), m_leaf(o, off), 56)
		}
		N_GET => {
			let want = if off >= 0 && !end { item_id(o, off as usize) as u16 } else { MISSING };
			let got = match t.get_at(a) {
				Some(it) => it.id(),
				None => MISSING,
			};
			v_check(got == want, 57);
			v_observe(got as u64);
			return;
		}
		_ => {
			let w = m_next(o, off);
			if w.is_none() && end {
				v_stop()
			}
			// after the last item: the back address following it
			(t.next_item_or_back_address(a), if w.is_none() { Some((o, off + 1)) } else { w }, 58)
		}
	};
	if want.is_none() {
		v_cover(22)
	} else if want.unwrap().0 != o {
		v_cover(23)
	} else {
		v_cover(24)
	}
	v_check(is_at::<T, S>(got, want), id);
	v_check(chunk::<T, S>(ROOT) || !v_is_engine(), 59);
}
#[no_mangle]
pub extern "C-unwind" fn h_nav() {
	unsafe { nav::<It, BoxStorage>() }
}

// ---------------------------------------------------------------- lookups
static mut CMPS: u64 = 0;
static mut PATH: [usize; 8] = [NONE; 8];
static mut SEEN: [u8; 8] = [0; 8];
static mut NPATH: usize = 0;
static mut STRAY: bool = false;
/// a comparison that records what it is asked about
fn cmp_rec<T: Lab>(a: &T, b: &u16) -> Ordering {
	unsafe {
		CMPS += 1;
		let id = a.id() as usize;
		if id < NIDS {
			let (o, _) = owner(id);
			let mut i = 0;
			while i < NPATH && PATH[i] != o {
				i += 1
			}
			if i < NPATH {
				SEEN[i] += 1
			} else {
				STRAY = true
			}
		} else {
			STRAY = true
		}
	}
	a.key().cmp(b)
}
pub unsafe fn look<T: Lab, S: Sto<T>>() {
	let h = par(P_HEIGHT) as usize;
	let op = par(P_OP);
	let mut t = make::<T, S>(h);
	let none = Expect { new: false, newkey: 0, gone: 0, goneid: MISSING, order: true };
	if op == 2 || op == 3 {
		// first, last, and writing through them
		if h == 0 {
			v_check(t.first().is_none() && t.last().is_none() && t.first_mut().is_none() && t.last_mut().is_none(), 60);
			return;
		}
		let o = if op == 2 { first_leaf(ROOT) } else { last_leaf(ROOT) };
		let j = if op == 2 { 0 } else { v_concretize(org(o).cnt) as usize - 1 };
		let id = item_id(o, j) as u16;
		let got = if op == 2 { t.first() } else { t.last() };
		v_check(got.map(|i| i.id()) == Some(id), 60);
		let m = if op == 2 { t.first_mut() } else { t.last_mut() };
		match m {
			Some(it) => {
				v_check(it.id() == id, 60);
				it.set(NEWID);
			}
			None => v_check(false, 60),
		}
		post::<T, S>(&t, &Expect { new: true, newkey: key_of(id as usize), gone: 1, goneid: id, order: true });
		return;
	}
	if op == 4 {
		// writing at an address
		if h == 0 {
			return;
		}
		let o = any_node(S_NODE);
		let s = v_sym(S_OFF, 0, org(o).nphys as u64 + 1);
		v_assume(s <= org(o).cnt + 1);
		let off = v_concretize(s) as i64 - 1;
		let hit = off >= 0 && off < cnt(o);
		let id = if hit { item_id(o, off as usize) as u16 } else { MISSING };
		v_cover(if hit { 1 } else { 2 });
		match t.get_mut_at(addr::<T, S>(o, off)) {
			Some(it) => {
				v_check(it.id() == id, 61);
				it.set(NEWID)
			}
			None => v_check(!hit, 61),
		}
		let e = if hit { Expect { new: true, newkey: key_of(id as usize), gone: 1, goneid: id, order: true } } else { none };
		post::<T, S>(&t, &e);
		return;
	}
	let q = any_key();
	let (hit, o, j) = if h > 0 { oracle(q) } else { (false, 0, 0) };
	v_cover(if hit { 1 } else { 2 });
	let id = if hit { item_id(o, j) as u16 } else { MISSING };
	if h > 0 {
		// the path from the root to where the key is or belongs
		NPATH = 0;
		let mut p = o;
		loop {
			PATH[NPATH] = p;
			NPATH += 1;
			if org(p).parent == NONE {
				break;
			}
			p = org(p).parent
		}
	}
	match op {
		0 => {
			S::reset_reads();
			let r = t.address_of(cmp_rec, &q);
			let calls = CMPS;
			path_only::<T, S>();
			if h == 0 {
				v_check(matches!(r, Err(None)), 62)
			} else {
				let (a, ok) = match r {
					Ok(a) => (Some(a), true),
					Err(a) => (a, false),
				};
				v_check(ok == hit, 62);
				v_check(is_at::<T, S>(a, Some((o, j as i64))), 63);
			}
			cost(calls);
			CMPS = 0;
			SEEN = [0; 8];
			S::reset_reads();
			let g = t.get(cmp_rec, &q).map(|i| i.id());
			path_only::<T, S>();
			v_check(g == if hit { Some(id) } else { None }, 64);
			cost(CMPS);
			v_check(h == 0 || chunk::<T, S>(ROOT) || !v_is_engine(), 59);
		}
		_ => {
			S::reset_reads();
			let r = t.get_mut(cmp_rec, &q);
			path_only::<T, S>();
			match r {
				Some(it) => {
					v_check(it.id() == id, 65);
					it.set(NEWID)
				}
				None => v_check(!hit, 65),
			}
			cost(CMPS);
			let e = if hit { Expect { new: true, newkey: key_of(id as usize), gone: 1, goneid: id, order: true } } else { none };
			post::<T, S>(&t, &e);
		}
	}
}
/// C17: no node off the path was read
unsafe fn path_only<T: Lab, S: Sto<T>>() {
	let mut o = 0;
	while o < NORG {
		if ORG[o].ptr != 0 && S::reads(node_id::<T, S>(o)) != 0 {
			let mut i = 0;
			while i < NPATH && PATH[i] != o {
				i += 1
			}
			v_check(i < NPATH, 69);
		}
		o += 1
	}
}
/// C17: only items of the nodes of one path are compared, and no more often
/// than a scan of those nodes would
unsafe fn cost(calls: u64) {
	v_check(!STRAY, 67);
	let mut i = 0;
	while i < NPATH {
		v_check(SEEN[i] as u64 <= org(PATH[i]).cnt + 1, 68);
		i += 1
	}
	v_observe(calls);
}
#[no_mangle]
pub extern "C-unwind" fn h_look() {
	unsafe { look::<It, BoxStorage>() }
}
