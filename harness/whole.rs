// Operations on whole trees: clear, forget, drop, clone, the visitors and the
// validator (C03, C10, C15, C16).
use super::common::*;
use super::iter::{count_nodes, sequence, NODES_IN, NSEQ, SEQ};
use core::cmp::Ordering;
use core::mem::{forget, ManuallyDrop};
use raw_btree::node::LeafNode;
use raw_btree::storage::BoxStorage;
use raw_btree::{Node, RawBTree};

/// the tree is empty and usable as new
pub unsafe fn as_new<T: Lab, S: Sto<T>>(t: &mut RawBTree<T, S>) {
	v_check(t.is_empty() && t.len() == 0 && t.root().is_none(), 80);
	v_check(t.first().is_none() && t.last().is_none() && t.iter().next().is_none(), 80);
	let live = S::live();
	let mut k = 0;
	while k < 3 {
		v_check(t.insert(cmp_items, T::mk(k * 7 % 5 + 1, NEWID + k)).is_none(), 81);
		k += 1
	}
	v_check(t.len() == 3 && !t.is_empty(), 81);
	// 1, 3, 5 by construction (0*7%5+1, 1*7%5+1, 2*7%5+1)
	let mut it = t.iter();
	v_check(it.next().map(|i| i.key()) == Some(1), 81);
	v_check(it.next().map(|i| i.key()) == Some(3), 81);
	v_check(it.next().map(|i| i.key()) == Some(5), 81);
	v_check(it.next().is_none(), 81);
	let r = t.remove(cmp_key, &3).map(|i| {
		let id = i.id();
		forget(i);
		id
	});
	v_check(r == Some(NEWID + 1) && t.len() == 2, 81);
	t.forget();
	v_check(S::live() == live, 35);
}

pub unsafe fn each_dropped<T: Lab>(n: usize, times: u8) {
	if !T::TRACKED {
		return;
	}
	let mut k = 0;
	while k < n {
		v_check(DROPS[SEQ[k] as usize] == times, if times == 0 { 31 } else { 34 });
		k += 1
	}
	v_check(TDROPS == times as u64 * n as u64, if times == 0 { 31 } else { 34 });
}

pub unsafe fn end<T: Lab, S: Sto<T>>() {
	let h = par(P_HEIGHT) as usize;
	EXACT = true;
	let mut t = make::<T, S>(h);
	let n = sequence();
	let nodes = if h > 0 { count_nodes(ROOT) } else { 0 } as u64;
	let before = S::one_by_one();
	match par(P_OP) {
		0 => {
			t.clear();
			each_dropped::<T>(n, 1);
			v_check(S::live() == LIVE0 - nodes, 32);
			as_new::<T, S>(&mut t);
			// clearing again destroys nothing more
			let d = TDROPS;
			t.clear();
			v_check(TDROPS == d && t.is_empty() && t.len() == 0, 80);
		}
		1 => {
			t.forget();
			each_dropped::<T>(n, 0);
			v_check(S::live() == LIVE0 - nodes, 32);
			as_new::<T, S>(&mut t);
			each_dropped::<T>(n, 0);
		}
		_ => {
			ManuallyDrop::drop(&mut t);
			each_dropped::<T>(n, 1);
			v_check(S::live() == LIVE0 - nodes, 32);
		}
	}
	// a storage that drops its nodes itself is not asked to do it one by one
	v_check(S::one_by_one() == before, 95);
	v_observe(n as u64);
}
#[no_mangle]
pub extern "C-unwind" fn h_end() {
	unsafe { end::<It, BoxStorage>() }
}
#[no_mangle]
pub extern "C-unwind" fn h_end_big() {
	unsafe { end::<Big, BoxStorage>() }
}
#[no_mangle]
pub extern "C-unwind" fn h_end_pod() {
	unsafe { end::<Pod, BoxStorage>() }
}

// ---------------------------------------------------------------- clone
pub static mut CLONED: [u8; NID] = [0; NID];
pub static mut TCLONED: u64 = 0;
pub static mut CLONE_PANICS: bool = false;
/// identity of a clone: the same label, one generation later
pub struct Cl {
	pub key: u16,
	pub id: u16,
	pub gen: u8,
}
/// an item whose clone is more than a copy, or another one without destructor
pub trait Gen: Lab + Clone {
	fn gen(&self) -> u8;
}
impl Gen for Cl {
	fn gen(&self) -> u8 {
		self.gen
	}
}
pub struct ClPod {
	pub key: u16,
	pub id: u16,
	pub gen: u8,
}
impl Lab for ClPod {
	const TRACKED: bool = false;
	fn mk(key: u16, id: u16) -> ClPod {
		ClPod { key, id, gen: 0 }
	}
	fn key(&self) -> u16 {
		self.key
	}
	fn id(&self) -> u16 {
		self.id
	}
	fn set(&mut self, x: u16) {
		self.id = x
	}
}
impl Gen for ClPod {
	fn gen(&self) -> u8 {
		self.gen
	}
}
impl Clone for ClPod {
	fn clone(&self) -> ClPod {
		unsafe {
			if CLONE_PANICS {
				user_call()
			}
			v_check((self.id as usize) < NID && self.gen == 0, C_CORRUPT);
			CLONED[self.id as usize] += 1;
			TCLONED += 1;
		}
		ClPod { key: self.key, id: self.id, gen: 1 }
	}
}
pub static mut GDROPS: [[u8; NID]; 2] = [[0; NID]; 2];
pub static mut GTOTAL: [u64; 2] = [0; 2];
impl Drop for Cl {
	fn drop(&mut self) {
		unsafe {
			v_check((self.id as usize) < NID && self.gen < 2, C_CORRUPT);
			let g = self.gen as usize;
			GDROPS[g][self.id as usize] += 1;
			GTOTAL[g] += 1;
			v_check(GDROPS[g][self.id as usize] == 1, C_DOUBLE);
			if DROP_PANICS {
				user_call()
			}
		}
	}
}
impl Lab for Cl {
	fn mk(key: u16, id: u16) -> Cl {
		Cl { key, id, gen: 0 }
	}
	fn key(&self) -> u16 {
		self.key
	}
	fn id(&self) -> u16 {
		self.id
	}
	fn set(&mut self, x: u16) {
		self.id = x
	}
}
impl Clone for Cl {
	fn clone(&self) -> Cl {
		unsafe {
			if CLONE_PANICS {
				user_call()
			}
			v_check((self.id as usize) < NID && self.gen == 0, C_CORRUPT);
			v_check(GDROPS[0][self.id as usize] == 0, C_DROPPED);
			CLONED[self.id as usize] += 1;
			TCLONED += 1;
		}
		Cl { key: self.key, id: self.id, gen: 1 }
	}
}
/// the clone of the subtree of node o
unsafe fn twin<T: Gen, S: Sto<T>>(o: usize, id: S::Node, parent: Option<S::Node>) {
	v_check(S::alive(id), C_DEADNODE);
	let n = node::<T, S>(id);
	// no node of the original is shared
	let mut x = 0;
	while x < NORG {
		v_check(ORG[x].ptr != S::k(id), 84);
		x += 1
	}
	let cnt = org(o).cnt as usize;
	v_check(n.item_count() == cnt, 82);
	v_check(n.child_count() == if org(o).leaf { 0 } else { cnt + 1 }, 82);
	let okp = match (n.parent(), parent) {
		(None, None) => true,
		(Some(a), Some(b)) => same::<T, S>(a, b),
		_ => false,
	};
	v_check(okp, C_PARENT);
	let mut j = 0;
	while j < cnt {
		if !org(o).leaf {
			twin::<T, S>(child(o, j), n.child_id(j), Some(id))
		}
		match n.item(j.into()) {
			Some(it) => {
				let w = item_id(o, j);
				v_check(it.id() as usize == w && it.key() == key_of(w) && it.gen() == 1, 83);
			}
			None => v_check(false, C_MALFORMED),
		}
		j += 1
	}
	if !org(o).leaf {
		twin::<T, S>(child(o, cnt), n.child_id(cnt), Some(id))
	}
}
pub unsafe fn clone_reset() {
	GDROPS = [[0; NID]; 2];
	GTOTAL = [0; 2];
	CLONED = [0; NID];
	TCLONED = 0;
}
unsafe fn gtotal<T: Lab>(a: u64, b: u64) -> bool {
	!T::TRACKED || (GTOTAL[0] == a && GTOTAL[1] == b)
}
pub unsafe fn clone<T: Gen, S: Sto<T>>() {
	let h = par(P_HEIGHT) as usize;
	EXACT = true;
	let mut t = make::<T, S>(h);
	clone_reset();
	let n = sequence();
	let nodes = if h > 0 { count_nodes(ROOT) } else { 0 } as u64;
	let op = par(P_OP);
	let mut c = ManuallyDrop::new((*t).clone());
	v_check(c.len() == n && t.len() == n, 82);
	v_check(TCLONED == n as u64 && gtotal::<T>(0, 0), 85);
	let mut k = 0;
	while k < n {
		v_check(CLONED[SEQ[k] as usize] == 1, 85);
		k += 1
	}
	v_check(S::live() == LIVE0 + nodes, 32);
	match c.root() {
		Some(r) => {
			v_check(h > 0, 82);
			twin::<T, S>(ROOT, r, None)
		}
		None => v_check(h == 0, 82),
	}
	if v_is_engine() && h > 0 {
		v_check(chunk::<T, S>(ROOT), 59);
	}
	// independent: what happens to one does not happen to the other
	match op {
		0 => {
			ManuallyDrop::drop(&mut c);
			v_check(gtotal::<T>(0, n as u64), 34);
			v_check(S::live() == LIVE0, 32);
			if v_is_engine() && h > 0 {
				v_check(chunk::<T, S>(ROOT), 59);
			}
			ManuallyDrop::drop(&mut t);
			v_check(gtotal::<T>(n as u64, n as u64), 34);
			v_check(S::live() == LIVE0 - nodes, 32);
		}
		1 => {
			ManuallyDrop::drop(&mut t);
			v_check(gtotal::<T>(n as u64, 0), 34);
			v_check(S::live() == LIVE0, 32);
			// the clone is still there, and iterates alone
			let mut it = c.iter();
			k = 0;
			while k < n {
				v_check(it.next().map(|i| i.id()) == Some(SEQ[k]), 83);
				k += 1
			}
			v_check(it.next().is_none(), 83);
			ManuallyDrop::drop(&mut c);
			v_check(gtotal::<T>(n as u64, n as u64), 34);
			v_check(S::live() == LIVE0 - nodes, 32);
		}
		_ => {
			// a removal in the clone at an arbitrary rank
			if n == 0 {
				return;
			}
			let r = v_concretize(v_sym(S_AUX, 0, n as u64 - 1)) as usize;
			let q = key_of(SEQ[r] as usize);
			match c.remove(cmp_key, &q) {
				Some(i) => {
					v_check(i.id() == SEQ[r] && i.gen() == 1, 43);
					forget(i)
				}
				None => v_check(false, 43),
			}
			v_check(c.len() == n - 1 && t.len() == n, 17);
			v_check(gtotal::<T>(0, 0), C_DROPPED);
			let mut it = c.iter();
			k = 0;
			while k < n {
				if k != r {
					v_check(it.next().map(|i| i.id()) == Some(SEQ[k]), 83);
				}
				k += 1
			}
			if v_is_engine() {
				v_check(chunk::<T, S>(ROOT), 59);
			}
		}
	}
	v_observe(n as u64);
}
#[no_mangle]
pub extern "C-unwind" fn h_clone() {
	unsafe { clone::<Cl, BoxStorage>() }
}
#[no_mangle]
pub extern "C-unwind" fn h_clone_pod() {
	unsafe { clone::<ClPod, BoxStorage>() }
}

// ---------------------------------------------------------------- visitors
static mut VISIT: [usize; NO] = [0; NO];
static mut NVISIT: usize = 0;
static mut BADVISIT: bool = false;
unsafe fn plan_visit(o: usize) {
	if !org(o).leaf {
		let mut j = 0;
		while j <= org(o).cnt as usize {
			plan_visit(child(o, j));
			j += 1
		}
	}
	VISIT[NVISIT] = o;
	NVISIT += 1;
}
pub unsafe fn visit<T: Lab, S: Sto<T>>() {
	let h = par(P_HEIGHT) as usize;
	EXACT = true;
	let mut t = make::<T, S>(h);
	NVISIT = 0;
	if h > 0 {
		plan_visit(ROOT)
	}
	let mut k = 0;
	let step = |k: usize, id: S::Node| {
		v_check(k < NVISIT, 86);
		if k >= NVISIT {
			v_stop()
		}
		v_check(same::<T, S>(id, node_id::<T, S>(VISIT[k])), 86);
	};
	let mut total = NVISIT;
	match par(P_OP) {
		0 => t.visit_from_leaves(|id| {
			step(k, id);
			k += 1
		}),
		1 => t.visit_from_leaves_mut(|id, n| {
			step(k, id);
			v_check(n as *mut Node<T, S> as usize == org(VISIT[k]).mem, 87);
			v_check(n.item_count() == org(VISIT[k]).cnt as usize, 87);
			k += 1
		}),
		_ => {
			// below one node only
			if h == 0 {
				return;
			}
			let o = any_node(S_NODE);
			NVISIT = 0;
			plan_visit(o);
			NVISIT -= 1;
			total = NVISIT;
			let mut s = S::here();
			match par(P_OP) {
				2 => node::<T, S>(node_id::<T, S>(o)).visit_from_leaves(&*s, |id| {
					step(k, id);
					k += 1
				}),
				3 => node::<T, S>(node_id::<T, S>(o)).visit_from_leaves_mut(&mut *s, |id, n| {
					step(k, id);
					v_check(n as *mut Node<T, S> as usize == org(VISIT[k]).mem, 87);
					k += 1
				}),
				4 => node::<T, S>(node_id::<T, S>(o)).visit_from_leaves_with(&*s, &mut |id| {
					step(k, id);
					k += 1
				}),
				_ => node::<T, S>(node_id::<T, S>(o)).visit_from_leaves_mut_with(&mut *s, &mut |id, n| {
					step(k, id);
					v_check(n as *mut Node<T, S> as usize == org(VISIT[k]).mem, 87);
					k += 1
				}),
			}
		}
	}
	v_check(k == total, 86);
	v_check(TDROPS == 0, C_DROPPED);
	if h > 0 && v_is_engine() {
		v_check(chunk::<T, S>(ROOT), 59)
	}
	v_observe(k as u64);
}
#[no_mangle]
pub extern "C-unwind" fn h_visit() {
	unsafe { visit::<It, BoxStorage>() }
}

// ---------------------------------------------------------------- validator
// Only compiled with debug assertions, like the validator itself.
#[cfg(not(release))]
pub unsafe fn valid<T: Lab, S: Sto<T>>() {
	let h = par(P_HEIGHT) as usize;
	let op = par(P_OP);
	let mut t = make::<T, S>(h);
	let mut expect = op != 0;
	// an empty internal root is reachable only by hand
	if op != 0 && h == 0 {
		return;
	}
	let o = if op != 0 { any_node(S_NODE) } else { 0 };
	let me = if op != 0 { node_mut::<T, S>(node_id::<T, S>(o)) as *mut Node<T, S> } else { core::ptr::null_mut() };
	let n = if op != 0 { org(o).cnt as usize } else { 0 };
	match op {
		0 => (),
		1 => {
			// two neighbours of one node in the wrong order, or equal
			if n < 2 {
				v_stop()
			}
			let j = v_concretize(v_sym(S_OFF, 0, n as u64 - 2)) as usize;
			let a = (*me).item(j.into()).unwrap().key();
			let b = (*me).item((j + 1).into()).unwrap().key();
			// any key at least as great as its right neighbour's
			let k = v_sym(S_KEY, b as u64, 0xfffe) as u16;
			set_key::<T, S>(me, j, k);
			let _ = a;
		}
		2 => {
			// an item at or beyond the separator on its right
			let p = org(o).parent;
			if p == NONE {
				v_stop()
			}
			// the nearest separator above
			match super::nav::climb_right(o) {
				Some((q, x)) => {
					let k = v_sym(S_KEY, key_of(item_id(q, x as usize)) as u64, 0xfffe) as u16;
					set_key::<T, S>(me, n - 1, k);
				}
				None => v_stop(),
			}
		}
		3 => {
			match super::nav::climb_left(o) {
				Some((q, x)) => {
					let k = v_sym(S_KEY, 0, key_of(item_id(q, x as usize)) as u64) as u16;
					set_key::<T, S>(me, 0, k);
				}
				None => v_stop(),
			}
		}
		4 => {
			// too few items in a node other than the root
			if o == ROOT {
				v_stop()
			}
			let keep = v_concretize(v_sym(S_AUX, if org(o).leaf { 0 } else { 1 }, MINI as u64 - 1)) as usize;
			let mut k = n;
			while k > keep {
				drop_last::<T, S>(me);
				k -= 1
			}
		}
		5 => {
			// too many items in a node other than the root
			if o == ROOT {
				v_stop()
			}
			if org(o).leaf {
				// labels of the unused slots, and of the gap behind them
				let mut k = n;
				while k <= LCAP {
					let q = if k < LCAP { key_of(org(o).base + k) } else { 2 * org(o).end as u16 };
					(*me).push_right(T::mk(q, NEWID), None);
					k += 1
				}
			} else {
				if org(child(o, 0)).leaf == false {
					v_stop()
				}
				let me_id = node_id::<T, S>(o);
				let leaf = |a: usize| {
					let mut l = LeafNode::from_item(Some(me_id), T::mk(key_of(a), NEWID));
					l.push_right(T::mk(key_of(a + 1), NEWID));
					l.push_right(T::mk(key_of(a + 2), NEWID));
					alloc::<T, S>(Node::Leaf(l))
				};
				let mut k = n;
				while k < ICAP {
					let c = leaf(org(child(o, k + 1)).base);
					(*me).push_right(T::mk(key_of(item_id(o, k)), NEWID), Some(c));
					k += 1
				}
				// one more, with labels of unused slots of the last leaf
				let l = child(o, ICAP);
				let used = if n < ICAP { 3 } else { v_concretize(org(l).cnt) as usize };
				if used > 4 {
					v_stop()
				}
				let c = leaf(org(l).base + used + 1);
				(*me).push_right(T::mk(key_of(org(l).base + used), NEWID), Some(c));
			}
			v_cover(if org(o).leaf { 3 } else { 4 });
		}
		6 => {
			// a wrong parent link
			let wrong = v_sym(S_AUX, 0, NORG as u64);
			let w = v_concretize(wrong) as usize;
			if w == NORG {
				v_assume(o != ROOT);
				(*me).set_parent(None)
			} else {
				v_assume(w != org(o).parent && org(w).ptr != 0);
				// any node, or in tall trees the near ones
				v_assume(h < 3 || w == o || w < 2 || w == o + 1 || (org(o).parent != NONE && (w == child(org(o).parent, 0) || w == child(org(o).parent, 1))));
				(*me).set_parent(Some(node_id::<T, S>(w)))
			}
		}
		7 => {
			// a leaf where a subtree should be
			if org(o).leaf || o == ROOT {
				v_stop()
			}
			let mut l = LeafNode::from_item((*me).parent(), T::mk(key_of(item_id(o, 0)), NEWID));
			l.push_right(T::mk(key_of(item_id(o, 1)), NEWID));
			l.push_right(T::mk(key_of(item_id(o, 2)), NEWID));
			forget(core::mem::replace(&mut *me, Node::Leaf(l)));
			expect = org(org(o).parent).cnt > 0;
		}
		_ => {
			// an internal root without items
			if o != ROOT || org(o).leaf {
				v_stop()
			}
			let mut k = n;
			while k > 0 {
				drop_last::<T, S>(me);
				k -= 1
			}
		}
	}
	MASK = 0;
	let tr: &RawBTree<T, S> = &t;
	let failed = try_(|| tr.validate(cmp_items::<T>));
	v_check(failed == expect, if expect { 89 } else { 88 });
	v_check(TDROPS == 0, C_DROPPED);
	v_observe(failed as u64);
}
/// rewrites the label of an item in place
unsafe fn set_key<T: Lab, S: Sto<T>>(n: *mut Node<T, S>, j: usize, k: u16) {
	let it = (*n).item_mut(j.into()).unwrap();
	let id = it.id();
	forget(core::mem::replace(it, T::mk(k, id)));
}
/// takes the last item (and child) out of a node
unsafe fn drop_last<T: Lab, S: Sto<T>>(n: *mut Node<T, S>) {
	match &mut *n {
		Node::Leaf(l) => forget(l.remove_last()),
		Node::Internal(i) => {
			let k = i.item_count() - 1;
			let (_, it, _) = i.remove(k.into());
			forget(it)
		}
	}
}
#[cfg(release)]
pub unsafe fn valid<T: Lab, S: Sto<T>>() {}
#[no_mangle]
pub extern "C-unwind" fn h_valid() {
	unsafe { valid::<It, BoxStorage>() }
}
