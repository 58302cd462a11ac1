// Histories from the empty tree against a sorted list.  Nothing here knows
// how trees look like: it covers what only a real history can produce.
use super::common::*;
use core::mem::ManuallyDrop;
use raw_btree::storage::BoxStorage;
use raw_btree::{Node, Offset, RawBTree};

const MAXN: usize = 220;
/// an item with a serial number: every one made is destroyed once
const SERS: usize = 2048;
static mut MADE: usize = 0;
static mut GONE: usize = 0;
static mut DEAD: [bool; SERS] = [false; SERS];
pub struct Hi {
	key: u16,
	id: u16,
	ser: u16,
}
impl Lab for Hi {
	fn mk(key: u16, id: u16) -> Hi {
		unsafe {
			let ser = MADE as u16;
			MADE += 1;
			Hi { key, id, ser }
		}
	}
	fn key(&self) -> u16 {
		self.key
	}
	fn id(&self) -> u16 {
		self.id
	}
	fn set(&mut self, x: u16) {
		self.id = x
	}
}
impl Clone for Hi {
	fn clone(&self) -> Hi {
		unsafe { v_check((self.ser as usize) < MADE && !DEAD[self.ser as usize], C_DROPPED) }
		Hi::mk(self.key, self.id)
	}
}
impl Drop for Hi {
	fn drop(&mut self) {
		unsafe {
			v_check((self.ser as usize) < MADE, C_CORRUPT);
			v_check(!DEAD[self.ser as usize], C_DOUBLE);
			DEAD[self.ser as usize] = true;
			GONE += 1
		}
	}
}
struct Model {
	n: usize,
	key: [u16; MAXN],
	id: [u16; MAXN],
}
impl Model {
	/// (found, where)
	fn find(&self, q: u16) -> (bool, usize) {
		// bisecting, so that few comparisons involve symbols
		let (mut a, mut b) = (0, self.n);
		while a < b {
			let m = (a + b) / 2;
			if self.key[m] < q {
				a = m + 1
			} else {
				b = m
			}
		}
		(a < self.n && self.key[a] == q, a)
	}
	fn insert(&mut self, at: usize, key: u16, id: u16) {
		let mut j = self.n;
		while j > at {
			self.key[j] = self.key[j - 1];
			self.id[j] = self.id[j - 1];
			j -= 1
		}
		self.key[at] = key;
		self.id[at] = id;
		self.n += 1
	}
	fn remove(&mut self, at: usize) {
		let mut j = at;
		while j + 1 < self.n {
			self.key[j] = self.key[j + 1];
			self.id[j] = self.id[j + 1];
			j += 1
		}
		self.n -= 1
	}
}
struct Shape {
	nodes: u64,
	items: usize,
	depth: usize,
}
/// the subtree is well-formed and holds the model's items from s.items on
unsafe fn formed<T: Lab, S: Sto<T>>(t: &RawBTree<T, S>, id: S::Node, parent: Option<S::Node>, d: usize, s: &mut Shape, m: &Model) {
	v_check(S::alive(id), C_DEADNODE);
	v_check(d < 8, C_MALFORMED);
	let x = t.node(id);
	let okp = match (x.parent(), parent) {
		(None, None) => true,
		(Some(a), Some(b)) => same::<T, S>(a, b),
		_ => false,
	};
	v_check(okp, C_PARENT);
	s.nodes += 1;
	let n = x.item_count();
	let leaf = matches!(x, Node::Leaf(_));
	v_check(n <= if leaf { LCAP } else { ICAP }, C_OVER);
	v_check(n >= if parent.is_some() { MINI } else { 1 }, C_UNDER);
	if leaf {
		if s.depth == NONE {
			s.depth = d
		}
		v_check(s.depth == d, C_DEPTH);
	} else {
		v_check(x.child_count() == n + 1, C_CHILDCOUNT);
	}
	let mut j = 0;
	while j <= n {
		if !leaf {
			formed::<T, S>(t, x.child_id(j), Some(id), d + 1, s, m)
		}
		if j < n {
			match x.item(Offset::from(j)) {
				Some(it) => {
					v_check(s.items < m.n, C_GHOST);
					if s.items >= m.n {
						v_stop()
					}
					v_check(it.id() == m.id[s.items], 15);
					v_check(it.key() == m.key[s.items], C_CORRUPT);
					s.items += 1
				}
				None => v_check(false, C_MALFORMED),
			}
		}
		j += 1
	}
}
unsafe fn agrees<T: Lab, S: Sto<T>>(t: &RawBTree<T, S>, m: &Model, live0: u64) {
	let mut s = Shape { nodes: 0, items: 0, depth: NONE };
	if let Some(r) = t.root() {
		formed::<T, S>(t, r, None, 0, &mut s, m)
	}
	v_check(s.items == m.n, C_LOST);
	v_check(t.len() == m.n && t.is_empty() == (m.n == 0), C_LEN);
	v_check(S::live() == live0 + s.nodes, C_LEAKNODE);
	v_check(MADE - GONE >= m.n, C_DROPPED);
	v_check(MADE - GONE <= m.n, C_NOTDROPPED);
	v_observe(s.nodes);
}
fn key_at(pat: u64, k: usize, n: usize) -> u16 {
	(match pat {
		0 => k,
		1 => n - 1 - k,
		2 => {
			// from both ends inwards
			if k % 2 == 0 {
				k / 2
			} else {
				n - 1 - k / 2
			}
		}
		_ => (k * 37 + 11) % n, // n not a multiple of 37
	} as u16)
		* 4
		+ 2
}
unsafe fn given<T: Lab>(r: Option<T>, hit: bool, id: u16, check: u32) {
	match r {
		Some(x) => {
			v_check(hit && x.id() == id, check);
			drop(x)
		}
		None => v_check(!hit, check),
	}
}
/// one operation chosen by a symbol; false if the tree was consumed
unsafe fn one<T: Lab + Clone, S: Sto<T>>(t: &mut RawBTree<T, S>, m: &mut Model, what: u64, q: u16, id: u16) {
	let (hit, at) = m.find(q);
	let old = if hit { m.id[at] } else { MISSING };
	match what {
		0 => {
			given(t.insert(cmp_items, T::mk(q, id)), hit, old, 41);
			if hit {
				m.id[at] = id
			} else {
				m.insert(at, q, id)
			}
		}
		1 => {
			given(t.remove(cmp_key, &q), hit, old, 43);
			if hit {
				m.remove(at)
			}
		}
		2 => {
			let g = t.get(cmp_key, &q).map(|i| i.id());
			v_check(g == if hit { Some(old) } else { None }, 40);
		}
		3 => {
			// by address
			match t.address_of(cmp_key, &q) {
				Ok(a) => {
					v_check(hit, 62);
					match t.remove_at(a) {
						Some((x, _)) => {
							v_check(x.id() == old, 46);
							drop(x);
							m.remove(at)
						}
						None => v_check(false, 46),
					}
				}
				Err(a) => {
					v_check(!hit, 62);
					v_check(a.is_none() == (m.n == 0), 62);
					t.insert_at(a, T::mk(q, id));
					m.insert(at, q, id)
				}
			}
		}
		4 => {
			let g = t.first().map(|i| i.id());
			v_check(g == if m.n > 0 { Some(m.id[0]) } else { None }, 60);
			let g = t.last().map(|i| i.id());
			v_check(g == if m.n > 0 { Some(m.id[m.n - 1]) } else { None }, 60);
			if let Ok(a) = t.address_of(cmp_key, &q) {
				v_check(hit, 62);
				let b = t.previous_item_address(a);
				let g = match b {
					Some(b) => t.get_at(b).map(|i| i.id()),
					None => None,
				};
				v_check(g == if at > 0 { Some(m.id[at - 1]) } else { None }, 52);
				let b = t.next_item_address(a);
				let g = match b {
					Some(b) => t.get_at(b).map(|i| i.id()),
					None => None,
				};
				v_check(g == if at + 1 < m.n { Some(m.id[at + 1]) } else { None }, 51);
			}
		}
		5 => {
			t.clear();
			m.n = 0
		}
		_ => {
			// goes on with a clone
			let c = t.clone();
			*t = c
		}
	}
}
unsafe fn hist<T: Lab + Clone, S: Sto<T>>() {
	S::begin();
	let live0 = S::live();
	let mut t = ManuallyDrop::new(RawBTree::<T, S>::new());
	let mut m = Model { n: 0, key: [0; MAXN], id: [0; MAXN] };
	let (pat, ops, per) = (par(P_HEIGHT), par(P_OP), par(P_SHARE) as usize);
	MASK = 7;
	NIDS = MAXN + 50;
	MADE = 0;
	GONE = 0;
	DEAD = [false; SERS];
	// a concrete beginning
	let (lo, hi) = (par(P_RCAP), par(P_ICAP));
	let n = v_concretize(v_sym(S_AUX, lo, hi)) as usize;
	let mut k = 0;
	while k < n {
		one::<T, S>(&mut t, &mut m, 0, key_at(pat, k, n), 50 + k as u16);
		k += 1
	}
	agrees::<T, S>(&t, &m, live0);
	if par(P_LCAP) > 0 {
		// ... and some of it taken away again
		let r = v_concretize(v_sym(S_AUX + 1, 0, par(P_LCAP).min(n as u64))) as usize;
		let mut k = 0;
		while k < r {
			one::<T, S>(&mut t, &mut m, 1, key_at((pat + 1) % 3, k, n), 0);
			k += 1
		}
		agrees::<T, S>(&t, &m, live0);
	}
	// then arbitrary operations
	let top = if n > 0 { 4 * n as u64 } else { 0xfffe };
	let mut k = 0;
	while k < per {
		let w = v_concretize(v_sym(S_CALL + 2 * k as u32, 0, ops));
		let q = v_sym(S_CALL + 2 * k as u32 + 1, 0, top) as u16;
		one::<T, S>(&mut t, &mut m, w, q, k as u16);
		v_cover(30 + w as u32);
		if par(P_X) == 0 || k + 1 == per {
			agrees::<T, S>(&t, &m, live0);
		}
		k += 1
	}
	// the iterators agree with the list, and everything is destroyed once
	let mut it = t.iter();
	let mut k = 0;
	while k < m.n {
		v_check(it.len() == m.n - k, 70);
		v_check(it.next().map(|i| i.id()) == Some(m.id[k]), 72);
		k += 1
	}
	v_check(it.next().is_none() && it.next_back().is_none(), 71);
	ManuallyDrop::drop(&mut t);
	v_check(MADE == GONE, C_NOTDROPPED);
	v_check(S::live() == live0, C_RESIDUE);
	v_observe(m.n as u64)
}
#[no_mangle]
pub extern "C-unwind" fn h_hist() {
	unsafe { hist::<Hi, BoxStorage>() }
}
#[no_mangle]
pub extern "C-unwind" fn h_hist_y() {
	unsafe { hist::<Hi, super::sto::Arena<true>>() }
}
#[no_mangle]
pub extern "C-unwind" fn h_hist_n() {
	unsafe { hist::<Hi, super::sto::Arena<false>>() }
}
