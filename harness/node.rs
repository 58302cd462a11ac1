// Operations of single nodes (C11), against a plain sequence model.
use super::common::*;
use core::cmp::Ordering;
use core::mem::{forget, ManuallyDrop};
use raw_btree::node::{Balance, InternalNode, LeafNode};
use raw_btree::storage::BoxStorage;
use raw_btree::{Node, Offset, Storage};

const L: usize = 24;
type N<T, S> = <S as Storage<T>>::Node;
pub struct Seq {
	leaf: bool,
	parent: usize, // 0: none
	n: usize,
	id: [u16; L],
	kid: [usize; L],
}
impl Clone for Seq {
	fn clone(&self) -> Seq {
		Seq { leaf: self.leaf, parent: self.parent, n: self.n, id: self.id, kid: self.kid }
	}
}
impl Seq {
	fn insert(&mut self, at: usize, id: u16, right: usize) {
		let mut j = self.n;
		while j > at {
			self.id[j] = self.id[j - 1];
			self.kid[j + 1] = self.kid[j];
			j -= 1
		}
		self.id[at] = id;
		self.kid[at + 1] = right;
		self.n += 1
	}
	/// without item `at` and the child on its right
	fn remove(&mut self, at: usize) {
		let mut j = at;
		while j + 1 < self.n {
			self.id[j] = self.id[j + 1];
			self.kid[j + 1] = self.kid[j + 2];
			j += 1
		}
		self.n -= 1
	}
	fn shift(&mut self, id: u16, first: usize) {
		let mut j = self.n;
		while j > 0 {
			self.id[j] = self.id[j - 1];
			j -= 1
		}
		let mut j = self.n + 1;
		while j > 0 {
			self.kid[j] = self.kid[j - 1];
			j -= 1
		}
		self.id[0] = id;
		self.kid[0] = first;
		self.n += 1
	}
	fn unshift(&mut self) {
		let mut j = 0;
		while j + 1 < self.n {
			self.id[j] = self.id[j + 1];
			j += 1
		}
		let mut j = 0;
		while j < self.n {
			self.kid[j] = self.kid[j + 1];
			j += 1
		}
		self.n -= 1
	}
	fn cap(&self) -> usize {
		if self.leaf {
			LCAP + 1
		} else {
			ICAP + 1
		}
	}
	fn balance(&self) -> u64 {
		if self.n >= self.cap() {
			2
		} else if self.n < MINI {
			if self.n == 0 {
				4
			} else {
				3
			}
		} else {
			1
		}
	}
}
fn bal(b: Balance) -> u64 {
	match b {
		Balance::Balanced => 1,
		Balance::Overflow => 2,
		Balance::Underflow(false) => 3,
		Balance::Underflow(true) => 4,
	}
}
static mut POOL: [usize; 40] = [0; 40];
static mut POOLN: [core::mem::MaybeUninit<*mut u8>; 40] = [core::mem::MaybeUninit::uninit(); 40];
/// the k-th node identifier of a pool of nodes allocated on demand
unsafe fn pool<T: Lab, S: Sto<T>>(k: usize) -> N<T, S> {
	if POOL[k] == 0 {
		let id = alloc::<T, S>(Node::Leaf(LeafNode::from_item(None, T::mk(0, DUMMY))));
		POOL[k] = S::k(id);
		(POOLN[k].as_mut_ptr() as *mut N<T, S>).write(id);
	}
	(POOLN[k].as_ptr() as *const N<T, S>).read()
}
fn kk<T, S: Sto<T>>(o: Option<N<T, S>>) -> usize {
	match o {
		Some(n) => S::k(n),
		None => 0,
	}
}
fn off(j: usize) -> Offset {
	Offset::from(j)
}
/// a node with n items; ids start at `base`, children at `kids`
unsafe fn mk<T: Lab, S: Sto<T>>(leaf: bool, n: usize, base: u16, kids: usize, parent: bool) -> (ManuallyDrop<Node<T, S>>, Seq) {
	let p = if parent { Some(pool::<T, S>(0)) } else { None };
	let mut s = Seq { leaf, parent: kk::<T, S>(p), n, id: [0; L], kid: [0; L] };
	let item = |j: usize| T::mk(key_of(base as usize + j), base + j as u16);
	let mut j = 0;
	while j < n {
		s.id[j] = base + j as u16;
		j += 1
	}
	if leaf {
		let mut l = LeafNode::from_item(p, item(0));
		let mut j = 1;
		while j < n {
			l.push_right(item(j));
			j += 1
		}
		if n == 0 {
			forget(l.remove_last())
		}
		return (ManuallyDrop::new(Node::Leaf(l)), s);
	}
	let mut j = 0;
	while j <= n {
		s.kid[j] = S::k(pool::<T, S>(kids + j));
		j += 1
	}
	let mut l = InternalNode::binary(p, pool::<T, S>(kids), item(0), pool::<T, S>(kids + 1));
	let mut j = 1;
	while j < n {
		l.push_right(item(j), pool::<T, S>(kids + j + 1));
		j += 1
	}
	if n == 0 {
		forget(l.remove(off(0)).1)
	}
	(ManuallyDrop::new(Node::Internal(l)), s)
}
/// the node holds exactly the model's sequence
unsafe fn is<T: Lab, S: Sto<T>>(x: &Node<T, S>, s: &Seq) {
	v_check(matches!(x, Node::Leaf(_)) == s.leaf, 140);
	v_check(x.item_count() == s.n, 140);
	let mut j = 0;
	while j < s.n {
		match x.item(off(j)) {
			Some(it) => v_check(it.id() == s.id[j], 140),
			None => v_check(false, 140),
		}
		j += 1
	}
	v_check(kk::<T, S>(x.parent()) == s.parent, 147);
	v_check(x.child_count() == if s.leaf { 0 } else { s.n + 1 }, 146);
	if !s.leaf {
		let mut j = 0;
		while j <= s.n {
			v_check(S::k(x.child_id(j)) == s.kid[j], 146);
			j += 1
		}
	}
	v_check(bal(x.balance()) == s.balance(), 142);
}
/// destroys the node: exactly the items it holds are destroyed, once each
unsafe fn fini<T: Lab, S: Sto<T>>(x: &mut ManuallyDrop<Node<T, S>>, s: &Seq) {
	v_check(TDROPS == 0, C_DROPPED);
	ManuallyDrop::drop(x);
	v_check(TDROPS == s.n as u64, C_NOTDROPPED);
	let mut j = 0;
	while j < s.n {
		v_check(DROPS[s.id[j] as usize] == 1, C_NOTDROPPED);
		j += 1
	}
}
unsafe fn id_of<T: Lab>(x: T) -> u16 {
	let id = x.id();
	forget(x);
	id
}
unsafe fn sym(id: u32, lo: usize, hi: usize) -> usize {
	v_concretize(v_sym(id, lo as u64, hi as u64)) as usize
}

unsafe fn node_op<T: Lab, S: Sto<T>>() {
	MASK = 7;
	NIDS = 256;
	let leaf = par(P_HEIGHT) == 0;
	let op = par(P_OP);
	let cap = if leaf { LCAP + 1 } else { ICAP + 1 };
	let (lo, hi) = match op {
		2 | 3 | 10 | 12 => (0, cap - 1),
		4 | 6 => (1, cap),
		7 => (cap, cap),
		8 => (1, cap),
		9 => (0, cap - 1),
		14 => (if leaf { 1 } else { 0 }, cap),
		_ => (0, cap),
	};
	let n = sym(S_CNT, lo, hi);
	let parent = sym(S_AUX + 5, 0, 1) == 1;
	let (mut x, mut s) = mk::<T, S>(leaf, n, 10, 1, parent);
	TDROPS = 0;
	DROPS[DUMMY as usize] = 0;
	is::<T, S>(&x, &s);
	let q = v_sym(S_KEY, 18, 2 * (10 + cap as u64) + 2) as u16;
	// where the key is or belongs
	let find = |n: usize| {
		let mut j = 0;
		while j < n && key_of(10 + j) < q {
			j += 1
		}
		(j < n && key_of(10 + j) == q, j)
	};
	let new = || T::mk(q, NEWID);
	match op {
		0 => {
			// reading by position
			let o = sym(S_OFF, 0, n + 2);
			let before = o == 0;
			let f = if before { Offset::before() } else { off(o - 1) };
			let want = if !before && o - 1 < n { Some(s.id[o - 1]) } else { None };
			v_check(x.item(f).map(|i| i.id()) == want, 141);
			v_check(x.item_mut(f).map(|i| i.id()) == want, 141);
			if want.is_some() {
				x.item_mut(f).unwrap().set(NEWID);
				s.id[o - 1] = NEWID;
				is::<T, S>(&x, &s);
			}
			v_check(x.is_overflowing() == (n >= cap) && x.is_underflowing() == (n < MINI), 142);
			let k = sym(S_NODE, 0, n + 3);
			v_check(kk::<T, S>(x.child_id_opt(k)) == if leaf || k > n { 0 } else { s.kid[k] }, 146);
			let id = pool::<T, S>(1 + k);
			v_check(x.child_index(id) == if leaf || k > n { None } else { Some(k) }, 146);
			if k <= n {
				let (a, b) = x.separators(k);
				v_check(a.map(|i| i.id()) == if leaf || k == 0 { None } else { Some(s.id[k - 1]) }, 144);
				v_check(b.map(|i| i.id()) == if leaf || k >= n { None } else { Some(s.id[k]) }, 144);
			}
			// enumerations
			let mut j = 0;
			for c in x.children() {
				v_check(!leaf && j <= n && S::k(c) == s.kid[j], 144);
				j += 1
			}
			v_check(j == if leaf { 0 } else { n + 1 }, 144);
			j = 0;
			for (a, c, b) in x.children_with_separators() {
				v_check(!leaf && j <= n && S::k(c) == s.kid[j], 144);
				v_check(a.map(|i| i.id()) == if j == 0 { None } else { Some(s.id[j - 1]) }, 144);
				v_check(b.map(|i| i.id()) == if j >= n { None } else { Some(s.id[j]) }, 144);
				j += 1
			}
			v_check(j == if leaf { 0 } else { n + 1 }, 144);
			match &*x {
				Node::Leaf(l) => {
					j = 0;
					for i in l.iter() {
						v_check(j < n && i.id() == s.id[j], 144);
						j += 1
					}
					v_check(j == n && l.items().len() == n, 144);
				}
				Node::Internal(i) => {
					v_check(S::k(i.first_child_id()) == s.kid[0] && i.branches().len() == n, 144);
					j = 0;
					for b in i.branches() {
						v_check(b.item.id() == s.id[j] && S::k(b.child) == s.kid[j + 1] && b.as_ref().id() == s.id[j], 144);
						j += 1
					}
				}
			}
		}
		1 => {
			// searching
			let (hit, j) = find(n);
			v_cover(if hit { 1 } else { 2 });
			match x.get(cmp_key, &q) {
				Ok(Some(i)) => v_check(hit && i.id() == s.id[j], 143),
				Ok(None) => v_check(leaf && !hit, 143),
				Err(c) => v_check(!leaf && !hit && S::k(c) == s.kid[j], 143),
			}
			match x.offset_of(cmp_key, &q) {
				Ok(o) => v_check(hit && o == j, 143),
				Err((i, c)) => v_check(!hit && i == j && kk::<T, S>(c) == if leaf { 0 } else { s.kid[j] }, 143),
			}
			match x.get_mut(cmp_key, &q) {
				Ok(Some(i)) => {
					v_check(hit && i.id() == s.id[j], 143);
					i.set(NEWID);
					s.id[j] = NEWID
				}
				Ok(None) => v_check(leaf && !hit, 143),
				Err(c) => {
					v_check(!leaf && !hit && S::k(*c) == s.kid[j], 143);
					// writing the child through the reference changes that child
					*c = pool::<T, S>(30);
					s.kid[j] = S::k(*c)
				}
			}
			is::<T, S>(&x, &s);
		}
		2 => {
			let (hit, j) = find(n);
			v_cover(if hit { 1 } else { 2 });
			match x.insert_by_key(cmp_items, new()) {
				Ok((o, r)) => {
					v_check(hit || leaf, 143);
					v_check(o == j, 141);
					match r {
						Some(r) => {
							v_check(hit && id_of(r) == s.id[j], 141);
							s.id[j] = NEWID;
						}
						None => {
							v_check(!hit, 141);
							s.insert(j, NEWID, 0);
						}
					}
				}
				Err(e) => {
					v_check(!leaf && !hit && e.child_offset == j && S::k(e.child_id) == s.kid[j], 143);
					v_check(id_of(e.item) == NEWID, 141);
				}
			}
			is::<T, S>(&x, &s);
		}
		3 => {
			let j = sym(S_OFF, 0, n);
			let c = if leaf { None } else { Some(pool::<T, S>(30)) };
			x.insert(off(j), new(), c);
			s.insert(j, NEWID, kk::<T, S>(c));
			is::<T, S>(&x, &s);
		}
		4 => {
			if leaf {
				v_stop()
			}
			let j = sym(S_OFF, 0, n - 1);
			let r = x.replace(off(j), new());
			v_check(id_of(r) == s.id[j], 141);
			s.id[j] = NEWID;
			is::<T, S>(&x, &s);
		}
		5 => {
			let o = sym(S_OFF, 0, n + 2);
			let f = if o == 0 { Offset::before() } else { off(o - 1) };
			match x.leaf_remove(f) {
				Some(Ok(i)) => {
					v_check(leaf && o > 0 && o - 1 < n, 141);
					v_check(id_of(i) == s.id[o - 1], 141);
					s.remove(o - 1)
				}
				Some(Err(c)) => v_check(!leaf && o > 0 && o - 1 < n && S::k(c) == s.kid[o - 1], 146),
				None => v_check(o == 0 || o - 1 >= n, 141),
			}
			is::<T, S>(&x, &s);
		}
		6 => {
			let j = sym(S_OFF, 0, n - 1);
			match &mut *x {
				Node::Leaf(l) => v_check(id_of(l.remove(off(j))) == s.id[j], 141),
				Node::Internal(i) => {
					let (a, it, b) = i.remove(off(j));
					v_check(id_of(it) == s.id[j], 141);
					v_check(S::k(a) == s.kid[j] && S::k(b) == s.kid[j + 1], 146);
				}
			}
			s.remove(j);
			is::<T, S>(&x, &s);
		}
		7 => {
			let (len, median, right) = x.split();
			let mut right = ManuallyDrop::new(right);
			// the two halves and the median between them are the sequence
			let a = x.item_count();
			v_check(len == a && a + 1 + right.item_count() == n, 142);
			if a + 1 + right.item_count() != n {
				v_stop()
			}
			v_check(a >= MINI && right.item_count() >= MINI, 148);
			v_check(id_of(median) == s.id[a], 141);
			let mut r = s.clone();
			let mut j = 0;
			while j <= a {
				r.unshift();
				j += 1
			}
			s.n = a;
			is::<T, S>(&x, &s);
			is::<T, S>(&right, &r);
			fini::<T, S>(&mut x, &s);
			TDROPS = 0;
			fini::<T, S>(&mut right, &r);
			v_observe(a as u64);
			return;
		}
		8 => {
			if leaf {
				v_stop()
			}
			let j = sym(S_OFF, 0, n - 1);
			let (i, l, r, item, b) = x.merge(j);
			v_check(i == j && S::k(l) == s.kid[j] && S::k(r) == s.kid[j + 1], 146);
			v_check(id_of(item) == s.id[j], 141);
			s.remove(j);
			v_check(bal(b) == s.balance(), 142);
			is::<T, S>(&x, &s);
		}
		9 => {
			let m = sym(S_CNT + 1, 0, cap - 1 - n);
			let (y, r) = mk::<T, S>(leaf, m, 100, 20, !parent);
			TDROPS = 0;
			DROPS[DUMMY as usize] = 0;
			let o = x.append(new(), ManuallyDrop::into_inner(y));
			v_check(o == n, 141);
			s.insert(n, NEWID, r.kid[0]);
			let mut j = 0;
			while j < m {
				let k = s.n;
				s.insert(k, r.id[j], r.kid[j + 1]);
				j += 1
			}
			is::<T, S>(&x, &s);
		}
		10 => {
			let c = if leaf { None } else { Some(pool::<T, S>(30)) };
			x.push_left(new(), c);
			s.shift(NEWID, kk::<T, S>(c));
			is::<T, S>(&x, &s);
		}
		11 => {
			v_cover(if n > MINI { 3 } else { 4 });
			match x.pop_left() {
				Ok((i, c)) => {
					v_check(n > MINI, 145);
					v_check(id_of(i) == s.id[0], 141);
					v_check(kk::<T, S>(c) == if leaf { 0 } else { s.kid[0] }, 146);
					s.unshift()
				}
				Err(_) => v_check(n <= MINI, 145),
			}
			is::<T, S>(&x, &s);
		}
		12 => {
			let c = if leaf { None } else { Some(pool::<T, S>(30)) };
			let o = x.push_right(new(), c);
			v_check(o == n, 141);
			s.insert(n, NEWID, kk::<T, S>(c));
			is::<T, S>(&x, &s);
		}
		13 => {
			v_cover(if n > MINI { 3 } else { 4 });
			match x.pop_right() {
				Ok((o, i, c)) => {
					v_check(n > MINI, 145);
					v_check(o == n - 1, 141);
					v_check(id_of(i) == s.id[n - 1], 141);
					v_check(kk::<T, S>(c) == if leaf { 0 } else { s.kid[n] }, 146);
					s.remove(n - 1)
				}
				Err(_) => v_check(n <= MINI, 145),
			}
			is::<T, S>(&x, &s);
		}
		14 => {
			match x.remove_rightmost_leaf() {
				Ok(i) => {
					v_check(leaf && id_of(i) == s.id[n - 1], 141);
					s.remove(n - 1)
				}
				Err(c) => v_check(!leaf && S::k(c) == s.kid[n], 146),
			}
			is::<T, S>(&x, &s);
		}
		_ => {
			// parent links, and forgetting
			let p = sym(S_NODE, 0, 2);
			let id = if p == 0 { None } else { Some(pool::<T, S>(p - 1)) };
			x.set_parent(id);
			s.parent = kk::<T, S>(id);
			is::<T, S>(&x, &s);
			x.forget();
			v_check(TDROPS == 0, C_DROPPED);
			s.n = 0;
			v_check(x.item_count() == 0, 140);
			if !leaf {
				v_check(x.child_count() == 1, 146)
			}
		}
	}
	fini::<T, S>(&mut x, &s);
	v_observe(s.n as u64);
	v_observe(n as u64);
}
#[no_mangle]
pub extern "C-unwind" fn h_node() {
	unsafe { node_op::<It, BoxStorage>() }
}
#[no_mangle]
pub extern "C-unwind" fn h_node_big() {
	unsafe { node_op::<Big, BoxStorage>() }
}
