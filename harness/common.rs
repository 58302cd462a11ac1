// Shared by every harness: items that know their identity, arbitrary valid
// trees with symbolic fills, a model of them, and the walker that compares
// the tree after an operation with that model.  Uses only the crate's public
// API, plus byte-level pokes of the length fields (found by observation, see
// `discover`) so that the number of items in a node can be symbolic.
use core::cmp::Ordering;
use core::mem::{forget, size_of, ManuallyDrop, MaybeUninit};
use raw_btree::node::{InternalNode, LeafNode};
use raw_btree::storage::BoxStorage;
use raw_btree::{Address, Node, Offset, RawBTree, Storage, M};

extern "C-unwind" {
	pub fn v_sym(id: u32, lo: u64, hi: u64) -> u64;
	pub fn v_param(i: u32) -> u64;
	pub fn v_assume(c: bool);
	pub fn v_check(c: bool, id: u32);
	pub fn v_cover(id: u32);
	pub fn v_observe(x: u64);
	pub fn v_peek(p: *const u8) -> u64;
	pub fn v_poke(p: *mut u8, n: u64, x: u64);
	/// nobody but the caller may touch these bytes until `v_unlock`; false if some were locked already
	pub fn v_lock(p: *mut u8, n: u64) -> bool;
	pub fn v_unlock();
	pub fn v_live() -> u64;
	pub fn v_try(f: extern "C-unwind" fn(*mut u8), d: *mut u8) -> bool;
	pub fn v_concretize(x: u64) -> u64;
	pub fn v_snapshot(p: *const u8, n: u64) -> u64;
	pub fn v_same(id: u64, p: *const u8, lo: u64, hi: u64) -> bool;
	pub fn v_is_engine() -> bool;
	pub fn v_alive(p: *const u8) -> bool;
	pub fn v_stop() -> !;
}

pub unsafe fn try_<F: FnMut()>(mut f: F) -> bool {
	extern "C-unwind" fn tramp<F: FnMut()>(d: *mut u8) {
		unsafe { (*(d as *mut F))() }
	}
	v_try(tramp::<F>, &mut f as *mut F as *mut u8)
}

// ---------------------------------------------------------------- symbols
pub const S_OP: u32 = 1;
pub const S_KEY: u32 = 2;
pub const S_NODE: u32 = 3;
pub const S_OFF: u32 = 4;
pub const S_LEN: u32 = 5;
pub const S_AUX: u32 = 10; // 10..99 harness specific
pub const S_CNT: u32 = 100; // + node index (or shared class)
pub const S_CALL: u32 = 1000; // answers of arbitrary comparators etc.

// ---------------------------------------------------------------- parameters
pub fn par(i: u32) -> u64 {
	unsafe { v_param(i) }
}
pub const P_HEIGHT: u32 = 0;
pub const P_OP: u32 = 1;
pub const P_MASK: u32 = 2;
/// 0: every node has its own fill; 1: leaves (and internal nodes) share two
/// fills each, decided before the operation starts; 2: like 1 but one each
pub const P_SHARE: u32 = 3;
/// most items of the root / of inner internal nodes / of leaves (0: full)
pub const P_RCAP: u32 = 4;
pub const P_ICAP: u32 = 5;
pub const P_LCAP: u32 = 6;
pub const P_X: u32 = 7; // harness specific
pub const P_Y: u32 = 8;
/// n+1: only the nodes reached through n-th children (the spine) have any fill;
/// those beside them have the least or one more, all others the least
pub const P_SPINE: u32 = 9;

// ---------------------------------------------------------------- check ids
pub const G_CONTENT: u64 = 1;
pub const G_STRUCT: u64 = 2;
pub const G_OWN: u64 = 4;
pub const C_ORDER: u32 = 10;
pub const C_DUP: u32 = 11;
pub const C_CORRUPT: u32 = 12;
pub const C_GHOST: u32 = 13;
pub const C_NEWITEM: u32 = 14;
pub const C_LOST: u32 = 15;
pub const C_NEWCOUNT: u32 = 16;
pub const C_LEN: u32 = 17;
pub const C_EMPTY: u32 = 18;
pub const C_RET: u32 = 19;
pub const C_MALFORMED: u32 = 20;
pub const C_OVER: u32 = 21;
pub const C_UNDER: u32 = 22;
pub const C_ROOTEMPTY: u32 = 23;
pub const C_PARENT: u32 = 24;
pub const C_DEPTH: u32 = 25;
pub const C_CHILDCOUNT: u32 = 26;
pub const C_EMPTYROOT: u32 = 27;
pub const C_TWICE: u32 = 28;
pub const C_DOUBLE: u32 = 30;
pub const C_DROPPED: u32 = 31;
pub const C_LEAKNODE: u32 = 32;
pub const C_DEADNODE: u32 = 33;
pub const C_NOTDROPPED: u32 = 34;
pub const C_RESIDUE: u32 = 35;

pub static mut MASK: u64 = 7;
pub unsafe fn ck(g: u64, c: bool, id: u32) {
	if MASK & g != 0 {
		v_check(c, id)
	}
}

// ---------------------------------------------------------------- items
pub const NID: usize = 1280;
pub const NEWID: u16 = 1270;
pub const DUMMY: u16 = 1279;
pub const MISSING: u16 = 0xffff;
pub static mut DROPS: [u8; NID] = [0; NID];
pub static mut TDROPS: u64 = 0;
/// destructors run while this is set are counted
pub unsafe fn drops(id: u16) -> u8 {
	DROPS[id as usize]
}
/// user code hooks: the n-th call panics (0: never)
pub static mut PANIC_AT: u64 = 0;
pub static mut CALLS: u64 = 0;
pub static mut PANICKED: bool = false;
#[inline(never)]
pub unsafe fn user_call() {
	CALLS += 1;
	if CALLS == PANIC_AT {
		PANICKED = true;
		panic!("injected");
	}
}
pub static mut DROP_PANICS: bool = false;
#[inline(never)]
pub unsafe fn on_drop(id: u16) {
	let i = id as usize;
	v_check(i < NID, C_CORRUPT);
	DROPS[i] += 1;
	TDROPS += 1;
	ck(G_OWN, DROPS[i] == 1, C_DOUBLE);
	if DROP_PANICS {
		user_call()
	}
}

pub trait Lab: Sized {
	/// destructions are counted
	const TRACKED: bool = true;
	fn mk(key: u16, id: u16) -> Self;
	fn key(&self) -> u16;
	fn id(&self) -> u16;
	fn set(&mut self, x: u16);
}
#[repr(C)]
pub struct It {
	pub key: u16,
	pub id: u16,
}
impl Drop for It {
	fn drop(&mut self) {
		unsafe { on_drop(self.id) }
	}
}
impl Lab for It {
	fn mk(key: u16, id: u16) -> It {
		It { key, id }
	}
	fn key(&self) -> u16 {
		self.key
	}
	fn id(&self) -> u16 {
		self.id
	}
	fn set(&mut self, x: u16) {
		self.id = x
	}
}
/// larger, over-aligned item
#[repr(C, align(16))]
pub struct Big {
	pub tag: u64,
	pub key: u16,
	pub id: u16,
	pub tag2: u64,
}
impl Drop for Big {
	fn drop(&mut self) {
		unsafe {
			v_check(self.tag == 0x1122334455667788 && self.tag2 == 0x8877665544332211, C_CORRUPT);
			on_drop(self.id)
		}
	}
}
impl Lab for Big {
	fn mk(key: u16, id: u16) -> Big {
		Big { tag: 0x1122334455667788, key, id, tag2: 0x8877665544332211 }
	}
	fn key(&self) -> u16 {
		self.key
	}
	fn id(&self) -> u16 {
		self.id
	}
	fn set(&mut self, x: u16) {
		self.id = x
	}
}
/// no destructor, one word
#[derive(Clone, Copy)]
pub struct Pod(pub u16, pub u16);
impl Lab for Pod {
	const TRACKED: bool = false;
	fn mk(key: u16, id: u16) -> Pod {
		Pod(key, id)
	}
	fn key(&self) -> u16 {
		self.0
	}
	fn id(&self) -> u16 {
		self.1
	}
	fn set(&mut self, x: u16) {
		self.1 = x
	}
}

pub fn cmp_items<T: Lab>(a: &T, b: &T) -> Ordering {
	a.key().cmp(&b.key())
}
pub fn cmp_key<T: Lab>(a: &T, b: &u16) -> Ordering {
	a.key().cmp(b)
}

// ---------------------------------------------------------------- storages
pub trait Sto<T>: Storage<T> {
	fn k(n: Self::Node) -> usize;
	fn live() -> u64;
	fn alive(n: Self::Node) -> bool;
	/// the node, behind the storage's back
	unsafe fn raw(n: Self::Node) -> *mut Node<T, Self>;
	/// the storage of the tree made last
	unsafe fn here() -> ManuallyDrop<Self>;
	unsafe fn begin() {}
	/// times a node was asked for, where that is counted
	unsafe fn reads(_: Self::Node) -> u64 {
		0
	}
	unsafe fn reset_reads() {}
	/// nodes released one by one so far, where that is counted
	unsafe fn one_by_one() -> u64 {
		0
	}
}
impl<T> Sto<T> for BoxStorage {
	fn k(n: Self::Node) -> usize {
		n.into()
	}
	fn live() -> u64 {
		unsafe { v_live() }
	}
	fn alive(n: Self::Node) -> bool {
		let a: usize = n.into();
		unsafe { v_alive(a as *const u8) }
	}
	unsafe fn raw(n: Self::Node) -> *mut Node<T, Self> {
		let mut s = ManuallyDrop::new(BoxStorage::default());
		let r: *mut Node<T, Self> = s.get_mut(n);
		r
	}
	unsafe fn here() -> ManuallyDrop<Self> {
		ManuallyDrop::new(BoxStorage::default())
	}
}
pub unsafe fn node<'a, T, S: Sto<T>>(n: S::Node) -> &'a Node<T, S> {
	&*S::raw(n)
}
pub unsafe fn node_mut<'a, T, S: Sto<T>>(n: S::Node) -> &'a mut Node<T, S> {
	&mut *S::raw(n)
}
pub unsafe fn alloc<T, S: Sto<T>>(n: Node<T, S>) -> S::Node {
	S::here().allocate_node(n)
}
pub fn same<T, S: Sto<T>>(a: S::Node, b: S::Node) -> bool {
	S::k(a) == S::k(b)
}

// ---------------------------------------------------------------- the model
pub const LCAP: usize = M;
pub const ICAP: usize = M - 1;
pub const MINI: usize = M / 2 - 1;
pub const NO: usize = 320;
pub const NONE: usize = 0xffff;

#[derive(Clone, Copy)]
pub struct Org {
	pub ptr: usize,  // identifier
	pub mem: usize,  // address of the node
	pub cnt: u64,    // number of items (possibly symbolic)
	pub leaf: bool,
	pub depth: usize,
	pub hgt: usize, // height of the subtree: 1 for a leaf
	pub parent: usize,
	pub pos: u64,
	pub base: usize, // first item id in the subtree
	pub end: usize,  // one past the last
	pub nphys: usize, // slots filled with items
	pub snap: u64,
}
pub static mut ORG: [Org; NO] = [Org {
	ptr: 0,
	mem: 0,
	cnt: 0,
	leaf: true,
	depth: 0,
	hgt: 1,
	parent: NONE,
	pos: 0,
	base: 0,
	end: 0,
	nphys: 0,
	snap: 0,
}; NO];
static mut CHILD: [[u16; M]; NO] = [[0; M]; NO];
pub static mut NORG: usize = 0;
pub static mut NIDS: usize = 0;
pub static mut HGT: usize = 0;
pub static mut LEN0: u64 = 0;
pub static mut LIVE0: u64 = 0;
/// the number of items is the exact sum of the fills, whatever that costs
pub static mut EXACT: bool = false;
pub static mut ROOT: usize = 0; // index of the root
static mut ID_ORG: [u16; NID] = [0; NID];
static mut ID_SLOT: [u8; NID] = [0; NID];
static mut HINT: [u16; 1024] = [0; 1024];
static mut LEAF_LEN: (usize, usize) = (0, 0);
static mut INT_LEN: (usize, usize) = (0, 0);
static mut TREE_LEN: (usize, usize) = (0, 0);
pub static mut PAR_LEAF: (u64, u64) = (0, 0);
pub static mut PAR_INT: (u64, u64) = (0, 0);
pub static mut SYMFILL: bool = false;

pub unsafe fn org(o: usize) -> &'static Org {
	&ORG[o]
}
/// id of item j of node o
pub unsafe fn item_id(o: usize, j: usize) -> usize {
	if ORG[o].leaf {
		ORG[o].base + j
	} else {
		// right after the items of child j
		ORG[child(o, j)].end
	}
}
pub fn key_of(id: usize) -> u16 {
	(2 * id + 1) as u16
}
/// the key of the gap just before item slot j of node o (j may be one past)
pub unsafe fn gap_key(o: usize, j: usize) -> u16 {
	if ORG[o].leaf {
		(2 * (ORG[o].base + j)) as u16
	} else if j < ORG[o].nphys {
		(2 * item_id(o, j)) as u16
	} else {
		(2 * ORG[o].end) as u16
	}
}
pub unsafe fn child(o: usize, j: usize) -> usize {
	CHILD[o][j] as usize
}
pub unsafe fn owner(id: usize) -> (usize, usize) {
	(ID_ORG[id] as usize, ID_SLOT[id] as usize)
}
/// node o is part of the tree (branch-free)
pub unsafe fn in_tree(o: usize) -> bool {
	let mut e = true;
	let mut o = o;
	while ORG[o].parent != NONE {
		let p = ORG[o].parent;
		e = e & (ORG[o].pos <= ORG[p].cnt);
		o = p;
	}
	e
}
/// item id is part of the tree (branch-free)
pub unsafe fn present(id: usize) -> bool {
	let (o, s) = owner(id);
	(((s as u64) < ORG[o].cnt) as u8 & in_tree(o) as u8) == 1
}

/// Where the `len` of a value lies: the unique byte that is 1, 2, 3 in the
/// three given images, extended by zero bytes.
unsafe fn discover(a: *const u8, b: *const u8, c: *const u8, n: usize) -> (usize, usize) {
	let mut at = NONE;
	let mut i = 0;
	while i < n {
		if v_peek(a.add(i)) == 3 && v_peek(b.add(i)) == 1 && v_peek(c.add(i)) == 4 {
			if at != NONE {
				return (NONE, 0);
			}
			at = i
		}
		i += 1
	}
	if at == NONE {
		return (NONE, 0);
	}
	let mut w = 1;
	while w < 8 && at % (2 * w) == 0 && at + 2 * w <= n {
		let mut z = true;
		let mut k = w;
		while k < 2 * w {
			if v_peek(a.add(at + k)) != 0 || v_peek(b.add(at + k)) != 0 || v_peek(c.add(at + k)) != 0 {
				z = false
			}
			k += 1
		}
		if !z {
			break;
		}
		w *= 2
	}
	(at, w)
}
/// the bytes in which two images differ
unsafe fn diff(a: *const u8, b: *const u8, n: usize) -> (u64, u64) {
	let (mut lo, mut hi) = (n, 0);
	let mut i = 0;
	while i < n {
		if v_peek(a.add(i)) != v_peek(b.add(i)) {
			if i < lo {
				lo = i
			}
			hi = i + 1
		}
		i += 1
	}
	(lo as u64, hi as u64)
}
unsafe fn leaf_of<T: Lab, S: Sto<T>>(p: Option<S::Node>, n: usize) -> ManuallyDrop<Node<T, S>> {
	let mut l = LeafNode::from_item(p, T::mk(0x7171, DUMMY));
	let mut i = 1;
	while i < n {
		l.push_right(T::mk(0x7171, DUMMY));
		i += 1
	}
	ManuallyDrop::new(Node::Leaf(l))
}
unsafe fn int_of<T: Lab, S: Sto<T>>(p: Option<S::Node>, c: S::Node, n: usize) -> ManuallyDrop<Node<T, S>> {
	let mut l = InternalNode::binary(p, c, T::mk(0x7171, DUMMY), c);
	let mut i = 1;
	while i < n {
		l.push_right(T::mk(0x7171, DUMMY), c);
		i += 1
	}
	ManuallyDrop::new(Node::Internal(l))
}
fn ptr<X>(x: &X) -> *const u8 {
	x as *const X as *const u8
}
pub unsafe fn discover_all<T: Lab, S: Sto<T>>() {
	let n = size_of::<Node<T, S>>();
	{
		let mk = |k: usize| {
			let mut t = ManuallyDrop::new(RawBTree::<T, S>::new());
			let mut i = 0;
			while i < k {
				t.insert(cmp_items, T::mk(i as u16, DUMMY));
				i += 1
			}
			t
		};
		let (mut a, mut b, mut c) = (mk(3), mk(1), mk(4));
		TREE_LEN = if par(901) != 0 {
			(par(900) as usize, par(901) as usize)
		} else {
			discover(ptr(&a), ptr(&b), ptr(&c), size_of::<RawBTree<T, S>>())
		};
		let cid = a.root().unwrap();
		let (x, y, z) = (leaf_of::<T, S>(None, 3), leaf_of::<T, S>(None, 1), leaf_of::<T, S>(None, 4));
		LEAF_LEN = discover(ptr(&x), ptr(&y), ptr(&z), n);
		let y = leaf_of::<T, S>(Some(cid), 3);
		PAR_LEAF = diff(ptr(&x), ptr(&y), n);
		let (x, y, z) = (int_of::<T, S>(None, cid, 3), int_of::<T, S>(None, cid, 1), int_of::<T, S>(None, cid, 4));
		INT_LEN = discover(ptr(&x), ptr(&y), ptr(&z), n);
		let y = int_of::<T, S>(Some(cid), cid, 3);
		PAR_INT = diff(ptr(&x), ptr(&y), n);
		a.forget();
		b.forget();
		c.forget();
	}
	v_assert_tool(TREE_LEN.0 != NONE);
	SYMFILL = v_is_engine() && LEAF_LEN.0 != NONE && INT_LEN.0 != NONE;
	let mut i = 0;
	while i < NID {
		DROPS[i] = 0;
		i += 1
	}
	TDROPS = 0;
}
pub unsafe fn tree_len() -> (usize, usize) {
	TREE_LEN
}
/// the harness itself cannot work on this tree: reported as a tool error
pub unsafe fn v_assert_tool(c: bool) {
	v_check(c, 9)
}

unsafe fn cap_of(d: usize, leaf: bool) -> usize {
	let c = if leaf {
		(par(P_LCAP) as usize, LCAP)
	} else if d == 0 {
		(par(P_RCAP) as usize, ICAP)
	} else {
		(par(P_ICAP) as usize, ICAP)
	};
	if c.0 == 0 {
		c.1
	} else {
		c.0
	}
}
fn min_of(d: usize) -> usize {
	if d == 0 {
		1
	} else {
		MINI
	}
}

/// lays out the model (no tree yet): indices, ids, fills
unsafe fn plan(h: usize, d: usize, parent: usize, pos: usize, away: usize) -> usize {
	let o = NORG;
	v_assert_tool(o < NO);
	NORG += 1;
	let leaf = h == 1;
	let cap = if away > 0 { MINI + 2 - away } else { cap_of(d, leaf) };
	let share = par(P_SHARE);
	let own = S_CNT + o as u32;
	let cls = if share == 0 {
		own
	} else if d == 0 {
		S_CNT
	} else if share == 1 {
		S_CNT + 2 * d as u32 + (o % 2) as u32
	} else {
		S_CNT + 2 * d as u32
	};
	let mut cnt = v_sym(cls, min_of(d) as u64, cap as u64);
	if share != 0 || !SYMFILL {
		cnt = v_concretize(cnt)
	}
	let mut g = Org {
		ptr: 0,
		mem: 0,
		cnt,
		leaf,
		depth: d,
		hgt: h,
		parent,
		pos: pos as u64,
		base: NIDS,
		end: 0,
		// nodes beyond a fill that is known are not built
		nphys: if share != 0 { cnt as usize } else { cap },
		snap: 0,
	};
	if leaf {
		let mut j = 0;
		while j < cap {
			ID_ORG[NIDS] = o as u16;
			ID_SLOT[NIDS] = j as u8;
			NIDS += 1;
			j += 1
		}
	} else {
		let mut j = 0;
		while j <= cap {
			// how far from the spine: 0 on it, 1 beside it
			let w = if par(P_SPINE) == 0 {
				0
			} else if away > 0 {
				2
			} else {
				(j + 1).abs_diff(par(P_SPINE) as usize).min(2)
			};
			CHILD[o][j] = plan(h - 1, d + 1, o, j, w) as u16;
			if j < cap {
				ID_ORG[NIDS] = o as u16;
				ID_SLOT[NIDS] = j as u8;
				NIDS += 1;
			}
			j += 1
		}
	}
	g.end = NIDS;
	ORG[o] = g;
	o
}

unsafe fn mk_item<T: Lab>(o: usize, j: usize) -> T {
	let id = item_id(o, j);
	T::mk(key_of(id), id as u16)
}

/// builds node o (its children first); returns its content
unsafe fn content<T: Lab, S: Sto<T>>(o: usize) -> Node<T, S> {
	let g = ORG[o];
	let n = if SYMFILL { g.nphys } else { g.cnt as usize };
	if g.leaf {
		let mut l = LeafNode::from_item(None, mk_item(o, 0));
		let mut j = 1;
		while j < n {
			l.push_right(mk_item(o, j));
			j += 1
		}
		Node::Leaf(l)
	} else {
		let a = build::<T, S>(child(o, 0));
		let b = build::<T, S>(child(o, 1));
		let mut l = InternalNode::binary(None, a, mk_item(o, 0), b);
		let mut j = 1;
		while j < n {
			let c = build::<T, S>(child(o, j + 1));
			l.push_right(mk_item(o, j), c);
			j += 1
		}
		Node::Internal(l)
	}
}
unsafe fn installed<T: Lab, S: Sto<T>>(o: usize, id: S::Node) {
	ORG[o].ptr = S::k(id);
	v_assert_tool(size_of::<S::Node>() <= 8);
	(IDS[o].as_mut_ptr() as *mut S::Node).write(id);
	let m = node_mut::<T, S>(id) as *mut Node<T, S> as *mut u8;
	ORG[o].mem = m as usize;
	let g = ORG[o];
	HINT[(g.mem >> 20) & 1023] = o as u16;
	if !g.leaf {
		let n = if SYMFILL { g.nphys } else { g.cnt as usize };
		let mut j = 0;
		while j <= n {
			let c = node::<T, S>(id).child_id(j);
			node_mut::<T, S>(c).set_parent(Some(id));
			j += 1
		}
	}
	if SYMFILL {
		let l = if g.leaf { LEAF_LEN } else { INT_LEN };
		v_poke(m.add(l.0), l.1 as u64, g.cnt);
	}
}
unsafe fn build<T: Lab, S: Sto<T>>(o: usize) -> S::Node {
	let c = content::<T, S>(o);
	let id = alloc::<T, S>(c);
	installed::<T, S>(o, id);
	id
}
unsafe fn total(o: usize) -> u64 {
	// number of items below o, branch-free
	let mut n = ORG[o].cnt;
	if !ORG[o].leaf {
		let mut j = 0;
		while j <= ORG[o].nphys {
			let c = child(o, j);
			n += total(c) & 0u64.wrapping_sub((j as u64 <= ORG[o].cnt) as u64);
			j += 1
		}
	}
	n
}

/// An arbitrary valid tree of the given height (0: empty).
pub unsafe fn make<T: Lab, S: Sto<T>>(h: usize) -> ManuallyDrop<RawBTree<T, S>> {
	MASK = par(P_MASK);
	HGT = h;
	S::begin();
	discover_all::<T, S>();
	let mut t = ManuallyDrop::new(RawBTree::<T, S>::new());
	if h == 0 {
		LIVE0 = S::live();
		return t;
	}
	ROOT = plan(h, 0, NONE, 0, 0);
	t.insert(cmp_items, T::mk(0, DUMMY));
	let r = t.root().unwrap();
	let c = content::<T, S>(ROOT);
	forget(core::mem::replace(node_mut::<T, S>(r), c));
	installed::<T, S>(ROOT, r);
	// number of items: exact where that is cheap, otherwise any number a
	// tree of this height can have
	LEN0 = if EXACT || h <= 1 || par(P_SHARE) != 0 || (v_is_engine() && !SYMFILL) {
		total(ROOT)
	} else {
		let mut lo = 2;
		let mut i = 1;
		while i < h {
			lo *= MINI + 1;
			i += 1
		}
		v_sym(S_LEN, lo as u64 - 1, NIDS as u64)
	};
	v_poke((ptr(&*t) as *mut u8).add(TREE_LEN.0), TREE_LEN.1 as u64, LEN0);
	v_assert_tool(t.len() as u64 == LEN0);
	if v_is_engine() {
		let mut o = 0;
		while o < NORG {
			ORG[o].snap = if ORG[o].ptr != 0 { v_snapshot(ORG[o].mem as *const u8, size_of::<Node<T, S>>() as u64) } else { NONE as u64 };
			o += 1
		}
	}
	TDROPS = 0;
	DROPS[DUMMY as usize] = 0;
	LIVE0 = S::live();
	t
}

// ---------------------------------------------------------------- oracle
/// Where the key lies in the model: (hit, node, item or gap index)
pub unsafe fn oracle(q: u16) -> (bool, usize, usize) {
	let mut o = ROOT;
	loop {
		let mut j = 0;
		while (j as u64) < ORG[o].cnt {
			let k = key_of(item_id(o, j));
			if q == k {
				return (true, o, j);
			}
			if q < k {
				break;
			}
			j += 1
		}
		if ORG[o].leaf {
			return (false, o, j);
		}
		o = child(o, j)
	}
}
/// an arbitrary key of the label space
pub unsafe fn any_key() -> u16 {
	v_sym(S_KEY, 0, 2 * NIDS as u64) as u16
}
/// an arbitrary node of the tree
pub unsafe fn any_node(sym: u32) -> usize {
	let o = v_sym(sym, 0, NORG as u64 - 1);
	// indices of nodes beyond any fill never enter
	let o = v_concretize(o) as usize;
	v_assume(in_tree(o));
	o
}
static mut IDS: [MaybeUninit<*mut u8>; NO] = [MaybeUninit::uninit(); NO];
/// identifier of node o
pub unsafe fn node_id<T, S: Sto<T>>(o: usize) -> S::Node {
	(IDS[o].as_ptr() as *const S::Node).read()
}

// ---------------------------------------------------------------- walker
const ST_NONE: u8 = 0;
const ST_CHUNK: u8 = 1; // unchanged, with everything below it
const ST_TOUCHED: u8 = 2; // visited in detail
const ST_PHANTOM: u8 = 3;
const ST_GONE: u8 = 4;
pub static mut STATUS: [u8; NO] = [0; NO];
static mut FOUND: [u8; NID] = [0; NID];
pub struct Walk {
	pub prev: u64, // one more than the last key (0: none)
	pub leafdepth: usize,
	pub found: u64,
	pub newfound: u64,
	pub newnodes: u64,
	pub newkey: u16,
	pub touched: u64,
	pub order: bool,
}

pub unsafe fn lookup(mem: usize, p: usize) -> usize {
	let o = HINT[(mem >> 20) & 1023] as usize;
	if o < NORG && ORG[o].mem == mem && ORG[o].ptr == p {
		return o;
	}
	if v_is_engine() {
		return NONE;
	}
	let mut o = 0;
	while o < NORG {
		if ORG[o].mem == mem && ORG[o].ptr == p {
			return o;
		}
		o += 1
	}
	NONE
}
pub unsafe fn unchanged<T: Lab, S: Sto<T>>(o: usize) -> bool {
	if !SYMFILL {
		return false;
	}
	let sk = if ORG[o].leaf { PAR_LEAF } else { PAR_INT };
	v_same(ORG[o].snap, ORG[o].mem as *const u8, sk.0, sk.1)
}
unsafe fn parent_is<T: Lab, S: Sto<T>>(o: usize, p: Option<S::Node>) -> bool {
	match (node::<T, S>(node_id::<T, S>(o)).parent(), p) {
		(None, None) => true,
		(Some(a), Some(b)) => same::<T, S>(a, b),
		_ => false,
	}
}
pub unsafe fn chunk<T: Lab, S: Sto<T>>(o: usize) -> bool {
	if !unchanged::<T, S>(o) {
		return false;
	}
	if !ORG[o].leaf {
		let id = node_id::<T, S>(o);
		let mut j = 0;
		while j <= ORG[o].nphys {
			let c = child(o, j);
			if STATUS[c] != ST_NONE || !chunk::<T, S>(c) || !parent_is::<T, S>(c, Some(id)) {
				return false;
			}
			j += 1
		}
	}
	true
}
unsafe fn mark(o: usize) {
	STATUS[o] = ST_CHUNK;
	if !ORG[o].leaf {
		let mut j = 0;
		while j <= ORG[o].nphys {
			mark(child(o, j));
			j += 1
		}
	}
}

impl Walk {
	unsafe fn item<T: Lab>(&mut self, it: &T) {
		let id = it.id();
		let key = it.key();
		if self.order {
			ck(G_CONTENT | G_STRUCT, self.prev <= key as u64, C_ORDER);
		}
		self.prev = key as u64 + 1;
		if id == NEWID {
			self.newfound += 1;
			ck(G_CONTENT, key == self.newkey, C_NEWITEM);
		} else {
			let i = id as usize;
			ck(7, i < NIDS, C_CORRUPT);
			if i >= NIDS {
				v_stop()
			}
			ck(G_CONTENT | G_OWN, FOUND[i] == 0, C_DUP);
			FOUND[i] += 1;
			self.found += 1;
			ck(G_CONTENT | G_OWN, key == key_of(i), C_CORRUPT);
			ck(G_CONTENT | G_OWN, present(i), C_GHOST);
			ck(G_OWN, DROPS[i] == 0, C_DROPPED);
		}
	}
	unsafe fn leaf_at(&mut self, d: usize) {
		if self.leafdepth == NONE {
			self.leafdepth = d
		}
		ck(G_STRUCT, self.leafdepth == d, C_DEPTH);
	}
	pub unsafe fn node<T: Lab, S: Sto<T>>(&mut self, id: S::Node, parent: Option<S::Node>, d: usize) {
		v_check(d <= HGT + 1, C_MALFORMED);
		v_check(S::alive(id), C_DEADNODE);
		let n: &Node<T, S> = node::<T, S>(id);
		let o = lookup(ptr(n) as usize, S::k(id));
		let okp = match (n.parent(), parent) {
			(None, None) => true,
			(Some(a), Some(b)) => same::<T, S>(a, b),
			_ => false,
		};
		ck(G_STRUCT, okp, C_PARENT);
		if o != NONE {
			v_check(STATUS[o] == ST_NONE, C_TWICE);
			if chunk::<T, S>(o) {
				let g = &ORG[o];
				mark(o);
				if self.order {
					ck(G_CONTENT | G_STRUCT, self.prev <= key_of(g.base) as u64, C_ORDER);
				}
				self.prev = if g.leaf {
					// the key after (the label of) its last item
					(2 * g.base as u64).wrapping_add(g.cnt.wrapping_mul(2))
				} else {
					key_of(g.end - 1) as u64 + 1
				};
				self.leaf_at(d + g.hgt - 1);
				if g.depth == 0 && parent.is_some() {
					ck(G_STRUCT, g.cnt >= MINI as u64, C_UNDER);
				}
				return;
			}
			STATUS[o] = ST_TOUCHED;
			self.touched += 1;
		} else {
			self.newnodes += 1;
		}
		let cnt = v_concretize(n.item_count() as u64) as usize;
		match n {
			Node::Leaf(_) => {
				ck(G_STRUCT, cnt <= LCAP, C_OVER);
				if parent.is_some() {
					ck(G_STRUCT, cnt >= MINI, C_UNDER);
				} else {
					ck(G_STRUCT, cnt >= 1, C_ROOTEMPTY);
				}
				ck(G_STRUCT, n.child_count() == 0, C_CHILDCOUNT);
				self.leaf_at(d);
				let mut j = 0;
				while j < cnt {
					match n.item(j.into()) {
						Some(it) => self.item::<T>(it),
						None => v_check(false, C_MALFORMED),
					}
					j += 1
				}
			}
			Node::Internal(_) => {
				ck(G_STRUCT, cnt <= ICAP, C_OVER);
				if parent.is_some() {
					ck(G_STRUCT, cnt >= MINI, C_UNDER);
				} else {
					ck(G_STRUCT, cnt >= 1, C_ROOTEMPTY);
				}
				ck(G_STRUCT, n.child_count() == cnt + 1, C_CHILDCOUNT);
				let mut j = 0;
				while j < cnt {
					self.node::<T, S>(n.child_id(j), Some(id), d + 1);
					match n.item(j.into()) {
						Some(it) => self.item::<T>(it),
						None => v_check(false, C_MALFORMED),
					}
					j += 1
				}
				self.node::<T, S>(n.child_id(cnt), Some(id), d + 1);
			}
		}
	}
	/// accounts for every original node; returns the items they held that
	/// were not accounted for by unchanged nodes
	unsafe fn account<T: Lab, S: Sto<T>>(&mut self, o: usize, sum: &mut u64, freed: &mut u64, phantom: bool) {
		if STATUS[o] == ST_CHUNK || ORG[o].ptr == 0 {
			return;
		}
		if phantom {
			STATUS[o] = ST_PHANTOM;
		} else {
			*sum += ORG[o].cnt;
			if STATUS[o] == ST_NONE {
				STATUS[o] = ST_GONE;
				ck(G_OWN, !S::alive(node_id::<T, S>(o)), C_LEAKNODE);
				*freed += 1
			}
		}
		if !ORG[o].leaf {
			let mut j = 0;
			while j <= ORG[o].nphys {
				let c = child(o, j);
				let ph = phantom || (STATUS[c] != ST_CHUNK && j as u64 > ORG[o].cnt);
				self.account::<T, S>(c, sum, freed, ph);
				j += 1
			}
		}
	}
}

/// What the operation did according to the model.
pub struct Expect {
	pub new: bool,     // the item NEWID/newkey is stored
	pub newkey: u16,
	pub gone: u64,     // original items no longer stored
	pub goneid: u16,   // the one that must be gone (MISSING: none)
	pub order: bool,   // keys must be increasing
}

/// Compares the tree with the model after an operation.
/// no observations from post
pub static mut QUIET: bool = false;
pub unsafe fn post<T: Lab, S: Sto<T>>(t: &RawBTree<T, S>, e: &Expect) {
	let mut w = Walk { prev: 0, leafdepth: NONE, found: 0, newfound: 0, newnodes: 0, newkey: e.newkey, touched: 0, order: e.order };
	if let Some(r) = t.root() {
		w.node::<T, S>(r, None, 0);
	}
	let mut sum = 0;
	let mut freed = 0;
	if HGT > 0 {
		w.account::<T, S>(ROOT, &mut sum, &mut freed, false);
	}
	ck(G_CONTENT | G_OWN, sum == w.found + e.gone, C_LOST);
	if e.goneid != MISSING {
		ck(G_CONTENT, FOUND[e.goneid as usize] == 0, C_DUP);
	}
	ck(G_CONTENT | G_OWN, w.newfound == e.new as u64, C_NEWCOUNT);
	ck(G_OWN, S::live() + freed == LIVE0 + w.newnodes, C_LEAKNODE);
	ck(G_CONTENT, t.len() as u64 == LEN0 + e.new as u64 - e.gone, C_LEN);
	if t.root().is_none() {
		ck(G_STRUCT | G_CONTENT, !e.new && sum == e.gone, C_EMPTYROOT);
	} else {
		ck(G_STRUCT | G_CONTENT, w.leafdepth != NONE, C_EMPTYROOT);
	}
	ck(G_CONTENT, t.is_empty() == (t.len() == 0), C_EMPTY);
	if !QUIET {
		v_observe((t.len() as u64).wrapping_sub(LEN0));
		v_observe(w.leafdepth as u64);
	}
	if w.newnodes > 0 {
		v_cover(10)
	}
	if freed > 0 {
		v_cover(11)
	}
	if w.newnodes == 0 && freed == 0 && w.touched >= 3 {
		v_cover(12)
	}
	if HGT > 0 && w.leafdepth == HGT {
		v_cover(13)
	}
	if HGT > 1 && w.leafdepth == HGT - 2 {
		v_cover(14)
	}
	if t.root().is_none() {
		v_cover(15)
	}
	if w.newnodes > 1 {
		v_cover(16)
	}
	if freed > 1 {
		v_cover(17)
	}
}
