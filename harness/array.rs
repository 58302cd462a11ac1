// The fixed-capacity arrays nodes keep their items in (C22).  Their type has
// no public name, but `LeafNode::new`, `InternalNode::new` and
// `LeafNode::items().clone()` hand it to anyone, so every safe call counts.
use super::common::*;
use core::mem::{forget, size_of, ManuallyDrop};
use core::ops::Bound;
use raw_btree::node::internal::Branch;
use raw_btree::node::{InternalNode, LeafNode};
use raw_btree::storage::BoxStorage;
use raw_btree::{Node, Storage, M};

type Id<T> = <BoxStorage as Storage<T>>::Node;

/// an element that knows who it is
pub struct El {
	pub id: u16,
}
static mut COPIES: [u8; 64] = [0; 64];
static mut CLONES_PANIC: bool = false;
impl Drop for El {
	fn drop(&mut self) {
		unsafe { on_drop(self.id) }
	}
}
/// the clone of element i is element i + 100
impl Clone for El {
	fn clone(&self) -> El {
		unsafe {
			if CLONES_PANIC {
				user_call()
			}
			v_check(self.id < 64 && DROPS[self.id as usize] == 0, C_CORRUPT);
			COPIES[self.id as usize] += 1;
			El { id: self.id + 100 }
		}
	}
}
/// the array a node constructor takes
fn for_leaf<T, A: Default>(_: fn(Option<Id<T>>, A) -> LeafNode<T, BoxStorage>) -> A {
	A::default()
}
fn for_internal<T, A: Default>(_: fn(Option<Id<T>>, Id<T>, A) -> InternalNode<T, BoxStorage>) -> A {
	A::default()
}

const L: usize = 40;
/// what the array should hold
struct Model {
	n: usize,
	id: [u16; L],
}
impl Model {
	fn insert(&mut self, at: usize, id: u16) {
		let mut j = self.n;
		while j > at {
			self.id[j] = self.id[j - 1];
			j -= 1
		}
		self.id[at] = id;
		self.n += 1
	}
	fn remove(&mut self, at: usize, n: usize) {
		let mut j = at;
		while j + n < self.n {
			self.id[j] = self.id[j + n];
			j += 1
		}
		self.n -= n
	}
}
/// elements 1 to 39 were made so far up to MADE; KEPT were handed out
static mut MADE: usize = 0;
static mut KEPT: [u8; 64] = [0; 64];
unsafe fn fresh() -> u16 {
	MADE += 1;
	MADE as u16
}
unsafe fn sym(id: u32, lo: usize, hi: usize) -> usize {
	v_concretize(v_sym(id, lo as u64, hi as u64)) as usize
}
/// every element made was destroyed once or handed out, but for `left`
unsafe fn settled(s: &Model) {
	let mut i = 1;
	while i <= MADE {
		let mut here = 0;
		let mut j = 0;
		while j < s.n {
			if s.id[j] == i as u16 {
				here += 1
			}
			j += 1
		}
		v_check(DROPS[i] + KEPT[i] + here == 1, if DROPS[i] > 1 { C_DOUBLE } else if DROPS[i] == 0 { C_NOTDROPPED } else { C_DROPPED });
		i += 1
	}
}
/// as `settled`, but elements may have been leaked
unsafe fn never_twice(n: usize) {
	let mut i = 1;
	while i <= n {
		v_check(DROPS[i] + KEPT[i] <= 1, C_DOUBLE);
		i += 1
	}
}

macro_rules! arrays {
	($f:ident, $cap:expr, $new:expr, $t:ty, $mk:expr, $id:expr, $clone:tt) => {
		unsafe fn $f() {
			MASK = 7;
			NIDS = 256;
			const CAP: usize = $cap;
			let mk = $mk;
			let id = $id;
			let keep = |x: $t| {
				let i = id(&x);
				KEPT[i as usize] += 1;
				forget(x);
				i
			};
			let n = sym(S_CNT, 0, CAP);
			let mut s = Model { n, id: [0; L] };
			let mut a = $new;
			let mut j = 0;
			while j < n {
				s.id[j] = fresh();
				a.push(mk(s.id[j]));
				j += 1
			}
			macro_rules! is {
				($a:expr) => {
					v_check($a.len() == s.n && $a.is_empty() == (s.n == 0), 160);
					let mut j = 0;
					for x in $a.as_slice() {
						v_check(j < s.n && id(x) == s.id[j], 160);
						j += 1
					}
					v_check(j == s.n, 160);
				};
			}
			// what the array holds now: what it held, then some of what came later
			macro_rules! found {
				($a:expr) => {
					v_check($a.len() >= n && $a.len() <= CAP, 160);
					s.n = 0;
					for x in $a.as_slice() {
						let i = id(x);
						v_check(s.n < CAP && i as usize <= MADE && if s.n < n { i as usize == s.n + 1 } else { i as usize > n && (s.n == 0 || i > s.id[s.n.max(1) - 1]) }, 164);
						s.id[s.n] = i;
						s.n += 1
					}
					v_check($a.len() == s.n, 160);
				};
			}
			is!(a);
			settled(&s);
			let mut done = false; // consumed already
			let mut a = ManuallyDrop::new(a);
			match par(P_OP) {
				0 => {
					// reading and writing in place, as a slice
					let i = v_sym(S_OFF, 0, u64::MAX) as usize;
					let i = if i < n { v_concretize(i as u64) as usize } else { i };
					v_check(a.get(i).map(|x| id(x)) == if i < n { Some(s.id[i]) } else { None }, 160);
					v_check(a.first().map(|x| id(x)) == if n > 0 { Some(s.id[0]) } else { None }, 160);
					v_check(a.last().map(|x| id(x)) == if n > 0 { Some(s.id[n - 1]) } else { None }, 160);
					let mut j = 0;
					for x in &*a {
						v_check(j < n && id(x) == s.id[j], 160);
						j += 1
					}
					v_check(j == n, 160);
					let k = fresh();
					let x = a.get_mut(i).map(|p| core::mem::replace(p, mk(k)));
					match x {
						Some(x) => {
							v_check(i < n && id(&x) == s.id[i], 161);
							s.id[i] = k
						}
						None => {
							v_check(i >= n, 161);
							KEPT[k as usize] = 1
						}
					}
					is!(a);
					let t = a.as_slice_mut();
					v_check(t.len() == n, 160);
					t.reverse();
					let mut j = 0;
					while j < n / 2 {
						let x = s.id[j];
						s.id[j] = s.id[n - 1 - j];
						s.id[n - 1 - j] = x;
						j += 1
					}
				}
				1 => {
					let k = fresh();
					let ar = &mut a;
					let failed = try_(|| ar.push(mk(k)));
					v_check(failed == (n == CAP), 162);
					v_cover(if failed { 27 } else { 28 });
					if !failed {
						s.insert(n, k)
					}
				}
				2 => {
					let x = a.pop();
					v_check(x.is_some() == (n > 0), 161);
					if let Some(x) = x {
						s.n -= 1;
						v_check(keep(x) == s.id[s.n], 161)
					}
				}
				3 => {
					let i = v_sym(S_OFF, 0, u64::MAX) as usize;
					let i = if i <= n { v_concretize(i as u64) as usize } else { i };
					let k = fresh();
					let ar = &mut a;
					let failed = try_(|| ar.insert(i, mk(k)));
					v_check(failed == (n == CAP || i > n), 162);
					v_cover(if failed { 27 } else { 28 });
					if !failed {
						s.insert(i, k)
					}
				}
				4 => {
					let i = v_sym(S_OFF, 0, u64::MAX) as usize;
					let i = if i < n { v_concretize(i as u64) as usize } else { i };
					let x = a.remove(i);
					v_check(x.is_some() == (i < n), 161);
					if let Some(x) = x {
						v_check(keep(x) == s.id[i], 161);
						s.remove(i, 1)
					}
				}
				5 => {
					// appending another array, which may not fit
					let m = sym(S_AUX, 0, CAP);
					let mut b = $new;
					let mut j = 0;
					while j < m {
						let k = fresh();
						b.push(mk(k));
						if s.n < CAP {
							s.insert(n + j, k)
						}
						j += 1
					}
					let ar = &mut a;
					let br = &mut b;
					let failed = try_(|| ar.append(br));
					v_check(failed == (n + m > CAP), 162);
					v_cover(if failed { 27 } else { 28 });
					if failed {
						// some of them may have been moved; none is in both or lost
						found!(a);
						for x in b.as_slice() {
							KEPT[id(x) as usize] += 1
						}
					} else {
						v_check(b.is_empty(), 160);
					}
					forget(b);
				}
				6 | 8 => {
					// draining any part, from either end, up to any point
					let from = sym(S_OFF, 0, n);
					let to = sym(S_NODE, from, n);
					let style = sym(S_AUX + 3, 0, 3);
					let mut d = match style {
						1 if to > 0 => a.drain((Bound::Included(from), Bound::Included(to - 1))),
						2 if from > 0 => a.drain((Bound::Excluded(from - 1), Bound::Excluded(to))),
						3 if from == 0 && to == n => a.drain(..),
						_ => a.drain(from..to),
					};
					let front = sym(S_AUX, 0, to - from);
					let back = sym(S_AUX + 1, 0, to - from - front);
					let mut j = 0;
					while j < front {
						v_check(d.size_hint() == (to - from - j, Some(to - from - j)) && d.len() == to - from - j, 163);
						match d.next() {
							Some(x) => v_check(keep(x) == s.id[from + j], 161),
							None => v_check(false, 161),
						}
						j += 1
					}
					j = 0;
					while j < back {
						match d.next_back() {
							Some(x) => v_check(keep(x) == s.id[to - 1 - j], 161),
							None => v_check(false, 161),
						}
						j += 1
					}
					v_check(d.len() == to - from - front - back, 163);
					if par(P_OP) == 8 {
						// a leaked drain may leak elements, but nothing is there twice
						forget(d);
						let mut last = 0;
						for x in a.as_slice() {
							let i = id(x);
							v_check(i > last && i as usize <= n && KEPT[i as usize] == 0, 164);
							last = i
						}
						v_check(a.len() <= n, 160);
						ManuallyDrop::drop(&mut a);
						never_twice(n);
						return;
					}
					if front + back == to - from {
						v_check(d.next().is_none() && d.next_back().is_none() && d.next().is_none() && d.len() == 0, 161)
					}
					drop(d);
					s.remove(from, to - from);
				}
				7 => {
					// ranges that are out of bounds
					let from = v_sym(S_OFF, 0, u64::MAX) as usize;
					let to = v_sym(S_NODE, 0, u64::MAX) as usize;
					let style = sym(S_AUX + 3, 0, 4);
					let ar = &mut a;
					let bad = |ok: bool| v_assume(!ok);
					let failed = match style {
						0 => {
							bad(from <= to && to <= n);
							try_(|| drop(ar.drain(from..to)))
						}
						1 => {
							bad(from <= n && to < n && from <= to + 1);
							try_(|| drop(ar.drain(from..=to)))
						}
						2 => {
							bad(from <= n);
							try_(|| drop(ar.drain(from..)))
						}
						3 => {
							bad(to <= n);
							try_(|| drop(ar.drain(..to)))
						}
						_ => {
							bad(from < n);
							try_(|| drop(ar.drain((Bound::Excluded(from), Bound::Unbounded))))
						}
					};
					// refused or nothing at all: everything is still there
					v_observe(failed as u64);
				}
				9 => {
					a.clear();
					s.n = 0;
					is!(a);
					settled(&s);
					let k = fresh();
					a.push(mk(k));
					s.insert(0, k);
				}
				10 => {
					// consuming iteration, from either end, up to any point
					let mut d = ManuallyDrop::take(&mut a).into_iter();
					let front = sym(S_AUX, 0, n);
					let back = sym(S_AUX + 1, 0, n - front);
					let mut j = 0;
					while j < front {
						v_check(d.size_hint() == (n - j, Some(n - j)), 163);
						match d.next() {
							Some(x) => v_check(keep(x) == s.id[j], 161),
							None => v_check(false, 161),
						}
						j += 1
					}
					j = 0;
					while j < back {
						v_check(d.size_hint() == (n - front - j, Some(n - front - j)), 163);
						match d.next_back() {
							Some(x) => v_check(keep(x) == s.id[n - 1 - j], 161),
							None => v_check(false, 161),
						}
						j += 1
					}
					if front + back == n {
						v_check(d.next().is_none() && d.next_back().is_none() && d.next().is_none(), 161)
					}
					drop(d);
					s.n = 0;
					done = true;
				}
				11 => {
					// growing from an iterator, which may not fit
					let m = sym(S_AUX, 0, CAP + 1);
					let ar = &mut a;
					let first = MADE;
					let mut j = 0;
					while j < m {
						let k = fresh();
						if s.n < CAP {
							s.insert(n + j, k)
						}
						j += 1
					}
					let made = core::cell::Cell::new(0);
					let failed = try_(|| {
						ar.extend((0..m).map(|j| {
							made.set(j + 1);
							mk((first + 1 + j) as u16)
						}))
					});
					v_check(failed == (n + m > CAP), 162);
					v_cover(if failed { 27 } else { 28 });
					if failed {
						found!(a);
					}
					// elements the iterator was not asked for
					j = made.get();
					while j < m {
						KEPT[first + 1 + j] = 1;
						j += 1
					}
				}
				12 => {
					// any destructor panics
					let what = par(P_X);
					let front = if what >= 2 { sym(S_AUX + 1, 0, if n > 2 { 2 } else { n }) } else { 0 };
					CALLS = 0;
					PANICKED = false;
					PANIC_AT = v_sym(S_AUX, 1, CAP as u64 + 1);
					DROP_PANICS = true;
					let ar = &mut a;
					let failed = match what {
						0 => try_(|| ar.clear()),
						1 => try_(|| ManuallyDrop::drop(ar)),
						2 => try_(|| {
							let mut d = ManuallyDrop::take(ar).into_iter();
							let mut j = 0;
							while j < front {
								if let Some(x) = d.next() {
									keep(x);
								}
								j += 1
							}
						}),
						_ => try_(|| {
							let to = ar.len() - (n > 3) as usize;
							let mut d = ar.drain((n > 4) as usize..to);
							let mut j = 0;
							while j < front {
								if let Some(x) = d.next() {
									keep(x);
								}
								j += 1
							}
						}),
					};
					DROP_PANICS = false;
					PANIC_AT = 0;
					v_check(failed == PANICKED, 133);
					v_cover(if failed { 27 } else { 28 });
					v_observe(failed as u64);
					if what == 0 || what == 3 {
						// still an array of elements nobody else has
						let mut last = 0;
						for x in a.as_slice() {
							let i = id(x);
							v_check(i > last && i as usize <= n && DROPS[i as usize] == 0 && KEPT[i as usize] == 0, 164);
							last = i
						}
						v_check(a.len() <= n, 160);
						ManuallyDrop::drop(&mut a);
					}
					never_twice(n);
					if !failed {
						s.n = 0;
						settled(&s)
					}
					return;
				}
				_ => arrays!(@clone $clone a s n),
			}
			if !done {
				is!(a);
				settled(&s);
				ManuallyDrop::drop(&mut a);
			}
			s.n = 0;
			settled(&s);
		}
	};
	(@clone no $a:ident $s:ident $n:ident) => { v_assume(false) };
	(@clone yes $a:ident $s:ident $n:ident) => {{
		// cloning, where any clone may panic
		CALLS = 0;
		PANICKED = false;
		PANIC_AT = v_sym(S_AUX, 1, 10);
		CLONES_PANIC = true;
		let mut c = None;
		let ar = &$a;
		let failed = try_(|| c = Some((**ar).clone()));
		CLONES_PANIC = false;
		PANIC_AT = 0;
		v_check(failed == PANICKED, 133);
		v_cover(if failed { 27 } else { 28 });
		let mut i = 1;
		while i <= $n {
			v_check(DROPS[i] == 0, C_DROPPED);
			v_check(COPIES[i] <= 1 && DROPS[i + 100] <= COPIES[i], C_DOUBLE);
			i += 1
		}
		if let Some(c) = c {
			v_check(c.len() == $n, 165);
			let mut j = 0;
			for x in c.as_slice() {
				v_check(j < $n && x.id == $s.id[j] + 100, 165);
				j += 1
			}
			v_check(j == $n, 165);
			drop(c);
			j = 1;
			while j <= $n {
				v_check(COPIES[j] == 1 && DROPS[j + 100] == 1, C_NOTDROPPED);
				j += 1
			}
		}
	}};
}
arrays!(leaf_array, M + 1, for_leaf::<El, _>(LeafNode::new), El, |i: u16| El { id: i }, |x: &El| x.id, yes);
static mut NODE: core::mem::MaybeUninit<Id<El>> = core::mem::MaybeUninit::uninit();
arrays!(
	internal_array,
	M,
	for_internal::<El, _>(InternalNode::new),
	Branch<El, BoxStorage>,
	|i: u16| Branch { item: El { id: i }, child: NODE.assume_init() },
	|x: &Branch<El, BoxStorage>| x.item.id,
	no
);
unsafe fn reset() {
	MADE = 0;
	KEPT = [0; 64];
	COPIES = [0; 64];
	DROPS = [0; NID];
	TDROPS = 0;
	DROP_PANICS = false;
	CLONES_PANIC = false;
}
#[no_mangle]
pub extern "C-unwind" fn h_array() {
	unsafe {
		reset();
		if par(P_HEIGHT) == 0 {
			leaf_array()
		} else {
			// a node for the branches to name
			let x = alloc::<El, BoxStorage>(Node::Leaf(LeafNode::from_item(None, El { id: 63 })));
			NODE.write(x);
			internal_array()
		}
	}
}
