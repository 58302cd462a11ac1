// Iteration: borrowing (C04) and consuming (C05).
use super::common::*;
use core::mem::ManuallyDrop;
use raw_btree::storage::BoxStorage;
use raw_btree::RawBTree;

pub static mut SEQ: [u16; NID] = [0; NID];
pub static mut NSEQ: usize = 0;
unsafe fn flatten(o: usize) {
	let n = org(o).cnt as usize;
	let mut j = 0;
	while j < n {
		if !org(o).leaf {
			flatten(child(o, j))
		}
		SEQ[NSEQ] = item_id(o, j) as u16;
		NSEQ += 1;
		j += 1
	}
	if !org(o).leaf {
		flatten(child(o, n))
	}
}
/// the items of the tree in order (fills are concrete here)
pub unsafe fn sequence() -> usize {
	NSEQ = 0;
	if HGT > 0 {
		flatten(ROOT)
	}
	NSEQ
}

pub trait Src {
	type I;
	fn nx(&mut self) -> Option<Self::I>;
	fn nb(&mut self) -> Option<Self::I>;
	fn rest(&self) -> (usize, Option<usize>, usize);
}
impl<I: Iterator + DoubleEndedIterator + ExactSizeIterator> Src for I {
	type I = I::Item;
	fn nx(&mut self) -> Option<I::Item> {
		self.next()
	}
	fn nb(&mut self) -> Option<I::Item> {
		self.next_back()
	}
	fn rest(&self) -> (usize, Option<usize>, usize) {
		let (a, b) = self.size_hint();
		(a, b, self.len())
	}
}
/// what is left, and how it must look
pub struct Ends {
	pub lo: usize,
	pub hi: usize,
}
pub unsafe fn hint<I: Src>(it: &I, e: &Ends) {
	let n = e.hi - e.lo;
	let (a, b, c) = it.rest();
	v_check(a == n && b == Some(n) && c == n, 70);
}
/// takes one item from an end and compares it
pub unsafe fn take<I: Src, F: FnMut(I::I) -> u16>(it: &mut I, back: bool, e: &mut Ends, f: &mut F) {
	let r = if back { it.nb() } else { it.nx() };
	if e.lo == e.hi {
		v_check(r.is_none(), 71);
		return;
	}
	let want = if back { SEQ[e.hi - 1] } else { SEQ[e.lo] };
	match r {
		Some(x) => v_check(f(x) == want, if back { 73 } else { 72 }),
		None => v_check(false, if back { 73 } else { 72 }),
	}
	if back {
		e.hi -= 1
	} else {
		e.lo += 1
	}
}
/// the pattern in which items are taken: `x` first from the front, then `y`
/// from the back, and so on
pub const PAT_SPLIT: u64 = 0; // f from the front, the rest from the back
pub const PAT_SPLIT_B: u64 = 1; // f from the back, the rest from the front
pub const PAT_FBF: u64 = 2; // f front, g back, rest front
pub const PAT_ANY: u64 = 3; // an arbitrary choice at each step
pub const PAT_BFB: u64 = 4;

pub unsafe fn pattern<I: Src, F: FnMut(I::I) -> u16, G: FnMut(&I, &Ends)>(it: &mut I, e: &mut Ends, pat: u64, f: &mut F, g: &mut G) {
	let n = e.hi - e.lo;
	hint(it, e);
	if pat == PAT_ANY {
		let mut k = 0;
		while k < n {
			let back = v_sym(S_CALL + k as u32, 0, 1) == 1;
			take(it, back, e, f);
			hint(it, e);
			g(it, e);
			k += 1
		}
	} else {
		let swap = pat == PAT_SPLIT_B || pat == PAT_BFB;
		let a = v_sym(S_AUX, 0, n as u64);
		let mut k = 0;
		while (k as u64) < a {
			take(it, swap, e, f);
			k += 1
		}
		hint(it, e);
		g(it, e);
		let b = if pat == PAT_FBF || pat == PAT_BFB { v_sym(S_AUX + 1, 0, (e.hi - e.lo) as u64) } else { (e.hi - e.lo) as u64 };
		k = 0;
		while (k as u64) < b {
			take(it, !swap, e, f);
			k += 1
		}
		hint(it, e);
		g(it, e);
		while e.lo < e.hi {
			take(it, swap, e, f);
		}
	}
	hint(it, e);
	// exhausted: nothing from either end, whatever is asked first
	if v_sym(S_AUX + 2, 0, 1) == 0 {
		take(it, false, e, f);
		take(it, true, e, f);
		take(it, false, e, f);
	} else {
		take(it, true, e, f);
		take(it, false, e, f);
		take(it, true, e, f);
	}
	hint(it, e);
	v_observe(n as u64);
}

/// the other ways to take items: `a` items from one end, then one of the
/// iterator's provided methods
pub unsafe fn provided<I: Iterator + DoubleEndedIterator + ExactSizeIterator, F: FnMut(I::Item) -> u16>(mut it: I, e: &mut Ends, f: &mut F, lost: &mut dyn FnMut(usize)) {
	let n = e.hi - e.lo;
	let a = v_concretize(v_sym(S_AUX, 0, n.min(3) as u64)) as usize;
	let b = v_concretize(v_sym(S_AUX + 1, 0, (n - a).min(3) as u64)) as usize;
	let mut k = 0;
	while k < a + b {
		take(&mut it, k >= a, e, f);
		k += 1
	}
	let m = v_concretize(v_sym(S_OP, 0, 9));
	match m {
		0..=3 => {
			// from the front or the back, skipping some; twice
			let mut r = 0;
			while r < 2 {
				let left = e.hi - e.lo;
				let s = v_concretize(v_sym(S_KEY + r, 0, left as u64 + 1)) as usize;
				let back = if r == 0 { m & 1 == 1 } else { m & 2 == 2 };
				let x = if back { it.nth_back(s) } else { it.nth(s) };
				let mut k = 0;
				while k < s.min(left) {
					lost(if back { e.hi - 1 } else { e.lo });
					if back {
						e.hi -= 1
					} else {
						e.lo += 1
					}
					k += 1
				}
				if s < left {
					let want = SEQ[if back { e.hi - 1 } else { e.lo }];
					v_check(x.map(|x| f(x)) == Some(want), if back { 73 } else { 72 });
					if back {
						e.hi -= 1
					} else {
						e.lo += 1
					}
				} else {
					v_check(x.is_none(), 71)
				}
				v_check(it.len() == e.hi - e.lo, 70);
				r += 1
			}
			// the rest
			while e.lo < e.hi {
				take(&mut it, false, e, f);
			}
			take(&mut it, m & 1 == 0, e, f);
			return;
		}
		4 => {
			v_check(it.count() == e.hi - e.lo, 70);
			while e.lo < e.hi {
				lost(e.lo);
				e.lo += 1
			}
		}
		5 => {
			let x = it.last();
			while e.lo + 1 < e.hi {
				lost(e.lo);
				e.lo += 1
			}
			v_check(x.map(|x| f(x)) == if e.lo < e.hi { Some(SEQ[e.lo]) } else { None }, 72);
			e.lo = e.hi;
		}
		6 => {
			let (lo, hi) = (e.lo, e.hi);
			let n = it.fold(lo, |k, x| {
				v_check(k < hi && f(x) == SEQ[k], 72);
				k + 1
			});
			v_check(n == hi, 72);
			e.lo = hi;
		}
		7 => {
			let (lo, hi) = (e.lo, e.hi);
			let n = it.rfold(hi, |k, x| {
				v_check(k > lo && f(x) == SEQ[k - 1], 73);
				k - 1
			});
			v_check(n == lo, 73);
			e.hi = lo;
		}
		8 => {
			// stops at the first match, either way, and goes on from there
			let left = e.hi - e.lo;
			if left > 0 {
				let s = v_concretize(v_sym(S_KEY, 0, left as u64 - 1)) as usize;
				let mut c = 0;
				it.try_fold((), |_, x| {
					v_check(f(x) == SEQ[e.lo], 72);
					e.lo += 1;
					c += 1;
					if c > s {
						None
					} else {
						Some(())
					}
				});
				v_check(c == s + 1 && it.len() == e.hi - e.lo, 70);
			}
			while e.lo < e.hi {
				take(&mut it, true, e, f);
			}
		}
		_ => {
			for x in it.by_ref().rev() {
				v_check(e.hi > e.lo && f(x) == SEQ[e.hi - 1], 73);
				e.hi -= 1
			}
			v_check(e.lo == e.hi && it.len() == 0 && it.next().is_none(), 71);
		}
	}
}

pub unsafe fn borrowed<T: Lab, S: Sto<T>>() {
	let h = par(P_HEIGHT) as usize;
	let op = par(P_OP);
	EXACT = true;
	let mut t = make::<T, S>(h);
	let n = sequence();
	v_check(t.len() == n, 17);
	let mut e = Ends { lo: 0, hi: n };
	match op {
		0 => {
			let mut it = t.iter();
			pattern(&mut it, &mut e, par(P_X), &mut |x: &T| x.id(), &mut |_, _| ());
		}
		1 => {
			// a copied iterator continues on its own from the same position
			let mut it = (&*t).into_iter();
			let mut first = true;
			pattern(&mut it, &mut e, par(P_X), &mut |x: &T| x.id(), &mut |it, e| {
				if first || (e.hi - e.lo) % 4 == 1 {
					let mut c = *it;
					let mut d = it.clone();
					let mut ec = Ends { lo: e.lo, hi: e.hi };
					let mut ed = Ends { lo: e.lo, hi: e.hi };
					hint(&c, &ec);
					let mut k = 0;
					while k < 5 {
						take(&mut c, false, &mut ec, &mut |x: &T| x.id());
						take(&mut d, true, &mut ed, &mut |x: &T| x.id());
						k += 1
					}
					hint(&c, &ec);
					hint(&d, &ed);
				}
				first = false
			});
		}
		3 => provided(t.iter(), &mut e, &mut |x: &T| x.id(), &mut |_| ()),
		4 => provided(t.iter_mut(), &mut e, &mut |x: &mut T| x.id(), &mut |_| ()),
		_ => {
			// every item is written once through the iterator
			let mut k = 0;
			let ids = NIDS as u16;
			let mut it = t.iter_mut();
			pattern(
				&mut it,
				&mut e,
				par(P_X),
				&mut |x: &mut T| {
					let id = x.id();
					x.set(ids.wrapping_sub(id));
					id
				},
				&mut |_, _| (),
			);
			// later reads see it
			let mut it = t.iter();
			while k < n {
				match it.next() {
					Some(x) => v_check(x.id() == ids.wrapping_sub(SEQ[k]) && x.key() == key_of(SEQ[k] as usize), 74),
					None => v_check(false, 74),
				}
				k += 1
			}
		}
	}
	v_check(t.len() == n, 17);
	if op != 2 && h > 0 && v_is_engine() {
		v_check(chunk::<T, S>(ROOT), 59)
	}
}
#[no_mangle]
pub extern "C-unwind" fn h_iter() {
	unsafe { borrowed::<It, BoxStorage>() }
}

pub unsafe fn consume<T: Lab, S: Sto<T>>() {
	let h = par(P_HEIGHT) as usize;
	let op = par(P_OP);
	EXACT = true;
	let t = make::<T, S>(h);
	let n = sequence();
	let mut e = Ends { lo: 0, hi: n };
	NODES_IN = if h > 0 { count_nodes(ROOT) } else { 0 };
	let mut it = ManuallyDrop::into_inner(t).into_iter();
	let mut take_id = |x: T| {
		let id = x.id();
		v_check(!T::TRACKED || DROPS[id as usize] == 0, 31);
		// the receiver keeps it: it is his to destroy
		core::mem::forget(x);
		DROPS[id as usize] = 100;
		id
	};
	if op == 2 {
		provided(it, &mut e, &mut take_id, &mut |k| v_check(!T::TRACKED || DROPS[SEQ[k] as usize] == 1, 34));
		let mut k = 0;
		let mut gone = 0;
		while k < n {
			let d = DROPS[SEQ[k] as usize];
			v_check(d == 100 || d == T::TRACKED as u8, 34);
			gone += (d == 1) as u64;
			k += 1
		}
		v_check(TDROPS == gone, 34);
		v_check(S::live() == LIVE0 - NODES_IN as u64, 32);
		return;
	}
	match op {
		0 => pattern(&mut it, &mut e, par(P_X), &mut take_id, &mut |_, _| ()),
		_ => {
			// dropped with items left
			let a = v_sym(S_AUX, 0, n as u64);
			let mut k = 0;
			while (k as u64) < a {
				take(&mut it, false, &mut e, &mut take_id);
				k += 1
			}
			let b = if n > 24 { v_sym(S_AUX + 1, 0, 8.min((e.hi - e.lo) as u64)) } else { v_sym(S_AUX + 1, 0, (e.hi - e.lo) as u64) };
			k = 0;
			while (k as u64) < b {
				take(&mut it, true, &mut e, &mut take_id);
				k += 1
			}
			hint(&it, &e);
			v_observe((e.hi - e.lo) as u64);
		}
	}
	v_check(TDROPS == 0, 31);
	drop(it);
	v_check(!T::TRACKED || TDROPS == (e.hi - e.lo) as u64, 34);
	let mut k = 0;
	while k < n {
		let want = if k < e.lo || k >= e.hi { 100 } else { T::TRACKED as u8 };
		v_check(DROPS[SEQ[k] as usize] == want, if want < 2 { 34 } else { 30 });
		k += 1
	}
	v_check(S::live() == LIVE0 - NODES_IN as u64, 32);
}
/// nodes actually in the tree (fills are concrete)
pub static mut NODES_IN: usize = 0;
pub unsafe fn count_nodes(o: usize) -> usize {
	let mut n = 1;
	if !org(o).leaf {
		let mut j = 0;
		while j <= org(o).cnt as usize {
			n += count_nodes(child(o, j));
			j += 1
		}
	}
	n
}
#[no_mangle]
pub extern "C-unwind" fn h_into() {
	unsafe { consume::<It, BoxStorage>() }
}
#[no_mangle]
pub extern "C-unwind" fn h_into_pod() {
	unsafe { consume::<Pod, BoxStorage>() }
}
#[no_mangle]
pub extern "C-unwind" fn h_iter_pod() {
	unsafe { borrowed::<Pod, BoxStorage>() }
}

/// The first and last steps of an iteration over a tree in which every node
/// has its own symbolic fill.
pub unsafe fn sym_ends<I: Src, F: FnMut(I::I) -> u16>(it: &mut I, f: &mut F) {
	use super::nav::{first_leaf, last_leaf, m_next, m_prev, Pos};
	let a = v_sym(S_AUX, 0, par(P_X));
	let b = v_sym(S_AUX + 1, 0, par(P_Y));
	// no more than the smallest tree of this height holds
	v_assume(a + b + 2 <= 2 * ((MINI + 1) as u64).pow(HGT as u32 - 1) - 1);
	v_assume(a + b + 2 <= LEN0);
	let mut lo: Pos = Some((first_leaf(ROOT), 0));
	let l = last_leaf(ROOT);
	let mut hi: Pos = Some((l, v_concretize(org(l).cnt) as i64 - 1));
	let mut left = LEN0;
	let mut k = 0;
	while k < a + b + 2 {
		let back = (k >= a && k < a + b) || k == a + b + 1;
		let (r, want) = if back { (it.nb(), hi) } else { (it.nx(), lo) };
		let (o, off) = want.unwrap();
		match r {
			Some(x) => v_check(f(x) == item_id(o, off as usize) as u16, if back { 73 } else { 72 }),
			None => v_check(false, if back { 73 } else { 72 }),
		}
		left = left.wrapping_sub(1);
		let (x, y, z) = it.rest();
		v_check(x as u64 == left && y == Some(x) && z == x, 70);
		if k < a + b {
			if back {
				hi = m_prev(o, off)
			} else {
				lo = m_next(o, off)
			}
		}
		k += 1
	}
}
unsafe fn iter_sym<T: Lab, S: Sto<T>>() {
	let h = par(P_HEIGHT) as usize;
	let mut t = make::<T, S>(h);
	match par(P_OP) {
		0 => {
			let mut it = t.iter();
			sym_ends(&mut it, &mut |x: &T| x.id());
			v_check(chunk::<T, S>(ROOT) || !v_is_engine(), 59);
		}
		1 => {
			let mut it = t.iter_mut();
			sym_ends(&mut it, &mut |x: &mut T| x.id());
			v_check(chunk::<T, S>(ROOT) || !v_is_engine(), 59);
		}
		_ => {
			let mut it = ManuallyDrop::new(ManuallyDrop::into_inner(t).into_iter());
			sym_ends(&mut *it, &mut |x: T| {
				let id = x.id();
				core::mem::forget(x);
				id
			});
			v_check(TDROPS == 0, 31);
		}
	}
}
#[no_mangle]
pub extern "C-unwind" fn h_iter_sym() {
	unsafe { iter_sym::<It, BoxStorage>() }
}
