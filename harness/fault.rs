// Panics in user code (C14): one symbolic number names the call of user code
// that panics.
use super::common::*;
use super::iter::{count_nodes, sequence, NSEQ, SEQ};
use super::whole::{as_new, clone_reset, Cl, CLONED, CLONE_PANICS, GDROPS, GTOTAL, TCLONED};
use core::cmp::Ordering;
use core::mem::{forget, ManuallyDrop};
use raw_btree::storage::BoxStorage;
use raw_btree::RawBTree;

fn cmp_p<T: Lab>(a: &T, b: &T) -> Ordering {
	unsafe { user_call() };
	cmp_items(a, b)
}
fn cmp_kp<T: Lab>(a: &T, b: &u16) -> Ordering {
	unsafe { user_call() };
	cmp_key(a, b)
}
/// the call that panics: any of the first `n`
unsafe fn arm(n: u64) {
	CALLS = 0;
	PANICKED = false;
	PANIC_AT = v_sym(S_AUX, 1, n);
}
unsafe fn disarm() {
	PANIC_AT = 0
}
unsafe fn same_tree<T: Lab, S: Sto<T>>(t: &RawBTree<T, S>) {
	v_check(t.len() as u64 == LEN0, C_LEN);
	if HGT == 0 {
		v_check(t.root().is_none(), C_EMPTYROOT);
		return;
	}
	v_check(t.root().map(S::k) == Some(org(ROOT).ptr), C_EMPTYROOT);
	if v_is_engine() && SYMFILL {
		v_check(chunk::<T, S>(ROOT), 132)
	} else {
		QUIET = true;
		post::<T, S>(t, &Expect { new: false, newkey: 0, gone: 0, goneid: MISSING, order: true })
	}
	v_check(S::live() == LIVE0, C_LEAKNODE);
}

/// a comparison panics
pub unsafe fn cmp_fault<T: Lab, S: Sto<T>>() {
	let h = par(P_HEIGHT) as usize;
	let mut t = make::<T, S>(h);
	MASK = 7;
	let q = any_key();
	arm(4 * h as u64 + 7);
	let tr: &mut RawBTree<T, S> = &mut t;
	let op = par(P_OP);
	let mut got = None;
	let failed = match op {
		0 => try_(|| got = tr.insert(cmp_p, T::mk(q, NEWID)).map(ManuallyDrop::new)),
		1 => try_(|| got = tr.remove(cmp_kp, &q).map(ManuallyDrop::new)),
		2 => try_(|| {
			tr.get(cmp_kp, &q);
		}),
		3 => try_(|| {
			tr.get_mut(cmp_kp, &q);
		}),
		4 => try_(|| {
			let _ = tr.address_of(cmp_kp, &q);
		}),
		_ => {
			#[cfg(not(release))]
			let f = try_(|| tr.validate(cmp_p::<T>));
			#[cfg(release)]
			let f = false;
			f
		}
	};
	disarm();
	v_check(failed == PANICKED, 133);
	v_cover(if failed { 27 } else { 28 });
	v_observe(failed as u64);
	if failed {
		// exactly as before; the item to insert is gone, once
		let n = (op == 0) as u64;
		v_check(TDROPS == n && (n == 0 || DROPS[NEWID as usize] == 1), C_NOTDROPPED);
		same_tree::<T, S>(&t);
	}
}
#[no_mangle]
pub extern "C-unwind" fn h_fault_cmp() {
	unsafe { cmp_fault::<It, BoxStorage>() }
}

/// a destructor panics
pub unsafe fn drop_fault<T: Lab, S: Sto<T>>() {
	let h = par(P_HEIGHT) as usize;
	EXACT = true;
	let mut t = make::<T, S>(h);
	MASK = 7;
	let n = sequence();
	let op = par(P_OP);
	let failed;
	match op {
		0 | 1 => {
			// clear, drop
			arm(n as u64 + 1);
			DROP_PANICS = true;
			let tr: &mut ManuallyDrop<RawBTree<T, S>> = &mut t;
			failed = if op == 0 { try_(|| tr.clear()) } else { try_(|| ManuallyDrop::drop(tr)) };
			DROP_PANICS = false;
			disarm();
			if op == 0 {
				let d = TDROPS;
				as_new::<T, S>(&mut t);
				v_check(TDROPS == d, C_DOUBLE);
				ManuallyDrop::drop(&mut t);
				v_check(TDROPS == d, C_DOUBLE);
			}
			if !failed {
				v_check(TDROPS == n as u64, C_NOTDROPPED)
			}
		}
		2 => {
			// a consuming iterator, after some items from either end
			let a = v_concretize(v_sym(S_AUX + 1, 0, n.min(9) as u64)) as usize;
			let b = v_concretize(v_sym(S_AUX + 2, 0, (n - a).min(6) as u64)) as usize;
			let mut it = ManuallyDrop::into_inner(t).into_iter();
			let mut k = 0;
			while k < a + b {
				let x = if k < a { it.next() } else { it.next_back() };
				match x {
					Some(x) => forget(x),
					None => v_check(false, 72),
				}
				k += 1
			}
			arm((n - a - b) as u64 + 1);
			DROP_PANICS = true;
			let mut it = Some(it);
			failed = try_(|| it = None);
			forget(it);
			DROP_PANICS = false;
			disarm();
			// nothing that was handed out
			k = 0;
			while k < n {
				if k < a || k >= n - b {
					v_check(DROPS[SEQ[k] as usize] == 0, 31)
				}
				k += 1
			}
			if !failed {
				v_check(TDROPS == (n - a - b) as u64, C_NOTDROPPED)
			}
		}
		_ => {
			// the receiver destroys each item as it comes; the iterator goes on
			// after a panic
			let mut it = ManuallyDrop::into_inner(t).into_iter();
			arm(n as u64 + 1);
			DROP_PANICS = true;
			let back = v_concretize(v_sym(S_AUX + 1, 0, 1)) == 1;
			let mut k = 0;
			let mut f = false;
			while k < n {
				f = try_(|| {
					let x = if back { it.next_back() } else { it.next() };
					drop(x)
				}) || f;
				k += 1;
				v_check(it.len() == n - k, 70);
			}
			failed = f;
			v_check(it.next().is_none() && it.next_back().is_none(), 71);
			drop(it);
			DROP_PANICS = false;
			disarm();
			v_check(TDROPS == n as u64, C_NOTDROPPED);
		}
	}
	// (that nothing is destroyed twice is checked at each destruction)
	v_check(failed == PANICKED, 133);
	v_cover(if failed { 27 } else { 28 });
	v_observe(failed as u64);
}
#[no_mangle]
pub extern "C-unwind" fn h_fault_drop() {
	unsafe { drop_fault::<It, BoxStorage>() }
}

/// cloning an item panics
pub unsafe fn clone_fault<S: Sto<Cl>>() {
	let h = par(P_HEIGHT) as usize;
	EXACT = true;
	let mut t = make::<Cl, S>(h);
	clone_reset();
	let n = sequence();
	arm(n as u64 + 1);
	CLONE_PANICS = true;
	let mut c = None;
	let tr: &RawBTree<Cl, S> = &t;
	let failed = try_(|| c = Some(ManuallyDrop::new(tr.clone())));
	CLONE_PANICS = false;
	disarm();
	v_check(failed == PANICKED && failed == c.is_none(), 133);
	v_cover(if failed { 27 } else { 28 });
	v_observe(failed as u64);
	v_check(t.len() == n, C_LEN);
	if failed {
		// no clone is destroyed that was not made
		let mut k = 0;
		while k < n {
			let i = SEQ[k] as usize;
			v_check(CLONED[i] <= 1 && GDROPS[1][i] <= CLONED[i], C_DOUBLE);
			k += 1
		}
	}
	v_check(GTOTAL[0] == 0, C_DROPPED);
	if h > 0 && v_is_engine() {
		v_check(chunk::<Cl, S>(ROOT), 132)
	}
	// the original can be used and dropped
	let mut it = t.iter();
	let mut k = 0;
	while k < n {
		v_check(it.next().map(|i| i.id) == Some(SEQ[k]), 83);
		k += 1
	}
	ManuallyDrop::drop(&mut t);
	v_check(GTOTAL[0] == n as u64, C_NOTDROPPED);
}
#[no_mangle]
pub extern "C-unwind" fn h_fault_clone() {
	unsafe { clone_fault::<BoxStorage>() }
}

/// a visitor panics
pub unsafe fn visit_fault<T: Lab, S: Sto<T>>() {
	let h = par(P_HEIGHT) as usize;
	EXACT = true;
	let mut t = make::<T, S>(h);
	MASK = 7;
	arm(if h > 0 { count_nodes(ROOT) as u64 } else { 0 } + 1);
	let tr: &mut RawBTree<T, S> = &mut t;
	let failed = if par(P_OP) == 0 { try_(|| tr.visit_from_leaves(|_| user_call())) } else { try_(|| tr.visit_from_leaves_mut(|_, _| user_call())) };
	disarm();
	v_check(failed == PANICKED, 133);
	v_cover(if failed { 27 } else { 28 });
	v_observe(failed as u64);
	v_check(TDROPS == 0, C_DROPPED);
	same_tree::<T, S>(&t);
}
#[no_mangle]
pub extern "C-unwind" fn h_fault_visit() {
	unsafe { visit_fault::<It, BoxStorage>() }
}
