// Mutable references handed out by iteration (C20): none overlaps another,
// and while they live nobody else reads, writes, moves or frees what they
// refer to; what is written through them at the end is what the tree holds.
use super::common::*;
use super::iter::*;
use core::mem::size_of;
use raw_btree::storage::BoxStorage;

/// the references that are alive, in the order in which they were handed out
static mut OUT: [usize; NID] = [0; NID];
static mut NOUT: usize = 0;

unsafe fn handed<T: Lab>(x: &mut T) -> u16 {
	let id = x.id();
	let p = x as *mut T;
	v_check(v_lock(p as *mut u8, size_of::<T>() as u64), 170);
	OUT[NOUT] = p as usize;
	NOUT += 1;
	id
}
/// all that was handed out is written, last of all the first one
unsafe fn late<T: Lab>(ids: u16) {
	v_unlock();
	while NOUT > 0 {
		NOUT -= 1;
		let x = &mut *(OUT[NOUT] as *mut T);
		let id = x.id();
		x.set(ids.wrapping_sub(id));
	}
}

unsafe fn alias<T: Lab, S: Sto<T>>() {
	let h = par(P_HEIGHT) as usize;
	let op = par(P_OP);
	let ids = NID as u16;
	if op < 2 {
		EXACT = true;
		let mut t = make::<T, S>(h);
		let n = sequence();
		let mut e = Ends { lo: 0, hi: n };
		if op == 0 {
			let mut it = t.iter_mut();
			pattern(&mut it, &mut e, par(P_X), &mut |x: &mut T| handed(x), &mut |_, _| ());
			v_check(NOUT == n, 70);
		} else {
			provided((&mut *t).into_iter(), &mut e, &mut |x: &mut T| handed(x), &mut |_| ());
		}
		let k = NOUT;
		late::<T>(ids);
		// what was written is there, and nothing else was
		let mut w = 0;
		let mut i = 0;
		let mut it = t.iter();
		while i < n {
			match it.next() {
				Some(x) => {
					let new = x.id() == ids.wrapping_sub(SEQ[i]);
					w += new as usize;
					v_check((new || (op == 1 && x.id() == SEQ[i])) && x.key() == key_of(SEQ[i] as usize), 74)
				}
				None => v_check(false, 74),
			}
			i += 1
		}
		v_check(w == k, 74);
	} else {
		let mut t = make::<T, S>(h);
		{
			let mut it = t.iter_mut();
			sym_ends(&mut it, &mut |x: &mut T| handed(x));
		}
		v_unlock();
		v_check(chunk::<T, S>(ROOT) || !v_is_engine(), 59);
	}
}
#[no_mangle]
pub extern "C-unwind" fn h_alias() {
	unsafe { alias::<It, BoxStorage>() }
}
#[no_mangle]
pub extern "C-unwind" fn h_alias_big() {
	unsafe { alias::<Big, BoxStorage>() }
}
