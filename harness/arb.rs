// Comparisons that answer anything at all (C13): every answer of every call
// is a symbol of its own.
use super::common::*;
use super::step::hand_back;
use core::cmp::Ordering;
use core::mem::ManuallyDrop;
use raw_btree::storage::BoxStorage;
use raw_btree::RawBTree;

static mut ASKED: u32 = 0;
unsafe fn answer() -> Ordering {
	let n = ASKED;
	ASKED += 1;
	v_check(n < 4000, 131);
	match v_sym(S_CALL + n, 0, 2) {
		0 => Ordering::Less,
		1 => Ordering::Equal,
		_ => Ordering::Greater,
	}
}
/// what the comparison is shown must be live items
unsafe fn shown<T: Lab>(a: &T) {
	let i = a.id();
	v_check(i == NEWID || (i as usize) < NIDS, C_CORRUPT);
	if i != NEWID {
		v_check(DROPS[i as usize] == 0 && a.key() == key_of(i as usize), C_CORRUPT);
	}
}
fn cmp_any<T: Lab>(a: &T, b: &T) -> Ordering {
	unsafe {
		shown(a);
		shown(b);
		answer()
	}
}
fn cmp_any_key<T: Lab>(a: &T, _: &u16) -> Ordering {
	unsafe {
		shown(a);
		answer()
	}
}
unsafe fn stored<T: Lab>(r: Option<&T>) {
	if let Some(i) = r {
		let id = i.id() as usize;
		v_check(id < NIDS, C_CORRUPT);
		v_check(present(id), C_GHOST);
	}
}
pub unsafe fn arb<T: Lab, S: Sto<T>>() {
	let h = par(P_HEIGHT) as usize;
	let mut t = make::<T, S>(h);
	MASK = 7;
	let mut e = Expect { new: false, newkey: 0, gone: 0, goneid: MISSING, order: false };
	ASKED = 0;
	let q = 7u16;
	match par(P_OP) {
		0 => {
			e.newkey = q;
			e.new = true;
			let r = t.insert(cmp_any, T::mk(q, NEWID)).map(ManuallyDrop::new);
			let got = hand_back(r);
			v_cover(if got == MISSING { 2 } else { 1 });
			if got != MISSING {
				v_check((got as usize) < NIDS && present(got as usize), C_GHOST);
				DROPS[got as usize] = 0;
				e.gone = 1;
				e.goneid = got;
			}
		}
		1 => {
			let r = t.remove(cmp_any_key, &q).map(ManuallyDrop::new);
			let got = hand_back(r);
			v_cover(if got == MISSING { 2 } else { 1 });
			if got != MISSING {
				v_check((got as usize) < NIDS && present(got as usize), C_GHOST);
				DROPS[got as usize] = 0;
				e.gone = 1;
				e.goneid = got;
			}
		}
		2 => stored(t.get(cmp_any_key, &q)),
		3 => {
			if let Some(i) = t.get_mut(cmp_any_key, &q) {
				let id = i.id();
				stored(Some(&*i));
				i.set(NEWID);
				e = Expect { new: true, newkey: key_of(id as usize), gone: 1, goneid: id, order: false };
			}
		}
		4 => match t.address_of(cmp_any_key, &q) {
			Ok(a) => {
				v_check(S::alive(a.node), C_DEADNODE);
				v_check(t.get_at(a).is_some(), 64);
				stored(t.get_at(a));
			}
			Err(Some(a)) => {
				// a leaf position an item could go to
				v_check(S::alive(a.node), C_DEADNODE);
				let n = node::<T, S>(a.node);
				v_check(n.child_count() == 0 && !a.offset.is_before() && a.offset <= n.item_count(), 63);
			}
			Err(None) => v_check(h == 0, 62),
		},
		_ => {
			#[cfg(not(release))]
			{
				let tr: &RawBTree<T, S> = &t;
				try_(|| tr.validate(cmp_any::<T>));
			}
			v_check(TDROPS == 0, C_DROPPED);
		}
	}
	v_observe(ASKED as u64);
	post::<T, S>(&t, &e);
}
#[no_mangle]
pub extern "C-unwind" fn h_arb() {
	unsafe { arb::<It, BoxStorage>() }
}
