// One operation from an arbitrary valid tree (C01, C02, C03, C06).
use super::common::*;
use core::mem::ManuallyDrop;
use raw_btree::storage::BoxStorage;
use raw_btree::{Address, Offset, RawBTree};

/// the caller gives back (drops) what it was handed: exactly one destruction
pub unsafe fn hand_back<T: Lab>(r: Option<ManuallyDrop<T>>) -> u16 {
	ck(G_OWN, TDROPS == 0, C_DROPPED);
	match r {
		Some(mut it) => {
			let id = it.id();
			ck(G_OWN, (id as usize) < NIDS && DROPS[id as usize] == 0, C_DROPPED);
			ManuallyDrop::drop(&mut it);
			id
		}
		None => MISSING,
	}
}

pub unsafe fn key_op<T: Lab, S: Sto<T>>(t: &mut RawBTree<T, S>, op: u64) -> Expect {
	let q = any_key();
	let (hit, o, j) = if HGT > 0 { oracle(q) } else { (false, 0, 0) };
	let want = if hit { item_id(o, j) as u16 } else { MISSING };
	v_cover(if hit { 1 } else { 2 });
	let look = |t: &RawBTree<T, S>| match t.get(cmp_key, &q) {
		Some(it) => it.id(),
		None => MISSING,
	};
	if MASK & G_CONTENT != 0 {
		v_check(look(t) == want, 40);
	}
	let e;
	if op == 0 {
		let r = t.insert(cmp_items, T::mk(q, NEWID)).map(ManuallyDrop::new);
		let got = hand_back(r);
		ck(G_CONTENT, got == want, 41);
		v_observe(got as u64);
		if MASK & G_CONTENT != 0 {
			v_check(look(t) == NEWID, 42);
		}
		e = Expect { new: true, newkey: q, gone: hit as u64, goneid: want, order: true };
	} else {
		let r = t.remove(cmp_key, &q).map(ManuallyDrop::new);
		let got = hand_back(r);
		ck(G_CONTENT, got == want, 43);
		v_observe(got as u64);
		if MASK & G_CONTENT != 0 {
			v_check(look(t) == MISSING, 44);
		}
		e = Expect { new: false, newkey: 0, gone: hit as u64, goneid: want, order: true };
	}
	e
}

/// an arbitrary address: offset -1 (as `before`), 0..=count
pub unsafe fn any_addr(lo: u64, past: u64) -> (usize, usize) {
	let o = any_node(S_NODE);
	// off is shifted by one: 0 stands for -1
	let off = v_sym(S_OFF, lo, org(o).nphys as u64 + past);
	v_assume(off <= org(o).cnt + past);
	(o, v_concretize(off) as usize)
}

pub const OP_INS: u64 = 0;
pub const OP_REM: u64 = 1;
pub const OP_INS_AT: u64 = 2;
pub const OP_REM_AT: u64 = 3;
pub const OP_INS_EX: u64 = 4;
pub const OP_REPL: u64 = 5;
pub const OP_REM_NONE: u64 = 6;
pub const OP_REINS: u64 = 7;

pub unsafe fn addr_op<T: Lab, S: Sto<T>>(t: &mut RawBTree<T, S>, op: u64) -> Expect {
	let none = Expect { new: false, newkey: 0, gone: 0, goneid: MISSING, order: true };
	if HGT == 0 {
		if op == OP_INS_AT || op == OP_INS_EX {
			let q = any_key();
			let a = if op == OP_INS_AT { t.insert_at(None, T::mk(q, NEWID)) } else { t.insert_exactly_at(None, T::mk(q, NEWID), None) };
			ck(G_OWN, TDROPS == 0, C_DROPPED);
			check_at::<T, S>(t, a, NEWID);
			return Expect { new: true, newkey: q, ..none };
		}
		return none;
	}
	match op {
		OP_INS_AT | OP_INS_EX => {
			// any position a new item can take
			let (o, off) = any_addr(0, 0);
			if op == OP_INS_EX && !org(o).leaf {
				v_stop()
			}
			v_cover(if org(o).leaf { 3 } else { 4 });
			let q = gap_key(o, off);
			let addr = Address::new(node_id::<T, S>(o), Offset::from(off));
			let a = if op == OP_INS_AT { t.insert_at(Some(addr), T::mk(q, NEWID)) } else { t.insert_exactly_at(Some(addr), T::mk(q, NEWID), None) };
			ck(G_OWN, TDROPS == 0, C_DROPPED);
			check_at::<T, S>(t, a, NEWID);
			Expect { new: true, newkey: q, ..none }
		}
		OP_REM_AT | OP_REPL | OP_REINS => {
			let o = any_node(S_NODE);
			let off = v_sym(S_OFF, 0, org(o).nphys as u64 - 1);
			v_assume(off < org(o).cnt);
			let off = v_concretize(off) as usize;
			v_cover(if org(o).leaf { 3 } else { 4 });
			let id = item_id(o, off) as u16;
			let addr = Address::new(node_id::<T, S>(o), Offset::from(off));
			if op == OP_REPL {
				let q = key_of(id as usize);
				let r = ManuallyDrop::new(t.replace_at(addr, T::mk(q, NEWID)));
				let got = hand_back(Some(r));
				ck(G_CONTENT, got == id, 45);
				check_at::<T, S>(t, Some(addr), NEWID);
				return Expect { new: true, newkey: q, gone: 1, goneid: id, order: true };
			}
			match t.remove_at(addr) {
				Some((item, next)) => {
					ck(G_CONTENT, item.id() == id, 46);
					ck(G_CONTENT, next.is_none() == t.root().is_none(), 47);
					if op == OP_REINS {
						let a = t.insert_at(next, item);
						check_at::<T, S>(t, a, id);
						none
					} else {
						let got = hand_back(Some(ManuallyDrop::new(item)));
						v_observe(got as u64);
						Expect { gone: 1, goneid: id, ..none }
					}
				}
				None => {
					ck(7, false, 46);
					none
				}
			}
		}
		_ => {
			// OP_REM_NONE: before the first, or past the last item of a node
			let o = any_node(S_NODE);
			let before = v_concretize(v_sym(S_OFF, 0, 1)) == 0;
			let off = if before { Offset::before() } else { Offset::from(org(o).cnt as usize) };
			v_cover(if org(o).leaf { 3 } else { 4 });
			let r = t.remove_at(Address::new(node_id::<T, S>(o), off));
			ck(G_CONTENT, r.is_none(), 48);
			none
		}
	}
}
unsafe fn check_at<T: Lab, S: Sto<T>>(t: &RawBTree<T, S>, a: Option<Address<S::Node>>, id: u16) {
	if MASK & G_CONTENT != 0 {
		let ok = match a {
			Some(a) => match t.get_at(a) {
				Some(it) => it.id() == id,
				None => false,
			},
			None => false,
		};
		v_check(ok, 49)
	}
}

pub unsafe fn step<T: Lab, S: Sto<T>>() {
	let h = par(P_HEIGHT) as usize;
	let op = par(P_OP);
	let mut t = make::<T, S>(h);
	let e = if op <= OP_REM { key_op::<T, S>(&mut t, op) } else { addr_op::<T, S>(&mut t, op) };
	post::<T, S>(&t, &e);
}

#[no_mangle]
pub extern "C-unwind" fn h_step() {
	unsafe { step::<It, BoxStorage>() }
}
#[no_mangle]
pub extern "C-unwind" fn h_step_big() {
	unsafe { step::<Big, BoxStorage>() }
}
#[no_mangle]
pub extern "C-unwind" fn h_step_pod() {
	unsafe { step::<Pod, BoxStorage>() }
}
