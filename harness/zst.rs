// Items of no size, with a destructor: only their number can be observed.
use super::common::*;
use core::cmp::Ordering;
use core::mem::{forget, ManuallyDrop};
use raw_btree::storage::BoxStorage;
use raw_btree::RawBTree;

static mut GONE: u64 = 0;
static mut MADE: u64 = 0;
struct Z;
impl Drop for Z {
	fn drop(&mut self) {
		unsafe { GONE += 1 }
	}
}
impl Clone for Z {
	fn clone(&self) -> Z {
		unsafe { mk() }
	}
}
unsafe fn mk() -> Z {
	MADE += 1;
	Z
}
fn held(n: usize) {
	unsafe { v_check(MADE - GONE == n as u64, C_NOTDROPPED) }
}
unsafe fn sound(t: &RawBTree<Z>, n: usize) {
	v_check(t.len() == n && t.is_empty() == (n == 0), C_LEN);
	let mut it = t.iter();
	let mut k = 0;
	while k < n {
		v_check(it.next().is_some(), 72);
		k += 1
	}
	v_check(it.next().is_none() && it.next_back().is_none(), 71);
	v_check(t.first().is_some() == (n > 0) && t.last().is_some() == (n > 0), 60);
	held(n);
}
static mut NCALL: u32 = 0;
/// any answer, at every call
fn any() -> Ordering {
	unsafe {
		NCALL += 1;
		v_check(NCALL < 200, 131);
		match v_concretize(v_sym(S_CALL + NCALL, 0, 2)) {
			0 => Ordering::Less,
			1 => Ordering::Equal,
			_ => Ordering::Greater,
		}
	}
}

#[no_mangle]
pub extern "C-unwind" fn h_zst() {
	unsafe {
		GONE = 0;
		MADE = 0;
		NCALL = 0;
		let live = v_live();
		let max = par(P_X);
		let mut n = v_concretize(v_sym(S_LEN, par(P_Y), max)) as usize;
		let front = v_concretize(v_sym(S_LEN + 1, 0, 1)) == 1;
		let mut t: ManuallyDrop<RawBTree<Z>> = ManuallyDrop::new(RawBTree::new());
		let mut k = 0;
		while k < n {
			v_check(t.insert(|_, _| if front { Ordering::Greater } else { Ordering::Less }, mk()).is_none(), 41);
			k += 1
		}
		sound(&t, n);
		match par(P_OP) {
			0 => {
				match t.insert(|_, _| any(), mk()) {
					Some(z) => {
						held(n + 1);
						drop(z)
					}
					None => n += 1,
				}
			}
			1 => {
				match t.remove(|_, _: &()| any(), &()) {
					Some(z) => {
						held(n);
						n -= 1;
						drop(z)
					}
					None => (),
				}
				// the address of any rank
				if n > 0 {
					let r = v_concretize(v_sym(S_KEY, 0, n as u64 - 1)) as usize;
					let mut a = t.first_item_address();
					let mut k = 0;
					while k < r {
						a = t.next_item_address(a.unwrap());
						k += 1
					}
					v_check(t.get_at(a.unwrap()).is_some(), 57);
					match t.remove_at(a.unwrap()) {
						Some((z, next)) => {
							n -= 1;
							held(n + 1);
							drop(z);
							sound(&t, n);
							let b = t.insert_at(next, mk()).unwrap_or(t.first_item_address().unwrap());
							n += 1;
							v_check(t.get_at(b).is_some(), 49);
							drop(t.replace_at(b, mk()));
						}
						None => v_check(false, 46),
					}
				}
			}
			2 => {
				let a = v_concretize(v_sym(S_AUX, 0, n as u64)) as usize;
				let b = v_concretize(v_sym(S_AUX + 1, 0, (n - a) as u64)) as usize;
				let mut it = ManuallyDrop::into_inner(t).into_iter();
				k = 0;
				while k < a + b {
					let z = if k < a { it.next() } else { it.next_back() };
					v_check(z.is_some() && it.len() == n - k - 1, 70);
					forget(z);
					k += 1
				}
				v_check(GONE == 0, C_DROPPED);
				drop(it);
				v_check(GONE == (n - a - b) as u64, C_NOTDROPPED);
				v_check(v_live() == live, C_LEAKNODE);
				v_observe(GONE);
				return;
			}
			3 => {
				let mut c = ManuallyDrop::new((*t).clone());
				v_check(MADE == 2 * n as u64 && GONE == 0, 85);
				v_check(c.len() == n, 82);
				ManuallyDrop::drop(&mut c);
				v_check(GONE == n as u64, C_NOTDROPPED);
			}
			4 => {
				t.forget();
				v_check(GONE == 0, C_DROPPED);
				v_check(t.is_empty(), 80);
				MADE = 0;
				n = 0;
			}
			_ => {
				t.clear();
				n = 0;
			}
		}
		sound(&t, n);
		v_observe(n as u64);
		ManuallyDrop::drop(&mut t);
		held(0);
		v_check(v_live() == live, C_LEAKNODE);
	}
}
