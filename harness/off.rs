// Offsets and key-value items (C12): pure values, so the inputs are whole
// machine words.
use super::common::*;
use core::cmp::Ordering;
use raw_btree::{Item, Offset};

unsafe fn word(id: u32) -> u64 {
	v_sym(id, 0, u64::MAX)
}
/// the place of an offset in the order: before is 0, n is n + 1
fn rank(x: u64) -> u64 {
	x.wrapping_add(1)
}
unsafe fn o_of(x: u64) -> Offset {
	if x == u64::MAX {
		Offset::before()
	} else {
		Offset::from(x as usize)
	}
}
unsafe fn offsets() {
	let a = word(S_AUX);
	let b = word(S_AUX + 1);
	let (x, y) = (o_of(a), o_of(b));
	let want = rank(a).cmp(&rank(b));
	v_cover(if a == u64::MAX { 21 } else { 20 });
	match par(P_OP) {
		0 => {
			// equality and the order between offsets
			v_check((x == y) == (a == b) && (x != y) == (a != b), 120);
			v_check(x.cmp(&y) == want && x.partial_cmp(&y) == Some(want), 121);
			v_check((x < y) == want.is_lt() && (x <= y) == want.is_le() && (x > y) == want.is_gt() && (x >= y) == want.is_ge(), 121);
			v_check(x.max(y) == if want.is_gt() { x } else { y }, 121);
			v_check(x.min(y) == if want.is_gt() { y } else { x }, 121);
		}
		1 => {
			// against plain integers (the greatest one is not an offset)
			v_assume(b != u64::MAX);
			let n = b as usize;
			v_check((x == n) == (a == b) && (x != n) == (a != b), 122);
			v_check(x.partial_cmp(&n) == Some(want), 122);
			v_check((x < n) == want.is_lt() && (x <= n) == want.is_le() && (x > n) == want.is_gt() && (x >= n) == want.is_ge(), 122);
		}
		2 => {
			// value, before
			v_check(x.is_before() == (a == u64::MAX), 123);
			v_check(x.value() == if a == u64::MAX { None } else { Some(a as usize) }, 123);
			if a != u64::MAX {
				v_check(x.unwrap() == a as usize, 123);
			} else {
				let failed = try_(|| {
					x.unwrap();
				});
				v_check(failed, 123);
			}
		}
		3 => {
			// the adjacent offset, and back
			v_assume(a < u64::MAX - 1 || a == u64::MAX);
			let mut z = x;
			z.incr();
			v_check(z == rank(a) as usize, 124);
			v_check(z > x, 124);
			z.decr();
			v_check(z == x, 124);
		}
		4 => {
			v_assume(a != u64::MAX);
			let mut z = x;
			z.decr();
			v_check(z.value() == if a == 0 { None } else { Some(a as usize - 1) }, 125);
			v_check(z < x, 125);
			z.incr();
			v_check(z == x, 125);
		}
		// (what decrementing the before-first offset does is left open)
		_ => {}
	}
	v_observe(want as i8 as u64);
}
#[no_mangle]
pub extern "C-unwind" fn h_offset() {
	unsafe { offsets() }
}

/// a key whose order is not that of its bytes: reversed
#[derive(PartialEq, Eq, Clone, Copy)]
pub struct Rev(u64);
impl PartialOrd for Rev {
	fn partial_cmp(&self, o: &Rev) -> Option<Ordering> {
		Some(self.cmp(o))
	}
}
impl Ord for Rev {
	fn cmp(&self, o: &Rev) -> Ordering {
		o.0.cmp(&self.0)
	}
}
/// a key with incomparable values
#[derive(Clone, Copy)]
pub struct Part(u64);
impl PartialEq for Part {
	fn eq(&self, o: &Part) -> bool {
		self.0 != 0 && self.0 == o.0
	}
}
impl PartialOrd for Part {
	fn partial_cmp(&self, o: &Part) -> Option<Ordering> {
		if self.0 == 0 || o.0 == 0 {
			None
		} else {
			self.0.partial_cmp(&o.0)
		}
	}
}

unsafe fn laws<K: Ord + Copy, V>(a: K, b: K, x: &Item<K, V>, y: &Item<K, V>) {
	let want = a.cmp(&b);
	v_check((x == y) == (a == b) && (x != y) == (a != b), 126);
	v_check(x.cmp(y) == want && x.partial_cmp(y) == Some(want), 126);
	v_check((x < y) == (a < b) && (x <= y) == (a <= b) && (x > y) == (a > b) && (x >= y) == (a >= b), 126);
	v_check(x.key_cmp(&b) == want && y.key_cmp(&a) == b.cmp(&a), 127);
	v_check(x.as_ref().cmp(y) == want, 126);
	v_observe(want as i8 as u64);
}
unsafe fn items() {
	let (a, b, u, w) = (word(S_AUX), word(S_AUX + 1), word(S_AUX + 2), word(S_AUX + 3));
	match par(P_OP) {
		0 => {
			let (x, y) = (Item::new(a, u), Item::new(b, w));
			laws(a, b, &x, &y);
		}
		1 => {
			let (x, y) = (Item::new(Rev(a), u), Item::new(Rev(b), w));
			laws(Rev(a), Rev(b), &x, &y);
		}
		2 => {
			// signed keys, and pairs
			let (x, y) = (Item::new(a as i64, u as u8), Item::new(b as i64, w as u8));
			laws(a as i64, b as i64, &x, &y);
			let p = (a as u32, (a >> 32) as i16);
			let q = (b as u32, (b >> 32) as i16);
			laws(p, q, &Item::new(p, ()), &Item::new(q, ()));
		}
		3 => {
			// keys that are only partially ordered
			let (k, l) = (Part(a), Part(b));
			let (x, y) = (Item::new(k, u), Item::new(l, w));
			v_check((x == y) == (k == l) && (x != y) == (k != l), 126);
			v_check(x.partial_cmp(&y) == k.partial_cmp(&l), 126);
			v_check((x < y) == (k < l) && (x <= y) == (k <= l) && (x > y) == (k > l) && (x >= y) == (k >= l), 126);
		}
		_ => {
			// the parts are what was put in
			let x = Item::new(a, u);
			v_check(x.key == a && x.value == u, 128);
			v_check(*x.as_pair().0 == a && *x.as_pair().1 == u, 128);
			let c = x.clone();
			v_check(c.key == a && c.value == u, 128);
			v_check(x.into_pair() == (a, u), 128);
		}
	}
}
#[no_mangle]
pub extern "C-unwind" fn h_item() {
	unsafe { items() }
}
