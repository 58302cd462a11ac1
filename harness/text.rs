// How offsets, addresses and items print (C23).
use super::common::*;
use core::fmt::{self, Write};
use raw_btree::{Address, Item, Offset};

static mut OUT: [u8; 64] = [0; 64];
static mut NOUT: usize = 0;
static mut WRITES: u64 = 0;
static mut FAIL_AT: u64 = 0;
static mut AFTER: bool = false;
struct Sink;
impl Write for Sink {
	fn write_str(&mut self, s: &str) -> fmt::Result {
		unsafe {
			WRITES += 1;
			AFTER = AFTER || FAIL_AT != 0 && WRITES > FAIL_AT;
			if WRITES == FAIL_AT {
				return Err(fmt::Error);
			}
			let b = s.as_bytes();
			v_check(NOUT + b.len() <= 64, 180);
			let mut k = 0;
			while k < b.len() {
				OUT[NOUT] = b[k];
				NOUT += 1;
				k += 1
			}
			Ok(())
		}
	}
}

/// a part that prints differently on display and on debug; `0` is a byte of
/// its own, any but those of the frame
struct Part(u8);
impl fmt::Display for Part {
	fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
		f.write_str(core::str::from_utf8(&[b'D', self.0]).unwrap_or("?"))
	}
}
impl fmt::Debug for Part {
	fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
		f.write_str(core::str::from_utf8(&[b'G', self.0]).unwrap_or("?"))
	}
}

static mut WANT: [u8; 64] = [0; 64];
static mut NWANT: usize = 0;
unsafe fn want(b: &[u8]) {
	let mut k = 0;
	while k < b.len() {
		WANT[NWANT] = b[k];
		NWANT += 1;
		k += 1
	}
}
unsafe fn want_number(x: u64) {
	if x == u64::MAX {
		return want(b"-1");
	}
	let mut d = 1u64;
	while x / d >= 10 {
		d *= 10
	}
	loop {
		want(&[b'0' + (x / d % 10) as u8]);
		if d == 1 {
			return;
		}
		d /= 10
	}
}
unsafe fn letter(id: u32) -> u8 {
	v_sym(id, b'a' as u64, b'z' as u64) as u8
}

unsafe fn text() {
	// before-first, what nodes and far larger ones have, and the greatest
	let a = v_sym(S_AUX, 0, u64::MAX);
	v_assume(a <= 120 || a >= 998 && a <= 1001 || a >= u64::MAX - 2);
	let off = if a == u64::MAX { Offset::before() } else { Offset::from(a as usize) };
	let debug = v_concretize(v_sym(S_AUX + 1, 0, 1)) == 1;
	let fails = par(7) != 0;
	if fails {
		FAIL_AT = v_concretize(v_sym(S_AUX + 2, 1, 9));
	}
	let (p, q) = (letter(S_AUX + 3), letter(S_AUX + 4));
	let r = match par(P_OP) {
		0 => {
			if debug {
				write!(Sink, "{:?}", off)
			} else {
				write!(Sink, "{}", off)
			}
		}
		1 => {
			let x = Address::new(Part(p), off);
			if debug {
				write!(Sink, "{:?}", x)
			} else {
				write!(Sink, "{}", x)
			}
		}
		_ => write!(Sink, "{}", Item::new(Part(p), Part(q))),
	};
	let a = if par(P_OP) < 2 { v_concretize(a) } else { 0 };
	match par(P_OP) {
		0 => want_number(a),
		1 => {
			want(&[b'@', if debug { b'G' } else { b'D' }, p, b':']);
			want_number(a)
		}
		_ => want(&[b'(', b'D', p, b',', b' ', b'D', q, b')']),
	}
	if fails && r.is_err() {
		v_cover(25);
		v_check(!AFTER && WRITES == FAIL_AT, 181);
		v_check(NOUT <= NWANT, 181);
	} else {
		v_cover(26);
		v_check(r.is_ok() && (!fails || WRITES < FAIL_AT), 181);
		v_check(NOUT == NWANT, 180);
	}
	let mut k = 0;
	while k < NOUT && k < NWANT {
		v_check(OUT[k] == WANT[k], 180);
		k += 1
	}
	v_observe(NOUT as u64);
	v_observe(r.is_ok() as u64);
}
#[no_mangle]
pub extern "C-unwind" fn h_text() {
	unsafe { text() }
}
