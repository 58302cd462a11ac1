// Graph output (C18).  The output is read as a graph, not compared as text:
// a vertex per line with a label, an edge per line with an arrow.
use super::common::*;
use super::iter::{count_nodes, sequence};
use raw_btree::storage::BoxStorage;
use raw_btree::{RawBTree, Storage};
use std::fmt;
use std::io;

pub struct Dt {
	pub key: u16,
	pub id: u16,
}
impl Lab for Dt {
	fn mk(key: u16, id: u16) -> Dt {
		Dt { key, id }
	}
	fn key(&self) -> u16 {
		self.key
	}
	fn id(&self) -> u16 {
		self.id
	}
	fn set(&mut self, x: u16) {
		self.id = x
	}
}
// "@", three letters
impl fmt::Display for Dt {
	fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
		let i = self.id as usize;
		let b = [b'@', b'A' + (i / 256) as u8, b'A' + (i / 16 % 16) as u8, b'A' + (i % 16) as u8];
		f.write_str(unsafe { core::str::from_utf8_unchecked(&b) })
	}
}

const BUF: usize = 1 << 16;
static mut OUT: [u8; BUF] = [0; BUF];
static mut NOUT: usize = 0;
static mut WRITES: u64 = 0;
static mut FAIL_AT: u64 = 0;
static mut AFTER: bool = false;
struct Sink;
impl io::Write for Sink {
	fn write(&mut self, b: &[u8]) -> io::Result<usize> {
		unsafe {
			WRITES += 1;
			if WRITES > FAIL_AT && FAIL_AT != 0 {
				AFTER = true
			}
			if WRITES == FAIL_AT {
				return Err(io::Error::from(io::ErrorKind::BrokenPipe));
			}
			v_check(NOUT + b.len() <= BUF, 9);
			core::ptr::copy_nonoverlapping(b.as_ptr(), (&raw mut OUT as *mut u8).add(NOUT), b.len());
			NOUT += b.len();
			Ok(b.len())
		}
	}
	fn flush(&mut self) -> io::Result<()> {
		Ok(())
	}
}
unsafe fn at(i: usize) -> u8 {
	if i < NOUT {
		OUT[i]
	} else {
		b'\n'
	}
}
fn digit(b: u8) -> bool {
	b >= b'0' && b <= b'9'
}
/// the next number in [i, e): (value, index behind it)
unsafe fn number(mut i: usize, e: usize) -> Option<(usize, usize)> {
	while i < e && !digit(at(i)) {
		i += 1
	}
	if i >= e {
		return None;
	}
	let mut x = 0usize;
	while i < e && digit(at(i)) {
		x = x * 10 + (at(i) - b'0') as usize;
		i += 1
	}
	Some((x, i))
}
unsafe fn find(i: usize, e: usize, s: &[u8]) -> Option<usize> {
	let mut k = i;
	while k + s.len() <= e {
		let mut j = 0;
		while j < s.len() && at(k + j) == s[j] {
			j += 1
		}
		if j == s.len() {
			return Some(k);
		}
		k += 1
	}
	None
}
static mut VERTEX: [u8; NO] = [0; NO];
static mut EDGE: [u8; NO] = [0; NO];
unsafe fn org_of(k: usize) -> usize {
	let mut o = 0;
	while o < NORG {
		if ORG[o].ptr == k && ORG[o].ptr != 0 && in_tree(o) {
			return o;
		}
		o += 1
	}
	NONE
}

unsafe fn dot<S: Sto<Dt>>()
where
	S::Node: Into<usize>,
{
	let h = par(P_HEIGHT) as usize;
	EXACT = true;
	let t = make::<Dt, S>(h);
	let n = sequence();
	let nodes = if h > 0 { count_nodes(ROOT) } else { 0 };
	NOUT = 0;
	if par(P_OP) == 1 {
		// the k-th write fails
		FAIL_AT = v_concretize(v_sym(S_AUX, 1, par(P_X)));
		let r = t.dot_write(&mut Sink);
		v_check(r.is_err() == (WRITES >= FAIL_AT), 111);
		v_check(!AFTER, 112);
		v_cover(if r.is_err() { 25 } else { 26 });
		core::mem::forget(r);
		v_observe(FAIL_AT);
		return;
	}
	let r = t.dot_write(&mut Sink);
	v_check(r.is_ok(), 111);
	core::mem::forget(r);
	if h > 0 && v_is_engine() {
		v_check(chunk::<Dt, S>(ROOT), 59)
	}
	let (mut nv, mut ne) = (0, 0);
	let mut i = 0;
	let mut opened = false;
	let mut closed = false;
	while i < NOUT {
		let mut e = i;
		while at(e) != b'\n' {
			e += 1
		}
		if let Some(a) = find(i, e, b"->") {
			let (x, y) = (number(i, a), number(a, e));
			v_check(x.is_some() && y.is_some(), 113);
			let (x, y) = (x.unwrap(), y.unwrap());
			v_check(number(y.1, e).is_none() && opened && !closed, 113);
			let (p, c) = (org_of(x.0), org_of(y.0));
			v_check(p != NONE && c != NONE, 113);
			v_check(org(c).parent == p, 113);
			EDGE[c] += 1;
			v_check(EDGE[c] == 1, 113);
			ne += 1;
		} else if let Some(l) = find(i, e, b"label") {
			v_check(opened && !closed, 114);
			let x = number(i, l);
			v_check(x.is_some(), 114);
			let o = org_of(x.unwrap().0);
			v_check(o != NONE, 114);
			VERTEX[o] += 1;
			v_check(VERTEX[o] == 1, 114);
			nv += 1;
			// items, in order
			let (mut j, mut k) = (l, 0);
			while let Some(p) = find(j, e, b"@") {
				let id = ((at(p + 1) - b'A') as usize) * 256 + ((at(p + 2) - b'A') as usize) * 16 + (at(p + 3) - b'A') as usize;
				v_check((k as u64) < org(o).cnt, 115);
				v_check(id == item_id(o, k), 115);
				k += 1;
				j = p + 4;
			}
			v_check(k as u64 == org(o).cnt, 115);
			// the parent, if any, then the node itself
			let mut j = l;
			if org(o).parent != NONE {
				let p = paren(j, e);
				v_check(p.is_some() && p.unwrap().0 == org(org(o).parent).ptr, 116);
				j = p.unwrap().1
			}
			let p = paren(j, e);
			v_check(p.is_some() && p.unwrap().0 == org(o).ptr, 117);
			v_check(paren(p.unwrap().1, e).is_none(), 117);
		} else if find(i, e, b"digraph").is_some() {
			v_check(!opened, 118);
			opened = true
		} else if at(i) == b'}' {
			v_check(opened && !closed, 118);
			closed = true
		}
		i = e + 1
	}
	v_check(opened && closed, 118);
	v_check(nv == nodes, 114);
	v_check(ne + 1 == nodes || nodes == 0 && ne == 0, 113);
	v_observe(nv as u64);
	v_observe(n as u64);
}
/// the next number in parentheses
unsafe fn paren(i: usize, e: usize) -> Option<(usize, usize)> {
	match find(i, e, b"(") {
		Some(a) => number(a, e),
		None => None,
	}
}
#[no_mangle]
pub extern "C-unwind" fn h_dot() {
	unsafe { dot::<BoxStorage>() }
}
