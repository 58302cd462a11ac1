// Native implementation of the harness intrinsics: replays one assignment of
// the symbolic inputs against the real code.
//   replay ENTRY id=value ... p:index=value ...
// prints "CHECK id" (exit 10), "PANIC message" (exit 11), "ASSUME" (exit 12),
// "HEAP what" (exit 13) or "OK obs..." (exit 0).
#![allow(static_mut_refs, dead_code, unused)]
use std::alloc::{GlobalAlloc, Layout, System};
use std::collections::HashMap;

#[path = "lib.rs"]
mod harness;

const TAB: usize = 1 << 14;
static mut PTRS: [(usize, usize, usize, bool); TAB] = [(0, 0, 0, false); TAB];
static mut NPTR: usize = 0;
static mut LIVE: u64 = 0;
static mut ON: bool = false;
static mut REAL: bool = false;

struct A;
unsafe impl GlobalAlloc for A {
	unsafe fn alloc(&self, l: Layout) -> *mut u8 {
		let p = System.alloc(l);
		if ON {
			if NPTR == TAB {
				out("HEAP table full", 14)
			}
			if !REAL {
				core::ptr::write_bytes(p, 0xa5, l.size());
			}
			PTRS[NPTR] = (p as usize, l.size(), l.align(), true);
			NPTR += 1;
			LIVE += 1;
		}
		p
	}
	unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
		if ON {
			let mut i = NPTR;
			while i > 0 {
				i -= 1;
				if PTRS[i].0 == p as usize {
					if !PTRS[i].3 {
						out("HEAP freed twice", 13)
					}
					if PTRS[i].1 != l.size() || PTRS[i].2 != l.align() {
						out("HEAP freed with another layout", 13)
					}
					PTRS[i].3 = false;
					LIVE -= 1;
					if REAL {
						System.dealloc(p, l)
					} else {
						core::ptr::write_bytes(p, 0xdd, l.size());
					}
					return;
				}
			}
			// allocated before tracking started
			return;
		}
		System.dealloc(p, l)
	}
}
#[global_allocator]
static G: A = A;

static mut SYMS: Option<HashMap<u32, u64>> = None;
static mut PARS: Option<HashMap<u32, u64>> = None;
static mut OBS: [u64; 4096] = [0; 4096];
static mut NOBS: usize = 0;

extern "C" {
	fn _exit(c: i32) -> !;
}
fn out(s: &str, c: i32) -> ! {
	unsafe {
		ON = false;
		use std::io::Write;
		println!("{}", s);
		let _ = std::io::stdout().flush();
		if REAL {
			std::process::exit(c)
		}
		_exit(c)
	}
}
unsafe fn ok() -> ! {
	ON = false;
	let mut s = String::from("OK");
	for i in 0..NOBS {
		s.push_str(&format!(" {}", OBS[i]));
	}
	out(&s, 0)
}

#[no_mangle]
pub unsafe extern "C-unwind" fn v_sym(id: u32, lo: u64, hi: u64) -> u64 {
	match SYMS.as_ref().unwrap().get(&id) {
		Some(&v) if v >= lo && v <= hi => v,
		Some(_) => out("ASSUME", 12),
		None => lo,
	}
}
#[no_mangle]
pub unsafe extern "C-unwind" fn v_param(i: u32) -> u64 {
	PARS.as_ref().unwrap().get(&i).copied().unwrap_or(0)
}
#[no_mangle]
pub unsafe extern "C-unwind" fn v_assume(c: bool) {
	if !c {
		out("ASSUME", 12)
	}
}
#[no_mangle]
pub unsafe extern "C-unwind" fn v_check(c: bool, id: u32) {
	if !c {
		ON = false;
		out(&format!("CHECK {}", id), 10)
	}
}
#[no_mangle]
pub unsafe extern "C-unwind" fn v_cover(_id: u32) {}
#[no_mangle]
pub unsafe extern "C-unwind" fn v_observe(x: u64) {
	if NOBS < OBS.len() {
		OBS[NOBS] = x;
		NOBS += 1;
	}
}
#[no_mangle]
pub unsafe extern "C-unwind" fn v_peek(p: *const u8) -> u64 {
	if REAL {
		return 256;
	}
	core::ptr::read_volatile(p) as u64
}
#[no_mangle]
pub unsafe extern "C-unwind" fn v_poke(p: *mut u8, n: u64, x: u64) {
	let b = x.to_le_bytes();
	for i in 0..n as usize {
		core::ptr::write_volatile(p.add(i), b[i])
	}
}
static mut LOCKS: Vec<(usize, usize)> = Vec::new();
/// tells valgrind that memory may not (0) or may (2) be accessed
unsafe fn vg(what: u64, p: usize, n: usize) {
	#[cfg(all(target_arch = "x86_64", not(miri)))]
	{
		let a: [u64; 6] = [0x4d43_0000 + what, p as u64, n as u64, 0, 0, 0];
		core::arch::asm!("rol rdi, 3", "rol rdi, 13", "rol rdi, 61", "rol rdi, 51", "xchg rbx, rbx",
			in("rax") a.as_ptr(), inout("rdx") 0u64 => _, inout("rdi") 0u64 => _);
	}
}
#[no_mangle]
pub unsafe extern "C-unwind" fn v_lock(p: *mut u8, n: u64) -> bool {
	let (p, n) = (p as usize, n as usize);
	let free = LOCKS.iter().all(|l| p + n <= l.0 || l.1 <= p);
	let on = ON;
	ON = false;
	LOCKS.push((p, p + n));
	ON = on;
	if REAL {
		vg(0, p, n)
	}
	free
}
#[no_mangle]
pub unsafe extern "C-unwind" fn v_unlock() {
	for l in LOCKS.iter() {
		if REAL {
			vg(2, l.0, l.1 - l.0)
		}
	}
	LOCKS.clear()
}
#[no_mangle]
pub unsafe extern "C-unwind" fn v_live() -> u64 {
	LIVE
}
#[no_mangle]
pub unsafe extern "C-unwind" fn v_try(f: extern "C-unwind" fn(*mut u8), d: *mut u8) -> bool {
	std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(d))).map_err(|e| {
		drop(e);
	})
	.is_err()
}
#[no_mangle]
pub unsafe extern "C-unwind" fn v_concretize(x: u64) -> u64 {
	x
}
#[no_mangle]
pub unsafe extern "C-unwind" fn v_snapshot(_p: *const u8, _n: u64) -> u64 {
	0
}
#[no_mangle]
pub unsafe extern "C-unwind" fn v_same(_id: u64, _p: *const u8, _lo: u64, _hi: u64) -> bool {
	false
}
#[no_mangle]
pub unsafe extern "C-unwind" fn v_is_engine() -> bool {
	false
}
#[no_mangle]
pub unsafe extern "C-unwind" fn v_alive(p: *const u8) -> bool {
	let mut i = NPTR;
	while i > 0 {
		i -= 1;
		if PTRS[i].0 == p as usize {
			return PTRS[i].3;
		}
	}
	true
}
#[no_mangle]
pub unsafe extern "C-unwind" fn v_stop() -> ! {
	ok()
}

static ENTRIES: &[(&str, extern "C-unwind" fn())] = harness::ENTRIES;

fn main() {
	let a: Vec<String> = std::env::args().collect();
	let mut s = HashMap::new();
	let mut p = HashMap::new();
	for x in &a[2..] {
		let (k, v) = x.split_once('=').unwrap();
		let v: u64 = v.parse().unwrap();
		match k.strip_prefix("p:") {
			Some(k) => p.insert(k.parse::<u32>().unwrap(), v),
			None => s.insert(k.parse::<u32>().unwrap(), v),
		};
	}
	let f = match ENTRIES.iter().find(|e| e.0 == a[1]) {
		Some(e) => e.1,
		None => out("no such entry", 14),
	};
	unsafe {
		SYMS = Some(s);
		PARS = Some(p);
		REAL = std::env::var("REPLAY_REAL").is_ok();
		// panic messages are collected, not printed
		static mut MSG: String = String::new();
		std::panic::set_hook(Box::new(|i| {
			ON = false;
			MSG = format!("{}", i);
			ON = true;
		}));
		let _ = std::panic::catch_unwind(|| panic!("warm up"));
		ON = true;
		let r = std::panic::catch_unwind(|| f());
		ON = false;
		if r.is_err() {
			out(&format!("PANIC {}", MSG.replace('\n', " ")), 11)
		}
		ok()
	}
}
