// where the tree's length field lies (for replays under memory checkers)
use super::common::*;
use raw_btree::storage::BoxStorage;
#[no_mangle]
pub extern "C-unwind" fn h_discover() {
	unsafe {
		discover_all::<It, BoxStorage>();
		let (a, b) = tree_len();
		v_observe(a as u64);
		v_observe(b as u64);
	}
}
