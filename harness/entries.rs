// every harness, by name
macro_rules! entries { ($($(#[$c:meta])? $m:ident :: $f:ident),* $(,)?) => {
	pub static ENTRIES: &[(&str, extern "C-unwind" fn())] = &[$($(#[$c])? (stringify!($f), super::$m::$f)),*];
} }
entries!(disc::h_discover, array::h_array, zst::h_zst, text::h_text, cost::h_cost, step::h_step, step::h_step_big, step::h_step_pod, nav::h_nav, nav::h_look, iter::h_iter, iter::h_into, iter::h_into_pod, iter::h_iter_pod, iter::h_iter_sym, alias::h_alias, alias::h_alias_big, whole::h_end, whole::h_end_big, whole::h_end_pod, whole::h_clone, whole::h_clone_pod, whole::h_visit, whole::h_valid, node::h_node, node::h_node_big, off::h_offset, off::h_item, arb::h_arb, fault::h_fault_cmp, fault::h_fault_drop, fault::h_fault_clone, fault::h_fault_visit, hist::h_hist, hist::h_hist_y, hist::h_hist_n, sto::h_step_y, sto::h_step_n, sto::h_nav_y, sto::h_nav_n, sto::h_look_y, sto::h_look_n, sto::h_iter_y, sto::h_iter_n, sto::h_into_y, sto::h_into_n, sto::h_end_y, sto::h_end_n, sto::h_clone_y, sto::h_clone_n, sto::h_visit_y, sto::h_visit_n, sto::h_valid_y, sto::h_valid_n, sto::h_arb_y, sto::h_arb_n, sto::h_fault_cmp_y, sto::h_fault_cmp_n, sto::h_fault_drop_y, sto::h_fault_drop_n, sto::h_fault_clone_y, sto::h_fault_clone_n, sto::h_fault_visit_y, sto::h_fault_visit_n, #[cfg(feature = "dot")] dot::h_dot);
