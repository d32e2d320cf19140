extern crate adapton;
extern crate iodyn;
extern crate rand;
extern crate evalx;
extern crate time;
pub mod api;
pub mod model;
pub mod raz;
pub mod inc;
pub mod misc;
pub mod cursor;
pub mod stacks;
pub mod evals;
pub mod metas;
pub mod selftest;
macro_rules! table { ($($m:ident :: $f:ident),* $(,)*) => {
    pub fn run(name: &str) { match name { $( stringify!($f) => $m::$f(), )* _ => panic!("no harness {}", name) } }
} }
table! { raz::h_edit, raz::h_drain, raz::h_focus, raz::h_big, raz::h_names, raz::h_fold_up, raz::h_fold_lr, raz::h_map, raz::h_persist, raz::h_memo_from, raz::h_join, raz::h_from_vec, raz::h_made_names, raz::h_ends, inc::h_inc, inc::h_inc_stack, inc::h_reuse, cursor::h_cursor, cursor::h_ccopy, stacks::h_acopy, cursor::h_split, cursor::h_tjoin, cursor::h_tjoin2, cursor::h_iter, cursor::h_ltree, cursor::h_good_levels, stacks::h_astack, stacks::h_astack_open, stacks::h_astack_vec, stacks::h_stack, misc::h_level, misc::h_level_order, misc::h_skip, misc::h_skip_many, misc::h_inc_level, misc::h_trie, misc::h_trie_union, evals::h_acc, evals::h_eval, evals::h_eval_seq, evals::h_eval_build, evals::h_eval_types, metas::h_meta, selftest::h_std }
