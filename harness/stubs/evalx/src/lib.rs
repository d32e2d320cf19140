//! The sources of /repo/eval, compiled against a stand-in for the clock.
extern crate time;
extern crate rand;
extern crate adapton;
extern crate iodyn;
#[path = "/repo/eval/src/actions.rs"] pub mod actions;
#[path = "/repo/eval/src/primitives.rs"] pub mod primitives;
#[path = "/repo/eval/src/interface.rs"] pub mod interface;
#[path = "/repo/eval/src/types.rs"] pub mod types;
#[path = "/repo/eval/src/accum_lists.rs"] pub mod accum_lists;
#[path = "/repo/eval/src/test_seq.rs"] pub mod test_seq;
#[path = "/repo/eval/src/test_build.rs"] pub mod test_build;
#[path = "/repo/eval/src/eval_iraz.rs"] pub mod eval_iraz;
#[path = "/repo/eval/src/eval_raz_name_index.rs"] pub mod eval_raz_name_index;
#[path = "/repo/eval/src/eval_vec.rs"] pub mod eval_vec;
#[path = "/repo/eval/src/eval_iastack.rs"] pub mod eval_iastack;
