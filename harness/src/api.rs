//! Interface between harnesses and the symbolic executor.  In the IR build the
//! `sx_*` functions are left undefined and interpreted by the executor; the
//! native runner (main.rs) defines them on top of a replay file.
extern "C" {
    fn sx_sym(bits: u32) -> u64;
    fn sx_choose(n: u64) -> u64;
    fn sx_assume(c: u64);
    fn sx_check(c: u64, id: u64);
    fn sx_observe(v: u64);
    fn sx_param(i: u64) -> u64;
    fn sx_fail(id: u64);
    fn sx_expect_panic(v: u64);
    fn sx_reach(i: u64);
    fn sx_concretize(v: u64) -> u64;
    fn sx_uf_hash(v: u64, bits: u64) -> u64;
}
/// fresh symbolic value of `bits` bits
pub fn sym(bits: u32) -> u64 { unsafe { sx_sym(bits) } }
pub fn sym64() -> u64 { sym(64) }
pub fn sym32() -> u32 { sym(32) as u32 }
/// symbolic value in 0..n, case-split
pub fn choose(n: usize) -> usize { unsafe { sx_choose(n as u64) as usize } }
pub fn assume(c: bool) { unsafe { sx_assume(c as u64) } }
/// the property: must hold for every value
pub fn check(c: bool, id: u64) { unsafe { sx_check(c as u64, id) } }
pub fn observe(v: u64) { unsafe { sx_observe(v) } }
pub fn param(i: u64) -> usize { unsafe { sx_param(i) as usize } }
pub fn fail(id: u64) { unsafe { sx_fail(id) } }
pub fn expect_panic(b: bool) { unsafe { sx_expect_panic(b as u64) } }
/// reachability witness
pub fn reach(i: u64) { unsafe { sx_reach(i) } }
pub fn concretize(v: u64) -> u64 { unsafe { sx_concretize(v) } }
/// arbitrary function of a 64-bit argument
pub fn uf_hash(v: u64, bits: u32) -> u64 { unsafe { sx_uf_hash(v, bits as u64) } }
