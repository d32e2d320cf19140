//! Symbolic interpreter for the decoded IR.
use crate::expr::*;
use crate::ir::*;
use crate::z3::{Sat, Solver};
use std::collections::{HashMap, HashSet};
use std::rc::Rc;
use std::time::Instant;

// ---------------------------------------------------------------- memory
#[derive(Clone, Debug)]
pub struct Obj {
    pub data: Vec<u8>,
    pub sym: Vec<u32>, // empty, or one entry per byte: 0 = concrete, else E<<4 | byte index
}
const CH: usize = 64;
type Chunk = Vec<Option<Rc<Obj>>>;
#[derive(Clone)]
pub struct Mem {
    chunks: Vec<Rc<Chunk>>,
    globals: Rc<HashMap<u32, Rc<Obj>>>,
    next: u32,
}

impl Mem {
    fn new() -> Mem {
        Mem { chunks: vec![], globals: Rc::new(HashMap::new()), next: HEAP_BASE }
    }
    fn alloc(&mut self, size: u64) -> u32 {
        let id = self.next;
        self.next += 1;
        let k = (id - HEAP_BASE) as usize;
        if k / CH >= self.chunks.len() {
            self.chunks.push(Rc::new(vec![None; CH]));
        }
        Rc::make_mut(&mut self.chunks[k / CH])[k % CH] = Some(Rc::new(Obj { data: vec![0; size as usize], sym: vec![] }));
        id
    }
    fn free(&mut self, id: u32) -> bool {
        if id < HEAP_BASE || id >= self.next {
            return false;
        }
        let k = (id - HEAP_BASE) as usize;
        let c = Rc::make_mut(&mut self.chunks[k / CH]);
        let r = c[k % CH].is_some();
        c[k % CH] = None;
        r
    }
}

macro_rules! fop {
    ($op:expr, $x:expr, $y:expr) => {
        match $op {
            b'a' => $x + $y,
            b's' => $x - $y,
            b'm' => $x * $y,
            b'd' => $x / $y,
            b'r' => $x % $y,
            _ => -$x,
        }
    };
}
/// conversions saturate as Rust's do (outside the range LLVM's are poison)
fn fcast(k: FCastK, w1: u32, w2: u32, x: u64) -> u64 {
    let get = |x: u64| if w1 == 32 { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x) };
    match k {
        FCastK::Conv if w2 == 32 => (get(x) as f32).to_bits() as u64,
        FCastK::Conv => get(x).to_bits(),
        FCastK::FromU if w2 == 32 => (x as f32).to_bits() as u64,
        FCastK::FromU => (x as f64).to_bits(),
        FCastK::FromS => {
            let i = ((x << (64 - w1)) as i64) >> (64 - w1);
            if w2 == 32 {
                (i as f32).to_bits() as u64
            } else {
                (i as f64).to_bits()
            }
        }
        FCastK::ToU => {
            let m = if w2 >= 64 { u64::MAX } else { (1 << w2) - 1 };
            (get(x) as u64).min(m)
        }
        FCastK::ToS => {
            let i = get(x) as i64;
            if w2 >= 64 {
                i as u64
            } else {
                let m = (1i64 << (w2 - 1)) - 1;
                i.max(-m - 1).min(m) as u64 & ((1 << w2) - 1)
            }
        }
    }
}
fn float_intrinsic(n: &str, w: u32, x: &[u64], rt: &Ty) -> Option<u64> {
    let base = n.split('.').next().unwrap();
    macro_rules! go {
        ($t:ty, $f:expr) => {{
            let f = $f;
            Some(match base {
                "fabs" => <$t>::abs(f(x[0])),
                "floor" => <$t>::floor(f(x[0])),
                "ceil" => <$t>::ceil(f(x[0])),
                "trunc" => <$t>::trunc(f(x[0])),
                "round" => <$t>::round(f(x[0])),
                "roundeven" | "rint" | "nearbyint" => <$t>::round_ties_even(f(x[0])),
                "sqrt" => <$t>::sqrt(f(x[0])),
                "exp" => <$t>::exp(f(x[0])),
                "exp2" => <$t>::exp2(f(x[0])),
                "log" => <$t>::ln(f(x[0])),
                "log2" => <$t>::log2(f(x[0])),
                "log10" => <$t>::log10(f(x[0])),
                "sin" => <$t>::sin(f(x[0])),
                "cos" => <$t>::cos(f(x[0])),
                "pow" => <$t>::powf(f(x[0]), f(x[1])),
                "powi" => <$t>::powi(f(x[0]), x[1] as u32 as i32),
                "copysign" => <$t>::copysign(f(x[0]), f(x[1])),
                "minnum" | "minimumnum" => <$t>::min(f(x[0]), f(x[1])),
                "maxnum" | "maximumnum" => <$t>::max(f(x[0]), f(x[1])),
                "fma" => <$t>::mul_add(f(x[0]), f(x[1]), f(x[2])),
                "fmuladd" => f(x[0]) * f(x[1]) + f(x[2]),
                _ => return None,
            })
        }};
    }
    match base {
        "fptoui" => return Some(fcast(FCastK::ToU, w, rt.bits(), x[0])),
        "fptosi" => return Some(fcast(FCastK::ToS, w, rt.bits(), x[0])),
        _ => {}
    }
    if w == 32 {
        go!(f32, |b: u64| f32::from_bits(b as u32)).map(|v: f32| v.to_bits() as u64)
    } else {
        go!(f64, f64::from_bits).map(|v: f64| v.to_bits())
    }
}
// ---------------------------------------------------------------- states
#[derive(Clone)]
pub struct Frame {
    f: Rc<Func>,
    pc: u32,
    regs: Vec<Val>,
    obj: u32, // stack object, 0 if none
    dyn_objs: Vec<u32>,
    ret: Option<u32>,
}

#[derive(Clone)]
pub struct State {
    stack: Vec<Rc<Frame>>,
    top: Frame,
    mem: Mem,
    pub path: Vec<E>,
    model: Rc<HashMap<u32, u128>>,
    pub inputs: Vec<E>,
    pub obs: Vec<Val>,
    reach: u64,
    steps: u64,
    shard_key: u64,
    shard_width: u64,
    shard_done: bool,
    expect_panic: bool,
    hash_vals: Rc<Vec<(u64, E)>>,
}

pub struct Violation {
    pub kind: String,
    pub msg: String,
    pub inputs: Vec<u128>,
    pub trace: Vec<String>,
}

pub struct Sample {
    pub inputs: Vec<u128>,
    pub obs: Vec<u64>,
    pub panicked: bool,
    pub npath: usize,
}

enum Stop {
    Concretize(E, u32), // expression, width
    Violation(String, String),
    Panic(String),
    Done,
    Kill,
    Engine(String),
}
type R<T> = Result<T, Stop>;

pub const H_NONE: u16 = 0;
macro_rules! hooks { ($($n:ident = $v:expr;)*) => { $(pub const $n: u16 = $v;)* } }
hooks! {
    H_ALLOC = 1; H_ALLOC_Z = 2; H_DEALLOC = 3; H_REALLOC = 4; H_NOP = 5; H_PANIC = 6;
    H_MEMCPY = 7; H_MEMSET = 8; H_MEMCMP = 9; H_BCMP = 10; H_STRLEN = 11; H_RNDKEYS = 12;
    H_ENVNONE = 13; H_ABORT = 14; H_SYSCALL = 15;
    H_SYM = 20; H_CHOOSE = 21; H_ASSUME = 22; H_CHECK = 23; H_OBSERVE = 24; H_PARAM = 25; H_FAIL = 26;
    H_EXPECT_PANIC = 27; H_REACH = 28; H_CONC = 29; H_HASHFIN = 31;
}

pub fn hook_of(n: &str) -> u16 {
    match n {
        "memcpy" | "memmove" => return H_MEMCPY,
        "memset" => return H_MEMSET,
        "syscall" => return H_SYSCALL,
        "memcmp" => return H_MEMCMP,
        "bcmp" => return H_BCMP,
        "strlen" => return H_STRLEN,
        "getenv" | "__cxa_thread_atexit_impl" => return H_NOP,
        "abort" | "exit" | "_exit" => return H_ABORT,
        "sx_sym" => return H_SYM,
        "sx_choose" => return H_CHOOSE,
        "sx_assume" => return H_ASSUME,
        "sx_check" => return H_CHECK,
        "sx_observe" => return H_OBSERVE,
        "sx_param" => return H_PARAM,
        "sx_fail" => return H_FAIL,
        "sx_expect_panic" => return H_EXPECT_PANIC,
        "sx_reach" => return H_REACH,
        "sx_concretize" => return H_CONC,
        "sx_uf_hash" => return H_HASHFIN,
        _ => {}
    }
    if n.contains("7___rustc") {
        if n.contains("19___rust_alloc_zeroed") {
            return H_ALLOC_Z;
        }
        if n.contains("12___rust_alloc") {
            return H_ALLOC;
        }
        if n.contains("14___rust_dealloc") {
            return H_DEALLOC;
        }
        if n.contains("14___rust_realloc") {
            return H_REALLOC;
        }
        if n.contains("no_alloc_shim") {
            return H_NOP;
        }
        if n.contains("rust_begin_unwind") || n.contains("rust_start_panic") || n.contains("rust_panic") {
            return H_PANIC;
        }
    }
    if n.contains("hashmap_random_keys") {
        return H_RNDKEYS;
    }
    if n.contains("12thread_local11destructors") && n.ends_with("8register") {
        return H_NOP;
    }
    // diagnostics written to the standard streams are not part of any property
    if n.contains("3std2io5stdio6__print") || n.contains("3std2io5stdio7__eprint") {
        return H_NOP;
    }
    if n.contains("3std3env") && (n.contains("7__var_os") || n.contains("7_var_os")) {
        return H_ENVNONE;
    }
    if n.contains("4core9panicking") || (n.contains("3std9panicking") && !n.contains("9panicking9set_hook")) {
        if n.contains("9panicking") {
            return H_PANIC;
        }
    }
    if n.contains("6option13expect_failed")
        || n.contains("6option13unwrap_failed")
        || n.contains("6result13unwrap_failed")
        || n.contains("4cell22panic_already_borrowed")
        || n.contains("4cell30panic_already_mutably_borrowed")
        || n.contains("5alloc18handle_alloc_error")
        || n.contains("7raw_vec12handle_error")
        || n.contains("7raw_vec17capacity_overflow")
        || n.contains("5slice5index16slice_index_fail")
        || n.contains("5slice5index26slice_start_index_len_fail")
        || n.contains("5slice5index24slice_end_index_len_fail")
        || n.contains("5slice5index22slice_index_order_fail")
        || n.contains("18panic_access_error")
    {
        return H_PANIC;
    }
    H_NONE
}

pub struct Config {
    pub params: Vec<u64>,
    pub max_steps: u64,
    pub max_depth: usize,
    pub max_paths: u64,
    pub deadline: Instant,
    pub path_time: std::time::Duration,
    pub shard: (u64, u64),
    pub samples: usize,
    pub seed: u64,
}

pub struct Exec {
    pub pr: Program,
    pub ar: Arena,
    pub sol: Solver,
    pub cfg: Config,
    work: Vec<State>,
    pub paths: u64,
    pub panicked_paths: u64,
    pub killed: u64,
    pub instrs: u64,
    pub forks: u64,
    pub checks: u64,
    pub checks_solver: u64,
    pub max_obs: usize,
    pub reach: HashMap<u64, u64>,
    pub covered: Vec<Vec<bool>>,
    pub violations: Vec<Violation>,
    pub samples: Vec<Sample>,
    rng: u64,
    pub max_path_len: usize,
    pub max_path_steps: u64,
    pub nsym_max: usize,
    pub trace_calls: bool,
    pub path_start: Instant,
}

fn hash64(mut x: u64) -> u64 {
    x = x.wrapping_add(0x9E3779B97F4A7C15);
    x = (x ^ (x >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94D049BB133111EB);
    x ^ (x >> 31)
}

#[inline]
fn m64(w: u32) -> u64 {
    if w >= 64 {
        u64::MAX
    } else {
        (1u64 << w) - 1
    }
}
#[inline]
fn sx64(v: u64, w: u32) -> i64 {
    let s = 64 - w;
    ((v << s) as i64) >> s
}

impl Exec {
    pub fn new(pr: Program, cfg: Config, timeout_ms: u32) -> Exec {
        let rng = cfg.seed ^ 0x5DEECE66D;
        Exec {
            pr,
            ar: Arena::new(),
            sol: Solver::new(timeout_ms),
            cfg,
            work: vec![],
            paths: 0,
            panicked_paths: 0,
            killed: 0,
            instrs: 0,
            forks: 0,
            checks: 0,
            checks_solver: 0,
            max_obs: 0,
            reach: HashMap::new(),
            covered: vec![],
            violations: vec![],
            samples: vec![],
            rng,
            max_path_len: 0,
            max_path_steps: 0,
            nsym_max: 0,
            trace_calls: false,
            path_start: Instant::now(),
        }
    }

    // ------------------------------------------------------------ values
    fn to_e(&mut self, v: &Val, w: u32) -> E {
        match v {
            Val::C(c) => self.ar.cst(*c as u128, w),
            Val::S(e) => {
                debug_assert_eq!(self.ar.w(*e), w);
                *e
            }
            Val::W(x) => self.ar.cst(**x, w),
            Val::A(_) => panic!("aggregate as scalar"),
        }
    }
    fn from_e(&mut self, e: E) -> Val {
        match self.ar.get_const(e) {
            Some(k) => {
                if self.ar.w(e) > 64 {
                    Val::W(Rc::new(k))
                } else {
                    Val::C(k as u64)
                }
            }
            None => Val::S(e),
        }
    }
    #[inline]
    fn opnd<'a>(st: &'a State, o: &'a Opnd) -> &'a Val {
        match o {
            Opnd::R(r) => &st.top.regs[*r as usize],
            Opnd::K(v) => v,
        }
    }
    #[inline]
    fn conc(&self, st: &State, o: &Opnd, w: u32) -> R<u64> {
        match Self::opnd(st, o) {
            Val::C(c) => Ok(*c),
            Val::S(e) => Err(Stop::Concretize(*e, w)),
            _ => Err(Stop::Engine("concrete value expected".into())),
        }
    }

    // ------------------------------------------------------------ memory access
    fn obj<'a>(&'a mut self, st: &'a State, id: u32) -> R<&'a Obj> {
        if id >= HEAP_BASE {
            if id >= st.mem.next {
                return Err(Stop::Engine(format!("access to invalid object {:#x}", id)));
            }
            let k = (id - HEAP_BASE) as usize;
            match &st.mem.chunks[k / CH][k % CH] {
                Some(o) => Ok(o),
                None => Err(Stop::Engine(format!("memory error: use after free, object {:#x}", id))),
            }
        } else {
            if let Some(o) = st.mem.globals.get(&id) {
                return Ok(o);
            }
            if id == 0 || id as usize >= self.pr.globals.len() {
                return Err(Stop::Engine(format!("memory error: access through invalid pointer {:#x}", id)));
            }
            self.pr.global_data(id);
            Ok(self.pr.globals[id as usize].data.as_ref().unwrap())
        }
    }
    fn obj_mut<'a>(&mut self, st: &'a mut State, id: u32) -> R<&'a mut Obj> {
        if id >= HEAP_BASE {
            if id >= st.mem.next {
                return Err(Stop::Engine(format!("access to invalid object {:#x}", id)));
            }
            let k = (id - HEAP_BASE) as usize;
            let c = Rc::make_mut(&mut st.mem.chunks[k / CH]);
            match &mut c[k % CH] {
                Some(o) => Ok(Rc::make_mut(o)),
                None => Err(Stop::Engine(format!("memory error: use after free, object {:#x}", id))),
            }
        } else {
            if id == 0 || id as usize >= self.pr.globals.len() {
                return Err(Stop::Engine(format!("memory error: write through invalid pointer {:#x}", id)));
            }
            if !st.mem.globals.contains_key(&id) {
                let d = self.pr.global_data(id);
                Rc::make_mut(&mut st.mem.globals).insert(id, d);
            }
            Ok(Rc::make_mut(Rc::make_mut(&mut st.mem.globals).get_mut(&id).unwrap()))
        }
    }
    fn load_bits(&mut self, st: &State, addr: u64, w: u32) -> R<Val> {
        let n = ((w + 7) / 8) as usize;
        let id = (addr >> 32) as u32;
        let off = (addr & 0xffff_ffff) as usize;
        let o = self.obj(st, id)?;
        if off + n > o.data.len() {
            return Err(Stop::Engine(format!("memory error: out-of-bounds read of {} bytes at offset {} of a {}-byte object", n, off, o.data.len())));
        }
        if o.sym.is_empty() || o.sym[off..off + n].iter().all(|&x| x == 0) {
            if n <= 8 {
                let mut b = [0u8; 8];
                b[..n].copy_from_slice(&o.data[off..off + n]);
                return Ok(Val::C(u64::from_le_bytes(b) & m64(w)));
            } else {
                let mut b = [0u8; 16];
                b[..n].copy_from_slice(&o.data[off..off + n]);
                return Ok(Val::W(Rc::new(u128::from_le_bytes(b) & mask(w))));
            }
        }
        // symbolic bytes
        let sy: Vec<u32> = o.sym[off..off + n].to_vec();
        let da: Vec<u8> = o.data[off..off + n].to_vec();
        let mut acc: Option<E> = None;
        let mut i = 0;
        while i < n {
            let (piece, len) = if sy[i] == 0 {
                let mut j = i;
                let mut v = 0u128;
                while j < n && sy[j] == 0 {
                    v |= (da[j] as u128) << (8 * (j - i));
                    j += 1;
                }
                (self.ar.cst(v, 8 * (j - i) as u32), j - i)
            } else {
                let e = sy[i] >> 4;
                let k = sy[i] & 15;
                let mut j = i;
                while j < n && sy[j] == (e << 4 | (k + (j - i) as u32)) && (k + (j - i) as u32) < 16 {
                    j += 1;
                }
                let len = j - i;
                (self.ar.extract(e, 8 * k, 8 * len as u32), len)
            };
            acc = Some(match acc {
                None => piece,
                Some(a) => self.ar.concat(piece, a),
            });
            i += len;
        }
        let mut e = acc.unwrap();
        if self.ar.w(e) > w {
            e = self.ar.extract(e, 0, w);
        }
        Ok(self.from_e(e))
    }
    fn load(&mut self, st: &State, addr: u64, ty: &Ty) -> R<Val> {
        match ty {
            Ty::Int(w) => self.load_bits(st, addr, *w),
            Ty::Ptr => self.load_bits(st, addr, 64),
            Ty::Float(w) => self.load_bits(st, addr, *w),
            Ty::Vector(n, t) if matches!(**t, Ty::Int(w) if w % 8 != 0) => {
                // elements narrower than a byte are packed
                let w = Ty::Int(*n * t.bits());
                let x = self.load_bits(st, addr, w.bits())?;
                self.bitcast(&w, ty, &x)
            }
            Ty::Array(..) | Ty::Struct(..) | Ty::Vector(..) => {
                let mut v = vec![];
                for i in 0..ty.nfields() {
                    v.push(self.load(st, addr + ty.field_off(i), &ty.field(i))?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            _ => Err(Stop::Engine("load type".into())),
        }
    }
    fn store_bits(&mut self, st: &mut State, addr: u64, w: u32, v: &Val) -> R<()> {
        let n = ((w + 7) / 8) as usize;
        let id = (addr >> 32) as u32;
        let off = (addr & 0xffff_ffff) as usize;
        let sym = match v {
            Val::S(e) => Some(if w % 8 != 0 { self.ar.zext(*e, n as u32 * 8) } else { *e }),
            _ => None,
        };
        let o = self.obj_mut(st, id)?;
        if off + n > o.data.len() {
            return Err(Stop::Engine(format!("memory error: out-of-bounds write of {} bytes at offset {} of a {}-byte object", n, off, o.data.len())));
        }
        match v {
            Val::C(c) => {
                o.data[off..off + n].copy_from_slice(&(*c as u128).to_le_bytes()[..n]);
                if !o.sym.is_empty() {
                    for x in &mut o.sym[off..off + n] {
                        *x = 0;
                    }
                }
            }
            Val::W(c) => {
                o.data[off..off + n].copy_from_slice(&(**c).to_le_bytes()[..n]);
                if !o.sym.is_empty() {
                    for x in &mut o.sym[off..off + n] {
                        *x = 0;
                    }
                }
            }
            Val::S(_) => {
                let e = sym.unwrap();
                if o.sym.is_empty() {
                    o.sym = vec![0; o.data.len()];
                }
                for i in 0..n {
                    o.sym[off + i] = e << 4 | i as u32;
                }
            }
            Val::A(_) => return Err(Stop::Engine("store agg".into())),
        }
        Ok(())
    }
    fn store(&mut self, st: &mut State, addr: u64, ty: &Ty, v: &Val) -> R<()> {
        match ty {
            Ty::Int(w) => self.store_bits(st, addr, *w, v),
            Ty::Ptr => self.store_bits(st, addr, 64, v),
            Ty::Float(w) => self.store_bits(st, addr, *w, v),
            Ty::Vector(n, t) if matches!(**t, Ty::Int(w) if w % 8 != 0) => {
                let w = Ty::Int(*n * t.bits());
                let x = self.bitcast(ty, &w, v)?;
                self.store_bits(st, addr, w.bits(), &x)
            }
            _ => match v {
                Val::A(vs) => {
                    for i in 0..vs.len() {
                        self.store(st, addr + ty.field_off(i), &ty.field(i), &vs[i])?;
                    }
                    Ok(())
                }
                _ => Err(Stop::Engine("store scalar as aggregate".into())),
            },
        }
    }
    fn copy(&mut self, st: &mut State, dst: u64, src: u64, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let n = n as usize;
        let (sid, so) = ((src >> 32) as u32, (src & 0xffff_ffff) as usize);
        let (did, dof) = ((dst >> 32) as u32, (dst & 0xffff_ffff) as usize);
        let (data, sym) = {
            let o = self.obj(st, sid)?;
            if so + n > o.data.len() {
                return Err(Stop::Engine(format!("memory error: out-of-bounds copy source ({} bytes at {} of {})", n, so, o.data.len())));
            }
            let sym = if o.sym.is_empty() { vec![] } else { o.sym[so..so + n].to_vec() };
            (o.data[so..so + n].to_vec(), sym)
        };
        let o = self.obj_mut(st, did)?;
        if dof + n > o.data.len() {
            return Err(Stop::Engine(format!("memory error: out-of-bounds copy destination ({} bytes at {} of {})", n, dof, o.data.len())));
        }
        o.data[dof..dof + n].copy_from_slice(&data);
        if sym.is_empty() {
            if !o.sym.is_empty() {
                for x in &mut o.sym[dof..dof + n] {
                    *x = 0;
                }
            }
        } else {
            if o.sym.is_empty() {
                if sym.iter().all(|&x| x == 0) {
                    return Ok(());
                }
                o.sym = vec![0; o.data.len()];
            }
            o.sym[dof..dof + n].copy_from_slice(&sym);
        }
        Ok(())
    }
    fn memset(&mut self, st: &mut State, dst: u64, v: &Val, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let n = n as usize;
        let (did, dof) = ((dst >> 32) as u32, (dst & 0xffff_ffff) as usize);
        let o = self.obj_mut(st, did)?;
        if dof + n > o.data.len() {
            return Err(Stop::Engine("memory error: out-of-bounds memset".into()));
        }
        match v {
            Val::C(c) => {
                for x in &mut o.data[dof..dof + n] {
                    *x = *c as u8;
                }
                if !o.sym.is_empty() {
                    for x in &mut o.sym[dof..dof + n] {
                        *x = 0;
                    }
                }
            }
            Val::S(e) => {
                if o.sym.is_empty() {
                    o.sym = vec![0; o.data.len()];
                }
                for x in &mut o.sym[dof..dof + n] {
                    *x = e << 4;
                }
            }
            _ => return Err(Stop::Engine("memset value".into())),
        }
        Ok(())
    }

    // ------------------------------------------------------------ solver interface
    fn model_val(&mut self, st: &State, e: E) -> u128 {
        let m = st.model.clone();
        self.ar.eval(e, &m)
    }
    /// merge a solver model (over the constrained variables) with the old model
    fn new_model(&self, old: &HashMap<u32, u128>, m: HashMap<u32, u128>) -> Rc<HashMap<u32, u128>> {
        let mut r = old.clone();
        for (k, v) in m {
            r.insert(k, v);
        }
        Rc::new(r)
    }
    /// is `c` satisfiable together with the path condition? returns a model
    fn feasible(&mut self, st: &State, c: E) -> Option<Rc<HashMap<u32, u128>>> {
        match self.ar.get_const(c) {
            Some(0) => return None,
            Some(_) => return Some(st.model.clone()),
            None => {}
        }
        if self.model_val(st, c) == 1 {
            return Some(st.model.clone());
        }
        match self.sol.check(&self.ar, &st.path, c) {
            Sat::Sat(m) => {
                let r = self.new_model(&st.model, m);
                debug_assert!(self.ar.eval(c, &r) == 1);
                Some(r)
            }
            Sat::Unsat => None,
        }
    }
    fn add_constraint(&mut self, st: &mut State, c: E, model: Rc<HashMap<u32, u128>>) {
        if self.ar.get_const(c).is_none() {
            st.path.push(c);
        }
        st.model = model;
    }

    // ------------------------------------------------------------ main loop
    pub fn run(&mut self, entry: &str) {
        let f = match self.pr.func_by_name(entry) {
            Some(f) => f,
            None => {
                eprintln!("ENGINE-ERROR: no function {}", entry);
                std::process::exit(70);
            }
        };
        let func = self.pr.get_func(f).unwrap();
        let mut mem = Mem::new();
        let top = self.mk_frame(&mut mem, func, None);
        let st = State {
            stack: vec![],
            top,
            mem,
            path: vec![],
            model: Rc::new(HashMap::new()),
            inputs: vec![],
            obs: vec![],
            reach: 0,
            steps: 0,
            shard_key: 1,
            shard_width: 1,
            shard_done: self.cfg.shard.1 <= 1,
            expect_panic: false,
            hash_vals: Rc::new(vec![]),
        };
        self.mark(&st);
        self.work.push(st);
        while let Some(st) = self.work.pop() {
            self.path_start = Instant::now();
            if self.run_path(st) {
                break;
            }
            if self.paths >= self.cfg.max_paths {
                eprintln!("ENGINE-ERROR: path limit {} reached", self.cfg.max_paths);
                std::process::exit(72);
            }
        }
    }
    fn mk_frame(&mut self, mem: &mut Mem, f: Rc<Func>, ret: Option<u32>) -> Frame {
        let obj = if f.frame_size > 0 { mem.alloc(f.frame_size) } else { 0 };
        let regs = vec![Val::C(0); f.nregs as usize];
        Frame { pc: f.blocks[0].start, f, regs, obj, dyn_objs: vec![], ret }
    }
    #[inline]
    fn mark_block(&mut self, fid: u32, b: u32, n: usize) {
        let fid = fid as usize;
        if fid >= self.covered.len() {
            self.covered.resize(fid + 1, vec![]);
        }
        let v = &mut self.covered[fid];
        if v.is_empty() {
            v.resize(n, false);
        }
        v[b as usize] = true;
    }
    fn mark(&mut self, st: &State) {
        let n = st.top.f.blocks.len();
        self.mark_block(st.top.f.id, 0, n);
    }
    fn in_shard(&self, key: u64) -> bool {
        hash64(key) % self.cfg.shard.1 == self.cfg.shard.0
    }
    fn finish_path(&mut self, st: &State, panicked: bool) {
        if !st.shard_done && !self.in_shard(st.shard_key) {
            self.killed += 1;
            return;
        }
        self.paths += 1;
        if panicked {
            self.panicked_paths += 1;
        }
        for i in 0..64 {
            if st.reach >> i & 1 == 1 {
                *self.reach.entry(i).or_insert(0) += 1;
            }
        }
        self.max_path_len = self.max_path_len.max(st.path.len());
        self.max_path_steps = self.max_path_steps.max(st.steps);
        self.max_obs = self.max_obs.max(st.obs.len());
        self.nsym_max = self.nsym_max.max(st.inputs.len());
        // reservoir sample of completed paths
        let k = self.cfg.samples;
        self.rng = hash64(self.rng);
        let slot = if self.samples.len() < k {
            self.samples.push(Sample { inputs: vec![], obs: vec![], panicked, npath: 0 });
            Some(self.samples.len() - 1)
        } else if k > 0 {
            let j = self.rng % self.paths;
            if (j as usize) < k {
                Some(j as usize)
            } else {
                None
            }
        } else {
            None
        };
        if let Some(s) = slot {
            let sm = self.concretize_state(st, panicked);
            self.samples[s] = sm;
        }
    }
    fn concretize_state(&mut self, st: &State, panicked: bool) -> Sample {
        // variables the path does not constrain get arbitrary (seeded) values
        let mut m = (*st.model).clone();
        let mut constrained: HashSet<u32> = HashSet::new();
        let mut todo: Vec<E> = st.path.clone();
        let mut seen: HashSet<E> = HashSet::new();
        while let Some(e) = todo.pop() {
            if !seen.insert(e) {
                continue;
            }
            let n = self.ar.nodes[e as usize];
            match n.op {
                Op::Const => {}
                Op::Var => {
                    constrained.insert(n.a);
                }
                Op::ZExt | Op::SExt | Op::Extract => todo.push(n.a),
                Op::Ite => {
                    todo.push(n.a);
                    todo.push(n.b);
                    todo.push(n.c);
                }
                _ => {
                    todo.push(n.a);
                    todo.push(n.b);
                }
            }
        }
        for &e in &st.inputs {
            let n = self.ar.nodes[e as usize];
            if n.op == Op::Var && !constrained.contains(&n.a) {
                self.rng = hash64(self.rng);
                m.insert(n.a, self.rng as u128 & mask(n.w as u32));
            }
        }
        let inputs = st.inputs.iter().map(|&e| self.ar.eval(e, &m)).collect();
        let obs = st
            .obs
            .iter()
            .map(|v| match v {
                Val::C(c) => *c,
                Val::S(e) => self.ar.eval(*e, &m) as u64,
                _ => 0,
            })
            .collect();
        Sample { inputs, obs, panicked, npath: st.path.len() }
    }
    fn violation(&mut self, st: &State, kind: &str, msg: &str) {
        let inputs = st.inputs.iter().map(|&e| { let m = st.model.clone(); self.ar.eval(e, &m) }).collect();
        let trace = self.backtrace(st);
        self.violations.push(Violation { kind: kind.into(), msg: msg.into(), inputs, trace });
    }
    pub fn backtrace(&mut self, st: &State) -> Vec<String> {
        let mut out = vec![];
        let mut fs: Vec<&Frame> = st.stack.iter().map(|f| &**f).collect();
        fs.push(&st.top);
        for (depth, f) in fs.iter().rev().enumerate() {
            let pc = if depth == 0 { f.pc as usize } else { (f.pc as usize).saturating_sub(1) };
            let d = f.f.dbg.get(pc).copied().unwrap_or(0);
            let name = self.pr.funcs[f.f.id as usize].name.clone();
            let locs = crate::dbg_chain(&self.pr.modules[f.f.module], d);
            if locs.is_empty() {
                out.push(name);
            } else {
                for (file, line, fun) in locs {
                    out.push(format!("{}:{} {}", file, line, fun));
                }
            }
            if out.len() > 60 {
                break;
            }
        }
        out
    }
    /// returns true to stop the whole exploration
    fn run_path(&mut self, mut st: State) -> bool {
        loop {
            match self.step(&mut st) {
                Ok(()) => {}
                Err(Stop::Concretize(e, w)) => {
                    let v = self.model_val(&st, e);
                    let c = self.ar.cst(v, w);
                    let eq = self.ar.bin(Op::Eq, e, c);
                    let ne = self.ar.not(eq);
                    if let Some(m) = self.feasible_other(&st, ne) {
                        let mut o = st.clone();
                        self.add_constraint(&mut o, ne, m);
                        self.forks += 1;
                        self.work.push(o);
                    }
                    let m = st.model.clone();
                    self.add_constraint(&mut st, eq, m);
                    let nv = if w > 64 { Val::W(Rc::new(v)) } else { Val::C(v as u64) };
                    let mut hit = false;
                    for r in st.top.regs.iter_mut() {
                        if let Val::S(x) = r {
                            if *x == e {
                                *r = nv.clone();
                                hit = true;
                            }
                        }
                    }
                    if !hit {
                        eprintln!("ENGINE-ERROR: concretization target not in a register");
                        std::process::exit(70);
                    }
                }
                Err(Stop::Done) => {
                    self.finish_path(&st, false);
                    return false;
                }
                Err(Stop::Kill) => {
                    self.killed += 1;
                    return false;
                }
                Err(Stop::Panic(m)) => {
                    if st.expect_panic {
                        self.finish_path(&st, true);
                        return false;
                    }
                    self.violation(&st, "panic", &m);
                    return true;
                }
                Err(Stop::Violation(k, m)) => {
                    self.violation(&st, &k, &m);
                    return true;
                }
                Err(Stop::Engine(m)) => {
                    eprintln!("ENGINE-ERROR: {}", m);
                    for l in self.backtrace(&st).iter().take(30) {
                        eprintln!("    at {}", l);
                    }
                    std::process::exit(70);
                }
            }
        }
    }
    /// feasibility of a condition the current model is known to falsify
    fn feasible_other(&mut self, st: &State, c: E) -> Option<Rc<HashMap<u32, u128>>> {
        if let Some(k) = self.ar.get_const(c) {
            return if k == 0 { None } else { Some(st.model.clone()) };
        }
        match self.sol.check(&self.ar, &st.path, c) {
            Sat::Sat(m) => Some(self.new_model(&st.model, m)),
            Sat::Unsat => None,
        }
    }
    fn jump(&mut self, st: &mut State, to: u32) {
        let from = st.top.f.block_of[st.top.pc as usize];
        let f = st.top.f.clone();
        let b = &f.blocks[to as usize];
        match b.phis.len() {
            0 => {}
            1 => {
                let (d, inc) = &b.phis[0];
                let v = Self::phi_val(st, inc, from);
                st.top.regs[*d as usize] = v;
            }
            _ => {
                let vals: Vec<Val> = b.phis.iter().map(|(_, inc)| Self::phi_val(st, inc, from)).collect();
                for (k, v) in vals.into_iter().enumerate() {
                    st.top.regs[b.phis[k].0 as usize] = v;
                }
            }
        }
        st.top.pc = b.start;
        self.mark_block(f.id, to, f.blocks.len());
    }
    fn phi_val(st: &State, inc: &[(u32, Opnd)], from: u32) -> Val {
        for (l, o) in inc {
            if *l == from {
                return Self::opnd(st, o).clone();
            }
        }
        panic!("phi without incoming edge");
    }
    #[inline]
    fn set(&self, st: &mut State, d: u32, v: Val) {
        st.top.regs[d as usize] = v;
        st.top.pc += 1;
    }

    fn step(&mut self, st: &mut State) -> R<()> {
        let f = st.top.f.clone();
        // run a straight line while the function stays the same
        loop {
            self.instrs += 1;
            st.steps += 1;
            if st.steps > self.cfg.max_steps {
                return Err(Stop::Violation("hang".into(), format!("more than {} instructions on one path", self.cfg.max_steps)));
            }
            if self.instrs & 0x3fff == 0 {
                let now = Instant::now();
                if now > self.cfg.deadline {
                    eprintln!("ENGINE-ERROR: time limit reached after {} paths", self.paths);
                    std::process::exit(72);
                }
                // a path that goes on and on; whether it really does is settled by the native run
                if now.duration_since(self.path_start) > self.cfg.path_time {
                    return Err(Stop::Violation("hang".into(), format!("no end of the path after {} instructions", st.steps)));
                }
            }
            let pc = st.top.pc as usize;
            match &f.code[pc] {
                Inst::Bin(op, ty, d, a, b) => {
                    let v = match (Self::opnd(st, a), Self::opnd(st, b), &**ty) {
                        (Val::C(x), Val::C(y), Ty::Int(w)) => Val::C(self.bin64(*op, *w, *x, *y)?),
                        (x, y, t) => {
                            let (x, y) = (x.clone(), y.clone());
                            self.bin_val(*op, t, &x, &y)?
                        }
                    };
                    self.set(st, *d, v);
                }
                Inst::Icmp(p, ty, d, a, b) => {
                    let v = match (Self::opnd(st, a), Self::opnd(st, b)) {
                        (Val::C(x), Val::C(y)) => Val::C(icmp64(*p, ty.bits(), *x, *y) as u64),
                        (x, y) => {
                            let (x, y) = (x.clone(), y.clone());
                            self.icmp_val(*p, ty, &x, &y)
                        }
                    };
                    self.set(st, *d, v);
                }
                Inst::Cast(k, t1, t2, d, a) => {
                    let x = Self::opnd(st, a).clone();
                    let v = self.cast_val(*k, t1, t2, &x);
                    self.set(st, *d, v);
                }
                Inst::Copy(d, a) => {
                    let v = Self::opnd(st, a).clone();
                    self.set(st, *d, v);
                }
                Inst::Bitcast(t1, t2, d, a) => {
                    let x = Self::opnd(st, a).clone();
                    let v = self.bitcast(t1, t2, &x)?;
                    self.set(st, *d, v);
                }
                Inst::Load(d, ty, p) => {
                    let a = self.conc(st, p, 64)?;
                    let v = self.load(st, a, ty)?;
                    self.set(st, *d, v);
                }
                Inst::Store(ty, v, p) => {
                    let a = self.conc(st, p, 64)?;
                    let v = Self::opnd(st, v).clone();
                    self.store(st, a, ty, &v)?;
                    st.top.pc += 1;
                }
                Inst::Gep(d, base, off, terms) => {
                    let b = Self::opnd(st, base).clone();
                    let v = match b {
                        Val::C(c) => {
                            let mut acc = c.wrapping_add(*off);
                            let mut symb: Option<E> = None;
                            for (o, w, sc) in terms {
                                match Self::opnd(st, o).clone() {
                                    Val::C(i) => acc = acc.wrapping_add((sx64(i, *w) as u64).wrapping_mul(*sc)),
                                    Val::S(e) => {
                                        let x = self.ar.sext(e, 64);
                                        let k = self.ar.cst(*sc as u128, 64);
                                        let t = self.ar.bin(Op::Mul, x, k);
                                        symb = Some(match symb {
                                            None => t,
                                            Some(s) => self.ar.bin(Op::Add, s, t),
                                        });
                                    }
                                    _ => return Err(Stop::Engine("gep index".into())),
                                }
                            }
                            match symb {
                                None => Val::C(acc),
                                Some(s) => {
                                    let k = self.ar.cst(acc as u128, 64);
                                    let e = self.ar.bin(Op::Add, s, k);
                                    self.from_e(e)
                                }
                            }
                        }
                        Val::S(e) => {
                            let k = self.ar.cst(*off as u128, 64);
                            let mut x = self.ar.bin(Op::Add, e, k);
                            for (o, w, sc) in terms {
                                let v = Self::opnd(st, o).clone();
                                let i = self.to_e(&v, *w);
                                let i = self.ar.sext(i, 64);
                                let k = self.ar.cst(*sc as u128, 64);
                                let t = self.ar.bin(Op::Mul, i, k);
                                x = self.ar.bin(Op::Add, x, t);
                            }
                            self.from_e(x)
                        }
                        _ => return Err(Stop::Engine("gep base".into())),
                    };
                    self.set(st, *d, v);
                }
                Inst::Alloca(d, off) => {
                    let a = ((st.top.obj as u64) << 32) + off;
                    self.set(st, *d, Val::C(a));
                }
                Inst::AllocaDyn(d, sz, n) => {
                    let k = self.conc(st, n, 64)?;
                    let id = st.mem.alloc(sz * k);
                    st.top.dyn_objs.push(id);
                    self.set(st, *d, Val::C((id as u64) << 32));
                }
                Inst::Jmp(l) => self.jump(st, *l),
                Inst::Br(c, t, fl) => {
                    let v = Self::opnd(st, c).clone();
                    match v {
                        Val::C(x) => self.jump(st, if x & 1 == 1 { *t } else { *fl }),
                        Val::S(e) => {
                            let mv = self.model_val(st, e) == 1;
                            let ne = self.ar.not(e);
                            let (taken, other, tl, ol) = if mv { (e, ne, *t, *fl) } else { (ne, e, *fl, *t) };
                            if let Some(m) = self.feasible_other(st, other) {
                                let mut o = st.clone();
                                self.add_constraint(&mut o, other, m);
                                self.jump(&mut o, ol);
                                self.forks += 1;
                                self.work.push(o);
                                let m = st.model.clone();
                                self.add_constraint(st, taken, m);
                            }
                            self.jump(st, tl);
                        }
                        _ => return Err(Stop::Engine("br".into())),
                    }
                }
                Inst::Switch(v, w, cases, def) => {
                    let x = Self::opnd(st, v).clone();
                    match x {
                        Val::C(c) => {
                            let mut to = *def;
                            for (k, l) in cases {
                                if *k == c {
                                    to = *l;
                                    break;
                                }
                            }
                            self.jump(st, to);
                        }
                        Val::S(e) => {
                            // outcomes grouped by target
                            let mut conds: Vec<(E, u32)> = vec![];
                            let mut none = self.ar.cst(1, 1);
                            for (k, l) in cases {
                                let kc = self.ar.cst(*k as u128, *w);
                                let c = self.ar.bin(Op::Eq, e, kc);
                                let nc = self.ar.not(c);
                                none = self.ar.bin(Op::And, none, nc);
                                if let Some(x) = conds.iter_mut().find(|x| x.1 == *l) {
                                    x.0 = self.ar.bin(Op::Or, x.0, c);
                                } else {
                                    conds.push((c, *l));
                                }
                            }
                            if let Some(x) = conds.iter_mut().find(|x| x.1 == *def) {
                                x.0 = self.ar.bin(Op::Or, x.0, none);
                            } else {
                                conds.push((none, *def));
                            }
                            let mut mine: Option<(E, u32)> = None;
                            let mut others = vec![];
                            for (c, l) in conds {
                                if mine.is_none() && self.model_val(st, c) == 1 {
                                    mine = Some((c, l));
                                } else if let Some(m) = self.feasible_other(st, c) {
                                    others.push((c, l, m));
                                }
                            }
                            let (c, l) = match mine {
                                Some(x) => x,
                                None => return Err(Stop::Engine("switch: model matches no case".into())),
                            };
                            for (oc, ol, m) in others {
                                let mut o = st.clone();
                                self.add_constraint(&mut o, oc, m);
                                self.jump(&mut o, ol);
                                self.forks += 1;
                                self.work.push(o);
                            }
                            let m = st.model.clone();
                            self.add_constraint(st, c, m);
                            self.jump(st, l);
                        }
                        _ => return Err(Stop::Engine("switch".into())),
                    }
                }
                Inst::Ret(v) => {
                    let val = v.as_ref().map(|o| Self::opnd(st, o).clone());
                    if st.top.obj != 0 {
                        st.mem.free(st.top.obj);
                    }
                    for i in 0..st.top.dyn_objs.len() {
                        let id = st.top.dyn_objs[i];
                        st.mem.free(id);
                    }
                    match st.stack.pop() {
                        None => return Err(Stop::Done),
                        Some(fr) => {
                            let ret = st.top.ret;
                            st.top = Rc::try_unwrap(fr).unwrap_or_else(|r| (*r).clone());
                            if let (Some(d), Some(v)) = (ret, val) {
                                st.top.regs[d as usize] = v;
                            }
                            return Ok(());
                        }
                    }
                }
                Inst::Unreachable => return Err(Stop::Engine("reached `unreachable`".into())),
                Inst::Select(d, ct, c, ty, a, b) => {
                    let cv = Self::opnd(st, c).clone();
                    let v = match cv {
                        Val::C(k) => Self::opnd(st, if k & 1 == 1 { a } else { b }).clone(),
                        Val::S(e) => {
                            let x = Self::opnd(st, a).clone();
                            let y = Self::opnd(st, b).clone();
                            if ty.is_agg() {
                                let mv = self.model_val(st, e);
                                let _ = mv;
                                return Err(Stop::Concretize(e, 1));
                            }
                            let w = ty.bits();
                            let x = self.to_e(&x, w);
                            let y = self.to_e(&y, w);
                            let r = self.ar.ite(e, x, y);
                            self.from_e(r)
                        }
                        Val::A(cs) => {
                            let _ = ct;
                            let (x, y) = (Self::opnd(st, a).clone(), Self::opnd(st, b).clone());
                            match (x, y) {
                                (Val::A(x), Val::A(y)) => {
                                    let w = ty.field(0).bits();
                                    let mut out = vec![];
                                    for i in 0..cs.len() {
                                        let c = self.to_e(&cs[i], 1);
                                        let p = self.to_e(&x[i], w);
                                        let q = self.to_e(&y[i], w);
                                        let r = self.ar.ite(c, p, q);
                                        out.push(self.from_e(r));
                                    }
                                    Val::A(Rc::new(out))
                                }
                                _ => return Err(Stop::Engine("vector select".into())),
                            }
                        }
                        _ => return Err(Stop::Engine("select".into())),
                    };
                    self.set(st, *d, v);
                }
                Inst::ExtractV(d, v, idx) => {
                    let mut cur = Self::opnd(st, v).clone();
                    for &i in idx {
                        cur = match cur {
                            Val::A(vs) => vs[i as usize].clone(),
                            _ => return Err(Stop::Engine("extractvalue".into())),
                        };
                    }
                    self.set(st, *d, cur);
                }
                Inst::InsertV(d, v, e, idx) => {
                    let mut agg = Self::opnd(st, v).clone();
                    let ev = Self::opnd(st, e).clone();
                    fn ins(a: &mut Val, idx: &[u32], e: Val) {
                        if idx.is_empty() {
                            *a = e;
                            return;
                        }
                        if let Val::A(vs) = a {
                            ins(&mut Rc::make_mut(vs)[idx[0] as usize], &idx[1..], e);
                        } else {
                            panic!("insertvalue");
                        }
                    }
                    ins(&mut agg, idx, ev);
                    self.set(st, *d, agg);
                }
                Inst::ExtractE(d, v, k) => {
                    let i = self.conc(st, k, 64)?;
                    let x = match Self::opnd(st, v) {
                        Val::A(vs) => vs[i as usize].clone(),
                        _ => return Err(Stop::Engine("extractelement".into())),
                    };
                    self.set(st, *d, x);
                }
                Inst::InsertE(d, v, e, k) => {
                    let i = self.conc(st, k, 64)?;
                    let ev = Self::opnd(st, e).clone();
                    let x = match Self::opnd(st, v).clone() {
                        Val::A(mut vs) => {
                            Rc::make_mut(&mut vs)[i as usize] = ev;
                            Val::A(vs)
                        }
                        _ => return Err(Stop::Engine("insertelement".into())),
                    };
                    self.set(st, *d, x);
                }
                Inst::Shuffle(d, a, b, m) => {
                    let x = match (Self::opnd(st, a), Self::opnd(st, b)) {
                        (Val::A(x), Val::A(y)) => {
                            let n = x.len() as i32;
                            Val::A(Rc::new(m.iter().map(|&i| if i < n { x[i as usize].clone() } else { y[(i - n) as usize].clone() }).collect()))
                        }
                        _ => return Err(Stop::Engine("shuffle".into())),
                    };
                    self.set(st, *d, x);
                }
                Inst::Rmw(d, k, ty, p, v) => {
                    let a = self.conc(st, p, 64)?;
                    let old = self.load(st, a, ty)?;
                    let x = Self::opnd(st, v).clone();
                    let nv = match *k {
                        "xchg" => x,
                        "add" => self.bin_val(Op::Add, ty, &old, &x)?,
                        "sub" => self.bin_val(Op::Sub, ty, &old, &x)?,
                        "and" => self.bin_val(Op::And, ty, &old, &x)?,
                        "or" => self.bin_val(Op::Or, ty, &old, &x)?,
                        "xor" => self.bin_val(Op::Xor, ty, &old, &x)?,
                        _ => return Err(Stop::Engine("atomicrmw".into())),
                    };
                    self.store(st, a, ty, &nv)?;
                    self.set(st, *d, old);
                }
                Inst::CmpXchg(d, ty, p, c, n) => {
                    let a = self.conc(st, p, 64)?;
                    let old = self.load(st, a, ty)?;
                    let cmp = self.conc(st, c, 64)?;
                    match old {
                        Val::C(o) => {
                            let ok = o == cmp;
                            if ok {
                                let nv = Self::opnd(st, n).clone();
                                self.store(st, a, ty, &nv)?;
                            }
                            self.set(st, *d, Val::A(Rc::new(vec![Val::C(o), Val::C(ok as u64)])));
                        }
                        _ => return Err(Stop::Engine("symbolic cmpxchg".into())),
                    }
                }
                Inst::Nop => st.top.pc += 1,
                Inst::FBin(op, w, d, a, b) => {
                    let (x, y) = (self.conc(st, a, *w)?, self.conc(st, b, *w)?);
                    let v = if *w == 32 {
                        let (x, y) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
                        fop!(*op, x, y).to_bits() as u64
                    } else {
                        let (x, y) = (f64::from_bits(x), f64::from_bits(y));
                        fop!(*op, x, y).to_bits()
                    };
                    self.set(st, *d, Val::C(v));
                }
                Inst::FCmp(p, w, d, a, b) => {
                    let (x, y) = (self.conc(st, a, *w)?, self.conc(st, b, *w)?);
                    let (x, y) = if *w == 32 { (f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64) } else { (f64::from_bits(x), f64::from_bits(y)) };
                    let r = match x.partial_cmp(&y) {
                        Some(std::cmp::Ordering::Less) => p.0,
                        Some(std::cmp::Ordering::Equal) => p.1,
                        Some(std::cmp::Ordering::Greater) => p.2,
                        None => p.3,
                    };
                    self.set(st, *d, Val::C(r as u64));
                }
                Inst::FCast(k, w1, w2, d, a) => {
                    let x = self.conc(st, a, *w1)?;
                    let v = fcast(*k, *w1, *w2, x);
                    self.set(st, *d, Val::C(v));
                }
                Inst::Unsup(m) => return Err(Stop::Engine(format!("unsupported instruction {}", m))),
                Inst::Call(dst, callee, args, rt) => {
                    match callee {
                        Callee::Intrinsic(n) => {
                            let v = self.intrinsic(st, n.0, &n.1, args, rt)?;
                            if let Some(d) = dst {
                                st.top.regs[*d as usize] = v;
                            }
                            st.top.pc += 1;
                        }
                        Callee::Direct(id) => {
                            if self.call(st, *id, *dst, args)? {
                                return Ok(());
                            }
                        }
                        Callee::Indirect(o) => {
                            let a = self.conc(st, o, 64)?;
                            let id = (a >> 32) as u32;
                            if id < FUNC_BASE || a & 0xffff_ffff != 0 {
                                return Err(Stop::Engine(format!("indirect call to {:#x}", a)));
                            }
                            if self.call(st, id - FUNC_BASE, *dst, args)? {
                                return Ok(());
                            }
                        }
                    }
                }
            }
        }
    }

    /// true: a new frame was entered
    fn call(&mut self, st: &mut State, id: u32, dst: Option<u32>, args: &[(Opnd, Rc<Ty>)]) -> R<bool> {
        let hook = self.pr.funcs[id as usize].hook;
        if hook != H_NONE {
            let v = self.hook(st, hook, id, args)?;
            if let (Some(d), Some(v)) = (dst, v) {
                st.top.regs[d as usize] = v;
            }
            st.top.pc += 1;
            return Ok(false);
        }
        let f = match self.pr.get_func(id) {
            Some(f) => f,
            None => return Err(Stop::Engine(format!("call to external function {}", self.pr.funcs[id as usize].name))),
        };
        if st.stack.len() >= self.cfg.max_depth {
            return Err(Stop::Violation("hang".into(), format!("call depth exceeds {}", self.cfg.max_depth)));
        }
        if self.trace_calls {
            eprintln!("{:w$}call {}", "", self.pr.funcs[id as usize].name, w = st.stack.len());
        }
        if f.params.len() > args.len() {
            return Err(Stop::Engine("argument count".into()));
        }
        let vals: Vec<Val> = args.iter().map(|(o, _)| Self::opnd(st, o).clone()).collect();
        let mut fr = self.mk_frame(&mut st.mem, f, dst);
        for (i, p) in fr.f.params.clone().iter().enumerate() {
            fr.regs[*p as usize] = vals[i].clone();
        }
        st.top.pc += 1;
        let old = std::mem::replace(&mut st.top, fr);
        st.stack.push(Rc::new(old));
        self.mark(st);
        Ok(true)
    }

    fn hook(&mut self, st: &mut State, h: u16, id: u32, args: &[(Opnd, Rc<Ty>)]) -> R<Option<Val>> {
        macro_rules! c {
            ($i:expr) => {
                self.conc(st, &args[$i].0, args[$i].1.bits())?
            };
        }
        match h {
            H_ALLOC | H_ALLOC_Z => {
                let n = c!(0);
                if n > 1 << 28 {
                    return Err(Stop::Engine(format!("allocation of {} bytes", n)));
                }
                let o = st.mem.alloc(n);
                Ok(Some(Val::C((o as u64) << 32)))
            }
            H_DEALLOC => {
                let p = c!(0);
                if p & 0xffff_ffff != 0 || !st.mem.free((p >> 32) as u32) {
                    return Err(Stop::Engine("memory error: invalid free".into()));
                }
                Ok(None)
            }
            H_REALLOC => {
                let p = c!(0);
                let old = c!(1);
                let new = c!(3);
                if new > 1 << 28 {
                    return Err(Stop::Engine(format!("allocation of {} bytes", new)));
                }
                let o = st.mem.alloc(new);
                let a = (o as u64) << 32;
                self.copy(st, a, p, old.min(new))?;
                st.mem.free((p >> 32) as u32);
                Ok(Some(Val::C(a)))
            }
            H_NOP => Ok(Some(Val::C(0))),
            H_RNDKEYS => Ok(Some(Val::A(Rc::new(vec![Val::C(0x0123456789abcdef), Val::C(0xfedcba9876543210)])))),
            H_SYSCALL => {
                // getrandom(buf, len, flags): fixed bytes; nothing else is called
                let n = c!(0);
                if n != 318 {
                    return Err(Stop::Engine(format!("system call {}", n)));
                }
                let (p, len) = (c!(1), c!(2));
                for i in 0..len {
                    self.store(st, p + i, &Ty::Int(8), &Val::C((i * 37 + 11) & 255))?;
                }
                Ok(Some(Val::C(len)))
            }
            H_ENVNONE => {
                // Option<OsString>::None written through the sret pointer
                let p = c!(0);
                self.store(st, p, &Ty::Int(64), &Val::C(0x8000_0000_0000_0000))?;
                Ok(None)
            }
            H_PANIC => {
                let n = self.pr.funcs[id as usize].name.clone();
                Err(Stop::Panic(n))
            }
            H_ABORT => Err(Stop::Panic("abort".into())),
            H_MEMCPY => {
                let (d, s_, n) = (c!(0), c!(1), c!(2));
                self.copy(st, d, s_, n)?;
                Ok(Some(Val::C(d)))
            }
            H_MEMSET => {
                let (d, n) = (c!(0), c!(2));
                let v = Self::opnd(st, &args[1].0).clone();
                let v = match v {
                    Val::C(c) => Val::C(c & 255),
                    Val::S(e) => {
                        let x = self.ar.extract(e, 0, 8);
                        self.from_e(x)
                    }
                    v => v,
                };
                self.memset(st, d, &v, n)?;
                Ok(Some(Val::C(d)))
            }
            H_MEMCMP | H_BCMP => {
                let (a, b, n) = (c!(0), c!(1), c!(2));
                let mut r = self.ar.cst(0, 32);
                let minus = self.ar.cst(0xffff_ffff, 32);
                let one = self.ar.cst(1, 32);
                if h == H_BCMP {
                    let mut eq = self.ar.cst(1, 1);
                    let mut i = 0;
                    while i < n {
                        let k = (n - i).min(8);
                        let x = self.load_bits(st, a + i, 8 * k as u32)?;
                        let y = self.load_bits(st, b + i, 8 * k as u32)?;
                        let x = self.to_e(&x, 8 * k as u32);
                        let y = self.to_e(&y, 8 * k as u32);
                        let e = self.ar.bin(Op::Eq, x, y);
                        eq = self.ar.bin(Op::And, eq, e);
                        i += k;
                    }
                    let e = self.ar.ite(eq, r, one);
                    return Ok(Some(self.from_e(e)));
                }
                for i in (0..n).rev() {
                    let x = self.load_bits(st, a + i, 8)?;
                    let y = self.load_bits(st, b + i, 8)?;
                    let x = self.to_e(&x, 8);
                    let y = self.to_e(&y, 8);
                    let lt = self.ar.bin(Op::Ult, x, y);
                    let eq = self.ar.bin(Op::Eq, x, y);
                    let d = self.ar.ite(lt, minus, one);
                    r = self.ar.ite(eq, r, d);
                }
                Ok(Some(self.from_e(r)))
            }
            H_STRLEN => {
                let a = c!(0);
                let mut n = 0;
                loop {
                    match self.load_bits(st, a + n, 8)? {
                        Val::C(0) => return Ok(Some(Val::C(n))),
                        Val::C(_) => n += 1,
                        _ => return Err(Stop::Engine("symbolic strlen".into())),
                    }
                }
            }
            H_SYM => {
                let w = c!(0) as u32;
                let v = self.ar.var(w);
                st.inputs.push(v);
                let e = self.ar.zext(v, 64);
                Ok(Some(self.from_e(e)))
            }
            H_CHOOSE => {
                let n = c!(0);
                if n == 0 {
                    return Err(Stop::Kill);
                }
                // a fresh symbolic variable constrained to 0..n, split over its values
                let v = self.ar.var(32);
                st.inputs.push(v);
                let dst = match &st.top.f.code[st.top.pc as usize] {
                    Inst::Call(d, ..) => *d,
                    _ => None,
                };
                let mut keep: Option<State> = None;
                for k in (0..n).rev() {
                    let mut key = st.shard_key;
                    let mut width = st.shard_width;
                    let mut done = st.shard_done;
                    if !done {
                        key = key.wrapping_mul(n + 1).wrapping_add(k + 1);
                        width *= n;
                        if width >= self.cfg.shard.1 * 12 {
                            done = true;
                            if !self.in_shard(key) {
                                continue;
                            }
                        }
                    }
                    let mut o = st.clone();
                    o.shard_key = key;
                    o.shard_width = width;
                    o.shard_done = done;
                    let kc = self.ar.cst(k as u128, 32);
                    let eq = self.ar.bin(Op::Eq, v, kc);
                    let mut m = (*o.model).clone();
                    m.insert(self.ar.nodes[v as usize].a, k as u128);
                    o.path.push(eq);
                    o.model = Rc::new(m);
                    if let Some(d) = dst {
                        o.top.regs[d as usize] = Val::C(k);
                    }
                    o.top.pc += 1;
                    if let Some(p) = keep.replace(o) {
                        self.forks += 1;
                        self.work.push(p);
                    }
                }
                match keep {
                    None => Err(Stop::Kill),
                    Some(o) => {
                        // continue with it as the current state: caller advances pc, so step back
                        let val = dst.map(|d| o.top.regs[d as usize].clone());
                        *st = o;
                        st.top.pc -= 1;
                        Ok(val)
                    }
                }
            }
            H_ASSUME => {
                let v = Self::opnd(st, &args[0].0).clone();
                match v {
                    Val::C(0) => Err(Stop::Kill),
                    Val::C(_) => Ok(None),
                    Val::S(e) => {
                        let w = self.ar.w(e);
                        let z = self.ar.cst(0, w);
                        let eq = self.ar.bin(Op::Eq, e, z);
                        let c = self.ar.not(eq);
                        match self.feasible(st, c) {
                            None => Err(Stop::Kill),
                            Some(m) => {
                                self.add_constraint(st, c, m);
                                Ok(None)
                            }
                        }
                    }
                    _ => Err(Stop::Engine("assume".into())),
                }
            }
            H_CHECK => {
                let v = Self::opnd(st, &args[0].0).clone();
                let k = c!(1);
                self.checks += 1;
                match v {
                    Val::C(0) => Err(Stop::Violation("check".into(), format!("{}", k))),
                    Val::C(_) => Ok(None),
                    Val::S(e) => {
                        let w = self.ar.w(e);
                        let z = self.ar.cst(0, w);
                        let bad = self.ar.bin(Op::Eq, e, z);
                        self.checks_solver += 1;
                        if let Some(m) = self.feasible(st, bad) {
                            self.add_constraint(st, bad, m);
                            return Err(Stop::Violation("check".into(), format!("{}", k)));
                        }
                        Ok(None)
                    }
                    _ => Err(Stop::Engine("check".into())),
                }
            }
            H_FAIL => {
                let k = c!(0);
                Err(Stop::Violation("check".into(), format!("{}", k)))
            }
            H_OBSERVE => {
                let v = Self::opnd(st, &args[0].0).clone();
                st.obs.push(v);
                Ok(None)
            }
            H_PARAM => {
                let i = c!(0) as usize;
                Ok(Some(Val::C(*self.cfg.params.get(i).unwrap_or(&0))))
            }
            H_EXPECT_PANIC => {
                let k = c!(0);
                st.expect_panic = k != 0;
                Ok(None)
            }
            H_REACH => {
                let k = c!(0);
                st.reach |= 1 << (k & 63);
                Ok(None)
            }
            H_CONC => {
                let k = c!(0);
                Ok(Some(Val::C(k)))
            }
            H_HASHFIN => {
                // uninterpreted function of one 64-bit argument: equal arguments, equal results
                let v = Self::opnd(st, &args[0].0).clone();
                let w = c!(1) as u32;
                let a = self.to_e(&v, 64);
                for (k, e) in st.hash_vals.iter() {
                    if *k == a as u64 {
                        let e = self.ar.zext(*e, 64);
                        return Ok(Some(self.from_e(e)));
                    }
                }
                // case split on equality with earlier arguments is left to the caller,
                // which passes concrete arguments
                if self.ar.get_const(a).is_none() {
                    return Err(Stop::Concretize(a, 64));
                }
                let nv = self.ar.var(w);
                st.inputs.push(nv);
                Rc::make_mut(&mut st.hash_vals).push((a as u64, nv));
                let e = self.ar.zext(nv, 64);
                Ok(Some(self.from_e(e)))
            }
            _ => Err(Stop::Engine(format!("hook {}", h))),
        }
    }

    // ------------------------------------------------------------ operators
    #[inline]
    fn bin64(&self, op: Op, w: u32, a: u64, b: u64) -> R<u64> {
        let m = m64(w);
        Ok(match op {
            Op::Add => a.wrapping_add(b) & m,
            Op::Sub => a.wrapping_sub(b) & m,
            Op::Mul => a.wrapping_mul(b) & m,
            Op::And => a & b,
            Op::Or => a | b,
            Op::Xor => a ^ b,
            Op::Shl => {
                if b >= w as u64 {
                    0
                } else {
                    (a << b) & m
                }
            }
            Op::LShr => {
                if b >= w as u64 {
                    0
                } else {
                    a >> b
                }
            }
            Op::AShr => (sx64(a, w) >> b.min(w as u64 - 1)) as u64 & m,
            Op::UDiv | Op::URem | Op::SDiv | Op::SRem => match cbin(op, w, a as u128, b as u128) {
                Some(v) => v as u64,
                None => return Err(Stop::Engine("division by zero in IR".into())),
            },
            _ => unreachable!(),
        })
    }
    fn bin_val(&mut self, op: Op, ty: &Ty, a: &Val, b: &Val) -> R<Val> {
        if let (Val::A(x), Val::A(y)) = (a, b) {
            let et = ty.field(0);
            let mut out = vec![];
            for i in 0..x.len() {
                out.push(self.bin_val(op, &et, &x[i], &y[i])?);
            }
            return Ok(Val::A(Rc::new(out)));
        }
        let w = ty.bits();
        if let (Val::C(x), Val::C(y)) = (a, b) {
            return Ok(Val::C(self.bin64(op, w, *x, *y)?));
        }
        let x = self.to_e(a, w);
        let y = self.to_e(b, w);
        if matches!(op, Op::UDiv | Op::URem | Op::SDiv | Op::SRem) && self.ar.get_const(y) == Some(0) {
            return Err(Stop::Engine("division by zero in IR".into()));
        }
        let e = self.ar.bin(op, x, y);
        Ok(self.from_e(e))
    }
    fn icmp_val(&mut self, p: Pred, ty: &Ty, a: &Val, b: &Val) -> Val {
        if let (Val::A(x), Val::A(y)) = (a, b) {
            let et = ty.field(0);
            let mut out = vec![];
            for i in 0..x.len() {
                out.push(self.icmp_val(p, &et, &x[i], &y[i]));
            }
            return Val::A(Rc::new(out));
        }
        let w = ty.bits();
        if let (Val::C(x), Val::C(y)) = (a, b) {
            return Val::C(icmp64(p, w, *x, *y) as u64);
        }
        let x = self.to_e(a, w);
        let y = self.to_e(b, w);
        let e = match p {
            Pred::Eq => self.ar.bin(Op::Eq, x, y),
            Pred::Ne => {
                let e = self.ar.bin(Op::Eq, x, y);
                self.ar.not(e)
            }
            Pred::Ult => self.ar.bin(Op::Ult, x, y),
            Pred::Ule => self.ar.bin(Op::Ule, x, y),
            Pred::Ugt => self.ar.bin(Op::Ult, y, x),
            Pred::Uge => self.ar.bin(Op::Ule, y, x),
            Pred::Slt => self.ar.bin(Op::Slt, x, y),
            Pred::Sle => self.ar.bin(Op::Sle, x, y),
            Pred::Sgt => self.ar.bin(Op::Slt, y, x),
            Pred::Sge => self.ar.bin(Op::Sle, y, x),
        };
        self.from_e(e)
    }
    fn cast_val(&mut self, k: CastK, t1: &Ty, t2: &Ty, a: &Val) -> Val {
        if let Val::A(x) = a {
            let (f, t) = (t1.field(0), t2.field(0));
            let out = x.iter().map(|v| self.cast_val(k, &f, &t, v)).collect();
            return Val::A(Rc::new(out));
        }
        let (w1, w2) = (t1.bits(), t2.bits());
        if let Val::C(c) = a {
            if w1 <= 64 && w2 <= 64 {
                return Val::C(match k {
                    CastK::Trunc => c & m64(w2),
                    CastK::ZExt => *c,
                    CastK::SExt => sx64(*c, w1) as u64 & m64(w2),
                });
            }
        }
        let e = self.to_e(a, w1);
        let r = match k {
            CastK::Trunc => self.ar.extract(e, 0, w2),
            CastK::ZExt => self.ar.zext(e, w2),
            CastK::SExt => self.ar.sext(e, w2),
        };
        self.from_e(r)
    }
    fn bitcast(&mut self, t1: &Ty, t2: &Ty, a: &Val) -> R<Val> {
        let ew = |t: &Ty| t.field(0).bits();
        // all-concrete vector to scalar
        if let (Val::A(x), false) = (a, t2.is_agg()) {
            let w = ew(t1);
            if t2.bits() <= 64 && x.iter().all(|v| matches!(v, Val::C(_))) {
                let mut acc = 0u64;
                for (i, v) in x.iter().enumerate() {
                    if let Val::C(c) = v {
                        acc |= c << (i as u32 * w);
                    }
                }
                return Ok(Val::C(acc));
            }
        }
        let flat: E;
        if t1.is_agg() {
            if let Val::A(x) = a {
                let w = ew(t1);
                let mut acc = self.to_e(&x[0], w);
                for v in &x[1..] {
                    let e = self.to_e(v, w);
                    acc = self.ar.concat(e, acc);
                }
                flat = acc;
            } else {
                return Err(Stop::Engine("bitcast".into()));
            }
        } else {
            let w = t1.bits();
            flat = self.to_e(a, w);
        }
        if t2.is_agg() {
            let w = ew(t2);
            let mut out = vec![];
            for i in 0..t2.nfields() {
                let e = self.ar.extract(flat, i as u32 * w, w);
                out.push(self.from_e(e));
            }
            Ok(Val::A(Rc::new(out)))
        } else {
            Ok(self.from_e(flat))
        }
    }

    fn intrinsic(&mut self, st: &mut State, ik: IK, n: &str, args: &[(Opnd, Rc<Ty>)], rt: &Ty) -> R<Val> {
        let n = &n[5..];
        if let Some(v) = fast_intrinsic(st, ik, args) {
            return Ok(v);
        }
        let a = |i: usize| -> Val { Self::opnd(st, &args[i].0).clone() };
        if n.starts_with("memcpy") || n.starts_with("memmove") {
            let d = self.conc(st, &args[0].0, 64)?;
            let s_ = self.conc(st, &args[1].0, 64)?;
            let k = self.conc(st, &args[2].0, 64)?;
            self.copy(st, d, s_, k)?;
            return Ok(Val::C(0));
        }
        if n.starts_with("memset") {
            let d = self.conc(st, &args[0].0, 64)?;
            let k = self.conc(st, &args[2].0, 64)?;
            let v = a(1);
            self.memset(st, d, &v, k)?;
            return Ok(Val::C(0));
        }
        if n.starts_with("threadlocal.address") || n.starts_with("expect.") || n.starts_with("launder") || n.starts_with("strip") {
            return Ok(a(0));
        }
        if n.starts_with("trap") || n.starts_with("ubsantrap") {
            return Err(Stop::Panic("trap".into()));
        }
        if n.starts_with("ptrmask") {
            let x = a(0);
            let y = a(1);
            return self.bin_val(Op::And, &Ty::Int(64), &x, &y);
        }
        if args.is_empty() {
            return Err(Stop::Engine(format!("intrinsic llvm.{}", n)));
        }
        // floating point, for concrete numbers only
        if let Some(w) = [rt, &*args[0].1].iter().filter_map(|t| if let Ty::Float(w) = t { Some(*w) } else { None }).next() {
            let mut xs = vec![];
            for i in 0..args.len() {
                xs.push(self.conc(st, &args[i].0, args[i].1.bits())?);
            }
            return match float_intrinsic(n, w, &xs, rt) {
                Some(v) => Ok(Val::C(v)),
                None => Err(Stop::Engine(format!("floating-point intrinsic llvm.{}", n))),
            };
        }
        if args[0].1.is_agg() {
            return Err(Stop::Engine(format!("vector intrinsic llvm.{}", n)));
        }
        let w = args[0].1.bits();
        let x = a(0);
        let x = self.to_e(&x, w);
        let one1 = self.ar.cst(1, 1);
        macro_rules! y {
            () => {{
                let v = a(1);
                self.to_e(&v, w)
            }};
        }
        let r = if n.starts_with("umax.") || n.starts_with("umin.") || n.starts_with("smax.") || n.starts_with("smin.") {
            let y = y!();
            let op = if n.starts_with('u') { Op::Ult } else { Op::Slt };
            let lt = self.ar.bin(op, x, y);
            if n[1..].starts_with("max") {
                self.ar.ite(lt, y, x)
            } else {
                self.ar.ite(lt, x, y)
            }
        } else if n.starts_with("abs.") {
            let z = self.ar.cst(0, w);
            let neg = self.ar.bin(Op::Slt, x, z);
            let m = self.ar.bin(Op::Sub, z, x);
            self.ar.ite(neg, m, x)
        } else if n.starts_with("uadd.with") || n.starts_with("usub.with") || n.starts_with("sadd.with") || n.starts_with("ssub.with") || n.starts_with("umul.with") || n.starts_with("smul.with") {
            let y = y!();
            let op = match &n[1..4] {
                "add" => Op::Add,
                "sub" => Op::Sub,
                _ => Op::Mul,
            };
            let r = self.ar.bin(op, x, y);
            let o = if n.starts_with("uadd") {
                self.ar.bin(Op::Ult, r, x)
            } else if n.starts_with("usub") {
                self.ar.bin(Op::Ult, x, y)
            } else {
                if 2 * w > 128 {
                    match (self.ar.get_const(x), self.ar.get_const(y)) {
                        (Some(p), Some(q)) if n.starts_with("umul") => {
                            let ov = p.checked_mul(q).is_none();
                            self.ar.cst(ov as u128, 1)
                        }
                        _ => return Err(Stop::Engine(format!("wide llvm.{}", n))),
                    }
                } else {
                    let signed = n.starts_with('s');
                    let (xx, yy) = if signed {
                        (self.ar.sext(x, 2 * w), self.ar.sext(y, 2 * w))
                    } else {
                        (self.ar.zext(x, 2 * w), self.ar.zext(y, 2 * w))
                    };
                    let full = self.ar.bin(op, xx, yy);
                    let back = if signed { self.ar.sext(r, 2 * w) } else { self.ar.zext(r, 2 * w) };
                    let e = self.ar.bin(Op::Eq, full, back);
                    self.ar.bin(Op::Xor, e, one1)
                }
            };
            let rv = self.from_e(r);
            let ov = self.from_e(o);
            return Ok(Val::A(Rc::new(vec![rv, ov])));
        } else if n.starts_with("uadd.sat") {
            let y = y!();
            let r = self.ar.bin(Op::Add, x, y);
            let o = self.ar.bin(Op::Ult, r, x);
            let mx = self.ar.cst(mask(w), w);
            self.ar.ite(o, mx, r)
        } else if n.starts_with("usub.sat") {
            let y = y!();
            let r = self.ar.bin(Op::Sub, x, y);
            let o = self.ar.bin(Op::Ult, x, y);
            let z = self.ar.cst(0, w);
            self.ar.ite(o, z, r)
        } else if n.starts_with("bswap.") {
            let mut acc = self.ar.extract(x, 0, 8);
            let mut i = 8;
            while i < w {
                let b = self.ar.extract(x, i, 8);
                acc = self.ar.concat(acc, b);
                i += 8;
            }
            acc
        } else if n.starts_with("ctpop.") {
            let mut acc = self.ar.cst(0, w);
            for i in 0..w {
                let b = self.ar.extract(x, i, 1);
                let b = self.ar.zext(b, w);
                acc = self.ar.bin(Op::Add, acc, b);
            }
            acc
        } else if n.starts_with("cttz.") || n.starts_with("ctlz.") {
            let mut acc = self.ar.cst(w as u128, w);
            for k in 0..w {
                // cttz: lowest set bit wins, so build from the top down
                let (bit, val) = if n.starts_with("cttz") { (w - 1 - k, w - 1 - k) } else { (k, w - 1 - k) };
                let b = self.ar.extract(x, bit, 1);
                let v = self.ar.cst(val as u128, w);
                acc = self.ar.ite(b, v, acc);
            }
            acc
        } else if n.starts_with("bitreverse.") {
            let mut acc = self.ar.extract(x, 0, 1);
            for i in 1..w {
                let b = self.ar.extract(x, i, 1);
                acc = self.ar.concat(acc, b);
            }
            acc
        } else if n.starts_with("fshl.") || n.starts_with("fshr.") {
            let y = y!();
            let sv = a(2);
            let s_ = self.to_e(&sv, w);
            let k = self.ar.cst(w as u128, w);
            let s_ = self.ar.bin(Op::URem, s_, k);
            let inv = self.ar.bin(Op::Sub, k, s_);
            let z = self.ar.cst(0, w);
            let isz = self.ar.bin(Op::Eq, s_, z);
            if n.starts_with("fshl") {
                let h = self.ar.bin(Op::Shl, x, s_);
                let l = self.ar.bin(Op::LShr, y, inv);
                let r = self.ar.bin(Op::Or, h, l);
                self.ar.ite(isz, x, r)
            } else {
                let h = self.ar.bin(Op::Shl, x, inv);
                let l = self.ar.bin(Op::LShr, y, s_);
                let r = self.ar.bin(Op::Or, h, l);
                self.ar.ite(isz, y, r)
            }
        } else if n.starts_with("ucmp.") || n.starts_with("scmp.") {
            let y = y!();
            let op = if n.starts_with('u') { Op::Ult } else { Op::Slt };
            let rw = rt.bits();
            let lt = self.ar.bin(op, x, y);
            let eq = self.ar.bin(Op::Eq, x, y);
            let m = self.ar.cst(mask(rw), rw);
            let z = self.ar.cst(0, rw);
            let o = self.ar.cst(1, rw);
            let ge = self.ar.ite(eq, z, o);
            self.ar.ite(lt, m, ge)
        } else if n.starts_with("load.relative") {
            let base = self.conc(st, &args[0].0, 64)?;
            let off = self.conc(st, &args[1].0, args[1].1.bits())?;
            let _ = (base, off);
            return Err(Stop::Engine("llvm.load.relative".into()));
        } else {
            return Err(Stop::Engine(format!("intrinsic llvm.{}", n)));
        };
        Ok(self.from_e(r))
    }
}

/// concrete fast path of the common scalar intrinsics
fn fast_intrinsic(st: &State, ik: IK, args: &[(Opnd, Rc<Ty>)]) -> Option<Val> {
    if ik == IK::Other {
        return None;
    }
    let w = match &*args[0].1 {
        Ty::Int(w) if *w <= 64 => *w,
        _ => return None,
    };
    let g = |i: usize| match Exec::opnd(st, &args[i].0) {
        Val::C(c) => Some(*c),
        _ => None,
    };
    let x = g(0)?;
    let m = m64(w);
    let ov = |r: u64, o: bool| Some(Val::A(Rc::new(vec![Val::C(r & m), Val::C(o as u64)])));
    Some(Val::C(match ik {
        IK::UMax => x.max(g(1)?),
        IK::UMin => x.min(g(1)?),
        IK::SMax => {
            let y = g(1)?;
            if sx64(x, w) > sx64(y, w) { x } else { y }
        }
        IK::SMin => {
            let y = g(1)?;
            if sx64(x, w) < sx64(y, w) { x } else { y }
        }
        IK::UAddO => {
            let r = x as u128 + g(1)? as u128;
            return ov(r as u64, r > m as u128);
        }
        IK::USubO => {
            let y = g(1)?;
            return ov(x.wrapping_sub(y), x < y);
        }
        IK::UMulO => {
            let r = x as u128 * g(1)? as u128;
            return ov(r as u64, r > m as u128);
        }
        IK::UAddSat => {
            let r = x as u128 + g(1)? as u128;
            r.min(m as u128) as u64
        }
        IK::USubSat => x.saturating_sub(g(1)?),
        IK::Bswap => x.swap_bytes() >> (64 - w),
        IK::Ctpop => x.count_ones() as u64,
        IK::Cttz => (x.trailing_zeros()).min(w) as u64,
        IK::Ctlz => (x.leading_zeros() - (64 - w)) as u64,
        IK::Fshl => {
            let y = g(1)?;
            let s = (g(2)? % w as u64) as u32;
            if s == 0 { x } else { ((x << s) | (y >> (w - s))) & m }
        }
        IK::Fshr => {
            let y = g(1)?;
            let s = (g(2)? % w as u64) as u32;
            if s == 0 { y } else { ((x << (w - s)) | (y >> s)) & m }
        }
        IK::Other => return None,
    }))
}

#[inline]
fn icmp64(p: Pred, w: u32, a: u64, b: u64) -> bool {
    match p {
        Pred::Eq => a == b,
        Pred::Ne => a != b,
        Pred::Ult => a < b,
        Pred::Ule => a <= b,
        Pred::Ugt => a > b,
        Pred::Uge => a >= b,
        Pred::Slt => sx64(a, w) < sx64(b, w),
        Pred::Sle => sx64(a, w) <= sx64(b, w),
        Pred::Sgt => sx64(a, w) > sx64(b, w),
        Pred::Sge => sx64(a, w) >= sx64(b, w),
    }
}
