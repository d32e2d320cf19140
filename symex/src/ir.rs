//! Lazy textual LLVM-IR loader: indexes the .ll files rustc emits for the
//! harness, the crate under test and the standard library, and decodes function
//! bodies on first use.
use std::collections::HashMap;
use std::rc::Rc;

pub fn s(b: &[u8]) -> String {
    String::from_utf8_lossy(b).to_string()
}

// ---------------------------------------------------------------- types
#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float(u32),
    Array(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Vector(u32, Rc<Ty>),
    Other,
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 1,
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                b.next_power_of_two().min(16)
            }
            Ty::Ptr => 8,
            Ty::Float(w) => (*w as u64) / 8,
            Ty::Array(_, t) => t.align(),
            Ty::Struct(ts, p) => {
                if *p {
                    1
                } else {
                    ts.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            Ty::Vector(..) => self.size(),
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 0,
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                let a = self.align();
                (b + a - 1) / a * a
            }
            Ty::Ptr => 8,
            Ty::Float(w) => (*w as u64) / 8,
            Ty::Array(n, t) => n * t.size(),
            Ty::Struct(ts, p) => {
                let mut o = 0;
                for t in ts.iter() {
                    if !*p {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += t.size();
                }
                let a = self.align();
                (o + a - 1) / a * a
            }
            Ty::Vector(n, t) => match **t {
                Ty::Int(w) => ((*n as u64) * (w as u64) + 7) / 8,
                _ => *n as u64 * t.size(),
            },
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Array(_, t) | Ty::Vector(_, t) => t.size() * i as u64,
            Ty::Struct(ts, p) => {
                let mut o = 0;
                for (k, t) in ts.iter().enumerate() {
                    if !*p {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    if k == i {
                        return o;
                    }
                    o += t.size();
                }
                panic!("field index")
            }
            _ => panic!("field_off of scalar"),
        }
    }
    pub fn field(&self, i: usize) -> Ty {
        match self {
            Ty::Array(_, t) | Ty::Vector(_, t) => (**t).clone(),
            Ty::Struct(ts, _) => ts[i].clone(),
            _ => panic!("field of scalar"),
        }
    }
    pub fn nfields(&self) -> usize {
        match self {
            Ty::Array(n, _) => *n as usize,
            Ty::Vector(n, _) => *n as usize,
            Ty::Struct(ts, _) => ts.len(),
            _ => 0,
        }
    }
    /// scalar bit width (pointers are 64)
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            Ty::Float(w) => *w,
            _ => panic!("bits of {:?}", self),
        }
    }
    pub fn is_agg(&self) -> bool {
        matches!(self, Ty::Array(..) | Ty::Struct(..) | Ty::Vector(..))
    }
}

// ---------------------------------------------------------------- lexer
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Tok<'a> {
    Local(&'a [u8]),
    Global(&'a [u8]),
    Word(&'a [u8]),
    Int(&'a [u8]),
    Str(&'a [u8]),
    P(u8),
    Meta(&'a [u8]),
    Attr,
    Label(&'a [u8]),
    NL,
    Eof,
}

#[derive(Clone)]
pub struct Lex<'a> {
    pub t: &'a [u8],
    pub p: usize,
    bol: bool,
}

fn is_word(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

impl<'a> Lex<'a> {
    pub fn new(t: &'a [u8], p: usize) -> Lex<'a> {
        Lex { t, p, bol: true }
    }
    fn quoted(&mut self) -> &'a [u8] {
        // at opening quote
        let st = self.p + 1;
        let mut q = st;
        while self.t[q] != b'"' {
            q += 1;
        }
        self.p = q + 1;
        &self.t[st..q]
    }
    fn word(&mut self) -> &'a [u8] {
        let st = self.p;
        while self.p < self.t.len() && is_word(self.t[self.p]) {
            self.p += 1;
        }
        &self.t[st..self.p]
    }
    fn name(&mut self) -> &'a [u8] {
        if self.p < self.t.len() && self.t[self.p] == b'"' {
            self.quoted()
        } else {
            self.word()
        }
    }
    pub fn peek(&self) -> Tok<'a> {
        self.clone().next()
    }
    pub fn next(&mut self) -> Tok<'a> {
        loop {
            if self.p >= self.t.len() {
                return Tok::Eof;
            }
            let c = self.t[self.p];
            match c {
                b' ' | b'\t' | b'\r' => self.p += 1,
                b';' => {
                    while self.p < self.t.len() && self.t[self.p] != b'\n' {
                        self.p += 1;
                    }
                }
                b'\n' => {
                    self.p += 1;
                    self.bol = true;
                    return Tok::NL;
                }
                _ => break,
            }
        }
        let bol = self.bol;
        self.bol = false;
        let c = self.t[self.p];
        match c {
            b'%' => {
                self.p += 1;
                Tok::Local(self.name())
            }
            b'@' => {
                self.p += 1;
                Tok::Global(self.name())
            }
            b'!' => {
                self.p += 1;
                if self.p < self.t.len() && (is_word(self.t[self.p]) || self.t[self.p] == b'"') {
                    Tok::Meta(self.name())
                } else {
                    Tok::P(b'!')
                }
            }
            b'#' => {
                self.p += 1;
                self.word();
                Tok::Attr
            }
            b'"' => {
                let q = self.quoted();
                if bol && self.p < self.t.len() && self.t[self.p] == b':' {
                    self.p += 1;
                    return Tok::Label(q);
                }
                Tok::Str(q)
            }
            b'c' if self.p + 1 < self.t.len() && self.t[self.p + 1] == b'"' => {
                self.p += 1;
                Tok::Str(self.quoted())
            }
            _ if is_word(c) => {
                let w = self.word();
                if self.p < self.t.len() && self.t[self.p] == b':' && bol {
                    self.p += 1;
                    return Tok::Label(w);
                }
                if c.is_ascii_digit() || (c == b'-' && w.len() > 1) {
                    // floats such as 1.000000e+00 contain '+'
                    if self.p < self.t.len() && self.t[self.p] == b'+' {
                        let st = self.p - w.len();
                        self.p += 1;
                        self.word();
                        return Tok::Int(&self.t[st..self.p]);
                    }
                    Tok::Int(w)
                } else {
                    Tok::Word(w)
                }
            }
            _ => {
                self.p += 1;
                Tok::P(c)
            }
        }
    }
    pub fn expect(&mut self, c: u8) {
        let t = self.next();
        if t != Tok::P(c) {
            panic!("expected {:?} got {:?} near {}", c as char, t, s(&self.t[self.p.saturating_sub(60)..(self.p + 40).min(self.t.len())]));
        }
    }
    pub fn eat(&mut self, c: u8) -> bool {
        if self.peek() == Tok::P(c) {
            self.next();
            true
        } else {
            false
        }
    }
    pub fn eat_word(&mut self, w: &str) -> bool {
        if self.peek() == Tok::Word(w.as_bytes()) {
            self.next();
            true
        } else {
            false
        }
    }
    pub fn skip_nl(&mut self) {
        while self.peek() == Tok::NL {
            self.next();
        }
    }
    pub fn skip_line(&mut self) {
        loop {
            match self.next() {
                Tok::NL | Tok::Eof => return,
                _ => {}
            }
        }
    }
    /// skip a balanced group, the opening paren being the next token
    pub fn skip_paren(&mut self) {
        let mut d = 0;
        loop {
            match self.next() {
                Tok::P(b'(') => d += 1,
                Tok::P(b')') => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                Tok::Eof => panic!("eof in parens"),
                _ => {}
            }
        }
    }
}

pub fn is_type_word(w: &[u8]) -> bool {
    match w {
        b"void" | b"ptr" | b"float" | b"double" | b"half" | b"fp128" | b"bfloat" | b"x86_fp80" | b"label" | b"metadata" | b"token" => true,
        _ => w.len() > 1 && w[0] == b'i' && w[1..].iter().all(|c| c.is_ascii_digit()),
    }
}
pub fn is_const_word(w: &[u8]) -> bool {
    matches!(
        w,
        b"true" | b"false" | b"null" | b"undef" | b"poison" | b"zeroinitializer" | b"none" | b"getelementptr" | b"ptrtoint" | b"inttoptr" | b"splat" | b"add" | b"sub" | b"xor" | b"trunc" | b"bitcast" | b"asm" | b"ptrtoaddr"
    )
}

// ---------------------------------------------------------------- modules
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum SymKind {
    Func,
    Decl,
    Global,
}
#[derive(Clone, Copy, Debug)]
pub struct Sym {
    pub kind: SymKind,
    pub off: usize,
    pub local: bool,
}

pub struct Module {
    pub name: String,
    pub text: &'static [u8],
    pub syms: HashMap<&'static [u8], Sym>,
    pub types: HashMap<&'static [u8], usize>,
    pub meta: Vec<u32>,
}

fn find_nl(t: &[u8], mut p: usize) -> usize {
    while p < t.len() && t[p] != b'\n' {
        p += 1;
    }
    p
}

impl Module {
    pub fn load(path: &str) -> Module {
        let data = std::fs::read(path).unwrap_or_else(|e| panic!("read {}: {}", path, e));
        let text: &'static [u8] = Box::leak(data.into_boxed_slice());
        let mut m = Module { name: path.to_string(), text, syms: HashMap::new(), types: HashMap::new(), meta: vec![] };
        let mut p = 0;
        let mut aliases: Vec<(&'static [u8], &'static [u8], bool)> = vec![];
        while p < text.len() {
            let e = find_nl(text, p);
            let l = &text[p..e];
            if l.starts_with(b"@") {
                let mut lx = Lex::new(text, p);
                if let Tok::Global(n) = lx.next() {
                    let mut local = false;
                    let mut alias = false;
                    let mut external = false;
                    let mut q = lx.clone();
                    q.next(); // =
                    for _ in 0..8 {
                        match q.next() {
                            Tok::Word(b"private") | Tok::Word(b"internal") => local = true,
                            Tok::Word(b"external") | Tok::Word(b"extern_weak") => external = true,
                            Tok::Word(b"global") | Tok::Word(b"constant") => break,
                            Tok::Word(b"alias") => {
                                alias = true;
                                break;
                            }
                            _ => {}
                        }
                    }
                    if alias {
                        if let Some(at) = l.iter().rposition(|&c| c == b'@') {
                            if let Tok::Global(t) = Lex::new(text, p + at).next() {
                                aliases.push((n, t, local));
                            }
                        }
                        p = e + 1;
                        continue;
                    }
                    let kind = if external { SymKind::Decl } else { SymKind::Global };
                    m.syms.insert(n, Sym { kind, off: p, local });
                }
            } else if l.starts_with(b"%") {
                let mut lx = Lex::new(text, p);
                if let Tok::Local(n) = lx.next() {
                    m.types.insert(n, lx.p);
                }
            } else if l.starts_with(b"define ") {
                let at = l.iter().position(|&c| c == b'@').unwrap();
                // the first '@' outside of quotes is the function name
                let local = find_sub(&l[..at], b" internal ").is_some() || find_sub(&l[..at], b" private ").is_some();
                let mut lx = Lex::new(text, p + at);
                if let Tok::Global(n) = lx.next() {
                    m.syms.insert(n, Sym { kind: SymKind::Func, off: p, local });
                }
                // skip body
                let mut q = e + 1;
                loop {
                    let e2 = find_nl(text, q);
                    if &text[q..e2] == b"}" || e2 >= text.len() {
                        p = e2 + 1;
                        break;
                    }
                    q = e2 + 1;
                }
                continue;
            } else if l.starts_with(b"declare ") {
                if let Some(at) = l.iter().position(|&c| c == b'@') {
                    let mut lx = Lex::new(text, p + at);
                    if let Tok::Global(n) = lx.next() {
                        m.syms.insert(n, Sym { kind: SymKind::Decl, off: p, local: false });
                    }
                }
            } else if l.starts_with(b"!") && l.len() > 1 && l[1].is_ascii_digit() {
                let mut n = 0usize;
                let mut k = 1;
                while l[k].is_ascii_digit() {
                    n = n * 10 + (l[k] - b'0') as usize;
                    k += 1;
                }
                if m.meta.len() <= n {
                    m.meta.resize(n + 1, 0);
                }
                m.meta[n] = p as u32;
            }
            p = e + 1;
        }
        // an alias is a second name of its target's definition
        for (n, t, local) in aliases {
            if let Some(sy) = m.syms.get(t).cloned() {
                m.syms.insert(n, Sym { kind: sy.kind, off: sy.off, local });
            }
        }
        m
    }
    pub fn meta_line(&self, id: u32) -> &'static [u8] {
        let p = match self.meta.get(id as usize) {
            Some(&p) if p > 0 => p as usize,
            _ => return b"",
        };
        &self.text[p..find_nl(self.text, p)]
    }
}

pub fn find_sub(h: &[u8], n: &[u8]) -> Option<usize> {
    if n.len() > h.len() {
        return None;
    }
    (0..=h.len() - n.len()).find(|&i| &h[i..i + n.len()] == n)
}

/// value of `key: N` / `key: !N` / `key: "s"` in a metadata line
pub fn meta_field<'a>(l: &'a [u8], key: &str) -> Option<&'a [u8]> {
    let k = format!("{}: ", key);
    let kb = k.as_bytes();
    let mut from = 0;
    loop {
        let i = find_sub(&l[from..], kb)? + from;
        if i > 0 && (l[i - 1] == b' ' || l[i - 1] == b'(') {
            let st = i + kb.len();
            if l[st] == b'"' {
                let e = l[st + 1..].iter().position(|&c| c == b'"')? + st + 1;
                return Some(&l[st + 1..e]);
            }
            let e = l[st..].iter().position(|&c| c == b',' || c == b')').map(|x| x + st).unwrap_or(l.len());
            return Some(&l[st..e]);
        }
        from = i + 1;
    }
}

// ---------------------------------------------------------------- decoded code
#[derive(Clone, Debug)]
pub enum Val {
    C(u64),
    S(u32),
    W(Rc<u128>),
    A(Rc<Vec<Val>>),
}

#[derive(Clone, Debug)]
pub enum Opnd {
    R(u32),
    K(Val),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastK {
    Trunc,
    ZExt,
    SExt,
}

#[derive(Clone, Copy, Debug)]
pub struct FPred(pub bool, pub bool, pub bool, pub bool); // true when: less, equal, greater, unordered
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum FCastK {
    FromS,
    FromU,
    ToS,
    ToU,
    Conv,
}
#[derive(Clone, Debug)]
pub enum Inst {
    Bin(crate::expr::Op, Rc<Ty>, u32, Opnd, Opnd),
    Icmp(Pred, Rc<Ty>, u32, Opnd, Opnd),
    Cast(CastK, Rc<Ty>, Rc<Ty>, u32, Opnd),
    Copy(u32, Opnd),
    Bitcast(Rc<Ty>, Rc<Ty>, u32, Opnd),
    Load(u32, Rc<Ty>, Opnd),
    Store(Rc<Ty>, Opnd, Opnd),
    Gep(u32, Opnd, u64, Vec<(Opnd, u32, u64)>), // dst, base, const offset, (index, width, scale)
    Alloca(u32, u64),
    AllocaDyn(u32, u64, Opnd),
    Br(Opnd, u32, u32),
    Jmp(u32),
    Switch(Opnd, u32, Vec<(u64, u32)>, u32), // value, width, cases, default
    Ret(Option<Opnd>),
    Unreachable,
    Select(u32, Rc<Ty>, Opnd, Rc<Ty>, Opnd, Opnd), // dst, condty, cond, ty, a, b
    ExtractV(u32, Opnd, Vec<u32>),
    InsertV(u32, Opnd, Opnd, Vec<u32>),
    ExtractE(u32, Opnd, Opnd),
    InsertE(u32, Opnd, Opnd, Opnd),
    Shuffle(u32, Opnd, Opnd, Vec<i32>),
    Call(Option<u32>, Callee, Vec<(Opnd, Rc<Ty>)>, Rc<Ty>),
    Rmw(u32, &'static str, Rc<Ty>, Opnd, Opnd),
    CmpXchg(u32, Rc<Ty>, Opnd, Opnd, Opnd),
    Nop,
    FBin(u8, u32, u32, Opnd, Opnd), // operator, width, dst
    FCmp(FPred, u32, u32, Opnd, Opnd),
    FCast(FCastK, u32, u32, u32, Opnd), // from, to, dst
    Unsup(String),
}

#[derive(Clone, Debug)]
pub enum Callee {
    Direct(u32),          // function id
    Indirect(Opnd),
    Intrinsic(Rc<(IK, String)>),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum IK {
    UMax, UMin, SMax, SMin, UAddO, USubO, UMulO, UAddSat, USubSat, Bswap, Ctpop, Cttz, Ctlz, Fshl, Fshr, Other,
}
pub fn ik_of(n: &str) -> IK {
    let n = &n[5..];
    let t = [
        ("umax.", IK::UMax), ("umin.", IK::UMin), ("smax.", IK::SMax), ("smin.", IK::SMin), ("uadd.with.overflow", IK::UAddO),
        ("usub.with.overflow", IK::USubO), ("umul.with.overflow", IK::UMulO), ("uadd.sat", IK::UAddSat), ("usub.sat", IK::USubSat),
        ("bswap.", IK::Bswap), ("ctpop.", IK::Ctpop), ("cttz.", IK::Cttz), ("ctlz.", IK::Ctlz), ("fshl.", IK::Fshl), ("fshr.", IK::Fshr),
    ];
    for (p, k) in t.iter() {
        if n.starts_with(p) {
            return *k;
        }
    }
    IK::Other
}

pub struct Block {
    pub start: u32,
    pub phis: Vec<(u32, Vec<(u32, Opnd)>)>,
}

pub struct Func {
    pub id: u32,
    pub module: usize,
    pub nregs: u32,
    pub params: Vec<u32>,
    pub blocks: Vec<Block>,
    pub code: Vec<Inst>,
    pub dbg: Vec<u32>,
    pub block_of: Vec<u32>,
    pub frame_size: u64,
    pub subprogram: u32,
}

pub enum FuncState {
    Undecoded(usize, usize), // module, offset
    Decoded(Rc<Func>),
    External,
}

pub struct FuncEntry {
    pub name: String,
    pub state: FuncState,
    pub hook: u16,
}

pub struct GlobalEntry {
    pub name: String,
    pub data: Option<Rc<crate::exec::Obj>>,
    pub module: usize,
    pub off: Option<usize>, // None: external
    pub size: u64,
}

/// Address layout: object id in the high 32 bits, offset in the low 32 bits.
pub const FUNC_BASE: u32 = 0x4000_0000; // ids >= FUNC_BASE are functions
pub const HEAP_BASE: u32 = 0x0010_0000; // ids >= HEAP_BASE are heap/stack, below are globals

pub struct Program {
    pub modules: Vec<Module>,
    pub gsyms: HashMap<&'static [u8], usize>, // exported symbol -> module
    pub funcs: Vec<FuncEntry>,
    func_ids: HashMap<(usize, &'static [u8]), u32>,
    pub globals: Vec<GlobalEntry>,
    global_ids: HashMap<(usize, &'static [u8]), u32>,
    tycache: HashMap<(usize, &'static [u8]), Ty>,
    pub hooks: Box<dyn Fn(&str) -> u16>,
}

impl Program {
    pub fn new(paths: &[String], hooks: Box<dyn Fn(&str) -> u16>) -> Program {
        let mut handles = vec![];
        for p in paths {
            let p = p.clone();
            handles.push(std::thread::spawn(move || Module::load(&p)));
        }
        let modules: Vec<Module> = handles.into_iter().map(|h| h.join().unwrap()).collect();
        let mut gsyms: HashMap<&'static [u8], usize> = HashMap::new();
        for (i, m) in modules.iter().enumerate() {
            for (n, sy) in m.syms.iter() {
                if !sy.local && sy.kind != SymKind::Decl {
                    gsyms.entry(n).or_insert(i);
                }
            }
        }
        Program {
            modules,
            gsyms,
            funcs: vec![],
            func_ids: HashMap::new(),
            globals: vec![GlobalEntry { name: "<null>".into(), data: None, module: 0, off: None, size: 0 }],
            global_ids: HashMap::new(),
            tycache: HashMap::new(),
            hooks,
        }
    }
    fn resolve(&self, m: usize, n: &'static [u8]) -> Option<(usize, Sym)> {
        if let Some(sy) = self.modules[m].syms.get(n) {
            if sy.kind != SymKind::Decl {
                if sy.local {
                    return Some((m, *sy));
                }
                let gm = *self.gsyms.get(n).unwrap_or(&m);
                return Some((gm, self.modules[gm].syms[n]));
            }
        }
        if let Some(&gm) = self.gsyms.get(n) {
            return Some((gm, self.modules[gm].syms[n]));
        }
        None
    }
    pub fn func_by_name(&mut self, n: &str) -> Option<u32> {
        let nb: &'static [u8] = Box::leak(n.as_bytes().to_vec().into_boxed_slice());
        let gm = *self.gsyms.get(nb)?;
        Some(self.func_id(gm, nb))
    }
    pub fn func_id(&mut self, m: usize, n: &'static [u8]) -> u32 {
        let r = self.resolve(m, n);
        let key = match r {
            Some((gm, _)) => (gm, n),
            None => (usize::MAX, n),
        };
        if let Some(&id) = self.func_ids.get(&key) {
            return id;
        }
        let id = self.funcs.len() as u32;
        let name = s(n);
        let hook = (self.hooks)(&name);
        let state = match r {
            Some((gm, sy)) if sy.kind == SymKind::Func => FuncState::Undecoded(gm, sy.off),
            _ => FuncState::External,
        };
        self.funcs.push(FuncEntry { name, state, hook });
        self.func_ids.insert(key, id);
        id
    }
    /// concrete address of a global symbol (function or variable)
    pub fn addr_of(&mut self, m: usize, n: &'static [u8]) -> u64 {
        let r = self.resolve(m, n);
        let is_func = match r {
            Some((_, sy)) => sy.kind == SymKind::Func,
            None => {
                let sy = self.modules[m].syms.get(n);
                match sy {
                    Some(sy) => self.modules[m].text[sy.off..].starts_with(b"declare"),
                    None => true,
                }
            }
        };
        if is_func {
            let id = self.func_id(m, n);
            return ((FUNC_BASE + id) as u64) << 32;
        }
        let key = match r {
            Some((gm, _)) => (gm, n),
            None => (usize::MAX, n),
        };
        if let Some(&id) = self.global_ids.get(&key) {
            return (id as u64) << 32;
        }
        let id = self.globals.len() as u32;
        assert!(id < HEAP_BASE);
        let (module, off) = match r {
            Some((gm, sy)) => (gm, Some(sy.off)),
            None => (m, None),
        };
        self.globals.push(GlobalEntry { name: s(n), data: None, module, off, size: 0 });
        self.global_ids.insert(key, id);
        (id as u64) << 32
    }
    /// initial contents of global object `id`
    pub fn global_data(&mut self, id: u32) -> Rc<crate::exec::Obj> {
        if let Some(d) = &self.globals[id as usize].data {
            return d.clone();
        }
        let (m, off) = (self.globals[id as usize].module, self.globals[id as usize].off);
        let mut data = vec![];
        match off {
            None => {
                // external variable (e.g. environ, __dso_handle): 8 zero bytes
                data = vec![0; 8];
            }
            Some(off) => {
                let text = self.modules[m].text;
                let mut lx = Lex::new(text, off);
                lx.next();
                loop {
                    match lx.next() {
                        Tok::Word(b"global") | Tok::Word(b"constant") => break,
                        Tok::P(b'(') => {}
                        Tok::NL | Tok::Eof => panic!("bad global {}", self.globals[id as usize].name),
                        _ => {}
                    }
                }
                let ty = self.parse_ty(m, &mut lx);
                data.resize(ty.size() as usize, 0);
                self.write_const(m, &mut lx, &ty, &mut data, 0);
            }
        }
        let o = Rc::new(crate::exec::Obj { data, sym: vec![] });
        self.globals[id as usize].data = Some(o.clone());
        o
    }
    fn write_const(&mut self, m: usize, lx: &mut Lex<'static>, ty: &Ty, out: &mut Vec<u8>, off: usize) {
        match ty {
            Ty::Array(..) | Ty::Struct(..) | Ty::Vector(..) => match lx.next() {
                Tok::Str(q) => {
                    let b = unescape(q);
                    out[off..off + b.len()].copy_from_slice(&b);
                }
                Tok::Word(b"zeroinitializer") | Tok::Word(b"undef") | Tok::Word(b"poison") => {}
                Tok::P(b'<') => {
                    if lx.eat(b'{') {
                        self.write_fields(m, lx, ty, out, off, b'}');
                        lx.expect(b'>');
                    } else {
                        self.write_fields(m, lx, ty, out, off, b'>');
                    }
                }
                Tok::P(b'{') => self.write_fields(m, lx, ty, out, off, b'}'),
                Tok::P(b'[') => self.write_fields(m, lx, ty, out, off, b']'),
                t => panic!("bad aggregate constant {:?}", t),
            },
            _ => {
                let v = self.parse_const(m, lx, ty);
                let n = ty.size() as usize;
                let bits: u128 = match v {
                    Val::C(c) => c as u128,
                    Val::W(w) => *w,
                    _ => panic!("const"),
                };
                out[off..off + n].copy_from_slice(&bits.to_le_bytes()[..n]);
            }
        }
    }
    fn write_fields(&mut self, m: usize, lx: &mut Lex<'static>, ty: &Ty, out: &mut Vec<u8>, off: usize, close: u8) {
        let mut i = 0;
        if lx.eat(close) {
            return;
        }
        loop {
            let ft = self.parse_ty(m, lx);
            let fo = ty.field_off(i) as usize;
            self.write_const(m, lx, &ft, out, off + fo);
            i += 1;
            if lx.eat(b',') {
                continue;
            }
            lx.expect(close);
            return;
        }
    }
    pub fn parse_ty(&mut self, m: usize, lx: &mut Lex<'static>) -> Ty {
        match lx.next() {
            Tok::Word(b"void") => Ty::Void,
            Tok::Word(b"ptr") => {
                if lx.eat_word("addrspace") {
                    lx.skip_paren();
                }
                Ty::Ptr
            }
            Tok::Word(b"half") | Tok::Word(b"bfloat") => Ty::Float(16),
            Tok::Word(b"float") => Ty::Float(32),
            Tok::Word(b"double") => Ty::Float(64),
            Tok::Word(b"fp128") => Ty::Float(128),
            Tok::Word(b"x86_fp80") => Ty::Float(128),
            Tok::Word(w) if is_type_word(w) && w[0] == b'i' => Ty::Int(std::str::from_utf8(&w[1..]).unwrap().parse().unwrap()),
            Tok::Word(b"label") | Tok::Word(b"metadata") | Tok::Word(b"token") | Tok::Word(b"opaque") => Ty::Other,
            Tok::P(b'{') => self.struct_tail(m, lx, false),
            Tok::P(b'[') => {
                let n = int_of(lx.next());
                lx.next(); // x
                let t = self.parse_ty(m, lx);
                lx.expect(b']');
                Ty::Array(n as u64, Rc::new(t))
            }
            Tok::P(b'<') => {
                if lx.eat(b'{') {
                    let t = self.struct_tail(m, lx, true);
                    lx.expect(b'>');
                    t
                } else {
                    let n = int_of(lx.next());
                    lx.next();
                    let t = self.parse_ty(m, lx);
                    lx.expect(b'>');
                    Ty::Vector(n as u32, Rc::new(t))
                }
            }
            Tok::Local(n) => {
                if let Some(t) = self.tycache.get(&(m, n)) {
                    return t.clone();
                }
                let off = *self.modules[m].types.get(n).unwrap_or_else(|| panic!("unknown type %{}", s(n)));
                let mut l2 = Lex::new(self.modules[m].text, off);
                l2.next(); // =
                l2.next(); // type
                let t = self.parse_ty(m, &mut l2);
                self.tycache.insert((m, n), t.clone());
                t
            }
            t => panic!("bad type token {:?} near {}", t, s(&lx.t[lx.p.saturating_sub(80)..(lx.p + 40).min(lx.t.len())])),
        }
    }
    fn struct_tail(&mut self, m: usize, lx: &mut Lex<'static>, packed: bool) -> Ty {
        let mut v = vec![];
        if lx.eat(b'}') {
            return Ty::Struct(Rc::new(v), packed);
        }
        loop {
            v.push(self.parse_ty(m, lx));
            if lx.eat(b',') {
                continue;
            }
            lx.expect(b'}');
            return Ty::Struct(Rc::new(v), packed);
        }
    }
    pub fn zero(&self, ty: &Ty) -> Val {
        match ty {
            Ty::Int(w) if *w > 64 => Val::W(Rc::new(0)),
            Ty::Float(128) => Val::W(Rc::new(0)),
            Ty::Array(..) | Ty::Struct(..) | Ty::Vector(..) => {
                Val::A(Rc::new((0..ty.nfields()).map(|i| self.zero(&ty.field(i))).collect()))
            }
            _ => Val::C(0),
        }
    }
    pub fn parse_const(&mut self, m: usize, lx: &mut Lex<'static>, ty: &Ty) -> Val {
        match lx.next() {
            Tok::Int(b) => match ty {
                Ty::Int(w) => {
                    let v = parse_int(b);
                    if *w > 64 {
                        Val::W(Rc::new(v as u128 & crate::expr::mask(*w)))
                    } else {
                        Val::C((v as u128 & crate::expr::mask(*w)) as u64)
                    }
                }
                Ty::Float(w) if b.starts_with(b"-inf") || b.starts_with(b"-nan") || b.starts_with(b"-qnan") || b.starts_with(b"-snan") => float_word(&b[1..], *w, true),
                Ty::Float(64) => Val::C(parse_float(b).to_bits()),
                Ty::Float(32) => Val::C((parse_float(b) as f32).to_bits() as u64),
                _ => panic!("int constant of type {:?}", ty),
            },
            Tok::Word(w) => match w {
                b"true" => Val::C(1),
                b"false" => Val::C(0),
                b"null" | b"none" => Val::C(0),
                b"undef" | b"poison" | b"zeroinitializer" => self.zero(ty),
                _ if w.starts_with(b"f0x") => {
                    let v = u128::from_str_radix(std::str::from_utf8(&w[3..]).unwrap(), 16).unwrap_or(0);
                    if ty.bits() > 64 {
                        Val::W(Rc::new(v))
                    } else {
                        Val::C(v as u64)
                    }
                }
                b"splat" => {
                    lx.expect(b'(');
                    let et = self.parse_ty(m, lx);
                    let v = self.parse_const(m, lx, &et);
                    lx.expect(b')');
                    Val::A(Rc::new(vec![v; ty.nfields()]))
                }
                b"getelementptr" => {
                    while let Tok::Word(_) = lx.peek() {
                        lx.next();
                        if lx.peek() == Tok::P(b'(') {
                            if lx_is_inrange(lx) {
                                lx.skip_paren();
                            } else {
                                break;
                            }
                        }
                    }
                    lx.expect(b'(');
                    let st = self.parse_ty(m, lx);
                    lx.expect(b',');
                    self.parse_ty(m, lx);
                    let base = match self.parse_const(m, lx, &Ty::Ptr) {
                        Val::C(c) => c,
                        _ => panic!(),
                    };
                    let mut off = 0u64;
                    let mut cur = st;
                    let mut first = true;
                    while lx.eat(b',') {
                        let it = self.parse_ty(m, lx);
                        let iv = match self.parse_const(m, lx, &it) {
                            Val::C(c) => crate::expr::sext(c as u128, it.bits()) as i64,
                            _ => panic!(),
                        };
                        if first {
                            off = off.wrapping_add((iv as u64).wrapping_mul(cur.size()));
                            first = false;
                        } else {
                            off = off.wrapping_add(cur.field_off(iv as usize));
                            cur = cur.field(iv as usize);
                        }
                    }
                    lx.expect(b')');
                    Val::C(base.wrapping_add(off))
                }
                b"ptrtoint" | b"inttoptr" | b"bitcast" | b"ptrtoaddr" | b"trunc" => {
                    lx.expect(b'(');
                    let ft = self.parse_ty(m, lx);
                    let v = self.parse_const(m, lx, &ft);
                    lx.next(); // to
                    let tt = self.parse_ty(m, lx);
                    lx.expect(b')');
                    match v {
                        Val::C(c) => Val::C((c as u128 & crate::expr::mask(tt.bits())) as u64),
                        v => v,
                    }
                }
                b"add" | b"sub" | b"xor" => {
                    while let Tok::Word(_) = lx.peek() {
                        lx.next();
                    }
                    lx.expect(b'(');
                    let t1 = self.parse_ty(m, lx);
                    let a = self.parse_const(m, lx, &t1);
                    lx.expect(b',');
                    let t2 = self.parse_ty(m, lx);
                    let b = self.parse_const(m, lx, &t2);
                    lx.expect(b')');
                    match (a, b) {
                        (Val::C(a), Val::C(b)) => Val::C(match w {
                            b"add" => a.wrapping_add(b),
                            b"sub" => a.wrapping_sub(b),
                            _ => a ^ b,
                        }),
                        _ => panic!(),
                    }
                }
                _ => panic!("unsupported constant word {}", s(w)),
            },
            Tok::Global(n) => Val::C(self.addr_of(m, n)),
            // +inf, -nan(0x..) and the like
            Tok::P(b'+') if matches!(ty, Ty::Float(_)) => match lx.next() {
                Tok::Word(w) => float_word(w, ty.bits(), false),
                t => panic!("float {:?}", t),
            },
            Tok::Str(q) => Val::A(Rc::new(unescape(q).into_iter().map(|b| Val::C(b as u64)).collect())),
            Tok::P(b'{') => self.const_fields(m, lx, b'}'),
            Tok::P(b'[') => self.const_fields(m, lx, b']'),
            Tok::P(b'<') => {
                if lx.eat(b'{') {
                    let v = self.const_fields(m, lx, b'}');
                    lx.expect(b'>');
                    v
                } else {
                    self.const_fields(m, lx, b'>')
                }
            }
            t => panic!("unsupported constant {:?} of type {:?}", t, ty),
        }
    }
    fn const_fields(&mut self, m: usize, lx: &mut Lex<'static>, close: u8) -> Val {
        let mut v = vec![];
        if lx.eat(close) {
            return Val::A(Rc::new(v));
        }
        loop {
            let t = self.parse_ty(m, lx);
            v.push(self.parse_const(m, lx, &t));
            if lx.eat(b',') {
                continue;
            }
            lx.expect(close);
            return Val::A(Rc::new(v));
        }
    }
    pub fn get_func(&mut self, id: u32) -> Option<Rc<Func>> {
        match &self.funcs[id as usize].state {
            FuncState::Decoded(f) => Some(f.clone()),
            FuncState::External => None,
            FuncState::Undecoded(m, off) => {
                let (m, off) = (*m, *off);
                let f = Rc::new(FnParser::parse(self, id, m, off));
                self.funcs[id as usize].state = FuncState::Decoded(f.clone());
                Some(f)
            }
        }
    }
}

fn lx_is_inrange(_lx: &Lex) -> bool {
    // `getelementptr inbounds inrange(-16, 16) (...)`: next paren group starts with an integer
    let mut l = _lx.clone();
    l.next();
    matches!(l.next(), Tok::Int(_))
}
pub fn int_of(t: Tok) -> i128 {
    match t {
        Tok::Int(b) => parse_int(b),
        t => panic!("expected int, got {:?}", t),
    }
}
pub fn parse_int(b: &[u8]) -> i128 {
    let st = std::str::from_utf8(b).unwrap();
    if let Ok(v) = st.parse::<i128>() {
        return v;
    }
    if let Ok(v) = st.parse::<u128>() {
        return v as i128;
    }
    panic!("bad int {}", st)
}
fn float_word(w: &[u8], bits: u32, neg: bool) -> Val {
    let x = if w.starts_with(b"inf") { f64::INFINITY } else { f64::NAN };
    let x = if neg { -x } else { x };
    match bits {
        32 => Val::C((x as f32).to_bits() as u64),
        _ => Val::C(x.to_bits()),
    }
}
fn parse_float(b: &[u8]) -> f64 {
    let st = std::str::from_utf8(b).unwrap();
    if let Some(h) = st.strip_prefix("0x") {
        return f64::from_bits(u64::from_str_radix(h, 16).unwrap_or(0));
    }
    st.parse().unwrap_or(0.0)
}
pub fn unescape(q: &[u8]) -> Vec<u8> {
    let mut v = vec![];
    let mut i = 0;
    while i < q.len() {
        if q[i] == b'\\' {
            if q[i + 1] == b'\\' {
                v.push(b'\\');
                i += 2;
            } else {
                let h = std::str::from_utf8(&q[i + 1..i + 3]).unwrap();
                v.push(u8::from_str_radix(h, 16).unwrap());
                i += 3;
            }
        } else {
            v.push(q[i]);
            i += 1;
        }
    }
    v
}

// ---------------------------------------------------------------- function decoder
struct FnParser<'p> {
    pr: &'p mut Program,
    m: usize,
    lx: Lex<'static>,
    regs: HashMap<&'static [u8], u32>,
    nregs: u32,
    blocks: HashMap<&'static [u8], u32>,
    bstart: Vec<Option<u32>>,
    bphis: Vec<Vec<(u32, Vec<(u32, Opnd)>)>>,
    code: Vec<Inst>,
    dbg: Vec<u32>,
    block_of: Vec<u32>,
    frame: u64,
}

impl<'p> FnParser<'p> {
    fn parse(pr: &'p mut Program, id: u32, m: usize, off: usize) -> Func {
        let text = pr.modules[m].text;
        let mut lx = Lex::new(text, off);
        // up to the name
        loop {
            if let Tok::Global(_) = lx.next() {
                break;
            }
        }
        let mut p = FnParser {
            pr,
            m,
            lx,
            regs: HashMap::new(),
            nregs: 0,
            blocks: HashMap::new(),
            bstart: vec![],
            bphis: vec![],
            code: vec![],
            dbg: vec![],
            block_of: vec![],
            frame: 0,
        };
        let mut params = vec![];
        p.lx.expect(b'(');
        let mut unnamed = 0;
        if !p.lx.eat(b')') {
            loop {
                if p.lx.eat(b'.') || p.lx.peek() == Tok::Word(b"...") {
                    p.lx.next();
                    p.lx.expect(b')');
                    break;
                }
                p.pr.parse_ty(m, &mut p.lx);
                p.skip_attrs();
                if let Tok::Local(n) = p.lx.peek() {
                    p.lx.next();
                    let r = p.reg(n);
                    params.push(r);
                } else {
                    let n: &'static [u8] = Box::leak(format!("{}", unnamed).into_bytes().into_boxed_slice());
                    unnamed += 1;
                    let r = p.reg(n);
                    params.push(r);
                }
                if p.lx.eat(b',') {
                    continue;
                }
                p.lx.expect(b')');
                break;
            }
        }
        let mut subprogram = 0;
        loop {
            match p.lx.next() {
                Tok::P(b'{') => break,
                Tok::Meta(b"dbg") => {
                    if let Tok::Meta(n) = p.lx.next() {
                        subprogram = parse_int(n) as u32;
                    }
                }
                Tok::Eof => panic!("eof in function header"),
                _ => {}
            }
        }
        p.body();
        let FnParser { nregs, bstart, bphis, code, dbg, block_of, frame, .. } = p;
        let blocks = bstart
            .into_iter()
            .zip(bphis)
            .map(|(s, phis)| Block { start: s.expect("undefined block"), phis })
            .collect();
        Func { id, module: m, nregs, params, blocks, code, dbg, block_of, frame_size: frame, subprogram }
    }
    fn reg(&mut self, n: &'static [u8]) -> u32 {
        if let Some(&r) = self.regs.get(n) {
            return r;
        }
        let r = self.nregs;
        self.nregs += 1;
        self.regs.insert(n, r);
        r
    }
    fn blk(&mut self, n: &'static [u8]) -> u32 {
        if let Some(&b) = self.blocks.get(n) {
            return b;
        }
        let b = self.bstart.len() as u32;
        self.bstart.push(None);
        self.bphis.push(vec![]);
        self.blocks.insert(n, b);
        b
    }
    fn skip_attrs(&mut self) {
        loop {
            match self.lx.peek() {
                Tok::Word(w) if !is_const_word(w) && !is_type_word(w) => {
                    self.lx.next();
                    if w == b"align" {
                        if let Tok::Int(_) = self.lx.peek() {
                            self.lx.next();
                        }
                    }
                    if self.lx.peek() == Tok::P(b'(') {
                        self.lx.skip_paren();
                    }
                }
                Tok::Str(_) => {
                    // "attr"="value"
                    self.lx.next();
                    if self.lx.eat(b'=') {
                        self.lx.next();
                    }
                }
                _ => return,
            }
        }
    }
    fn val(&mut self, ty: &Ty) -> Opnd {
        match self.lx.peek() {
            Tok::Local(n) => {
                self.lx.next();
                Opnd::R(self.reg(n))
            }
            _ => Opnd::K(self.pr.parse_const(self.m, &mut self.lx, ty)),
        }
    }
    fn ty(&mut self) -> Ty {
        self.pr.parse_ty(self.m, &mut self.lx)
    }
    fn tyval(&mut self) -> (Rc<Ty>, Opnd) {
        let t = self.ty();
        let v = self.val(&t);
        (Rc::new(t), v)
    }
    fn label(&mut self) -> u32 {
        let t = self.lx.next(); // label
        assert_eq!(t, Tok::Word(b"label"));
        match self.lx.next() {
            Tok::Local(n) => self.blk(n),
            t => panic!("label {:?}", t),
        }
    }
    fn flags(&mut self) {
        loop {
            match self.lx.peek() {
                Tok::Word(b"nuw") | Tok::Word(b"nsw") | Tok::Word(b"exact") | Tok::Word(b"disjoint") | Tok::Word(b"nneg") | Tok::Word(b"samesign")
                | Tok::Word(b"inbounds") | Tok::Word(b"nusw") | Tok::Word(b"fast") | Tok::Word(b"nnan") | Tok::Word(b"ninf") | Tok::Word(b"nsz")
                | Tok::Word(b"arcp") | Tok::Word(b"contract") | Tok::Word(b"afn") | Tok::Word(b"reassoc") | Tok::Word(b"volatile") | Tok::Word(b"atomic")
                | Tok::Word(b"inalloca") | Tok::Word(b"weak") => {
                    self.lx.next();
                }
                Tok::Word(b"inrange") => {
                    self.lx.next();
                    self.lx.skip_paren();
                }
                _ => return,
            }
        }
    }
    fn body(&mut self) {
        let mut cur: Option<u32> = None;
        loop {
            match self.lx.peek() {
                Tok::NL => {
                    self.lx.next();
                }
                Tok::P(b'}') => break,
                Tok::Label(n) => {
                    self.lx.next();
                    let b = self.blk(n);
                    self.bstart[b as usize] = Some(self.code.len() as u32);
                    cur = Some(b);
                }
                Tok::Attr => {
                    // #dbg_value(...) records
                    self.lx.skip_line();
                }
                Tok::Eof => panic!("eof in function body"),
                _ => {
                    if cur.is_none() {
                        let n: &'static [u8] = b"<entry>";
                        let b = self.blk(n);
                        self.bstart[b as usize] = Some(0);
                        cur = Some(b);
                    }
                    let b = cur.unwrap();
                    let st = self.lx.p;
                    let n0 = self.code.len();
                    self.inst(b);
                    // rest of the line: find !dbg
                    let mut d = 0;
                    loop {
                        match self.lx.next() {
                            Tok::Meta(b"dbg") => {
                                if let Tok::Meta(n) = self.lx.next() {
                                    d = parse_int(n) as u32;
                                }
                            }
                            Tok::NL => break,
                            Tok::Eof => panic!("eof after {}", s(&self.lx.t[st..(st + 100).min(self.lx.t.len())])),
                            _ => {}
                        }
                    }
                    for _ in n0..self.code.len() {
                        self.dbg.push(d);
                        self.block_of.push(b);
                    }
                }
            }
        }
    }
    fn inst(&mut self, b: u32) {
        use crate::expr::Op;
        let start = self.lx.p;
        let mut dst = None;
        if let Tok::Local(n) = self.lx.peek() {
            self.lx.next();
            self.lx.expect(b'=');
            dst = Some(self.reg(n));
        }
        let mut op = match self.lx.next() {
            Tok::Word(w) => w,
            t => panic!("instruction {:?} near {}", t, s(&self.lx.t[start..start + 80])),
        };
        if op == b"tail" || op == b"musttail" || op == b"notail" {
            op = match self.lx.next() {
                Tok::Word(w) => w,
                t => panic!("{:?}", t),
            };
        }
        let d = dst.unwrap_or(0);
        let i = match op {
            b"add" | b"sub" | b"mul" | b"udiv" | b"urem" | b"sdiv" | b"srem" | b"and" | b"or" | b"xor" | b"shl" | b"lshr" | b"ashr" => {
                self.flags();
                let t = self.ty();
                let x = self.val(&t);
                self.lx.expect(b',');
                let y = self.val(&t);
                let o = match op {
                    b"add" => Op::Add,
                    b"sub" => Op::Sub,
                    b"mul" => Op::Mul,
                    b"udiv" => Op::UDiv,
                    b"urem" => Op::URem,
                    b"sdiv" => Op::SDiv,
                    b"srem" => Op::SRem,
                    b"and" => Op::And,
                    b"or" => Op::Or,
                    b"xor" => Op::Xor,
                    b"shl" => Op::Shl,
                    b"lshr" => Op::LShr,
                    _ => Op::AShr,
                };
                Inst::Bin(o, Rc::new(t), d, x, y)
            }
            b"icmp" => {
                self.flags();
                let p = match self.lx.next() {
                    Tok::Word(w) => match w {
                        b"eq" => Pred::Eq,
                        b"ne" => Pred::Ne,
                        b"ult" => Pred::Ult,
                        b"ule" => Pred::Ule,
                        b"ugt" => Pred::Ugt,
                        b"uge" => Pred::Uge,
                        b"slt" => Pred::Slt,
                        b"sle" => Pred::Sle,
                        b"sgt" => Pred::Sgt,
                        b"sge" => Pred::Sge,
                        _ => panic!("icmp {}", s(w)),
                    },
                    t => panic!("{:?}", t),
                };
                let t = self.ty();
                let x = self.val(&t);
                self.lx.expect(b',');
                let y = self.val(&t);
                Inst::Icmp(p, Rc::new(t), d, x, y)
            }
            b"trunc" | b"zext" | b"sext" | b"ptrtoint" | b"inttoptr" | b"bitcast" | b"addrspacecast" | b"ptrtoaddr" => {
                self.flags();
                let (t, v) = self.tyval();
                self.lx.next(); // to
                let t2 = Rc::new(self.ty());
                match op {
                    b"trunc" => Inst::Cast(CastK::Trunc, t, t2, d, v),
                    b"zext" => Inst::Cast(CastK::ZExt, t, t2, d, v),
                    b"sext" => Inst::Cast(CastK::SExt, t, t2, d, v),
                    b"ptrtoint" | b"ptrtoaddr" => {
                        if t2.bits() < 64 {
                            Inst::Cast(CastK::Trunc, t, t2, d, v)
                        } else {
                            Inst::Copy(d, v)
                        }
                    }
                    b"inttoptr" => {
                        if t.bits() < 64 {
                            Inst::Cast(CastK::ZExt, t, t2, d, v)
                        } else {
                            Inst::Copy(d, v)
                        }
                    }
                    _ => Inst::Bitcast(t, t2, d, v),
                }
            }
            b"freeze" => {
                let (_, v) = self.tyval();
                Inst::Copy(d, v)
            }
            b"load" => {
                self.flags();
                let t = self.ty();
                self.lx.expect(b',');
                let (_, p) = self.tyval();
                Inst::Load(d, Rc::new(t), p)
            }
            b"store" => {
                self.flags();
                let (t, v) = self.tyval();
                self.lx.expect(b',');
                let (_, p) = self.tyval();
                Inst::Store(t, v, p)
            }
            b"getelementptr" => {
                self.flags();
                let st = self.ty();
                self.lx.expect(b',');
                let (pt, base) = self.tyval();
                if *pt != Ty::Ptr {
                    Inst::Unsup("vector gep".into())
                } else {
                    let mut off = 0u64;
                    let mut terms = vec![];
                    let mut cur = st;
                    let mut first = true;
                    while self.lx.peek() == Tok::P(b',') {
                        let save = self.lx.clone();
                        self.lx.next();
                        if let Tok::Meta(_) = self.lx.peek() {
                            self.lx = save;
                            break;
                        }
                        let (it, iv) = self.tyval();
                        let sz = if first { cur.size() } else { 0 };
                        match iv {
                            Opnd::K(Val::C(c)) => {
                                let c = crate::expr::sext(c as u128, it.bits()) as i64 as u64;
                                if first {
                                    off = off.wrapping_add(c.wrapping_mul(sz));
                                } else {
                                    off = off.wrapping_add(cur.field_off(c as usize));
                                    cur = cur.field(c as usize);
                                }
                            }
                            o => {
                                let scale = if first {
                                    sz
                                } else {
                                    let f = cur.field(0);
                                    cur = f;
                                    cur.size()
                                };
                                terms.push((o, it.bits(), scale));
                            }
                        }
                        first = false;
                    }
                    Inst::Gep(d, base, off, terms)
                }
            }
            b"alloca" => {
                self.flags();
                let t = self.ty();
                let mut n: Option<Opnd> = None;
                if self.lx.peek() == Tok::P(b',') {
                    let save = self.lx.clone();
                    self.lx.next();
                    match self.lx.peek() {
                        Tok::Word(b"align") | Tok::Word(b"addrspace") | Tok::Meta(_) => self.lx = save,
                        _ => {
                            let (_, c) = self.tyval();
                            n = Some(c);
                        }
                    }
                }
                match n {
                    None | Some(Opnd::K(Val::C(_))) => {
                        let k = match n {
                            Some(Opnd::K(Val::C(c))) => c,
                            _ => 1,
                        };
                        let o = (self.frame + 15) / 16 * 16;
                        // a red zone between slots keeps overruns detectable
                        self.frame = o + t.size() * k + 16;
                        Inst::Alloca(d, o)
                    }
                    Some(c) => Inst::AllocaDyn(d, t.size(), c),
                }
            }
            b"br" => {
                if let Tok::Word(b"label") = self.lx.peek() {
                    let l = self.label();
                    Inst::Jmp(l)
                } else {
                    let (_, c) = self.tyval();
                    self.lx.expect(b',');
                    let t = self.label();
                    self.lx.expect(b',');
                    let f = self.label();
                    Inst::Br(c, t, f)
                }
            }
            b"switch" => {
                let (t, v) = self.tyval();
                self.lx.expect(b',');
                let def = self.label();
                self.lx.expect(b'[');
                let mut cases = vec![];
                loop {
                    self.lx.skip_nl();
                    if self.lx.eat(b']') {
                        break;
                    }
                    let ct = self.ty();
                    let c = match self.pr.parse_const(self.m, &mut self.lx, &ct) {
                        Val::C(c) => c,
                        _ => panic!("wide switch"),
                    };
                    self.lx.expect(b',');
                    let l = self.label();
                    cases.push((c, l));
                }
                Inst::Switch(v, t.bits(), cases, def)
            }
            b"ret" => {
                if let Tok::Word(b"void") = self.lx.peek() {
                    Inst::Ret(None)
                } else {
                    let (_, v) = self.tyval();
                    Inst::Ret(Some(v))
                }
            }
            b"unreachable" => Inst::Unreachable,
            b"phi" => {
                self.flags();
                let t = self.ty();
                let mut inc = vec![];
                loop {
                    self.lx.expect(b'[');
                    let v = self.val(&t);
                    self.lx.expect(b',');
                    let l = match self.lx.next() {
                        Tok::Local(n) => self.blk(n),
                        t => panic!("{:?}", t),
                    };
                    self.lx.expect(b']');
                    inc.push((l, v));
                    if self.lx.peek() == Tok::P(b',') {
                        let save = self.lx.clone();
                        self.lx.next();
                        if let Tok::Meta(_) = self.lx.peek() {
                            self.lx = save;
                            break;
                        }
                        continue;
                    }
                    break;
                }
                self.bphis[b as usize].push((d, inc));
                return;
            }
            b"select" => {
                self.flags();
                let (ct, c) = self.tyval();
                self.lx.expect(b',');
                let (t, x) = self.tyval();
                self.lx.expect(b',');
                let (_, y) = self.tyval();
                Inst::Select(d, ct, c, t, x, y)
            }
            b"extractvalue" => {
                let (_, v) = self.tyval();
                let idx = self.indices();
                Inst::ExtractV(d, v, idx)
            }
            b"insertvalue" => {
                let (_, v) = self.tyval();
                self.lx.expect(b',');
                let (_, e) = self.tyval();
                let idx = self.indices();
                Inst::InsertV(d, v, e, idx)
            }
            b"extractelement" => {
                let (_, v) = self.tyval();
                self.lx.expect(b',');
                let (_, e) = self.tyval();
                Inst::ExtractE(d, v, e)
            }
            b"insertelement" => {
                let (_, v) = self.tyval();
                self.lx.expect(b',');
                let (_, e) = self.tyval();
                self.lx.expect(b',');
                let (_, k) = self.tyval();
                Inst::InsertE(d, v, e, k)
            }
            b"shufflevector" => {
                let (_, x) = self.tyval();
                self.lx.expect(b',');
                let (_, y) = self.tyval();
                self.lx.expect(b',');
                let (_, mk) = self.tyval();
                match mk {
                    Opnd::K(Val::A(v)) => {
                        let idx = v.iter().map(|x| match x { Val::C(c) => *c as i32, _ => 0 }).collect();
                        Inst::Shuffle(d, x, y, idx)
                    }
                    _ => Inst::Unsup("shuffle".into()),
                }
            }
            b"fence" => Inst::Nop,
            b"atomicrmw" => {
                self.flags();
                let k = match self.lx.next() {
                    Tok::Word(w) => match w {
                        b"add" => "add",
                        b"sub" => "sub",
                        b"xchg" => "xchg",
                        b"and" => "and",
                        b"or" => "or",
                        b"xor" => "xor",
                        b"umax" => "umax",
                        b"umin" => "umin",
                        _ => "?",
                    },
                    _ => "?",
                };
                let (_, p) = self.tyval();
                self.lx.expect(b',');
                let (t, v) = self.tyval();
                Inst::Rmw(d, k, t, p, v)
            }
            b"cmpxchg" => {
                self.flags();
                let (_, p) = self.tyval();
                self.lx.expect(b',');
                let (t, x) = self.tyval();
                self.lx.expect(b',');
                let (_, y) = self.tyval();
                Inst::CmpXchg(d, t, p, x, y)
            }
            b"call" => self.call(dst),
            b"fadd" | b"fsub" | b"fmul" | b"fdiv" | b"frem" => {
                self.flags();
                let t = self.ty();
                let x = self.val(&t);
                self.lx.expect(b',');
                let y = self.val(&t);
                match t {
                    Ty::Float(w) if w == 32 || w == 64 => Inst::FBin(op[1], w, d, x, y),
                    _ => Inst::Unsup(s(op)),
                }
            }
            b"fneg" => {
                self.flags();
                let (t, v) = self.tyval();
                match *t {
                    Ty::Float(w) if w == 32 || w == 64 => Inst::FBin(b'n', w, d, v.clone(), v),
                    _ => Inst::Unsup(s(op)),
                }
            }
            b"fcmp" => {
                self.flags();
                let w = match self.lx.next() {
                    Tok::Word(w) => w,
                    t => panic!("{:?}", t),
                };
                let p = match w {
                    b"false" => FPred(false, false, false, false),
                    b"true" => FPred(true, true, true, true),
                    b"ord" => FPred(true, true, true, false),
                    b"uno" => FPred(false, false, false, true),
                    _ => {
                        let u = w[0] == b'u';
                        match &w[1..] {
                            b"eq" => FPred(false, true, false, u),
                            b"ne" => FPred(true, false, true, u),
                            b"lt" => FPred(true, false, false, u),
                            b"le" => FPred(true, true, false, u),
                            b"gt" => FPred(false, false, true, u),
                            b"ge" => FPred(false, true, true, u),
                            _ => panic!("fcmp {}", s(w)),
                        }
                    }
                };
                let t = self.ty();
                let x = self.val(&t);
                self.lx.expect(b',');
                let y = self.val(&t);
                match t {
                    Ty::Float(w) if w == 32 || w == 64 => Inst::FCmp(p, w, d, x, y),
                    _ => Inst::Unsup(s(op)),
                }
            }
            b"sitofp" | b"uitofp" | b"fptosi" | b"fptoui" | b"fpext" | b"fptrunc" => {
                self.flags();
                let (t, v) = self.tyval();
                self.lx.next(); // to
                let t2 = self.ty();
                let k = match op {
                    b"sitofp" => FCastK::FromS,
                    b"uitofp" => FCastK::FromU,
                    b"fptosi" => FCastK::ToS,
                    b"fptoui" => FCastK::ToU,
                    _ => FCastK::Conv,
                };
                let ok = |t: &Ty| match t {
                    Ty::Float(w) => *w == 32 || *w == 64,
                    Ty::Int(w) => *w <= 64,
                    _ => false,
                };
                if ok(&t) && ok(&t2) {
                    Inst::FCast(k, t.bits(), t2.bits(), d, v)
                } else {
                    Inst::Unsup(s(op))
                }
            }
            _ => Inst::Unsup(s(op)),
        };
        self.code.push(i);
    }
    fn indices(&mut self) -> Vec<u32> {
        let mut v = vec![];
        while self.lx.peek() == Tok::P(b',') {
            let save = self.lx.clone();
            self.lx.next();
            if let Tok::Int(b) = self.lx.peek() {
                self.lx.next();
                v.push(parse_int(b) as u32);
            } else {
                self.lx = save;
                break;
            }
        }
        v
    }
    fn call(&mut self, dst: Option<u32>) -> Inst {
        self.flags();
        // calling convention + return attributes
        loop {
            match self.lx.peek() {
                Tok::Word(b"cc") => {
                    self.lx.next();
                    self.lx.next();
                }
                Tok::Word(w) if is_type_word(w) => break,
                Tok::Word(_) => {
                    let w = self.lx.next();
                    if w == Tok::Word(b"align") {
                        if let Tok::Int(_) = self.lx.peek() {
                            self.lx.next();
                        }
                    }
                    if self.lx.peek() == Tok::P(b'(') {
                        self.lx.skip_paren();
                    }
                }
                _ => break,
            }
        }
        let rt = Rc::new(self.ty());
        if self.lx.peek() == Tok::P(b'(') {
            // function type
            self.lx.skip_paren();
        }
        let callee;
        match self.lx.peek() {
            Tok::Word(b"asm") => {
                self.lx.next();
                // inline asm: only empty templates are supported (compiler barriers)
                let mut tmpl = None;
                loop {
                    match self.lx.next() {
                        Tok::Str(q) => {
                            tmpl = Some(q);
                            break;
                        }
                        Tok::NL | Tok::Eof => break,
                        _ => {}
                    }
                }
                if tmpl == Some(b"") {
                    return Inst::Nop;
                }
                return Inst::Unsup(format!("asm {}", s(tmpl.unwrap_or(b"?"))));
            }
            Tok::Global(n) => {
                self.lx.next();
                if n.starts_with(b"llvm.") {
                    if n.starts_with(b"llvm.lifetime") || n.starts_with(b"llvm.experimental.noalias") || n.starts_with(b"llvm.dbg") || n.starts_with(b"llvm.assume")
                        || n.starts_with(b"llvm.prefetch")
                    {
                        return Inst::Nop;
                    }
                    let nm = s(n);
                    callee = Callee::Intrinsic(Rc::new((ik_of(&nm), nm)));
                } else {
                    callee = Callee::Direct(self.pr.func_id(self.m, n));
                }
            }
            Tok::Local(n) => {
                self.lx.next();
                callee = Callee::Indirect(Opnd::R(self.reg(n)));
            }
            _ => {
                let v = self.pr.parse_const(self.m, &mut self.lx, &Ty::Ptr);
                callee = Callee::Indirect(Opnd::K(v));
            }
        }
        let mut args = vec![];
        self.lx.expect(b'(');
        if !self.lx.eat(b')') {
            loop {
                let t = self.ty();
                if t == Ty::Other {
                    // metadata argument
                    self.lx.next();
                } else {
                    self.skip_attrs();
                    let v = self.val(&t);
                    args.push((v, Rc::new(t)));
                }
                if self.lx.eat(b',') {
                    continue;
                }
                self.lx.expect(b')');
                break;
            }
        }
        Inst::Call(dst, callee, args, rt)
    }
}
