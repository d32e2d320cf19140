//! Hash-consed bit-vector expression DAG with on-the-fly simplification.
//! Widths 1..=128; constants are stored as u128.
use std::collections::HashMap;

pub type E = u32;

/// multiplicative hasher (the tables are hot and not adversarial)
#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl std::hash::Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for &x in b {
            self.write_u64(x as u64);
        }
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_u16(&mut self, x: u16) {
        self.write_u64(x as u64)
    }
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
    fn write_isize(&mut self, x: isize) {
        self.write_u64(x as u64)
    }
    fn write_u128(&mut self, x: u128) {
        self.write_u64(x as u64);
        self.write_u64((x >> 64) as u64);
    }
}
pub type FxB = std::hash::BuildHasherDefault<Fx>;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Concat,
    Extract, // b = low bit
    ZExt,
    SExt,
    Ite,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: u32,
    pub b: u32,
    pub c: u32,
}

pub struct Arena {
    pub nodes: Vec<Node>,
    consts: Vec<u128>,
    const_map: HashMap<(u128, u16), E, FxB>,
    map: HashMap<Node, E, FxB>,
    pub nvars: u32,
    eval_stamp: Vec<u32>,
    eval_val: Vec<u128>,
    stamp: u32,
}

#[inline]
pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
#[inline]
pub fn sext(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w;
        ((v << s) as i128) >> s
    }
}

/// concrete semantics of a binary operator (None: undefined, e.g. division by zero)
pub fn cbin(op: Op, w: u32, a: u128, b: u128) -> Option<u128> {
    let m = mask(w);
    Some(match op {
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => {
            if b == 0 {
                return None;
            }
            a / b
        }
        Op::URem => {
            if b == 0 {
                return None;
            }
            a % b
        }
        Op::SDiv => {
            if b == 0 {
                return None;
            }
            (sext(a, w).wrapping_div(sext(b, w))) as u128 & m
        }
        Op::SRem => {
            if b == 0 {
                return None;
            }
            (sext(a, w).wrapping_rem(sext(b, w))) as u128 & m
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => {
            if b >= w as u128 {
                0
            } else {
                (a << b) & m
            }
        }
        Op::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => {
            let s = if b >= w as u128 { w - 1 } else { b as u32 };
            ((sext(a, w) >> s) as u128) & m
        }
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Ule => (a <= b) as u128,
        Op::Slt => (sext(a, w) < sext(b, w)) as u128,
        Op::Sle => (sext(a, w) <= sext(b, w)) as u128,
        _ => unreachable!(),
    })
}

impl Arena {
    pub fn new() -> Arena {
        Arena {
            nodes: vec![Node { op: Op::Const, w: 1, a: 0, b: 0, c: 0 }], // id 0 reserved
            consts: vec![0],
            const_map: HashMap::default(),
            map: HashMap::default(),
            nvars: 0,
            eval_stamp: vec![0],
            eval_val: vec![0],
            stamp: 0,
        }
    }
    fn push(&mut self, n: Node) -> E {
        let id = self.nodes.len() as E;
        assert!(id < (1 << 27), "expression arena exhausted");
        self.nodes.push(n);
        self.eval_stamp.push(0);
        self.eval_val.push(0);
        id
    }
    fn mk(&mut self, n: Node) -> E {
        if let Some(&e) = self.map.get(&n) {
            return e;
        }
        let id = self.push(n);
        self.map.insert(n, id);
        id
    }
    pub fn w(&self, e: E) -> u32 {
        self.nodes[e as usize].w as u32
    }
    pub fn cst(&mut self, v: u128, w: u32) -> E {
        let v = v & mask(w);
        if let Some(&e) = self.const_map.get(&(v, w as u16)) {
            return e;
        }
        let ci = self.consts.len() as u32;
        self.consts.push(v);
        let id = self.push(Node { op: Op::Const, w: w as u16, a: ci, b: 0, c: 0 });
        self.const_map.insert((v, w as u16), id);
        id
    }
    pub fn var(&mut self, w: u32) -> E {
        let v = self.nvars;
        self.nvars += 1;
        self.push(Node { op: Op::Var, w: w as u16, a: v, b: 0, c: 0 })
    }
    pub fn get_const(&self, e: E) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const {
            Some(self.consts[n.a as usize])
        } else {
            None
        }
    }
    pub fn not(&mut self, e: E) -> E {
        let one = self.cst(1, 1);
        self.bin(Op::Xor, e, one)
    }
    pub fn bin(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let cmp = matches!(op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle);
        let rw = if cmp { 1 } else { w };
        let (ca, cb) = (self.get_const(a), self.get_const(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            if let Some(v) = cbin(op, w, x, y) {
                return self.cst(v, rw);
            }
        }
        let (mut a, mut b) = (a, b);
        let (mut ca, mut cb) = (ca, cb);
        if matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq)
            && (ca.is_some() || (cb.is_none() && a > b))
        {
            std::mem::swap(&mut a, &mut b);
            std::mem::swap(&mut ca, &mut cb);
        }
        let m = mask(w);
        match op {
            Op::Add => {
                if cb == Some(0) {
                    return a;
                }
                if let Some(k) = cb {
                    let n = self.nodes[a as usize];
                    if n.op == Op::Add {
                        if let Some(k2) = self.get_const(n.b) {
                            let c = self.cst(k.wrapping_add(k2), w);
                            return self.bin(Op::Add, n.a, c);
                        }
                    }
                }
            }
            Op::Sub => {
                if a == b {
                    return self.cst(0, w);
                }
                if let Some(k) = cb {
                    let c = self.cst(0u128.wrapping_sub(k), w);
                    return self.bin(Op::Add, a, c);
                }
            }
            Op::Mul => {
                if cb == Some(0) {
                    return b;
                }
                if cb == Some(1) {
                    return a;
                }
            }
            Op::UDiv => {
                if cb == Some(1) {
                    return a;
                }
            }
            Op::And => {
                if cb == Some(0) {
                    return b;
                }
                if cb == Some(m) || a == b {
                    return a;
                }
                if let Some(k) = cb {
                    // low mask of a zext that already fits
                    let n = self.nodes[a as usize];
                    if n.op == Op::ZExt && mask(self.w(n.a)) & k == mask(self.w(n.a)) {
                        return a;
                    }
                    if n.op == Op::ZExt && k & mask(self.w(n.a)) == 0 {
                        return self.cst(0, w);
                    }
                }
            }
            Op::Or => {
                if cb == Some(0) || a == b {
                    return a;
                }
                if cb == Some(m) {
                    return b;
                }
            }
            Op::Xor => {
                if cb == Some(0) {
                    return a;
                }
                if a == b {
                    return self.cst(0, w);
                }
                if let Some(k) = cb {
                    let n = self.nodes[a as usize];
                    if n.op == Op::Xor {
                        if let Some(k2) = self.get_const(n.b) {
                            let c = self.cst(k ^ k2, w);
                            return self.bin(Op::Xor, n.a, c);
                        }
                    }
                }
            }
            Op::Shl | Op::LShr | Op::AShr => {
                if cb == Some(0) || ca == Some(0) {
                    return a;
                }
                if let Some(k) = cb {
                    if op != Op::AShr && k >= w as u128 {
                        return self.cst(0, w);
                    }
                }
            }
            Op::Eq => {
                if a == b {
                    return self.cst(1, 1);
                }
                if let Some(k) = cb {
                    if w == 1 {
                        return if k == 1 { a } else { self.not(a) };
                    }
                    let n = self.nodes[a as usize];
                    match n.op {
                        Op::ZExt => {
                            let iw = self.w(n.a);
                            if k > mask(iw) {
                                return self.cst(0, 1);
                            }
                            let c = self.cst(k, iw);
                            return self.bin(Op::Eq, n.a, c);
                        }
                        Op::Ite => {
                            let (kb, kc) = (self.get_const(n.b), self.get_const(n.c));
                            if let (Some(x), Some(y)) = (kb, kc) {
                                if x == k && y == k {
                                    return self.cst(1, 1);
                                } else if x == k {
                                    return n.a;
                                } else if y == k {
                                    return self.not(n.a);
                                } else {
                                    return self.cst(0, 1);
                                }
                            }
                        }
                        Op::Add => {
                            if let Some(k2) = self.get_const(n.b) {
                                let c = self.cst(k.wrapping_sub(k2), w);
                                return self.bin(Op::Eq, n.a, c);
                            }
                        }
                        Op::Xor => {
                            if let Some(k2) = self.get_const(n.b) {
                                let c = self.cst(k ^ k2, w);
                                return self.bin(Op::Eq, n.a, c);
                            }
                        }
                        _ => {}
                    }
                }
            }
            Op::Ult => {
                if a == b || cb == Some(0) || ca == Some(m) {
                    return self.cst(0, 1);
                }
                if cb == Some(1) {
                    let z = self.cst(0, w);
                    return self.bin(Op::Eq, a, z);
                }
                if ca == Some(0) {
                    let z = self.cst(0, w);
                    let e = self.bin(Op::Eq, b, z);
                    return self.not(e);
                }
                if let Some(r) = self.cmp_zext(op, a, b) {
                    return r;
                }
            }
            Op::Ule => {
                // a <= b  ==  !(b < a)
                let x = self.bin(Op::Ult, b, a);
                return self.not(x);
            }
            Op::Slt => {
                if a == b {
                    return self.cst(0, 1);
                }
            }
            Op::Sle => {
                let x = self.bin(Op::Slt, b, a);
                return self.not(x);
            }
            _ => {}
        }
        // push operators with a constant through an ite of constants
        if let Some(_) = cb {
            let n = self.nodes[a as usize];
            if n.op == Op::Ite && self.get_const(n.b).is_some() && self.get_const(n.c).is_some() {
                if !matches!(op, Op::UDiv | Op::URem | Op::SDiv | Op::SRem) {
                    let x = self.bin(op, n.b, b);
                    let y = self.bin(op, n.c, b);
                    return self.ite(n.a, x, y);
                }
            }
        }
        self.mk(Node { op, w: rw as u16, a, b, c: 0 })
    }
    fn cmp_zext(&mut self, op: Op, a: E, b: E) -> Option<E> {
        let na = self.nodes[a as usize];
        let nb = self.nodes[b as usize];
        if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
            return Some(self.bin(op, na.a, nb.a));
        }
        if na.op == Op::ZExt {
            if let Some(k) = self.get_const(b) {
                let iw = self.w(na.a);
                if k > mask(iw) {
                    return Some(self.cst(1, 1));
                }
                let c = self.cst(k, iw);
                return Some(self.bin(op, na.a, c));
            }
        }
        if nb.op == Op::ZExt {
            if let Some(k) = self.get_const(a) {
                let iw = self.w(nb.a);
                if k >= mask(iw) {
                    return Some(self.cst(0, 1));
                }
                let c = self.cst(k, iw);
                return Some(self.bin(op, c, nb.a));
            }
        }
        None
    }
    pub fn ite(&mut self, c: E, t: E, f: E) -> E {
        if t == f {
            return t;
        }
        if let Some(k) = self.get_const(c) {
            return if k == 1 { t } else { f };
        }
        let w = self.w(t);
        if w == 1 {
            match (self.get_const(t), self.get_const(f)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(Op::Or, c, f),
                (Some(0), None) => {
                    let nc = self.not(c);
                    return self.bin(Op::And, nc, f);
                }
                (None, Some(0)) => return self.bin(Op::And, c, t),
                (None, Some(1)) => {
                    let nc = self.not(c);
                    return self.bin(Op::Or, nc, t);
                }
                _ => {}
            }
        }
        self.mk(Node { op: Op::Ite, w: w as u16, a: c, b: t, c: f })
    }
    pub fn zext(&mut self, e: E, w: u32) -> E {
        let ew = self.w(e);
        if ew == w {
            return e;
        }
        if let Some(k) = self.get_const(e) {
            return self.cst(k, w);
        }
        let n = self.nodes[e as usize];
        if n.op == Op::ZExt {
            return self.zext(n.a, w);
        }
        if n.op == Op::Ite && self.get_const(n.b).is_some() && self.get_const(n.c).is_some() {
            let x = self.zext(n.b, w);
            let y = self.zext(n.c, w);
            return self.ite(n.a, x, y);
        }
        self.mk(Node { op: Op::ZExt, w: w as u16, a: e, b: 0, c: 0 })
    }
    pub fn sext(&mut self, e: E, w: u32) -> E {
        let ew = self.w(e);
        if ew == w {
            return e;
        }
        if let Some(k) = self.get_const(e) {
            return self.cst(sext(k, ew) as u128, w);
        }
        let n = self.nodes[e as usize];
        if n.op == Op::ZExt {
            return self.zext(n.a, w);
        }
        self.mk(Node { op: Op::SExt, w: w as u16, a: e, b: 0, c: 0 })
    }
    pub fn extract(&mut self, e: E, lo: u32, w: u32) -> E {
        let ew = self.w(e);
        debug_assert!(lo + w <= ew);
        if lo == 0 && w == ew {
            return e;
        }
        if let Some(k) = self.get_const(e) {
            return self.cst(k >> lo, w);
        }
        let n = self.nodes[e as usize];
        match n.op {
            Op::Extract => return self.extract(n.a, n.b + lo, w),
            Op::ZExt => {
                let iw = self.w(n.a);
                if lo >= iw {
                    return self.cst(0, w);
                }
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                let x = self.extract(n.a, lo, iw - lo);
                return self.zext(x, w);
            }
            Op::SExt => {
                let iw = self.w(n.a);
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
            }
            Op::Concat => {
                let lw = self.w(n.b);
                if lo >= lw {
                    return self.extract(n.a, lo - lw, w);
                }
                if lo + w <= lw {
                    return self.extract(n.b, lo, w);
                }
                let l = self.extract(n.b, lo, lw - lo);
                let h = self.extract(n.a, 0, w - (lw - lo));
                return self.concat(h, l);
            }
            Op::Ite => {
                if self.get_const(n.b).is_some() && self.get_const(n.c).is_some() {
                    let x = self.extract(n.b, lo, w);
                    let y = self.extract(n.c, lo, w);
                    return self.ite(n.a, x, y);
                }
            }
            Op::And | Op::Or | Op::Xor => {
                if self.get_const(n.b).is_some() {
                    let x = self.extract(n.a, lo, w);
                    let y = self.extract(n.b, lo, w);
                    return self.bin(n.op, x, y);
                }
            }
            Op::Add if lo == 0 => {
                if self.get_const(n.b).is_some() {
                    let x = self.extract(n.a, lo, w);
                    let y = self.extract(n.b, lo, w);
                    return self.bin(n.op, x, y);
                }
            }
            _ => {}
        }
        self.mk(Node { op: Op::Extract, w: w as u16, a: e, b: lo, c: 0 })
    }
    /// hi ++ lo
    pub fn concat(&mut self, hi: E, lo: E) -> E {
        let (wh, wl) = (self.w(hi), self.w(lo));
        if let (Some(a), Some(b)) = (self.get_const(hi), self.get_const(lo)) {
            return self.cst((a << wl) | b, wh + wl);
        }
        if self.get_const(hi) == Some(0) {
            return self.zext(lo, wh + wl);
        }
        let (nh, nl) = (self.nodes[hi as usize], self.nodes[lo as usize]);
        if nh.op == Op::Extract && nl.op == Op::Extract && nh.a == nl.a && nh.b == nl.b + wl {
            return self.extract(nh.a, nl.b, wh + wl);
        }
        if nh.op == Op::Extract && nh.a == lo && nh.b == wl {
            // low part is whole expression: impossible (widths), keep
        }
        self.mk(Node { op: Op::Concat, w: (wh + wl) as u16, a: hi, b: lo, c: 0 })
    }

    /// evaluate under a model (variables missing from the model are 0)
    pub fn eval(&mut self, e: E, model: &HashMap<u32, u128>) -> u128 {
        self.stamp += 1;
        self.eval_rec(e, model)
    }
    fn eval_rec(&mut self, e: E, m: &HashMap<u32, u128>) -> u128 {
        let i = e as usize;
        if self.eval_stamp[i] == self.stamp {
            return self.eval_val[i];
        }
        let n = self.nodes[i];
        let w = n.w as u32;
        let v = match n.op {
            Op::Const => self.consts[n.a as usize],
            Op::Var => *m.get(&n.a).unwrap_or(&0) & mask(w),
            Op::Ite => {
                if self.eval_rec(n.a, m) == 1 {
                    self.eval_rec(n.b, m)
                } else {
                    self.eval_rec(n.c, m)
                }
            }
            Op::ZExt => self.eval_rec(n.a, m),
            Op::SExt => {
                let iw = self.w(n.a);
                sext(self.eval_rec(n.a, m), iw) as u128 & mask(w)
            }
            Op::Extract => (self.eval_rec(n.a, m) >> n.b) & mask(w),
            Op::Concat => {
                let lw = self.w(n.b);
                let h = self.eval_rec(n.a, m);
                let l = self.eval_rec(n.b, m);
                (h << lw) | l
            }
            op => {
                let a = self.eval_rec(n.a, m);
                let b = self.eval_rec(n.b, m);
                let ow = self.w(n.a);
                match cbin(op, ow, a, b) {
                    Some(v) => v,
                    None => match op {
                        // SMT-LIB semantics of division by zero
                        Op::UDiv => mask(w),
                        Op::URem | Op::SRem => a,
                        _ => {
                            if sext(a, ow) < 0 {
                                1
                            } else {
                                mask(w)
                            }
                        }
                    },
                }
            }
        };
        self.eval_stamp[i] = self.stamp;
        self.eval_val[i] = v;
        v
    }
}
