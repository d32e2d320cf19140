//! Reference model: a sequence of elements with archive points between them, and a cursor.
use api::*;
use adapton::engine::*;
use iodyn::raz::*;
use iodyn::raz_meta::*;
use std::rc::Rc;
use std::cmp::min;
use std::cell::Cell;

#[derive(Clone,PartialEq,Eq,Hash,Debug)]
pub enum Item { E(u64), A(u32, Option<Name>) }
pub use self::Item::*;

/// the tree of a sequence, as the gauged fold shows it
#[derive(Clone,PartialEq,Eq,Hash,Debug)]
pub enum Node { Leaf(Vec<u64>), Bin(Rc<Node>, u32, Option<Name>, Rc<Node>) }

thread_local!(static FRESH: Cell<usize> = Cell::new(1));
pub fn fresh() -> usize { FRESH.with(|c| { let v = c.get(); c.set(v + 1); v }) }
/// run `f` in a namespace of its own, so that nothing is reused from another computation
pub fn fresh_ns<R, F: FnOnce() -> R>(f: F) -> R {
	ns(name_pair(name_of_string(String::from("observe")), name_of_usize(fresh())), f)
}
/// engine selection: 0 from-scratch (the default), 1 the dependency graph
pub fn engine(e: usize) { if e == 1 { manage::init_dcg(); } }
/// selected property; 0 selects all
pub fn sel() -> usize { param(0) }
/// check `c` if property `p` is the one being decided
pub fn ck(p: usize, c: bool, id: u64) { if sel() == p || sel() == 0 { check(c, (p as u64) * 100 + id) } }
/// a level a user may give an archive point (0 is reserved for leaves, the maximum for the top)
pub fn sym_level() -> u32 { let l = sym32(); assume((l != 0) & (l != u32::max_value())); l }
/// name an archive point shows in the tree
pub fn tree_name(n: &Option<Name>) -> Option<Name> {
	n.as_ref().map(|n| name_pair(n.clone(), name_of_string(String::from("tree"))))
}
/// 0 none, 1 all, 2 any, 3 two of three
pub fn fresh_name(named: usize) -> Option<Name> {
	match named { 0 => None, 1 => Some(name_of_usize(fresh())), 3 => { let n = fresh(); if n % 3 == 0 { None } else { Some(name_of_usize(n)) } }, _ => if choose(2) == 0 { None } else { Some(name_of_usize(fresh())) } }
}

pub fn node_of<M: RazMeta<u64>>(t: &RazTree<u64,M>) -> Option<Node> {
	let t = t.clone();
	fresh_ns(|| t.fold_up_gauged(
		Rc::new(|v: &Vec<u64>| Node::Leaf(v.clone())),
		Rc::new(|l: Node, lev: u32, n: Option<Name>, r: Node| Node::Bin(Rc::new(l), lev, n, Rc::new(r)))
	))
}
pub fn flatten(n: &Node, out: &mut Vec<Item>) {
	match *n {
		Node::Leaf(ref v) => for e in v { out.push(E(*e)) },
		Node::Bin(ref l, lev, ref nm, ref r) => { flatten(l, out); out.push(A(lev, nm.clone())); flatten(r, out); }
	}
}
pub fn items_of<M: RazMeta<u64>>(t: &RazTree<u64,M>) -> Vec<Item> {
	let mut v = vec![];
	if let Some(n) = node_of(t) { flatten(&n, &mut v) }
	v
}
pub fn elems(v: &[Item]) -> Vec<u64> { v.iter().filter_map(|i| match *i { E(e) => Some(e), _ => None }).collect() }

/// left subtrees strictly lower, right subtrees no higher, leaves not empty
pub fn canonical(n: &Node, p: usize, id: u64) {
	match *n {
		Node::Leaf(ref v) => ck(p, !v.is_empty(), id),
		Node::Bin(ref l, lev, _, ref r) => {
			if let Node::Bin(_, ll, _, _) = **l { ck(p, ll < lev, id + 1) }
			if let Node::Bin(_, rl, _, _) = **r { ck(p, rl <= lev, id + 2) }
			canonical(l, p, id); canonical(r, p, id);
		}
	}
}

pub fn same_elems(p: usize, got: &[u64], want: &[u64], id: u64) {
	ck(p, got.len() == want.len(), id);
	if got.len() == want.len() { for i in 0..got.len() { ck(p, got[i] == want[i], id + 1) } }
}
/// `got` shows the elements of `want` (property `pe`), and in each gap between elements where
/// `want` has archive points exactly one of these, elsewhere none (property `pa`)
pub fn same_items(pe: usize, pa: usize, got: &[Item], want: &[Item], id: u64) {
	same_elems(pe, &elems(got), &elems(want), id);
	if elems(got).len() != elems(want).len() { return }
	let gaps = |v: &[Item]| { let mut g: Vec<Vec<(u32,Option<Name>)>> = vec![vec![]];
		for i in v { match *i { E(_) => g.push(vec![]), A(l, ref n) => g.last_mut().unwrap().push((l, n.clone())) } } g };
	let (g, w) = (gaps(got), gaps(want));
	let last = w.len() - 1;
	for i in 0..w.len() {
		if i == 0 || i == last { ck(pa, g[i].is_empty(), id + 2); continue }
		if w[i].is_empty() { ck(pa, g[i].is_empty(), id + 3); continue }
		ck(pa, g[i].len() == 1, id + 4);
		if g[i].len() == 1 {
			let mut ok = false;
			for a in &w[i] { if a.1 == g[i][0].1 { ok = ok | (a.0 == g[i][0].0) } }
			ck(pa, ok, id + 5);
		}
	}
}

/// the sequence around the cursor; the item next to the cursor is the last one on either side
#[derive(Clone)]
pub struct Model { pub l: Vec<Item>, pub r: Vec<Item> }
fn popm(v: &mut Vec<Item>) -> Option<u64> {
	loop { match v.pop() { None => return None, Some(E(e)) => return Some(e), Some(A(..)) => {} } }
}
fn peekm(v: &Vec<Item>) -> Option<u64> { v.iter().rev().filter_map(|i| match *i { E(e) => Some(e), _ => None }).next() }
fn active(v: &Vec<Item>) -> usize { v.iter().rev().take_while(|i| match **i { E(_) => true, _ => false }).count() }
fn archm(v: &mut Vec<Item>, lev: u32, n: &Option<Name>) { if active(v) > 0 { v.push(A(lev, tree_name(n))) } }
impl Model {
	pub fn new() -> Self { Model { l: vec![], r: vec![] } }
	/// cursor before element number `i` of `items`, and before any archive point there
	pub fn at(items: &[Item], i: usize) -> Self {
		let mut l = vec![]; let mut k = 0; let mut j = 0;
		while k < i { if let E(_) = items[j] { k += 1 } l.push(items[j].clone()); j += 1 }
		let mut r: Vec<Item> = items[j..].to_vec(); r.reverse();
		Model { l: l, r: r }
	}
	pub fn items(&self) -> Vec<Item> {
		let mut v = self.l.clone(); let mut r = self.r.clone(); r.reverse(); v.extend(r); v
	}
	pub fn elems(&self) -> Vec<u64> { elems(&self.items()) }
	pub fn peek_l(&self) -> Option<u64> { peekm(&self.l) }
	pub fn peek_r(&self) -> Option<u64> { peekm(&self.r) }
}
pub fn peeks<M: RazMeta<u64>>(p: usize, r: &Raz<u64,M>, m: &Model) {
	ck(p, r.peek_left() == m.peek_l(), 1);
	ck(p, r.peek_right() == m.peek_r(), 2);
}
/// a place in 0..n+1: any, or one of seven if there are many
pub fn place(n: usize) -> usize { if n <= 200 { choose(n + 1) } else { choose(7) * n / 6 } }
pub const OPS: usize = 6;
/// one editing operation on the cursor and on the model, compared (property `p`)
pub fn step<M: RazMeta<u64>>(p: usize, op: usize, r: &mut Raz<u64,M>, m: &mut Model, named: usize) {
	match op {
		0 => { let e = sym64(); let k = r.push_left(e); m.l.push(E(e)); ck(p, k == active(&m.l), 3) }
		1 => { let e = sym64(); let k = r.push_right(e); m.r.push(E(e)); ck(p, k == active(&m.r), 4) }
		2 => { let a = r.pop_left(); let b = popm(&mut m.l); ck(p, a == b, 5) }
		3 => { let a = r.pop_right(); let b = popm(&mut m.r); ck(p, a == b, 6) }
		_ => arch(op - 4, r, m, sym_level(), named),
	}
}
fn arch<M: RazMeta<u64>>(side: usize, r: &mut Raz<u64,M>, m: &mut Model, l: u32, named: usize) {
	let n = fresh_name(named);
	if side == 0 { archm(&mut m.l, l, &n); r.archive_left(l, n) } else { archm(&mut m.r, l, &n); r.archive_right(l, n) }
}
/// `ops` operations, every choice of each; of `ops / 100` steps each (1 if that is 0), and then also of as many archived parts on either side
pub fn edits<M: RazMeta<u64>>(p: usize, ops: usize, r: &mut Raz<u64,M>, m: &mut Model, named: usize, peek: usize) {
	let burst = if ops < 100 { 1 } else { ops / 100 };
	for _ in 0..ops % 100 {
		let op = choose(if burst > 1 { OPS + 2 } else { OPS });
		for k in 0..if op < OPS { burst } else { min(burst, if burst > 1000 { 150 } else { 30 }) } {
			let l = if op < 4 || op < OPS && k == 0 { 0 } else if k == 0 { sym_level() } else { pat_level(6, k, 0) };
			match op {
				4 | 5 if k > 0 => arch(op - 4, r, m, l, named),
				6 | 7 => { step(p, op - 6, r, m, named); arch(op - 6, r, m, l, named) }
				_ => step(p, op, r, m, named),
			}
			if peek > 0 { peeks(1, r, m) }
		}
	}
}
/// level of archive point `s`: any (pattern 0), or of one of several large shapes
pub fn pat_level(pat: usize, s: usize, seg: usize) -> u32 {
	match pat {
		0 => sym_level(),
		1 => 10 + 10 * (s.trailing_zeros()),            // balanced
		2 => 50,                                        // all equal
		3 => 10 * s as u32,                             // each above the one before
		4 => 10 * (1000 - s as u32),                    // each below the one before
		5 => if s % 2 == 0 { 10 * s as u32 } else { 10 * (1000 - s as u32) }, // zigzag
		6 => 1 + ((s as u32).wrapping_mul(2654435761) >> 7) % 100000, // mixed
		_ => if s == seg / 2 { sym_level() } else { 10 + 10 * (s.trailing_zeros()) }, // balanced but for one
	}
}
/// number of elements of segment `s`: `size`, or from 1 to `size - 1000` if that is above 0
pub fn seg_size(size: usize, s: usize) -> usize { if size > 1000 { 1 + (s * 5 + s / 3) % (size - 1000) } else { size } }
/// pattern and number: hundreds and the rest, or ten thousands and the rest
pub fn pat(n: usize) -> (usize, usize) { if n >= 10000 { (n / 10000, n % 10000) } else { (n / 100, n % 100) } }
/// a tree of `seg % 100` segments of `seg_size` elements separated by archive points of levels of pattern `seg / 100`
pub fn tree<M: RazMeta<u64>>(seg: usize, size: usize, named: usize) -> (RazTree<u64,M>, Vec<Item>) {
	let mut r: Raz<u64,M> = Raz::new();
	let mut items = vec![];
	let (pat, seg) = pat(seg);
	for s in 0..seg {
		if s > 0 {
			let (l, n) = (pat_level(pat, s, seg), fresh_name(named));
			items.push(A(l, tree_name(&n)));
			r.archive_left(l, n);
		}
		for _ in 0..seg_size(size, s) { let e = sym64(); items.push(E(e)); r.push_left(e); }
	}
	(r.unfocus(), items)
}
