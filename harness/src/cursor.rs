//! Level trees and the cursor on them.
use api::*;
use model::*;
use raz::*;
use adapton::engine::*;
use iodyn::level_tree::{Tree, good_levels};
use iodyn::tree_cursor::*;
use std::rc::Rc;

/// data which records what it was rebuilt with
#[derive(Clone,PartialEq,Eq,Hash,Debug)]
pub struct D { v: u64, size: usize, lev: u32, nm: Option<Name> }
impl TreeUpdate for D {
	fn rebuild(l: Option<&Self>, old: &Self, level: u32, name: Option<Name>, r: Option<&Self>) -> Self {
		unsafe { REBUILT += 1 }
		D { v: old.v, size: 1 + l.map_or(0, |d| d.size) + r.map_or(0, |d| d.size), lev: level, nm: name }
	}
}
/// how often data was rebuilt
static mut REBUILT: usize = 0;
/// the model: a plain tree
#[derive(Clone)]
pub struct MT { v: u64, lev: u32, nm: Option<Name>, l: MTree, r: MTree }
pub type MTree = Option<Rc<MT>>;
fn msize(t: &MTree) -> usize { match *t { None => 0, Some(ref t) => 1 + msize(&t.l) + msize(&t.r) } }
fn insizes(t: &MTree, out: &mut Vec<usize>) {
	if let Some(ref n) = *t { insizes(&n.l, out); out.push(msize(t)); insizes(&n.r, out) }
}
fn inorder(t: &MTree, out: &mut Vec<(u64,u32,Option<Name>)>) {
	if let Some(ref t) = *t { inorder(&t.l, out); out.push((t.v, t.lev, t.nm.clone())); inorder(&t.r, out) }
}
fn real_inorder(t: &Option<Tree<D>>, out: &mut Vec<(u64,u32,Option<Name>)>) {
	if let Some(ref t) = *t { real_inorder(&t.l_tree(), out); out.push((t.peek().v, t.level(), t.name())); real_inorder(&t.r_tree(), out) }
}
/// levels go down to the left, and not up to the right; data is right for its node
fn sound(p: usize, t: &Option<Tree<D>>, id: u64) -> usize {
	match *t { None => 0, Some(ref t) => {
		let (l, r) = (t.l_tree(), t.r_tree());
		if let Some(ref l) = l { ck(p, l.level() < t.level(), id) }
		if let Some(ref r) = r { ck(p, r.level() <= t.level(), id + 1) }
		let n = 1 + sound(p, &l, id) + sound(p, &r, id);
		let d = t.peek();
		ck(p, d.size == n, id + 2);
		ck(p, d.lev == t.level(), id + 3);
		ck(p, d.nm == t.name(), id + 4);
		n
	} }
}
fn same(p: usize, t: &Option<Tree<D>>, m: &MTree, id: u64) {
	ck(p, t.is_some() == m.is_some(), id);
	if let (&Some(ref t), &Some(ref m)) = (t, m) {
		let d = t.peek();
		ck(p, t.level() == m.lev, id + 1);
		ck(p, t.name() == m.nm, id + 2);
		ck(p, d.v == m.v, id + 3);
		ck(p, d.size == 1 + msize(&m.l) + msize(&m.r), id + 4);
		ck(p, d.lev == m.lev, id + 5);
		ck(p, d.nm == m.nm, id + 6);
		same(p, &t.l_tree(), &m.l, id);
		same(p, &t.r_tree(), &m.r, id);
	}
}
fn real(m: &MTree) -> Option<Tree<D>> {
	match *m { None => None, Some(ref m) => {
		let l = real(&m.l); let r = real(&m.r);
		Tree::new(m.lev, m.nm.clone(), D { v: m.v, size: 1 + msize(&m.l) + msize(&m.r), lev: m.lev, nm: m.nm.clone() }, l, r)
	} }
}
/// a tree of `n` nodes of arbitrary shape; levels arbitrary, or arbitrary but canonical
/// (from 100 on: `n % 100` nodes in one of several large canonical shapes, `n / 100`)
fn shape(n: usize, named: usize, canon: bool) -> MTree {
	if n >= 100 { return large(pat(n).0, pat(n).1, 100000, true, named) }
	if n == 0 { return None }
	let k = choose(n);
	let l = shape(k, named, canon);
	let r = shape(n - 1 - k, named, canon);
	let lev = sym32();
	if canon {
		if let Some(ref l) = l { assume(l.lev < lev) }
		if let Some(ref r) = r { assume(r.lev <= lev) }
	}
	Some(Rc::new(MT { v: sym64(), lev: lev, nm: fresh_name(named), l: l, r: r }))
}

/// balanced; left spine; right spine, levels falling or equal; zigzag; mixed
fn large(pat: usize, n: usize, lev: u32, turn: bool, named: usize) -> MTree {
	if n == 0 { return None }
	let k = match pat { 1 => n / 2, 2 => n - 1, 3 | 4 => 0, 5 => if turn { n - 1 } else { 0 }, _ => (n * 7 / 11) % n };
	let l = large(pat, k, lev - 10, !turn, named);
	let r = large(pat, n - 1 - k, if pat == 4 { lev } else { lev - 10 }, !turn, named);
	Some(Rc::new(MT { v: sym64(), lev: lev, nm: fresh_name(named), l: l, r: r }))
}

/// the model of a cursor: focus, and the way back up (true: the focus is the right branch)
#[derive(Clone)]
struct Z { at: MTree, up: Vec<(bool, Rc<MT>)> }
impl Z {
	fn down(&mut self, right: bool, f: usize) -> bool {
		let t = match self.at { None => return false, Some(ref t) => t.clone() };
		let b = if right { t.r.clone() } else { t.l.clone() };
		if b.is_none() && f == 0 { return false }
		if f != 2 { self.up.push((right, t)) }
		self.at = b;
		true
	}
	/// 0 nowhere, 1 to an upper node on the left, 2 on the right
	fn go_up(&mut self, discard: bool) -> usize {
		match self.up.pop() { None => 0, Some((right, t)) => {
			if discard { self.at = Some(t) } else {
				let c = self.at.take();
				self.at = Some(Rc::new(if right { MT { v: t.v, lev: t.lev, nm: t.nm.clone(), l: t.l.clone(), r: c } } else { MT { v: t.v, lev: t.lev, nm: t.nm.clone(), l: c, r: t.r.clone() } }))
			}
			if right { 1 } else { 2 }
		} }
	}
	fn root(&self) -> MTree { let mut z = self.clone(); while z.go_up(false) != 0 {} z.at }
	/// in-order parts before and after the focused node
	fn parts(&self) -> (Vec<(u64,u32,Option<Name>)>, Vec<(u64,u32,Option<Name>)>) {
		let (mut a, mut b) = (vec![], vec![]);
		for &(right, ref t) in &self.up { if right { inorder(&t.l, &mut a); a.push((t.v, t.lev, t.nm.clone())) } }
		if let Some(ref t) = self.at { inorder(&t.l, &mut a); inorder(&t.r, &mut b) }
		for &(right, ref t) in self.up.iter().rev() { if !right { b.push((t.v, t.lev, t.nm.clone())); inorder(&t.r, &mut b) } }
		(a, b)
	}
}
fn upres(r: UpResult) -> usize { match r { UpResult::Fail => 0, UpResult::Left => 1, UpResult::Right => 2 } }
const MOVES: usize = 8;
fn mv(p: usize, k: usize, c: &mut Cursor<D>, z: &mut Z) {
	let force = [Force::No, Force::Yes, Force::Discard];
	match k {
		0 => ck(p, c.down_left() == z.down(false, 0), 1),
		1 => ck(p, c.down_right() == z.down(true, 0), 2),
		2 => ck(p, upres(c.up()) == z.go_up(false), 5),
		3 | 5 => { let f = (k - 1) / 2; ck(p, c.down_left_force(force[f]) == z.down(false, f), 3) },
		4 | 6 => { let f = (k - 2) / 2; ck(p, c.down_right_force(force[f]) == z.down(true, f), 4) },
		_ => ck(p, upres(c.up_discard()) == z.go_up(true), 6),
	}
}
fn look(p: usize, c: &Cursor<D>, z: &Z) {
	match z.at {
		None => { ck(p, c.peek().is_none(), 7); ck(p, c.peek_level().is_none(), 8); ck(p, c.peek_name().is_none(), 9); ck(p, c.left_tree().is_none() & c.right_tree().is_none() & c.at_tree().is_none(), 10) }
		Some(ref m) => {
			ck(p, c.peek().map_or(false, |d| (d.v == m.v) & (d.lev == m.lev)), 11);
			ck(p, c.peek_level() == Some(m.lev), 12);
			ck(p, c.peek_name() == m.nm, 13);
			same(p, &c.at_tree(), &z.at, 20);
			same(p, &c.left_tree(), &m.l, 30);
			same(p, &c.right_tree(), &m.r, 40);
		}
	}
}
fn to_root(p: usize, c: &mut Cursor<D>, z: &mut Z) {
	for _ in 0..z.up.len() { ck(p, upres(c.up()) == z.go_up(false), 14) }
	ck(p, c.up() == UpResult::Fail, 15);
}
/// params: property, engine, nodes, names, moves (from 100 on: of moves / 100 steps), kinds of moves
/// kinds: 0 without discarding, 1 all
#[no_mangle]
pub extern "C" fn h_cursor() {
	engine(param(1));
	let (n, named, moves, kinds) = (param(2), param(3), param(4) % 100, param(5));
	let burst = if param(4) < 100 { 1 } else { param(4) / 100 };
	let m = shape(n, named, true);
	let mut c = match real(&m) { Some(t) => Cursor::from(t), None => Cursor::new() };
	let mut z = Z { at: m.clone(), up: vec![] };
	look(15, &c, &z);
	let mut copy = None;
	for i in 0..moves {
		let k = choose(if kinds == 1 { MOVES } else { 5 });
		if i + 1 == moves { copy = Some((c.clone(), z.clone())) }
		for _ in 0..burst { mv(15, k, &mut c, &mut z) }
		look(15, &c, &z);
	}
	to_root(15, &mut c, &mut z);
	// nothing is rebuilt when nothing is changed
	if kinds == 0 { ck(15, unsafe { REBUILT } == 0, 16) }
	same(15, &c.at_tree(), &z.at, 50);
	sound(15, &c.at_tree(), 60);
	// an earlier copy of the cursor still is where it was
	if let (Some((mut c, mut z)), true) = (copy, named == 0) {
		let q = or21(15);
		look(q, &c, &z);
		to_root(q, &mut c, &mut z);
		same(q, &c.at_tree(), &z.at, 70);
		reach(1);
	}
	reach(0);
}
/// checks on untouched copies also belong to property 21
pub fn or21(p: usize) -> usize { if param(0) == 21 { 21 } else { p } }
/// params: property, engine, nodes, moves before copying, moves after
/// A cursor and its clone, moved and changed each on its own
#[no_mangle]
pub extern "C" fn h_ccopy() {
	engine(param(1));
	let (n, pre, post) = (param(2), param(3), param(4));
	let m = shape(n, 0, true);
	let t = real(&m);
	let mut c = match t.clone() { Some(t) => Cursor::from(t), None => Cursor::new() };
	let mut z = Z { at: m.clone(), up: vec![] };
	for _ in 0..pre { let k = choose(MOVES); mv(21, k, &mut c, &mut z) }
	let (mut d, mut y) = (c.clone(), z.clone());
	for _ in 0..post {
		match choose(2 * MOVES) {
			k if k < MOVES => mv(21, k, &mut c, &mut z),
			k => mv(21, k - MOVES, &mut d, &mut y),
		}
	}
	look(21, &c, &z); look(21, &d, &y);
	to_root(21, &mut c, &mut z); to_root(21, &mut d, &mut y);
	same(21, &c.at_tree(), &z.at, 50); same(21, &d.at_tree(), &y.at, 60);
	same(21, &t, &m, 70);
	reach(0);
}
/// walk to a node (or an empty branch) of the tree
fn walk(p: usize, c: &mut Cursor<D>, z: &mut Z, forced: bool, discard: bool) {
	loop {
		let k = choose(3);
		if k == 2 { break }
		let f = if forced { 1 } else { 0 };
		let a = z.down(k == 1, f);
		let b = if k == 1 { c.down_right_force(if forced { Force::Yes } else { Force::No }) } else { c.down_left_force(if forced { Force::Yes } else { Force::No }) };
		ck(p, a == b, 80);
		if !a { break }
	}
	if discard {
		match choose(3) { 0 => {}, k => mv(p, k + 4, c, z) }
	}
}
fn seq(p: usize, got: &[(u64,u32,Option<Name>)], want: &[(u64,u32,Option<Name>)], id: u64) {
	ck(p, got.len() == want.len(), id);
	if got.len() != want.len() { return }
	for i in 0..got.len() { ck(p, (got[i].0 == want[i].0) & (got[i].1 == want[i].1), id + 1); ck(p, got[i].2 == want[i].2, id + 2) }
}
fn up_all(c: &mut Cursor<D>) -> Option<Tree<D>> { while c.up() != UpResult::Fail {} c.at_tree() }
/// params: property, engine, nodes, names, discards, moves before joining
#[no_mangle]
pub extern "C" fn h_split() {
	engine(param(1));
	let (n, named, discard, moves) = (param(2), param(3), param(4), param(5));
	let m = shape(n, named, true);
	let mut c = match real(&m) { Some(t) => Cursor::from(t), None => Cursor::new() };
	let mut z = Z { at: m.clone(), up: vec![] };
	walk(16, &mut c, &mut z, true, discard == 1);
	let (before, after) = z.parts();
	let keep = c.clone();
	let (mut l, at, mut r) = c.split();
	same(16, &at, &z.at, 1);
	{
		// both sides, whole
		let (mut l, mut r) = (l.clone(), r.clone());
		let (a, b) = (up_all(&mut l), up_all(&mut r));
		let (mut x, mut y) = (vec![], vec![]);
		real_inorder(&a, &mut x); real_inorder(&b, &mut y);
		seq(16, &x, &before, 10);
		seq(16, &y, &after, 15);
		sound(16, &a, 20); sound(16, &b, 25);
	}
	// move about on both sides, and join around a new node
	for _ in 0..moves {
		match choose(7) { 0 => { l.up(); } 1 => { l.down_left(); } 2 => { l.down_right(); } 3 => { r.up(); } 4 => { r.down_left(); } 5 => { r.down_right(); } _ => {} }
	}
	let (lev, nm, v) = (sym32(), fresh_name(named), sym64());
	let mut j = Cursor::join(l, lev, nm.clone(), D { v: v, size: 77, lev: 0, nm: None }, r);
	ck(16, j.peek().map_or(false, |d| d.v == v), 30);
	ck(16, j.peek_level() == Some(lev), 31);
	ck(16, j.peek_name() == nm, 32);
	let t = up_all(&mut j);
	let mut x = vec![]; real_inorder(&t, &mut x);
	let mut want = before.clone(); want.push((v, lev, nm.clone())); want.extend(after.clone());
	seq(16, &x, &want, 40);
	sound(16, &t, 50);
	if named == 0 { let q = or21(16); let mut keep = keep; to_root(q, &mut keep, &mut z.clone()); same(q, &keep.at_tree(), &z.root(), 60); reach(1) }
	reach(0);
}
/// params: property, engine, nodes left, nodes right, names
#[no_mangle]
pub extern "C" fn h_tjoin() {
	engine(param(1));
	let (n, k, named) = (param(2), param(3), param(4));
	let (a, b) = (shape(n, named, true), shape(k, named, true));
	let mut ca = match real(&a) { Some(t) => Cursor::from(t), None => Cursor::new() };
	let mut cb = match real(&b) { Some(t) => Cursor::from(t), None => Cursor::with_depth(3) };
	let (mut za, mut zb) = (Z { at: a.clone(), up: vec![] }, Z { at: b.clone(), up: vec![] });
	walk(16, &mut ca, &mut za, false, false);
	walk(16, &mut cb, &mut zb, false, false);
	let (lev, nm, v) = (sym32(), fresh_name(named), sym64());
	let mut j = Cursor::join(ca, lev, nm.clone(), D { v: v, size: 77, lev: 0, nm: None }, cb);
	ck(16, j.peek().map_or(false, |d| d.v == v), 70);
	ck(16, j.peek_level() == Some(lev), 71);
	let t = up_all(&mut j);
	let mut x = vec![]; real_inorder(&t, &mut x);
	let mut want = vec![]; inorder(&a, &mut want); want.push((v, lev, nm.clone())); inorder(&b, &mut want);
	seq(16, &x, &want, 80);
	sound(16, &t, 90);
	reach(0);
}
/// params: property, engine, nodes left, nodes right, nodes of the third, names, walks
/// A joined cursor, as it is or moved, joined once more on either side
#[no_mangle]
pub extern "C" fn h_tjoin2() {
	engine(param(1));
	let (named, walks) = (param(5), param(6));
	let (a, b, c) = (shape(param(2), named, true), shape(param(3), named, true), shape(param(4), named, true));
	let cur = |m: &MTree| match real(m) { Some(t) => Cursor::from(t), None => Cursor::new() };
	let (mut ca, mut cb) = (cur(&a), cur(&b));
	if walks > 0 {
		let (mut za, mut zb) = (Z { at: a.clone(), up: vec![] }, Z { at: b.clone(), up: vec![] });
		walk(16, &mut ca, &mut za, walks > 1, false);
		walk(16, &mut cb, &mut zb, walks > 1, false);
	}
	let (lev, nm, v) = (sym32(), fresh_name(named), sym64());
	let mut j = Cursor::join(ca, lev, nm.clone(), D { v: v, size: 77, lev: 0, nm: None }, cb);
	let mut mid = vec![]; inorder(&a, &mut mid); mid.push((v, lev, nm)); inorder(&b, &mut mid);
	match choose(6) { 0 => {} 1 => { j.up(); } 2 => { j.down_left(); } 3 => { j.down_right(); } 4 => { j.down_left_force(Force::Yes); } _ => { j.down_right_force(Force::Yes); } }
	let (lev, nm, v) = (sym32(), fresh_name(named), sym64());
	let cc = cur(&c);
	let d = D { v: v, size: 77, lev: 0, nm: None };
	let mut want = vec![];
	let mut k = if choose(2) == 0 {
		want.extend(mid); want.push((v, lev, nm.clone())); inorder(&c, &mut want);
		Cursor::join(j, lev, nm, d, cc)
	} else {
		inorder(&c, &mut want); want.push((v, lev, nm.clone())); want.extend(mid);
		Cursor::join(cc, lev, nm, d, j)
	};
	ck(16, k.peek().map_or(false, |d| d.v == v), 100);
	let t = up_all(&mut k);
	let mut x = vec![]; real_inorder(&t, &mut x);
	seq(16, &x, &want, 110);
	sound(16, &t, 120);
	reach(0);
}
/// params: property, engine, nodes, names, discards
#[no_mangle]
pub extern "C" fn h_iter() {
	engine(param(1));
	let (n, named, discard) = (param(2), param(3), param(4));
	let m = shape(n, named, true);
	let mut c = match real(&m) { Some(t) => Cursor::from(t), None => Cursor::new() };
	let mut z = Z { at: m.clone(), up: vec![] };
	walk(17, &mut c, &mut z, true, discard == 1);
	let (_, after) = z.parts();
	let (_, at, r) = c.into_iters();
	same(17, &at, &z.at, 1);
	let r2 = r.clone();
	let mut it = r.clone();
	let mut sizes = vec![];
	insizes(&m, &mut sizes);
	for (k, w) in after.iter().enumerate() {
		match it.next() {
			None => ck(17, false, 10),
			Some(d) => {
				ck(17, d.v == w.0, 11); ck(17, d.lev == w.1, 12);
				// data as it is in the tree, not made anew
				if discard == 0 { ck(17, d.size == sizes[sizes.len() - after.len() + k], 15) }
			}
		}
	}
	ck(17, it.next().is_none(), 13);
	ck(17, it.next().is_none(), 14);
	for again in 0..2 {
		let r = if again == 0 { r.clone() } else { r2.clone() };
		let f = ns(name_of_string(String::from("out")), || r.fold_out(vec![5u64], Rc::new(|mut a: Vec<u64>, d: D| { a.push(d.v); a })));
		let mut want = vec![5u64]; for w in &after { want.push(w.0) }
		same_elems(17, &f, &want, 20);
	}
	reach(0);
}
#[derive(Clone,PartialEq,Eq,Hash,Debug)]
enum Step { Start, Node(u64, u32, Option<Name>) }
fn lr_want(t: &MTree, carried: &Option<Name>, out: &mut Vec<Step>) {
	if let Some(ref t) = *t {
		if t.l.is_none() && t.r.is_none() { out.push(Step::Node(t.v, t.lev, carried.clone())); return }
		lr_want(&t.l, carried, out);
		out.push(Step::Node(t.v, t.lev, t.nm.clone()));
		lr_want(&t.r, &t.nm, out);
	}
}
fn steps(p: usize, got: &[Step], want: &[Step], id: u64) {
	ck(p, got.len() == want.len(), id);
	if got.len() != want.len() { return }
	for i in 0..got.len() { match (&got[i], &want[i]) {
		(&Step::Start, &Step::Start) => {}
		(&Step::Node(a, b, ref c), &Step::Node(d, e, ref f)) => { ck(p, (a == d) & (b == e), id + 1); ck(p, c == f, id + 2) }
		_ => ck(p, false, id + 3),
	} }
}
#[derive(Clone,PartialEq,Eq,Hash,Debug)]
struct Shape { v: u64, lev: u32, nm: Option<Name>, l: Option<Rc<Shape>>, r: Option<Rc<Shape>> }
fn same_shape(p: usize, s: &Option<Rc<Shape>>, m: &MTree, id: u64) {
	ck(p, s.is_some() == m.is_some(), id);
	if let (&Some(ref s), &Some(ref m)) = (s, m) {
		ck(p, (s.v == m.v) & (s.lev == m.lev), id + 1);
		ck(p, s.nm == m.nm, id + 2);
		same_shape(p, &s.l, &m.l, id);
		same_shape(p, &s.r, &m.r, id);
	}
}
fn mapped(m: &MTree) -> MTree { m.as_ref().map(|m| Rc::new(MT { v: m.v ^ 0xff, lev: m.lev, nm: m.nm.clone(), l: mapped(&m.l), r: mapped(&m.r) })) }
fn is_canonical(m: &MTree) -> bool {
	match *m { None => true, Some(ref t) =>
		t.l.as_ref().map_or(true, |l| l.lev < t.lev) & t.r.as_ref().map_or(true, |r| r.lev <= t.lev) & is_canonical(&t.l) & is_canonical(&t.r) }
}
/// params: property, engine, nodes, names
#[no_mangle]
pub extern "C" fn h_ltree() {
	engine(param(1));
	let (n, named) = (param(2), param(3));
	let m = shape(n, named, false);
	let t = match real(&m) { Some(t) => t, None => { reach(0); return } };
	ck(18, t.level() == m.as_ref().unwrap().lev, 1);
	same(18, &Some(t.clone()), &m, 2);
	for again in 0..2 {
		let s = ns(name_of_string(String::from("u1")), || t.clone().fold_up_meta(Rc::new(|l: Option<Rc<Shape>>, d: D, lev, nm, r: Option<Rc<Shape>>| Rc::new(Shape { v: d.v, lev: lev, nm: nm, l: l, r: r }))));
		same_shape(18, &Some(s), &m, 10);
		let v = ns(name_of_string(String::from("u2")), || t.clone().fold_up(Rc::new(|l: Option<Vec<u64>>, d: D, r: Option<Vec<u64>>| { let mut v = l.unwrap_or(vec![]); v.push(d.v); v.extend(r.unwrap_or(vec![])); v })));
		let mut io = vec![]; inorder(&m, &mut io);
		let vs: Vec<u64> = io.iter().map(|x| x.0).collect();
		same_elems(18, &v, &vs, 14);
		let f = ns(name_of_string(String::from("u3")), || t.clone().fold_lr(vec![9u64], Rc::new(|mut a: Vec<u64>, d: D| { a.push(d.v); a })));
		let mut w = vec![9u64]; w.extend(vs.clone());
		same_elems(18, &f, &w, 17);
		let start = if again == 0 { Some(name_of_string(String::from("begin"))) } else { None };
		let g = ns(name_pair(name_of_string(String::from("u4")), name_of_usize(again)), || t.clone().fold_lr_meta(start.clone(), vec![Step::Start], Rc::new(|mut a: Vec<Step>, d: D, lev, nm| { a.push(Step::Node(d.v, lev, nm)); a })));
		let mut w = vec![Step::Start]; lr_want(&m, &start, &mut w);
		steps(18, &g, &w, 20);
		let mp = ns(name_of_string(String::from("u5")), || t.clone().map(Rc::new(|d: D, lev, nm: Option<Name>, l: Option<&Tree<D>>, r: Option<&Tree<D>>|
			D { v: d.v ^ 0xff, size: 1 + l.map_or(0, |t| t.peek().size) + r.map_or(0, |t| t.peek().size), lev: lev, nm: nm })));
		same(18, &Some(mp), &mapped(&m), 30);
	}
	// the source is unchanged
	same(18, &Some(t.clone()), &m, 40);
	reach(0);
}
fn any_level(t: &MTree, k: usize) -> MTree {
	t.as_ref().map(|t| { let n = msize(&t.l); Rc::new(MT { v: t.v, nm: t.nm.clone(), lev: if k == n { sym32() } else { t.lev },
		l: if k < n { any_level(&t.l, k) } else { t.l.clone() }, r: if k > n { any_level(&t.r, k - n - 1) } else { t.r.clone() } }) })
}
/// params: property, engine, nodes: the level check accepts exactly the canonical trees
#[no_mangle]
pub extern "C" fn h_good_levels() {
	engine(param(1));
	let m = shape(param(2), 0, false);
	// in a large tree, one node has any level
	let m = if param(2) < 100 { m } else { any_level(&m, choose(pat(param(2)).1)) };
	let t = match real(&m) { Some(t) => t, None => { reach(0); return } };
	let want = is_canonical(&m);
	let got = good_levels(&t);
	ck(18, got == want, 50);
	if got { reach(1) } else { reach(2) }
	reach(0);
}
