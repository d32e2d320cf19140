//! Metadata of the user's own: recorded as a term, so that everything it is made from shows.
use api::*;
use model::*;
use adapton::engine::*;
use iodyn::raz::*;
use iodyn::raz_meta::*;
use iodyn::archive_stack::*;
use iodyn::memo::MemoFrom;
use std::rc::Rc;
use std::cell::{Cell,RefCell};
use std::hash::{Hash,Hasher};

#[derive(Clone,PartialEq,Eq,Debug)]
pub enum Term { Nothing(u32,Option<Name>), Elems(Vec<u64>,u32,Option<Name>), Both(Rc<Term>,Rc<Term>,u32,Option<Name>) }
use self::Term::*;
impl Hash for Term { fn hash<H:Hasher>(&self, _s: &mut H) {} }

/// a place on the way: so many of the script's turns taken
#[derive(Clone,PartialEq,Eq,Debug,Hash)]
pub enum Turn { First, Last, At(usize) }
impl FirstLast for Turn { fn first() -> Self { Turn::First } fn last() -> Self { Turn::Last } }

#[derive(Clone,Copy,PartialEq)]
enum Way { L, R, Here, Nowhere }
thread_local! {
	static SCRIPT: RefCell<Vec<Way>> = RefCell::new(vec![]);
	static ROOT: RefCell<Option<Node>> = RefCell::new(None);
	static SPLIT: Cell<usize> = Cell::new(0);
}
/// the node `k` turns down
fn node_at(k: usize) -> Node {
	let mut n = ROOT.with(|r| r.borrow().clone().unwrap());
	for j in 0..k {
		let w = SCRIPT.with(|s| s.borrow()[j]);
		n = match n { Node::Bin(l, _, _, r) => if w == Way::L { (*l).clone() } else { (*r).clone() }, n => n };
	}
	n
}
impl RazMeta<u64> for Term {
	type Index = Turn;
	fn from_none(lev: u32, n: Option<Name>) -> Self { Nothing(lev, n) }
	fn from_vec(vec: &Vec<u64>, lev: u32, n: Option<Name>) -> Self { Elems(vec.clone(), lev, n) }
	fn from_meta(l: &Self, r: &Self, lev: u32, n: Option<Name>) -> Self { Both(Rc::new(l.clone()), Rc::new(r.clone()), lev, n) }
	fn navigate(l: &Self, r: &Self, index: &Turn) -> Navigation<Turn> {
		match *index {
			Turn::First => Navigation::Left(Turn::First),
			Turn::Last => Navigation::Right(Turn::Last),
			Turn::At(k) => {
				match node_at(k) {
					Node::Bin(ref a, lev, ref nm, ref b) => {
						ck(27, *l == of_child(a, lev, nm), 40);
						ck(27, *r == of_child(b, lev, nm), 41);
					}
					_ => ck(27, false, 42),
				}
				match SCRIPT.with(|s| s.borrow().get(k).cloned()) {
					Some(Way::L) => Navigation::Left(Turn::At(k + 1)),
					Some(Way::R) => Navigation::Right(Turn::At(k + 1)),
					Some(Way::Here) => Navigation::Here,
					_ => Navigation::Nowhere,
				}
			}
		}
	}
	fn split_vec<'a>(vec: &'a Vec<u64>, index: &Turn) -> (&'a [u64],&'a [u64]) {
		match *index {
			Turn::First => vec.split_at(0),
			Turn::Last => vec.split_at(vec.len()),
			Turn::At(k) => {
				ck(27, k == SCRIPT.with(|s| s.borrow().len()), 43);
				vec.split_at(SPLIT.with(|s| s.get()))
			}
		}
	}
}
/// what a node of level `lev` and name `n` records about its branch `c`
fn of_child(c: &Node, lev: u32, n: &Option<Name>) -> Term {
	match *c {
		Node::Leaf(ref v) => Elems(v.clone(), lev, n.clone()),
		Node::Bin(ref a, l2, ref n2, ref b) => Both(Rc::new(of_child(a, l2, n2)), Rc::new(of_child(b, l2, n2)), lev, n.clone()),
	}
}
fn of_tree(c: Option<&Node>) -> Term { match c { None => Nothing(0, None), Some(c) => of_child(c, 0, &None) } }
fn shown(t: &RazTree<u64,Term>, id: u64) -> Vec<Item> {
	let node = node_of(t);
	ck(27, *t.meta() == of_tree(node.as_ref()), id);
	let mut got = vec![];
	if let Some(ref n) = node { flatten(n, &mut got) }
	got
}
fn around(items: &[Item], i: usize) -> Model {
	let mut r: Vec<Item> = items[i..].to_vec(); r.reverse();
	Model { l: items[..i].to_vec(), r: r }
}
/// follow the user's navigation: any way down; the place among the items it leads to, if any
fn travel(t: &RazTree<u64,Term>) -> (Option<Raz<u64,Term>>, Option<usize>) {
	let root = node_of(t);
	ROOT.with(|r| *r.borrow_mut() = root.clone());
	let mut script = vec![];
	let mut before = 0;
	let count = |n: &Node| { let mut v = vec![]; flatten(n, &mut v); v.len() };
	let mut n = root;
	let mut to = None;
	SPLIT.with(|s| s.set(0));
	loop {
		match n.take() {
			None => { to = Some(0); break }
			Some(Node::Leaf(v)) => { let k = place(v.len()); SPLIT.with(|s| s.set(k)); to = Some(before + k); break }
			Some(Node::Bin(l, _, _, r)) => match choose(4) {
				0 => { script.push(Way::L); n = Some((*l).clone()) }
				1 => { script.push(Way::R); before += count(&l) + 1; n = Some((*r).clone()) }
				2 => { script.push(Way::Here); to = Some(before + count(&l)); break }
				_ => { script.push(Way::Nowhere); break }
			}
		}
	}
	SCRIPT.with(|s| *s.borrow_mut() = script);
	(t.clone().focus(Turn::At(0)), to)
}

/// params: property, engine, segments, segment size, names, operations, source (0 edited, 1 joined,
/// 2 mapped, 3 converted, 4 from a vector), operations after
/// Metadata of a tree made in any way is made from exactly the tree; focusing follows `navigate`.
#[no_mangle]
pub extern "C" fn h_meta() {
	engine(param(1));
	let (seg, size, named, ops, source, after) = (param(2), param(3), param(4), param(5), param(6), param(7));
	let (t, items): (RazTree<u64,Term>, Vec<Item>) = match source {
		1 => {
			let (a, mut ia): (RazTree<u64,Term>, _) = tree(seg, size, named);
			let (b, ib): (RazTree<u64,Term>, _) = tree(seg, size, named);
			let l = sym_level();
			for i in &ia { if let A(k, _) = *i { assume(k < l) } }
			for i in &ib { if let A(k, _) = *i { assume(k <= l) } }
			let n = fresh_name(named);
			ia.push(A(l, n.clone())); ia.extend(ib);
			match RazTree::join(a, l, n, b) { Some(t) => (t, ia), None => { ck(27, false, 1); return } }
		}
		3 => {
			let (pat, seg) = pat(seg);
			let mut s: AStack<u64,u32> = AStack::new();
			let mut items: Vec<Item> = vec![];
			for k in 0..seg {
				if k > 0 { let (l, n) = (pat_level(pat, k, seg), fresh_name(named)); items.push(Item::A(l, n.clone())); s.archive(n, l); }
				for _ in 0..seg_size(size, k) { let e = sym64(); s.push(e); items.push(E(e)) }
			}
			let head = choose(2) == 1;
			if head { items.reverse() }
			(ns(name_of_string(String::from("memo")), || if head { RazTree::memo_from(&AtHead(s)) } else { RazTree::memo_from(&AtTail(s)) }), items)
		}
		4 => {
			let v: Vec<u64> = (0..size).map(|_| sym64()).collect();
			let items = v.iter().map(|e| E(*e)).collect();
			match RazTree::from_vec(v) { Some(t) => (t, items), None => { ck(27, size == 0, 2); (RazTree::empty(), vec![]) } }
		}
		_ => tree(seg, size, named),
	};
	let (t, items) = if source == 2 {
		let m: RazTree<u64,Term> = ns(name_of_string(String::from("mapped")), || t.map(Rc::new(|e: &u64| e.wrapping_add(5))));
		(m, items.into_iter().map(|i| match i { E(e) => E(e.wrapping_add(5)), a => a }).collect())
	} else { (t, items) };
	let got = shown(&t, 30);
	same_elems(27, &elems(&got), &elems(&items), 31);
	if ops == 0 && after == 0 { reach(0); return }
	// anywhere the user says
	fresh_ns(|| {
		let (r, to) = travel(&t);
		ck(27, r.is_some() == to.is_some(), 10);
		let (mut r, i) = match (r, to) { (Some(r), Some(i)) => (r, i), _ => { reach(1); return } };
		let mut m = around(&got, i);
		ck(27, r.peek_left() == m.peek_l(), 11);
		ck(27, r.peek_right() == m.peek_r(), 12);
		edits(27, ops, &mut r, &mut m, named, 0);
		let t = r.unfocus();
		let got = shown(&t, 13);
		same_elems(27, &elems(&got), &m.elems(), 14);
		if after == 0 { reach(0); return }
		let (r, to) = travel(&t);
		ck(27, r.is_some() == to.is_some(), 20);
		let (mut r, i) = match (r, to) { (Some(r), Some(i)) => (r, i), _ => { reach(1); return } };
		let mut m = around(&got, i);
		edits(27, after, &mut r, &mut m, named, 0);
		let t = r.unfocus();
		let got = shown(&t, 23);
		same_elems(27, &elems(&got), &m.elems(), 24);
		reach(0);
	})
}
