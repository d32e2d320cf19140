//! Incremental runs under the dependency-graph engine.
use api::*;
use model::*;
use raz::*;
use adapton::engine::*;
use iodyn::raz::*;
use iodyn::raz_meta::*;
use iodyn::archive_stack::*;
use iodyn::memo::MemoFrom;
use std::rc::Rc;
use std::cell::Cell;

fn space<R, F: FnOnce() -> R>(s: &str, f: F) -> R { ns(name_of_string(String::from(s)), f) }
fn cat(mut a: Vec<u64>, b: Vec<u64>) -> Vec<u64> { a.extend(b); a }
fn mapf(e: u64) -> u64 { e.rotate_left(9).wrapping_add(5) }
type T = RazTree<u64,Count>;

/// what a stack holds after elements and archives are put on it in the order of `items`
fn stacked(items: &[Item], keep: &Fn(u64) -> bool) -> Vec<Item> {
	let mut v: Vec<Item> = vec![];
	for i in items {
		match *i {
			E(e) => if keep(e) { v.push(E(e)) },
			A(l, ref n) => { let full = match v.last() { Some(&E(_)) => true, _ => false }; if full { v.push(A(l, n.clone())) } }
		}
	}
	v
}
fn full_stack(t: &T) -> AStack<u64,u32> {
	t.clone().fold_lr_meta(AStack::new(), Rc::new(|mut s: AStack<u64,u32>, e: &u64| { s.push(*e); s }), Rc::new(|mut s: AStack<u64,u32>, (l, n)| { s.archive(n, l); s }))
}
fn odd_stack(t: &T) -> AStack<u64,u32> {
	t.clone().fold_lr_meta(AStack::new(), Rc::new(|mut s: AStack<u64,u32>, e: &u64| { if *e & 1 == 1 { s.push(*e) } s }), Rc::new(|mut s: AStack<u64,u32>, (l, n)| { s.archive(n, l); s }))
}
pub const COMPS: usize = 13;
/// run computation `c` on `t` in its namespace; compare with a run on `items` from scratch
pub fn compute(p: usize, c: usize, t: &T, items: &[Item]) {
	let es = elems(items);
	match c {
		0 => {
			let a = space("c0", || t.clone().fold_up(Rc::new(|e: &u64| vec![*e]), Rc::new(cat)));
			ck(p, a.is_some() == !es.is_empty(), 1);
			same_elems(p, &a.unwrap_or(vec![]), &es, 2);
		}
		1 => {
			let b = space("c1", || t.clone().fold_up_nl(
				Rc::new(|e: &u64| vec![E(*e)]), Rc::new(|mut a: Vec<Item>, b: Vec<Item>| { a.extend(b); a }),
				Rc::new(|mut a: Vec<Item>, l, n, b: Vec<Item>| { a.push(A(l, n)); a.extend(b); a })));
			ck(p, b.is_some() == !es.is_empty(), 4);
			exact(p, &b.unwrap_or(vec![]), items, 5);
		}
		2 => {
			let c = space("c2", || t.clone().fold_up_gauged(
				Rc::new(|v: &Vec<u64>| Node::Leaf(v.clone())),
				Rc::new(|l: Node, lev: u32, n: Option<Name>, r: Node| Node::Bin(Rc::new(l), lev, n, Rc::new(r)))));
			ck(p, c.is_some() == !es.is_empty(), 10);
			let mut got = vec![]; if let Some(c) = c { flatten(&c, &mut got) }
			exact(p, &got, items, 11);
		}
		3 => {
			let a = space("c3", || t.clone().fold_lr(vec![], Rc::new(|mut a: Vec<u64>, e: &u64| { a.push(*e); a })));
			same_elems(p, &a, &es, 16);
		}
		4 => { let b = space("c4", || run_lr(t)); toks(p, &b, &want_lr(items), 18) }
		5 => { let c = space("c5", || run_archive(t)); toks(p, &c, &want_archive(items), 25) }
		6 => {
			let m: T = space("c6", || t.clone().map(Rc::new(|e: &u64| mapf(*e))));
			let want: Vec<Item> = items.iter().map(|i| match *i { E(e) => E(mapf(e)), ref a => a.clone() }).collect();
			exact(p, &items_of(&m), &want, 32);
			ck(p, m.meta().0 == es.len(), 37);
		}
		// results that often do not change when the elements do
		7 => {
			let a = space("c7", || t.clone().fold_up(Rc::new(|e: &u64| *e), Rc::new(|a: u64, b: u64| if a < b { b } else { a })));
			ck(p, a == es.iter().cloned().max(), 40);
		}
		8 => {
			let a = space("c8", || t.clone().fold_up(Rc::new(|e: &u64| *e & 1), Rc::new(|a: u64, b: u64| a ^ b)));
			ck(p, a.unwrap_or(0) == es.iter().fold(0, |a, e| a ^ (e & 1)), 41);
		}
		// through an archive stack to another tree, and a fold of that
		9 | 10 | 11 => {
			let s = space("c9s", || if c == 11 { odd_stack(t) } else { full_stack(t) });
			let t2: T = space("c9t", || if c == 10 { RazTree::memo_from(&AtHead(s)) } else { RazTree::memo_from(&AtTail(s)) });
			let mut want = if c == 11 { stacked(items, &|e| e & 1 == 1) } else { stacked(items, &|_| true) };
			let trail = match want.last() { Some(&A(..)) => true, _ => false };
			if trail { want.pop(); }
			if c == 10 { want.reverse() }
			exact(p, &items_of(&t2), &want, 42);
			ck(p, t2.meta().0 == elems(&want).len(), 47);
			let f = space("c9f", || run_lr(&t2));
			toks(p, &f, &want_lr(&want), 48);
			let u = space("c9u", || t2.clone().fold_up(Rc::new(|e: &u64| vec![*e]), Rc::new(cat)));
			same_elems(p, &u.unwrap_or(vec![]), &elems(&want), 56);
		}
		// a tree built by the fold itself: the sequence reversed
		_ => {
			let r: Option<T> = space("c12", || t.clone().fold_up_gauged(
				Rc::new(|v: &Vec<u64>| { let mut v = v.clone(); v.reverse(); match RazTree::from_vec(v) { Some(t) => t, None => RazTree::empty() } }),
				Rc::new(|a: T, l: u32, n: Option<Name>, b: T| space("c12r", || RazTree::join(b, l, n, a).unwrap()))));
			let mut want = es.clone(); want.reverse();
			match r { Some(r) => { same_elems(p, &elems(&items_of(&r)), &want, 60); ck(p, r.meta().0 == want.len(), 62) } None => ck(p, want.is_empty(), 63) }
		}
	}
}
/// any place, or with `few` one of seven
fn place(n: usize, few: bool) -> usize { if few && n > 7 || n > 200 { choose(7) * (n - 1) / 6 } else { choose(n) } }
fn edit(t: T, items: &[Item], ops: usize, named: usize, few: bool) -> (T, Vec<Item>) {
	let n = elems(items).len();
	let i = place(n + 1, few);
	let mut r = match t.focus(i) { Some(r) => r, None => { ck(3, false, 1); return tree(0, 0, 0) } };
	let mut m = Model::at(items, i);
	edits(1, ops, &mut r, &mut m, named, 0);
	let t = r.unfocus();
	let items = settle(&t, &m.items());
	(t, items)
}
/// replace one element by an arbitrary value
fn replace(t: T, items: &[Item], few: bool) -> (T, Vec<Item>) {
	let n = elems(items).len();
	let i = place(n, few);
	let mut r = match t.focus(i) { Some(r) => r, None => { ck(3, false, 1); return tree(0, 0, 0) } };
	let mut m = Model::at(items, i);
	let e = sym64();
	ck(1, r.pop_right() == m.r.iter().rev().filter_map(|i| match *i { E(e) => Some(e), _ => None }).next(), 6);
	let mut k = m.r.len(); loop { k -= 1; if let E(_) = m.r[k] { m.r[k] = E(e); break } }
	r.push_right(e);
	// archive points passed over by the pop are gone
	m.r.truncate(k + 1);
	let t = r.unfocus();
	let items = settle(&t, &m.items());
	(t, items)
}

/// params: property, computation, segments, segment size, names, operations, rounds, kind of edit
/// (0 any operations, 1 replacement of one element)
#[no_mangle]
pub extern "C" fn h_inc() {
	engine(1);
	let (c, seg, size, named, ops, rounds, kind) = (param(1), param(2), param(3), param(4), param(5), param(6), param(7));
	let (mut t, mut items): (T, _) = tree(seg, size, named);
	compute(11, c, &t, &items);
	for _ in 0..rounds {
		let (t2, i2) = if kind == 1 { replace(t, &items, seg >= 100 && rounds > 1) } else { edit(t, &items, ops, named, seg >= 100 && rounds > 1) };
		t = t2; items = i2;
		compute(11, c, &t, &items);
		observe(elems(&items).len() as u64);
	}
	reach(0);
}

/// an archive stack converted, changed, and converted again
/// params: property, segments, segment size, names, pops, pushes, direction
#[no_mangle]
pub extern "C" fn h_inc_stack() {
	engine(1);
	let (seg, size, named, pops, head) = (param(1), param(2), param(3), param(4), param(5));
	let mut s: AStack<u64,u32> = AStack::new();
	let mut items = vec![];
	let (pat, seg) = pat(seg);
	for k in 0..seg {
		for _ in 0..seg_size(size, k) { let e = sym64(); s.push(e); items.push(E(e)) }
		if k + 1 < seg { let (l, n) = (pat_level(pat, k + 1, seg), fresh_name(named)); items.push(A(l, n.clone())); s.archive(n, l) ; }
	}
	for round in 0..3 {
		let t: T = space("conv", || if head == 1 { RazTree::memo_from(&AtHead(s.clone())) } else { RazTree::memo_from(&AtTail(s.clone())) });
		let mut want = items.clone();
		let trail = match want.last() { Some(&A(..)) => true, _ => false };
		if trail { want.pop(); }
		if head == 1 { want.reverse() }
		exact(11, &items_of(&t), &want, 70);
		ck(11, t.meta().0 == elems(&want).len(), 75);
		let f = space("convf", || run_lr(&t));
		toks(11, &f, &want_lr(&want), 76);
		if round == 2 { break }
		for _ in 0..choose(pops + 1) {
			let e = s.pop();
			let mut w = None;
			while let Some(i) = items.pop() { if let E(x) = i { w = Some(x); break } }
			ck(13, e == w, 1);
		}
		for _ in 0..choose(3) { let e = sym64(); s.push(e); items.push(E(e)) }
		let full = match items.last() { Some(&E(_)) => true, _ => false };
		if full && choose(2) == 1 { let (l, n) = (sym_level(), fresh_name(named)); items.push(A(l, n.clone())); s.archive(n, l); }
	}
	reach(0);
}

/// runs of elements with the archive points around them
/// (names first: they differ, which saves comparing the rest)
type Bound = Option<(Option<Name>,u32)>;
fn bounded(items: &[Item]) -> Vec<((Bound, Bound), Vec<u64>)> {
	let mut v = vec![]; let mut left = None; let mut cur = vec![];
	for i in items { match *i {
		E(e) => cur.push(e),
		A(l, ref n) => { let here = Some((n.clone(), l)); v.push(((left, here.clone()), cur)); cur = vec![]; left = here }
	} }
	v.push(((left, None), cur));
	v
}
/// number of elements in runs of `new` not found in `old`, and number from the first such run on
fn touched(old: &[Item], new: &[Item]) -> (usize, usize) {
	let (o, n) = (bounded(old), bounded(new));
	let (mut some, mut from, mut seen) = (0, 0, false);
	for r in &n {
		let same = o.iter().any(|q| q == r);
		if !same { seen = true; some += r.1.len() }
		if seen { from += r.1.len() }
	}
	(some, from)
}
/// params: property, segments, segment size, operations, kind of edit
/// All archive points named: work of a second and third run.
#[no_mangle]
pub extern "C" fn h_reuse() {
	engine(1);
	let (seg, size, ops, kind) = (param(1), param(2), param(3), param(4));
	let (mut t, mut items): (T, _) = tree(seg, size, 1);
	let calls: Vec<Rc<Cell<usize>>> = (0..4).map(|_| Rc::new(Cell::new(0))).collect();
	let count = |k: usize| { let c = calls[k].clone(); move || c.set(c.get() + 1) };
	let run = |t: &T| {
		let c = count(0);
		let a = space("r0", || t.clone().fold_up(Rc::new(move |e: &u64| { c(); vec![*e] }), Rc::new(cat)));
		let c = count(1);
		let b = space("r1", || t.clone().fold_lr(vec![], Rc::new(move |mut a: Vec<u64>, e: &u64| { c(); a.push(*e); a })));
		let c = count(2);
		let m: T = space("r2", || t.clone().map(Rc::new(move |e: &u64| { c(); mapf(*e) })));
		let c = count(3);
		let d = space("r3", || t.clone().fold_lr_archive(vec![], Rc::new(move |mut a: Vec<u64>, e: &u64| { c(); a.push(*e); a }), Rc::new(|a, _| a), Rc::new(|a, _| a)));
		(a, b, d, m.meta().0)
	};
	let take = || { let v: Vec<usize> = calls.iter().map(|c| c.get()).collect(); for c in &calls { c.set(0) } v };
	let first = run(&t);
	let total = elems(&items).len();
	// each element once
	for n in take() { ck(12, n == total, 1) }
	ck(11, first.3 == total, 80);
	// nothing changed: nothing is done again
	let again = run(&t);
	for n in take() { ck(12, n == 0, 2) }
	ck(11, again == first, 81);
	for _ in 0..2 {
		let (t2, i2) = if kind == 1 { replace(t, &items, seg >= 100) } else { edit(t, &items, ops, 1, seg >= 100) };
		let (some, from) = touched(&items, &i2);
		let few = i2.iter().all(|i| match *i { A(..) => false, _ => true });
		t = t2; items = i2;
		let _ = run(&t);
		let n = take();
		observe(n[0] as u64);
		// with no archive point left there is nothing to attach results to
		if few { reach(1); continue }
		ck(12, n[0] <= some, 3);
		ck(12, n[1] <= from, 4);
		ck(12, n[2] <= some, 5);
		ck(12, n[3] <= from, 6);
		if some < from { reach(2) }
		if some < elems(&items).len() { reach(3) }
	}
	reach(0);
}
