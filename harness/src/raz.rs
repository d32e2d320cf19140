//! Sequences: cursors, trees, folds.
use api::*;
use model::*;
use adapton::engine::*;
use iodyn::raz::*;
use iodyn::raz_meta::*;
use iodyn::archive_stack::*;
use iodyn::memo::MemoFrom;
use std::rc::Rc;
use std::cell::Cell;

/// observe a tree made by editing and compare with the model; gives back its items
pub fn settle<M: RazMeta<u64>>(t: &RazTree<u64,M>, want: &[Item]) -> Vec<Item> {
	let node = node_of(t);
	let mut got = vec![];
	if let Some(ref n) = node { flatten(n, &mut got); canonical(n, 5, 1) }
	if param(0) == 5 {
		// the structure has a node for each place where archive points were made
		let count = |v: &[Item]| { let (mut n, mut seen, mut arch) = (0, false, false);
			for i in v { match *i { E(_) => { if seen && arch { n += 1 } seen = true; arch = false } A(..) => arch = true } } n };
		ck(5, got.iter().filter(|i| match **i { A(..) => true, _ => false }).count() == count(want), 40);
	}
	same_items(2, 4, &got, want, 10);
	ck(2, t.is_empty() == elems(want).is_empty(), 20);
	got
}
/// empty the cursor on both sides and compare with the model
pub fn drain<M: RazMeta<u64>>(p: usize, r: &mut Raz<u64,M>, m: &Model, id: u64) {
	let (l, rr) = (elems(&m.l), elems(&m.r));
	let left = choose(2) == 0;
	for side in 0..2 {
		if (side == 0) == left {
			for e in l.iter().rev() { ck(p, r.pop_left() == Some(*e), id) }
			ck(p, r.pop_left() == None, id + 1);
		} else {
			for e in rr.iter().rev() { ck(p, r.pop_right() == Some(*e), id + 2) }
			ck(p, r.pop_right() == None, id + 3);
		}
	}
}

/// params: property, engine, segments, segment size, names, operations, peek, rounds
/// A tree with archive points of arbitrary levels is focused at every position, edited with every
/// sequence of operations, unfocused, and observed.
#[no_mangle]
pub extern "C" fn h_edit() {
	engine(param(1));
	let (seg, size, named, ops, peek, rounds) = (param(2), param(3), param(4), param(5), param(6), param(7));
	let (mut t, mut items): (RazTree<u64,Count>, _) = tree(seg, size, named);
	for _round in 0..rounds {
		let n = elems(&items).len();
		// anywhere; in several rounds on a large tree, in one of five places
		let i = if seg < 100 || rounds == 1 { place(n) } else { choose(5) * n / 4 };
		let mut r = match t.focus(i) { Some(r) => r, None => { ck(3, false, 1); return } };
		let mut m = Model::at(&items, i);
		if n > 0 && peek > 0 {
			ck(3, r.peek_left() == m.peek_l(), 2);
			ck(3, r.peek_right() == m.peek_r(), 3);
		}
		edits(1, ops, &mut r, &mut m, named, peek);
		t = r.unfocus();
		let want = m.items();
		let got = settle(&t, &want);
		ck(6, t.meta().0 == elems(&got).len(), 1);
		ck(6, t.meta().0 == elems(&want).len(), 2);
		items = got;
		observe(elems(&items).len() as u64);
	}
	reach(0);
}

/// params: property, engine, segments, segment size, names, operations
/// As h_edit, but the cursor is emptied on both sides instead of being unfocused: every element
/// reachable from the cursor is compared.
#[no_mangle]
pub extern "C" fn h_drain() {
	engine(param(1));
	let (seg, size, named, ops) = (param(2), param(3), param(4), param(5));
	let (t, items): (RazTree<u64,Count>, _) = tree(seg, size, named);
	let n = elems(&items).len();
	let i = place(n);
	let mut r = match t.focus(i) { Some(r) => r, None => { ck(3, false, 1); return } };
	let mut m = Model::at(&items, i);
	edits(1, ops, &mut r, &mut m, named, 0);
	drain(1, &mut r, &m, 10);
	reach(0);
}

/// params: property, engine, segments, largest segment size, names
/// An arbitrary 64-bit index into a tree of arbitrary shape and leaf sizes.
#[no_mangle]
pub extern "C" fn h_focus() {
	engine(param(1));
	let (seg, size, named) = (param(2), param(3), param(4));
	let mut r: Raz<u64,Count> = Raz::new();
	let mut items = vec![];
	let (pat, seg) = pat(seg);
	for s in 0..seg {
		if s > 0 { let (l, n) = (pat_level(pat, s, seg), fresh_name(named)); items.push(A(l, tree_name(&n))); r.archive_left(l, n); }
		for _ in 0..if size > 1000 { seg_size(size, s) } else { 1 + choose(size) } { let e = sym64(); items.push(E(e)); r.push_left(e); }
	}
	let t = r.unfocus();
	let n = elems(&items).len();
	if choose(8) == 0 {
		let mut r = t.focus_left();
		let m = Model::at(&items, 0);
		drain(3, &mut r, &m, 20);
		reach(1);
		return
	}
	let i = sym64() as usize;
	if i > n && i != usize::max_value() {
		if seg == 0 { ck(3, t.focus(i).is_some(), 4); reach(2); return }
		if seg == 1 { expect_panic(true) }
		let r = t.focus(i);
		ck(3, r.is_none(), 5);
		reach(2);
		return
	}
	let r = t.focus(i);
	ck(3, r.is_some(), 6);
	let mut r = match r { Some(r) => r, None => return };
	let k = if i == usize::max_value() { reach(3); n } else { concretize(i as u64) as usize };
	let m = Model::at(&items, k);
	ck(3, r.peek_left() == m.peek_l(), 7);
	ck(3, r.peek_right() == m.peek_r(), 8);
	drain(3, &mut r, &m, 24);
	observe(k as u64);
	reach(0);
}

/// params: property, segments, segment size, operations
/// Leaves longer than the capacity the cursor reserves.
#[no_mangle]
pub extern "C" fn h_big() {
	let (seg, size, ops) = (param(1), param(2), param(3));
	let (t, items): (RazTree<u64,Count>, _) = tree(seg, size, 1);
	ck(6, t.meta().0 == seg * size, 3);
	let n = seg * size;
	let near = [0, 1, size - 1, size, size + 1, n / 2, n - size, n - 1, n];
	let i = near[choose(near.len())];
	let mut r = match t.focus(i) { Some(r) => r, None => { ck(3, false, 1); return } };
	let mut m = Model::at(&items, i);
	ck(3, r.peek_left() == m.peek_l(), 2);
	ck(3, r.peek_right() == m.peek_r(), 3);
	edits(1, ops, &mut r, &mut m, 0, 0);
	let c = r.clone();
	let t = r.unfocus();
	let want = m.items();
	let got = settle(&t, &want);
	ck(6, t.meta().0 == elems(&got).len(), 1);
	if sel() == 1 { let mut c = c; drain(1, &mut c, &m, 30) }
	reach(0);
}

/// params: property, engine, segments, segment size, names (1 all, 2 some), operations
#[no_mangle]
pub extern "C" fn h_names() {
	engine(param(1));
	let (seg, size, named, ops) = (param(2), param(3), param(4), param(5));
	let (mut t, mut items): (RazTree<u64,Names>, _) = tree(seg, size, named);
	for round in 0..2 {
		let points: Vec<(usize, Name)> = items.iter().enumerate().filter_map(|(j, i)| match *i { A(_, Some(ref n)) => Some((j, n.clone())), _ => None }).collect();
		let any = items.iter().any(|i| match *i { A(..) => true, _ => false });
		let n = elems(&items).len();
		let w = choose(points.len() + 3);
		let (r, k) = if w < points.len() {
			(t.focus(points[w].1.clone()), elems(&items[..points[w].0]).len())
		} else if w == points.len() { (t.focus(Position::Left), 0) }
		else if w == points.len() + 1 { (t.focus(Position::Right), n) }
		else {
			// a name the tree does not have: the name given to archive, not the one in the tree
			if any { ck(7, t.focus(name_of_usize(77777)).is_none(), 1); reach(1) }
			return
		};
		ck(7, r.is_some(), 2);
		let mut r = match r { Some(r) => r, None => return };
		let mut m = Model::at(&items, k);
		ck(7, r.peek_left() == m.peek_l(), 3);
		ck(7, r.peek_right() == m.peek_r(), 4);
		if round == 1 { drain(7, &mut r, &m, 10); reach(0); return }
		edits(1, ops, &mut r, &mut m, named, 0);
		t = r.unfocus();
		items = settle(&t, &m.items());
	}
}

fn cat(mut a: Vec<u64>, b: Vec<u64>) -> Vec<u64> { a.extend(b); a }
/// A tree made by a conversion or a map reuses the names of its source, so it is edited in a
/// namespace of its own (the library's rule for names under the dependency-graph engine).
fn apart<R, F: FnOnce() -> R>(k: usize, f: F) -> R { ns(name_pair(name_of_string(String::from("apart")), name_of_usize(k)), f) }
/// exact comparison of items
pub fn exact(p: usize, got: &[Item], want: &[Item], id: u64) {
	ck(p, got.len() == want.len(), id);
	if got.len() != want.len() { return }
	for i in 0..got.len() {
		match (&got[i], &want[i]) {
			(&E(a), &E(b)) => ck(p, a == b, id + 1),
			(&A(l, ref n), &A(k, ref m)) => { ck(p, l == k, id + 2); ck(p, n == m, id + 3) },
			_ => ck(p, false, id + 4),
		}
	}
}
/// maximal runs of elements
pub fn runs(items: &[Item]) -> Vec<Vec<u64>> {
	let mut v = vec![vec![]];
	for i in items { match *i { E(e) => v.last_mut().unwrap().push(e), A(..) => v.push(vec![]) } }
	v
}
fn leaves(n: &Node, out: &mut Vec<Vec<u64>>) { match *n { Node::Leaf(ref v) => out.push(v.clone()), Node::Bin(ref l, _, _, ref r) => { leaves(l, out); leaves(r, out) } } }

/// a tree after some edits: params from 2: segments, segment size, names, operations
fn edited() -> (RazTree<u64,Count>, Vec<Item>) {
	let (seg, size, named, ops) = (param(2), param(3), param(4), param(5));
	let (t, items): (RazTree<u64,Count>, _) = tree(seg, size, named);
	if ops == 0 { return (t, items) }
	let n = elems(&items).len();
	let i = place(n);
	let mut r = match t.focus(i) { Some(r) => r, None => { ck(3, false, 1); let (t, i) = tree(0, 0, 0); return (t, i) } };
	let mut m = Model::at(&items, i);
	edits(1, ops, &mut r, &mut m, named, 0);
	let t = r.unfocus();
	let items = settle(&t, &m.items());
	(t, items)
}

/// params: property, engine, segments, segment size, names, operations
#[no_mangle]
pub extern "C" fn h_fold_up() {
	engine(param(1));
	let (t, items) = edited();
	let es = elems(&items);
	for _again in 0..2 {
		let a = ns(name_of_string(String::from("f1")), || t.clone().fold_up(Rc::new(|e: &u64| vec![*e]), Rc::new(cat)));
		ck(8, a.is_some() == !es.is_empty(), 1);
		if let Some(a) = a { same_elems(8, &a, &es, 2) }
		let b = ns(name_of_string(String::from("f2")), || t.clone().fold_up_nl(
			Rc::new(|e: &u64| vec![E(*e)]), Rc::new(|mut a: Vec<Item>, b: Vec<Item>| { a.extend(b); a }),
			Rc::new(|mut a: Vec<Item>, l, n, b: Vec<Item>| { a.push(A(l, n)); a.extend(b); a })));
		ck(8, b.is_some() == !es.is_empty(), 4);
		if let Some(b) = b { exact(8, &b, &items, 5) }
		let c = ns(name_of_string(String::from("f3")), || t.clone().fold_up_gauged(
			Rc::new(|v: &Vec<u64>| Node::Leaf(v.clone())),
			Rc::new(|l: Node, lev: u32, n: Option<Name>, r: Node| Node::Bin(Rc::new(l), lev, n, Rc::new(r)))));
		ck(8, c.is_some() == !es.is_empty(), 10);
		if let Some(c) = c {
			let mut got = vec![]; flatten(&c, &mut got);
			exact(8, &got, &items, 11);
			let mut ls = vec![]; leaves(&c, &mut ls);
			let want = runs(&items);
			ck(8, ls.len() == want.len(), 16);
			if ls.len() == want.len() { for i in 0..ls.len() { ck(8, ls[i].len() == want[i].len(), 17) } }
		}
		// a commutative fold with wrapping arithmetic
		let s = ns(name_of_string(String::from("f4")), || t.clone().fold_up(Rc::new(|e: &u64| *e), Rc::new(|a: u64, b: u64| a.wrapping_add(b))));
		ck(8, s.unwrap_or(0) == es.iter().fold(0u64, |a, b| a.wrapping_add(*b)), 18);
	}
	reach(0);
}

#[derive(Clone,PartialEq,Eq,Hash,Debug)]
pub enum Tok { Init, El(u64), Fin(Option<Name>), Lev(u32), Pt(u32, Option<Name>) }
pub fn toks(p: usize, got: &[Tok], want: &[Tok], id: u64) {
	ck(p, got.len() == want.len(), id);
	if got.len() != want.len() { return }
	for i in 0..got.len() {
		match (&got[i], &want[i]) {
			(&Tok::Init, &Tok::Init) => {},
			(&Tok::El(a), &Tok::El(b)) => ck(p, a == b, id + 1),
			(&Tok::Lev(a), &Tok::Lev(b)) => ck(p, a == b, id + 2),
			(&Tok::Fin(ref a), &Tok::Fin(ref b)) => ck(p, a == b, id + 3),
			(&Tok::Pt(l, ref a), &Tok::Pt(k, ref b)) => { ck(p, l == k, id + 4); ck(p, a == b, id + 5) },
			_ => ck(p, false, id + 6),
		}
	}
}
pub fn want_lr(items: &[Item]) -> Vec<Tok> { let mut v = vec![Tok::Init]; for i in items { v.push(match *i { E(e) => Tok::El(e), A(l, ref n) => Tok::Pt(l, n.clone()) }) } v }
pub fn want_archive(items: &[Item]) -> Vec<Tok> {
	let mut v = vec![Tok::Init];
	if items.is_empty() { return v }
	let mut name = Some(name_of_string(String::from("start")));
	for i in items { match *i { E(e) => v.push(Tok::El(e)), A(l, ref n) => { v.push(Tok::Fin(name)); v.push(Tok::Lev(l)); name = n.clone() } } }
	v.push(Tok::Fin(name));
	v
}
fn add(mut a: Vec<Tok>, t: Tok) -> Vec<Tok> { a.push(t); a }
pub fn run_lr(t: &RazTree<u64,Count>) -> Vec<Tok> { t.clone().fold_lr_meta(vec![Tok::Init], Rc::new(|a, e: &u64| add(a, Tok::El(*e))), Rc::new(|a, (l, n)| add(a, Tok::Pt(l, n)))) }
pub fn run_archive(t: &RazTree<u64,Count>) -> Vec<Tok> {
	t.clone().fold_lr_archive(vec![Tok::Init], Rc::new(|a, e: &u64| add(a, Tok::El(*e))), Rc::new(|a, n| add(a, Tok::Fin(n))), Rc::new(|a, l| add(a, Tok::Lev(l))))
}

/// params: property, engine, segments, segment size, names, operations
#[no_mangle]
pub extern "C" fn h_fold_lr() {
	engine(param(1));
	let (t, items) = edited();
	let es = elems(&items);
	for _again in 0..2 {
		let first = sym64();
		let a = ns(name_of_string(String::from("l1")), || t.clone().fold_lr(vec![first], Rc::new(|mut a: Vec<u64>, e: &u64| { a.push(*e); a })));
		let mut want = vec![first]; want.extend(es.clone());
		same_elems(9, &a, &want, 1);
		let b = ns(name_of_string(String::from("l2")), || run_lr(&t));
		toks(9, &b, &want_lr(&items), 5);
		let c = ns(name_of_string(String::from("l3")), || run_archive(&t));
		toks(9, &c, &want_archive(&items), 15);
	}
	reach(0);
}

fn mapf(e: u64) -> u64 { e.rotate_left(9).wrapping_add(5) }
/// params: property, engine, segments, segment size, names, operations, operations after
#[no_mangle]
pub extern "C" fn h_map() {
	engine(param(1));
	let (t, items) = edited();
	let after = param(6);
	let want: Vec<Item> = items.iter().map(|i| match *i { E(e) => E(mapf(e)), ref a => a.clone() }).collect();
	let calls = Rc::new(Cell::new(0));
	let c2 = calls.clone();
	let m: RazTree<u64,Count> = ns(name_of_string(String::from("map1")), || t.clone().map(Rc::new(move |e: &u64| { c2.set(c2.get() + 1); mapf(*e) })));
	ck(10, calls.get() == elems(&items).len(), 1);
	exact(10, &items_of(&m), &want, 2);
	if let Some(n) = node_of(&m) { canonical(&n, 10, 7) }
	ck(6, m.meta().0 == elems(&want).len(), 4);
	ck(10, m.meta().0 == elems(&want).len(), 10);
	// the source is unchanged
	exact(10, &items_of(&t), &items, 11);
	// other metadata: focus by name
	let nm: RazTree<u64,Names> = ns(name_of_string(String::from("map2")), || t.clone().map(Rc::new(|e: &u64| mapf(*e))));
	exact(10, &items_of(&nm), &want, 16);
	let points: Vec<(usize, Name)> = want.iter().enumerate().filter_map(|(j, i)| match *i { A(_, Some(ref n)) => Some((j, n.clone())), _ => None }).collect();
	for &(j, ref n) in &points {
		apart(1, || {
			let r = nm.clone().focus(n.clone());
			ck(10, r.is_some(), 21);
			if let Some(r) = r {
				let mm = Model::at(&want, elems(&want[..j]).len());
				ck(10, r.peek_left() == mm.peek_l(), 22);
				ck(10, r.peek_right() == mm.peek_r(), 23);
			}
		})
	}
	if after > 0 { apart(2, || {
		let n = elems(&want).len();
		let i = place(n);
		let r = m.focus(i);
		ck(10, r.is_some(), 30);
		let mut r = match r { Some(r) => r, None => return };
		let mut mm = Model::at(&want, i);
		edits(10, after, &mut r, &mut mm, param(4), 0);
		let t2 = r.unfocus();
		let w2 = mm.items();
		let got = items_of(&t2);
		same_items(10, 10, &got, &w2, 40);
		ck(10, t2.meta().0 == elems(&w2).len(), 50);
	}) }
	reach(0);
}

/// params: property, engine, segments, segment size, edits
/// Two copies of a sequence edited alternately, starting from a cursor or from a tree; unnamed.
#[no_mangle]
pub extern "C" fn h_persist() {
	engine(param(1));
	let (seg, size, ops) = (param(2), param(3), param(4));
	let (t, items): (RazTree<u64,Count>, _) = tree(seg, size, 0);
	let n = elems(&items).len();
	let i = place(n);
	let keep = t.clone();
	let mut a = match t.focus(i) { Some(r) => r, None => { ck(3, false, 1); return } };
	let mut ma = Model::at(&items, i);
	// the first edit is common, so that there are archives in the cursor itself
	let op = choose(OPS);
	step(1, op, &mut a, &mut ma, 0);
	let mut b = a.clone();
	let mut mb = ma.clone();
	for _ in 0..ops {
		let op = choose(2 * OPS);
		if op < OPS { step(21, op, &mut a, &mut ma, 0) } else { step(21, op - OPS, &mut b, &mut mb, 0) }
	}
	peeks(21, &a, &ma); peeks(21, &b, &mb);
	let c = b.clone();
	let ta = a.unfocus();
	let ga = items_of(&ta);
	let tb = b.unfocus();
	let gb = items_of(&tb);
	same_items(21, 21, &ga, &ma.items(), 10);
	same_items(21, 21, &gb, &mb.items(), 20);
	exact(21, &items_of(&keep), &items, 30);
	exact(21, &items_of(&ta), &ga, 40);
	let mut c = c;
	drain(21, &mut c, &mb, 50);
	exact(21, &items_of(&tb), &gb, 60);
	// mapping and joining
	let f = |e: u64| e ^ 0x5a5a;
	let u: RazTree<u64,Count> = ta.clone().map(Rc::new(move |e: &u64| f(*e)));
	let mapped: Vec<u64> = elems(&ga).into_iter().map(f).collect();
	same_elems(21, &elems(&items_of(&u)), &mapped, 66);
	let j = RazTree::join(ta.clone(), sym_level(), None, tb.clone());
	ck(21, j.is_some() == (!ga.is_empty() && !gb.is_empty()), 68);
	if let Some(j) = j {
		let mut want = elems(&ga); want.extend(elems(&gb));
		same_elems(21, &elems(&items_of(&j)), &want, 69);
	}
	exact(21, &items_of(&ta), &ga, 71);
	exact(21, &items_of(&tb), &gb, 75);
	same_elems(21, &elems(&items_of(&u)), &mapped, 79);
	reach(0);
}

/// params: property, engine, segments, segment size, names
/// Conversion of an archive stack, in both reading directions, active part empty or not.
#[no_mangle]
pub extern "C" fn h_memo_from() {
	engine(param(1));
	let (seg, size, named) = (param(2), param(3), param(4));
	let mut s: AStack<u64,u32> = AStack::new();
	let mut items = vec![];
	let (pat, seg) = pat(seg);
	for k in 0..seg {
		for _ in 0..seg_size(size, k) { let e = sym64(); s.push(e); items.push(E(e)) }
		if k + 1 < seg || choose(2) == 0 { let (l, n) = (pat_level(pat, k + 1, seg), fresh_name(named)); items.push(A(l, n.clone())); s.archive(n, l); if k + 1 == seg { reach(1) } }
	}
	let trail = match items.last() { Some(&A(..)) => true, _ => false };
	let head = choose(2) == 1;
	let mut want = items.clone();
	if trail { want.pop(); }
	if head { want.reverse() }
	let (t, after): (RazTree<u64,Count>, AStack<u64,u32>) = ns(name_of_string(String::from("memo")), || if head {
		let a = AtHead(s.clone()); let t = RazTree::memo_from(&a); (t, a.0)
	} else {
		let a = AtTail(s.clone()); let t = RazTree::memo_from(&a); (t, a.0)
	});
	let node = node_of(&t);
	let mut got = vec![];
	if let Some(ref n) = node { flatten(n, &mut got); canonical(n, 22, 1); canonical(n, 5, 31) }
	exact(22, &got, &want, 10);
	ck(6, t.meta().0 == elems(&want).len(), 5);
	ck(22, t.meta().0 == elems(&want).len(), 20);
	ck(22, t.is_empty() == want.is_empty(), 21);
	// the stack is as it was
	let mut es = elems(&items); es.reverse();
	let left: Vec<u64> = after.into_iter().collect();
	same_elems(22, &left, &es, 22);
	// and the tree can be edited
	let n = elems(&want).len();
	let i = place(n);
	apart(0, || {
		let mut r = match t.focus(i) { Some(r) => r, None => { ck(22, false, 24); return } };
		let m = Model::at(&want, i);
		drain(22, &mut r, &m, 25);
		reach(0);
	})
}

/// params: property, engine, segments left, segments right, segment size, names, operations, levels
/// (0 as documented: above the ones on the left, not below those on the right; 1 any)
#[no_mangle]
pub extern "C" fn h_join() {
	engine(param(1));
	let (sl, sr, size, named, ops, any) = (param(2), param(3), param(4), param(5), param(6), param(7));
	let (a, ia): (RazTree<u64,Count>, _) = tree(sl, size, named);
	let (b, ib): (RazTree<u64,Count>, _) = tree(sr, size, named);
	let l = sym_level();
	if any == 0 {
		for i in &ia { if let A(k, _) = *i { assume(k < l) } }
		for i in &ib { if let A(k, _) = *i { assume(k <= l) } }
	}
	let n = fresh_name(named);
	let j = RazTree::join(a, l, n.clone(), b);
	ck(23, j.is_some() == (!ia.is_empty() && !ib.is_empty()), 1);
	let t = match j { Some(t) => t, None => { reach(1); return } };
	let mut want = ia.clone(); want.push(A(l, n)); want.extend(ib.clone());
	let node = node_of(&t);
	let mut got = vec![];
	if let Some(ref n) = node { flatten(n, &mut got); if any == 0 { canonical(n, 23, 50) } }
	exact(23, &got, &want, 2);
	ck(23, !t.is_empty(), 10);
	ck(23, t.meta().0 == elems(&want).len(), 8);
	ck(6, t.meta().0 == elems(&want).len(), 6);
	toks(23, &ns(name_of_string(String::from("j1")), || run_lr(&t)), &want_lr(&want), 70);
	let n = elems(&want).len();
	let i = place(n);
	let mut r = match t.focus(i) { Some(r) => r, None => { ck(23, false, 9); return } };
	let mut m = Model::at(&want, i);
	ck(23, r.peek_left() == m.peek_l(), 11);
	ck(23, r.peek_right() == m.peek_r(), 12);
	edits(23, ops, &mut r, &mut m, named, 0);
	let t2 = r.unfocus();
	let w2 = m.items();
	let node = node_of(&t2);
	let mut got = vec![];
	if let Some(ref n) = node { flatten(n, &mut got); if any == 0 { canonical(n, 23, 60) } }
	same_items(23, 23, &got, &w2, 20);
	ck(23, t2.meta().0 == elems(&w2).len(), 28);
	ck(6, t2.meta().0 == elems(&w2).len(), 9);
	reach(0);
}
/// params: property, largest length
#[no_mangle]
pub extern "C" fn h_from_vec() {
	let n = if param(1) < 100 { choose(param(1) + 1) } else { param(1) - choose(2) };
	let v: Vec<u64> = (0..n).map(|_| sym64()).collect();
	let e: RazTree<u64,Count> = RazTree::empty();
	ck(23, e.is_empty(), 30);
	ck(23, e.meta().0 == 0, 31);
	ck(6, e.meta().0 == 0, 7);
	let t: Option<RazTree<u64,Count>> = RazTree::from_vec(v.clone());
	ck(23, t.is_some() == (n > 0), 32);
	let t = match t { Some(t) => t, None => e };
	let items: Vec<Item> = v.iter().map(|e| E(*e)).collect();
	exact(23, &items_of(&t), &items, 33);
	ck(23, t.is_empty() == (n == 0), 38);
	ck(23, t.meta().0 == n, 39);
	ck(6, t.meta().0 == n, 8);
	let i = place(n);
	let mut r = match t.focus(i) { Some(r) => r, None => { ck(23, false, 40); return } };
	let m = Model::at(&items, i);
	drain(23, &mut r, &m, 41);
	reach(0);
}

fn named_points(items: &[Item]) -> Vec<(usize, Name)> {
	items.iter().enumerate().filter_map(|(j, i)| match *i { A(_, Some(ref n)) => Some((j, n.clone())), _ => None }).collect()
}
/// params: property, engine, how (0 joined, 1 from a stack's tail, 2 from its head, 3 mapped, 4 joined twice),
/// segments, segment size, names, operations
/// Trees indexed by names that are not made by editing: every name, both ends, and an absent name
/// focused; then edited and focused again.
#[no_mangle]
pub extern "C" fn h_made_names() {
	engine(param(1));
	let (how, seg, size, named, ops) = (param(2), param(3), param(4), param(5), param(6));
	let (t, items): (RazTree<u64,Names>, Vec<Item>) = match how {
		0 | 4 => {
			let (a, ia): (RazTree<u64,Names>, _) = tree(seg, size, named);
			let (b, ib): (RazTree<u64,Names>, _) = tree(seg, size, named);
			let (l, n) = (sym_level(), fresh_name(named));
			let mut items = ia; items.push(A(l, n.clone())); items.extend(ib);
			let j = match RazTree::join(a, l, n, b) { Some(t) => t, None => return };
			if how == 0 { (j, items) } else {
				let (c, mut ic): (RazTree<u64,Names>, _) = tree(1, size, named);
				let (l, n) = (sym_level(), fresh_name(named));
				ic.push(A(l, n.clone())); ic.extend(items);
				match RazTree::join(c, l, n, j) { Some(t) => (t, ic), None => return }
			}
		}
		1 | 2 => {
			let mut s: AStack<u64,u32> = AStack::new();
			let mut items = vec![];
			let (pat, seg) = pat(seg);
			for k in 0..seg {
				for _ in 0..seg_size(size, k) { let e = sym64(); s.push(e); items.push(E(e)) }
				if k + 1 < seg { let (l, n) = (pat_level(pat, k + 1, seg), fresh_name(named)); items.push(A(l, n.clone())); s.archive(n, l) ; }
			}
			if how == 2 { items.reverse() }
			(ns(name_of_string(String::from("memo")), || if how == 1 { RazTree::memo_from(&AtTail(s)) } else { RazTree::memo_from(&AtHead(s)) }), items)
		}
		_ => {
			let (t, items): (RazTree<u64,Count>, _) = tree(seg, size, named);
			(ns(name_of_string(String::from("map")), || t.map(Rc::new(|e: &u64| mapf(*e)))), items.into_iter().map(|i| match i { E(e) => E(mapf(e)), a => a }).collect())
		}
	};
	exact(7, &items_of(&t), &items, 40);
	let points = named_points(&items);
	let any = items.iter().any(|i| match *i { A(..) => true, _ => false });
	let n = elems(&items).len();
	let w = choose(points.len() + 3);
	apart(0, || {
		if w == points.len() + 2 {
			if any { ck(7, t.clone().focus(name_of_usize(77777)).is_none(), 50); reach(1) }
			return
		}
		let (r, k) = if w < points.len() { (t.clone().focus(points[w].1.clone()), elems(&items[..points[w].0]).len()) }
			else if w == points.len() { (t.clone().focus(Position::Left), 0) } else { (t.clone().focus(Position::Right), n) };
		ck(7, r.is_some(), 51);
		let mut r = match r { Some(r) => r, None => return };
		let mut m = Model::at(&items, k);
		ck(7, r.peek_left() == m.peek_l(), 52);
		ck(7, r.peek_right() == m.peek_r(), 53);
		if ops == 0 { drain(7, &mut r, &m, 60); reach(0); return }
		edits(1, ops, &mut r, &mut m, named, 0);
		let t2 = r.unfocus();
		// levels need not be canonical here: contents, and the points of every gap
		let i2 = items_of(&t2);
		same_items(7, 7, &i2, &m.items(), 70);
		for (j, n) in named_points(&i2) {
			let r = t2.clone().focus(n);
			ck(7, r.is_some(), 54);
			if let Some(r) = r {
				let m = Model::at(&i2, elems(&i2[..j]).len());
				ck(7, r.peek_left() == m.peek_l(), 55);
				ck(7, r.peek_right() == m.peek_r(), 56);
			}
		}
		reach(0);
	})
}
/// params: property, engine, segments, segment size, names, operations
/// Sequences without metadata: both ends can be focused.
#[no_mangle]
pub extern "C" fn h_ends() {
	engine(param(1));
	let (seg, size, named, ops) = (param(2), param(3), param(4), param(5));
	let (mut t, mut items): (RazTree<u64,()>, _) = tree(seg, size, named);
	for _ in 0..2 {
		let n = elems(&items).len();
		let left = choose(2) == 0;
		let r = if choose(2) == 0 && left { Some(t.focus_left()) } else { t.focus(if left { Position::Left } else { Position::Right }) };
		ck(7, r.is_some(), 80);
		let mut r = match r { Some(r) => r, None => return };
		let mut m = Model::at(&items, if left { 0 } else { n });
		ck(7, r.peek_left() == m.peek_l(), 81);
		ck(7, r.peek_right() == m.peek_r(), 82);
		edits(7, ops, &mut r, &mut m, named, 0);
		t = r.unfocus();
		items = items_of(&t);
		same_items(7, 7, &items, &m.items(), 90);
	}
	reach(0);
}
