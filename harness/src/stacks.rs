//! Archive stacks and incremental stacks.
use api::*;
use model::*;
use adapton::engine::*;
use iodyn::archive_stack::*;
use iodyn::stack::*;
use cursor::or21;

/// the model: archived parts with metadata and name, and the active part
#[derive(Clone)]
struct MA { arch: Vec<(Vec<u64>, u32, Option<Name>)>, cur: Vec<u64> }
impl MA {
	fn empty(&self) -> bool { self.cur.is_empty() && self.arch.is_empty() }
	fn open(&mut self) -> Option<u32> {
		if !self.cur.is_empty() { return None }
		self.arch.pop().map(|(v, m, _)| { self.cur = v; m })
	}
	fn all(&self) -> Vec<u64> {
		let mut v = vec![];
		for a in &self.arch { v.extend(a.0.clone()) }
		v.extend(self.cur.clone());
		v
	}
}
const AOPS: usize = 8;
fn astep(op: usize, s: &mut AStack<u64,u32>, m: &mut MA, named: usize) { astep_p(13, op, s, m, named) }
fn astep_p(p: usize, op: usize, s: &mut AStack<u64,u32>, m: &mut MA, named: usize) {
	match op {
		0 => { let e = sym64(); s.push(e); m.cur.push(e) }
		1 => {
			let a = s.pop();
			m.open();
			ck(p, a == m.cur.pop(), 1);
		}
		2 => {
			let a = s.pop_meta();
			let meta = m.open();
			let b = m.cur.pop();
			ck(p, a.is_some() == b.is_some(), 2);
			if let (Some(a), Some(b)) = (a, b) { ck(p, a.0 == b, 3); ck(p, a.1 == meta, 4) }
		}
		3 | 4 => {
			let (meta, n) = (sym32(), fresh_name(named));
			let done = if op == 3 { s.archive(n.clone(), meta) } else { s.archive_with_capacity(n.clone(), meta, 4) };
			ck(p, done == !m.cur.is_empty(), 5);
			if !m.cur.is_empty() { let v = m.cur.split_off(0); m.arch.push((v, meta, n)) }
		}
		5 => {
			let a = s.next_archive();
			if m.empty() { ck(p, a.is_none(), 6); return }
			let old = m.cur.split_off(0);
			let meta = m.arch.pop().map(|(v, k, _)| { m.cur = v; k });
			match a { None => ck(p, false, 7), Some((v, k)) => { same_elems(p, &v, &old, 8); ck(p, k == meta, 10) } }
		}
		6 => { let x = [sym64(), sym64()]; s.extend(&x); m.cur.extend(x.iter().cloned()) }
		_ => { let x = [sym64(), sym64()]; s.extend_rev(&x); m.cur.extend(x.iter().cloned()); m.cur.reverse() }
	}
}
fn alook(s: &AStack<u64,u32>, m: &MA, id: u64) { alook_p(13, s, m, id) }
fn alook_p(p: usize, s: &AStack<u64,u32>, m: &MA, id: u64) {
	ck(p, s.is_empty() == m.empty(), id);
	ck(p, s.active_len() == m.cur.len(), id + 1);
	same_elems(p, s.active_data(), &m.cur, id + 2);
	ck(p, s.peek() == m.all().last().cloned(), id + 4);
	ck(p, s.name() == m.arch.last().and_then(|a| a.2.clone()), id + 5);
}
/// params: property, engine, operations (from 100 on: of operations / 100 steps), names, kinds of operations
#[no_mangle]
pub extern "C" fn h_astack() {
	engine(param(1));
	let (ops, named, kinds) = (param(2) % 100, param(3), param(4));
	let burst = if param(2) < 100 { 1 } else { param(2) / 100 };
	let mut s: AStack<u64,u32> = if choose(2) == 0 { AStack::new() } else { AStack::with_capacity(2) };
	let mut m = MA { arch: vec![], cur: vec![] };
	let keep = choose(ops);
	let mut old = None;
	for i in 0..ops {
		if i == keep && named == 0 { old = Some((s.clone(), m.clone())) }
		let o = choose(kinds);
		for _ in 0..burst { astep(o, &mut s, &mut m, named) }
		alook(&s, &m, 20);
	}
	let c = s.clone();
	let mut want = m.all(); want.reverse();
	same_elems(13, &s.into_iter().collect::<Vec<u64>>(), &want, 30);
	alook(&c, &m, 40);
	// an earlier copy is as it was
	if let Some((s, m)) = old {
		let q = or21(13);
		alook_p(q, &s, &m, 50);
		let mut want = m.all(); want.reverse();
		same_elems(q, &s.into_iter().collect::<Vec<u64>>(), &want, 60);
		reach(1);
	}
	reach(0);
}
/// params: property, engine, operations before copying, operations after
/// A stack and its clone, changed each on its own; unnamed
#[no_mangle]
pub extern "C" fn h_acopy() {
	engine(param(1));
	let (pre, post) = (param(2), param(3));
	let mut s: AStack<u64,u32> = AStack::new();
	let mut m = MA { arch: vec![], cur: vec![] };
	// something archived, something not
	for _ in 0..2 { if choose(2) == 1 { astep_p(21, 0, &mut s, &mut m, 0); astep_p(21, 3, &mut s, &mut m, 0) } }
	for _ in 0..pre { astep_p(21, choose(AOPS), &mut s, &mut m, 0) }
	let (mut t, mut k) = (s.clone(), m.clone());
	for _ in 0..post {
		match choose(2 * AOPS) {
			o if o < AOPS => astep_p(21, o, &mut s, &mut m, 0),
			o => astep_p(21, o - AOPS, &mut t, &mut k, 0),
		}
		alook_p(21, &s, &m, 20); alook_p(21, &t, &k, 30);
	}
	let mut want = m.all(); want.reverse();
	same_elems(21, &s.into_iter().collect::<Vec<u64>>(), &want, 40);
	let mut want = k.all(); want.reverse();
	same_elems(21, &t.into_iter().collect::<Vec<u64>>(), &want, 42);
	reach(0);
}
/// params: property, engine, archived parts, largest part, names, ways (0 any mix, 1 the same way all along and sizes fixed)
/// A stack of many parts taken apart in any mix of the three ways
#[no_mangle]
pub extern "C" fn h_astack_open() {
	engine(param(1));
	let (parts, size, named, one) = (param(2), param(3), param(4), param(5));
	let mut s: AStack<u64,u32> = AStack::new();
	let mut m = MA { arch: vec![], cur: vec![] };
	for k in 0..parts {
		for _ in 0..if one == 1 { seg_size(1000 + size, k) } else { 1 + choose(size) } { astep(0, &mut s, &mut m, named) }
		astep(3, &mut s, &mut m, named);
	}
	let mut n = 0;
	let way = if one == 1 { choose(4) } else { 3 };
	while !m.empty() {
		let w = if way < 3 { way } else if one == 1 { n % 3 } else { choose(3) };
		astep([1, 2, 5][w], &mut s, &mut m, named);
		alook(&s, &m, 20);
		n += 1;
		if n > 300 { break }
	}
	ck(13, s.is_empty(), 70);
	ck(13, s.pop() == None, 71);
	ck(13, s.pop_meta().is_none(), 72);
	ck(13, s.next_archive().is_none(), 73);
	reach(0);
}
/// params: property, largest length
#[no_mangle]
pub extern "C" fn h_astack_vec() {
	let n = choose(param(1) + 1);
	let v: Vec<u64> = (0..n).map(|_| sym64()).collect();
	let s: AStack<u64,()> = AStack::from(v.clone());
	ck(13, s.active_len() == n, 80);
	ck(13, s.is_empty() == (n == 0), 81);
	let mut w = v.clone(); w.reverse();
	same_elems(13, &s.into_iter().collect::<Vec<u64>>(), &w, 82);
	reach(0);
}

type L = Vec<(u64, Option<Name>)>;
fn slook(s: &Stack<u64>, m: &L, id: u64) {
	ck(14, s.is_empty() == m.is_empty(), id);
	ck(14, s.peek() == m.last().map(|x| x.0), id + 1);
	ck(14, s.name() == m.last().and_then(|x| x.1.clone()), id + 2);
	let mut it = s.iter();
	for x in m.iter().rev() {
		ck(14, it.name() == x.1, id + 3);
		ck(14, it.next() == Some(x.0), id + 4);
	}
	ck(14, it.name() == None, id + 5);
	ck(14, it.next() == None, id + 6);
	ck(14, it.next() == None, id + 7);
}
/// params: property, engine, operations (from 100 on: of operations / 100 steps), names, equality (2: with the same name again and again)
/// Operations on any version made so far; every version keeps its contents.
#[no_mangle]
pub extern "C" fn h_stack() {
	engine(param(1));
	let (ops, named) = (param(2) % 100, param(3));
	let burst = if param(2) < 100 { 1 } else { param(2) / 100 };
	// names used again (for other contents too) mean nothing without an engine that knows names
	let nm = || if param(4) == 2 && named > 0 { if choose(2) == 0 { None } else { Some(name_of_string(String::from("again"))) } } else { fresh_name(named) };
	let mut vs: Vec<(Stack<u64>, L)> = vec![(Stack::new(), vec![])];
	for _ in 0..ops {
		let (mut s, mut m) = { let k = choose(vs.len()); vs[k].clone() };
		let o = choose(3);
		for _ in 0..burst { s = match o {
			0 => {
				let (e, n) = (sym64(), nm());
				m.push((e, n.clone()));
				s.push(n, e)
			}
			1 => match s.pull() {
				None => { ck(14, m.is_empty(), 1); s }
				Some(t) => { ck(14, m.pop().is_some(), 2); t }
			},
			_ => { // through the non-empty list
				match s.0 {
					None => {
						ck(14, m.is_empty(), 3);
						let (e, n) = (sym64(), nm());
						m.push((e, n.clone()));
						let h = Head::new(n.clone(), e);
						ck(14, h.peek() == e, 4);
						ck(14, h.name() == n, 5);
						ck(14, h.pull().is_none(), 6);
						Stack(Some(h))
					}
					Some(ref h) => {
						ck(14, Some(h.peek()) == m.last().map(|x| x.0), 7);
						ck(14, h.name() == m.last().and_then(|x| x.1.clone()), 8);
						let got: Vec<u64> = h.iter().collect();
						let mut want: Vec<u64> = m.iter().map(|x| x.0).collect(); want.reverse();
						same_elems(14, &got, &want, 9);
						let (e, n) = (sym64(), nm());
						let h2 = h.push(n.clone(), e);
						ck(14, h2.pull() == Some(h.clone()), 11);
						m.push((e, n));
						Stack(Some(h2))
					}
				}
			}
		} }
		vs.push((s, m));
	}
	for &(ref s, ref m) in &vs { slook(s, m, 20) }
	// equal exactly when they hold the same under the same names
	if param(4) > 0 {
		let n = vs.len() - 1;
		let (ref s, ref m) = vs[n];
		for &(ref t, ref k) in &vs[..n] {
			let mut same = m.len() == k.len();
			if same { for i in 0..m.len() { same = same & (m[i].0 == k[i].0) & (m[i].1 == k[i].1) } }
			ck(14, (s == t) == same, 30);
			if same { ck(14, s.peek() == t.peek(), 31); reach(1) }
		}
	}
	reach(0);
}
