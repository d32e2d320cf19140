//! The evaluation crate: accumulator types, drivers, actions.
use api::*;
use model::*;
use raz::{exact, runs};
use adapton::engine::*;
use rand::{Rng, Rand, StdRng, SeedableRng};
use std::cell::{Cell, RefCell};
use std::rc::Rc;
use iodyn::raz::*;
use iodyn::raz_meta::*;
use iodyn::archive_stack::*;
use iodyn::{IRaz, IRazTree};
use evalx::interface::*;
use evalx::accum_lists::*;
use evalx::actions::*;
use evalx::primitives::*;
use evalx::types::*;
use evalx::eval_iraz::EvalIRaz;
use evalx::eval_raz_name_index::EvalRazNameIndex;
use evalx::eval_vec::EvalVec;
use evalx::test_seq::*;
use evalx::test_build;
use time::Duration;

fn acc<A: IFaceNew + IFaceSeq<u64> + IFaceArchive<(u32, Option<Name>)> + Clone>(ops: usize, named: usize, copy: usize) {
	let mut a = A::new();
	let mut m: Vec<u64> = vec![];
	let mut kept: Option<(A, Vec<u64>)> = None;
	let (burst, ops) = (if ops < 100 { 1 } else { ops / 100 }, ops % 100);
	let at = if copy > 0 { choose(ops) } else { ops };
	for i in 0..ops {
		if i == at { kept = Some((a.clone(), m.clone())) }
		let o = choose(3);
		for _ in 0..burst { match o {
			0 => { let e = sym64(); m.push(e); a = a.seq_push(e) }
			1 => { let (v, b) = a.seq_pop(); a = b; ck(24, v == m.pop(), 1) }
			_ => { let (l, n) = (sym_level(), fresh_name(named)); a = a.archive((l, n)) }
		} }
	}
	let drain = |mut a: A, mut m: Vec<u64>, id: u64| {
		for _ in 0..m.len() + 2 { let (v, b) = a.seq_pop(); a = b; ck(24, v == m.pop(), id) }
		// an emptied one can be used again
		let e = sym64();
		let (v, b) = a.seq_push(e).seq_pop();
		ck(24, v == Some(e), id + 1);
		ck(24, b.seq_pop().0.is_none(), id + 2);
	};
	if let Some((a, m)) = kept { drain(a, m, 10); reach(1) }
	drain(a, m, 20);
	reach(0);
}
/// params: property, engine, type, operations (from 100 on: of operations / 100 steps), names, copy kept
#[no_mangle]
pub extern "C" fn h_acc() {
	engine(param(1));
	let (o, n, c) = (param(3), param(4), param(5));
	match param(2) {
		0 => acc::<IRaz<u64>>(o, n, c),
		1 => acc::<AStack<u64,u32>>(o, n, c),
		2 => acc::<AStack<u64,()>>(o, n, c),
		3 => acc::<Vec<u64>>(o, n, c),
		4 => acc::<List<u64>>(o, n, c),
		5 => acc::<RcList<u64>>(o, n, c),
		6 => acc::<VecList<u64>>(o, n, c),
		_ => acc::<RcVecList<u64>>(o, n, c),
	}
}

/// a generator whose every number is arbitrary, and recorded; copies share the record
#[derive(Clone,Debug)]
pub struct Coord(Rc<RefCell<Vec<u64>>>, Rc<Cell<usize>>);
impl Coord {
	fn new() -> Self { Coord(Rc::new(RefCell::new(vec![])), Rc::new(Cell::new(usize::max_value()))) }
	fn take(&self) -> Vec<u64> { let mut v = self.0.borrow_mut(); let r = v.clone(); v.clear(); r }
}
impl Rng for Coord {
	fn next_u32(&mut self) -> u32 { let v = sym32(); self.0.borrow_mut().push(v as u64); v }
	// the number that chooses a place is short: remainders of long ones take the solver long
	fn next_u64(&mut self) -> u64 { let v = if self.0.borrow().len() == self.1.get() { sym(6) } else { sym64() }; self.0.borrow_mut().push(v); v }
}
/// the generator of levels, with its next `k` numbers arbitrary (of `bits` bits)
fn levels_rng(k: usize, bits: u32) -> StdRng {
	let mut r: StdRng = SeedableRng::from_seed(&[7usize][..]);
	if k == 0 { return r }
	let mut c = r.clone();
	let (a, b) = (c.next_u64(), c.next_u64());
	let n = ::std::mem::size_of::<StdRng>() / 8;
	let w: &mut [u64] = unsafe { ::std::slice::from_raw_parts_mut(&mut r as *mut StdRng as *mut u64, n) };
	for i in (1..n).rev() {
		if w[i] == a && w[i - 1] == b { for j in 0..k { w[i - j] = sym(bits) } return r }
	}
	fail(2599);
	r
}

type Fun<A> = fn(A, &u64) -> A;
type FunM = fn(Vec<Item>, (u32, Option<Name>)) -> Vec<Item>;
type Fin<T> = fn(T) -> T;
fn add_e(mut a: Vec<u64>, e: &u64) -> Vec<u64> { a.push(*e); a }
fn add_i(mut a: Vec<Item>, e: &u64) -> Vec<Item> { a.push(E(*e)); a }
fn add_m(mut a: Vec<Item>, m: (u32, Option<Name>)) -> Vec<Item> { a.push(A(m.0, m.1)); a }
fn add_l(mut a: Vec<Item>, m: u32) -> Vec<Item> { a.push(A(m, None)); a }
fn add_2(mut a: (Vec<u64>, u64), e: &u64) -> (Vec<u64>, u64) { a.0.push(*e); a.1 += 1; a }
fn same_n(a: Vec<Item>, _: Option<Name>) -> Vec<Item> { a }
fn plus1(e: &u64) -> u64 { e.wrapping_add(1) }
fn id<T>(t: T) -> T { t }
fn folder() -> MFolder<Vec<Item>, u64, (u32, Option<Name>), Vec<Item>, Vec<Item>, Fun<Vec<Item>>, FunM, Fin<Vec<Item>>> {
	MFolder::new(name_of_string(String::from("mfolder")), vec![], add_i as Fun<Vec<Item>>, add_m as FunM, id::<Vec<Item>> as Fin<Vec<Item>>)
}
/// archive points without their levels, and with what is known of their names
fn bare(v: &[Item]) -> Vec<Item> {
	let mark = name_of_string(String::from("mark"));
	v.iter().map(|i| match *i { E(e) => E(e), A(_, ref n) => A(0, n.as_ref().map(|_| mark.clone())) }).collect()
}
fn distinct(v: &[Item]) -> bool {
	let n: Vec<&Name> = v.iter().filter_map(|i| match *i { A(_, Some(ref n)) => Some(n), _ => None }).collect();
	for i in 0..n.len() { for j in 0..i { if n[i] == n[j] { return false } } }
	true
}
fn greatest(m: Option<u64>, v: &[u64]) -> bool {
	match m {
		None => v.is_empty(),
		Some(m) => { let (mut all, mut one) = (true, false); for e in v { all = all & (m >= *e); one = one | (m == *e) } all & one }
	}
}

trait Ev: Sized {
	fn empty(dg: usize, ng: usize, c: &Coord, r: &mut StdRng) -> Self;
	/// with contents of its own: 0 from a cursor, 1 from a tree, 2 from an archive stack
	fn from(k: usize, t: (Vec<Vec<u64>>, usize), dg: usize, ng: usize, c: &Coord, r: &mut StdRng) -> Self;
	fn init(n: usize, dg: usize, ng: usize, c: &Coord, r: &mut StdRng) -> Self;
	fn append(self, n: usize, r: &mut StdRng) -> Self;
	fn insert(self, n: usize, r: &mut StdRng) -> Self;
	/// contents; archive points where there are any
	fn items(&self, r: &mut StdRng) -> Vec<Item>;
	fn comps(&self, es: &[u64], items: &[Item], which: usize, r: &mut StdRng);
	const KIND: usize;
}
fn loose<M: RazMeta<u64>>(ss: &[Vec<u64>], named: usize) -> Raz<u64,M> {
	let mut z: Raz<u64,M> = Raz::new();
	for (i, s) in ss.iter().enumerate() {
		if i > 0 { z.archive_left(pat_level(pat(param(4)).0, i, ss.len()), if named == 1 { Some(name_pair(name_of_string(String::from("given")), name_of_usize(i))) } else { None }) }
		for e in s { z.push_left(*e); }
	}
	z
}
fn stack(ss: &[Vec<u64>], named: usize) -> AStack<u64,u32> {
	let mut z = AStack::new();
	for (i, s) in ss.iter().enumerate() {
		if i > 0 { AStack::archive(&mut z, if named == 1 { Some(name_pair(name_of_string(String::from("given")), name_of_usize(i))) } else { None }, pat_level(pat(param(4)).0, i, ss.len())); }
		for e in s { z.push(*e); }
	}
	z
}
macro_rules! raz_ev { ($t:ident, $raz:ty, $tree:ty, $kind:expr) => {
	fn empty(dg: usize, ng: usize, c: &Coord, r: &mut StdRng) -> Self { Creator::<Duration, Self>::create(&mut IncrementalEmpty { datagauge: dg, namegauge: ng, coord: c.clone() }, r).1 }
	fn init(n: usize, dg: usize, ng: usize, c: &Coord, r: &mut StdRng) -> Self { Creator::<Duration, Self>::create(&mut IncrementalInit { size: n, datagauge: dg, namegauge: ng, coord: c.clone() }, r).1 }
	fn from(k: usize, t: (Vec<Vec<u64>>, usize), dg: usize, ng: usize, c: &Coord, r: &mut StdRng) -> Self {
		match k {
			0 => { let z: $raz = loose(&t.0, t.1); Creator::<Duration, Self>::create(&mut IncrementalFrom { data: z, datagauge: dg, namegauge: ng, coord: c.clone() }, r).1 }
			1 => { let z: $raz = loose(&t.0, t.1); let z: $tree = z.unfocus(); Creator::<Duration, Self>::create(&mut IncrementalFrom { data: z, datagauge: dg, namegauge: ng, coord: c.clone() }, r).1 }
			_ => { let z = stack(&t.0, t.1); ns(name_of_string(String::from("memo")), || Creator::<Duration, Self>::create(&mut IncrementalFrom { data: AtTail(z), datagauge: dg, namegauge: ng, coord: c.clone() }, r).1) }
		}
	}
	fn append(self, n: usize, r: &mut StdRng) -> Self { if n == 1 { SingleAppend.edit(self, r).1 } else { BatchAppend(n).edit(self, r).1 } }
	fn insert(self, n: usize, r: &mut StdRng) -> Self { BatchInsert(n).edit(self, r).1 }
	fn items(&self, r: &mut StdRng) -> Vec<Item> {
		fresh_ns(|| self.comp_fold_meta(vec![], Rc::new(add_i as Fun<Vec<Item>>), Rc::new(add_m as FunM), r).1)
	}
	const KIND: usize = $kind;
} }
/// what every driver can compute
fn common<D>(d: &D, es: &[u64], which: usize, r: &mut StdRng) where
	D: CompMax<Target=Option<u64>> + CompFold<u64, Vec<u64>, Fun<Vec<u64>>, Target=Vec<u64>> + CompFold<u64, (Vec<u64>, u64), Fun<(Vec<u64>, u64)>, Target=(Vec<u64>, u64)>
		+ CompMap<u64, u64, Box<Fn(&u64) -> u64>>
{
	match which {
		0 => {
			let (_, m): (Duration, Option<u64>) = fresh_ns(|| FindMax.compute(d, r));
			ck(25, greatest(m, es), 30);
			let _t: Duration = fresh_ns(|| <FindMax as Computor<Duration, D>>::compute(&mut FindMax, d, r));
		}
		1 => {
			let mut f = Folder::new(vec![], add_e as Fun<Vec<u64>>);
			let (_, v): (Duration, Vec<u64>) = fresh_ns(|| f.compute(d, r));
			same_elems(25, &v, es, 31);
			let (t, v): (Vec<Duration>, Vec<u64>) = fresh_ns(|| f.compute(d, r));
			same_elems(25, &v, es, 33);
			ck(25, t.len() == 1, 35);
		}
		2 => {
			let mut f = FFolder::new(vec![], add_e as Fun<Vec<u64>>, (|mut v| { v.reverse(); v }) as Fin<Vec<u64>>);
			let (t, mut v): (Vec<Duration>, Vec<u64>) = fresh_ns(|| f.compute(d, r));
			v.reverse();
			same_elems(25, &v, es, 36);
			ck(25, t.len() == 1, 38);
		}
		3 => {
			let f = Folder::new((vec![], 0), add_2 as Fun<(Vec<u64>, u64)>);
			let mut c = Compute2::new(f, Proj0);
			let (t, v): (Vec<Duration>, Vec<u64>) = fresh_ns(|| c.compute(d, r));
			same_elems(25, &v, es, 39);
			ck(25, t.len() == 1, 41);
		}
		_ => {
			let seen = Rc::new(RefCell::new(vec![]));
			let s = seen.clone();
			let mut m = Mapper::new(name_pair(name_of_string(String::from("mapper")), name_of_usize(fresh())), Box::new(move |e: &u64| { s.borrow_mut().push(*e); plus1(e) }) as Box<Fn(&u64) -> u64>);
			let _t: Duration = m.compute(d, r);
			let v = seen.borrow().clone();
			ck(25, v.len() == es.len(), 42);
			let sum = |v: &[u64]| v.iter().fold(0u64, |a, b| a.wrapping_add(*b));
			ck(25, sum(&v) == sum(es), 43);
		}
	}
}
const COMMON: usize = 5;
/// what the drivers over trees can compute as well
fn on_trees<D, M: RazMeta<u64> + 'static>(d: &D, es: &[u64], items: &[Item], which: usize, r: &mut StdRng) where
	D: CompFoldMeta<u64, Vec<Item>, (u32, Option<Name>), Fun<Vec<Item>>, FunM, Target=Vec<Item>>
		+ CompFoldArchive<u64, Vec<Item>, u32, Fun<Vec<Item>>, fn(Vec<Item>, Option<Name>) -> Vec<Item>, fn(Vec<Item>, u32) -> Vec<Item>, Target=Vec<Item>>
		+ CompTreeFold<u64, Vec<u64>, fn(&u64) -> Vec<u64>, Box<Fn(Vec<u64>, Vec<u64>) -> Vec<u64>>, Target=Option<Vec<u64>>>
		+ CompMap<u64, u64, fn(&u64) -> u64, Target=RazTree<u64,M>>
{
	fn one(e: &u64) -> Vec<u64> { vec![*e] }
	match which {
		0 => {
			let (t, v): (Vec<Duration>, Vec<Item>) = folder().compute(d, r);
			exact(25, &v, items, 50);
			ck(25, t.len() == 1, 55);
		}
		1 => {
			let mut f = HFolder::new(name_of_string(String::from("hfolder")), vec![], add_i as Fun<Vec<Item>>, same_n as fn(Vec<Item>, Option<Name>) -> Vec<Item>, add_l as fn(Vec<Item>, u32) -> Vec<Item>, id::<Vec<Item>> as Fin<Vec<Item>>);
			let (t, v): (Vec<Duration>, Vec<Item>) = f.compute(d, r);
			let want: Vec<Item> = items.iter().map(|i| match *i { E(e) => E(e), A(l, _) => A(l, None) }).collect();
			exact(25, &v, &want, 56);
			ck(25, t.len() == 1, 61);
		}
		2 => {
			let last = Rc::new(RefCell::new(None));
			let s = last.clone();
			let bin = Box::new(move |mut a: Vec<u64>, b: Vec<u64>| { a.extend(b); *s.borrow_mut() = Some(a.clone()); a }) as Box<Fn(Vec<u64>, Vec<u64>) -> Vec<u64>>;
			let mut f = TreeFold::new(one as fn(&u64) -> Vec<u64>, bin);
			let _t: Duration = fresh_ns(|| f.compute(d, r));
			if es.len() > 1 { match last.borrow().as_ref() { Some(v) => same_elems(25, v, es, 62), None => ck(25, false, 64) } }
			let bin = Rc::new(Box::new(|mut a: Vec<u64>, b: Vec<u64>| { a.extend(b); a }) as Box<Fn(Vec<u64>, Vec<u64>) -> Vec<u64>>);
			let v = fresh_ns(|| d.comp_tfold(Rc::new(one as fn(&u64) -> Vec<u64>), bin, r).1);
			ck(25, v.is_none() == es.is_empty(), 65);
			same_elems(25, &v.unwrap_or(vec![]), es, 66);
		}
		_ => {
			let t = fresh_ns(|| d.comp_map(Rc::new(plus1 as fn(&u64) -> u64), r).1);
			let got = elems(&items_of(&t));
			let want: Vec<u64> = es.iter().map(plus1).collect();
			same_elems(25, &got, &want, 68);
		}
	}
}
const TREES: usize = 4;
impl Ev for EvalIRaz<u64,Coord> {
	raz_ev!{EvalIRaz, IRaz<u64>, IRazTree<u64>, 0}
	fn comps(&self, es: &[u64], items: &[Item], which: usize, r: &mut StdRng) {
		if which < COMMON { return common(self, es, which, r) }
		if which < COMMON + TREES { return on_trees(self, es, items, which - COMMON, r) }
		fn one(e: &u64) -> Vec<Item> { vec![E(*e)] }
		fn cat(mut a: Vec<Item>, b: Vec<Item>) -> Vec<Item> { a.extend(b); a }
		fn nl(mut a: Vec<Item>, l: u32, n: Option<Name>, b: Vec<Item>) -> Vec<Item> { a.push(A(l, n)); a.extend(b); a }
		fn leaf(v: &Vec<u64>) -> Vec<Item> { v.iter().map(|e| E(*e)).collect() }
		let v = if which == COMMON + TREES {
			let _t: Duration = fresh_ns(|| TreeFoldNL::new(one, cat, nl).compute(self, r));
			fresh_ns(|| self.comp_tfoldnl(Rc::new(one), Rc::new(cat), Rc::new(nl), r).1)
		} else {
			let _t: Duration = fresh_ns(|| TreeFoldG::new(leaf, nl).compute(self, r));
			fresh_ns(|| self.comp_tfoldg(Rc::new(leaf), Rc::new(nl), r).1)
		};
		ck(25, v.is_none() == es.is_empty(), 70);
		exact(25, &v.unwrap_or(vec![]), items, 71);
	}
}
impl Ev for EvalRazNameIndex<u64,Coord> {
	raz_ev!{EvalRazNameIndex, Raz<u64,Names>, RazTree<u64,Names>, 1}
	fn comps(&self, es: &[u64], items: &[Item], which: usize, r: &mut StdRng) {
		if which < COMMON { return common(self, es, which, r) }
		if which < COMMON + TREES { return on_trees(self, es, items, which - COMMON, r) }
	}
}
impl Ev for EvalVec<u64,Coord> {
	fn empty(dg: usize, ng: usize, c: &Coord, r: &mut StdRng) -> Self { Creator::<Duration, Self>::create(&mut IncrementalEmpty { datagauge: dg, namegauge: ng, coord: c.clone() }, r).1 }
	fn init(n: usize, dg: usize, ng: usize, c: &Coord, r: &mut StdRng) -> Self { Creator::<Duration, Self>::create(&mut IncrementalInit { size: n, datagauge: dg, namegauge: ng, coord: c.clone() }, r).1 }
	fn from(_: usize, t: (Vec<Vec<u64>>, usize), dg: usize, ng: usize, c: &Coord, r: &mut StdRng) -> Self {
		let v: Vec<u64> = t.0.concat();
		Creator::<Duration, Self>::create(&mut IncrementalFrom { data: v, datagauge: dg, namegauge: ng, coord: c.clone() }, r).1
	}
	fn append(self, n: usize, r: &mut StdRng) -> Self { match choose(2) { 0 => if n == 1 { SingleAppend.edit(self, r).1 } else { BatchAppend(n).edit(self, r).1 }, _ => BatchExtend(n).edit(self, r).1 } }
	fn insert(self, n: usize, r: &mut StdRng) -> Self { BatchInsert(n).edit(self, r).1 }
	fn items(&self, r: &mut StdRng) -> Vec<Item> {
		let (_, v): (Duration, Vec<Item>) = CompFold::comp_fold(self, vec![], Rc::new(add_i as Fun<Vec<Item>>), r);
		v
	}
	const KIND: usize = 2;
	fn comps(&self, es: &[u64], items: &[Item], which: usize, r: &mut StdRng) {
		if which < COMMON { return common(self, es, which, r) }
		match which - COMMON {
			0 => {
				let (t, v): (Vec<Duration>, Vec<Item>) = folder().compute(self, r);
				exact(25, &v, items, 50);
				ck(25, t.len() == 1, 55);
			}
			1 => {
				let (_, mut v) = self.comp_rev(r);
				v.reverse();
				same_elems(25, &v, es, 74);
				let _t: Duration = Reverse.compute(self, r);
			}
			2 => {
				let seen = Rc::new(RefCell::new(vec![]));
				let s = seen.clone();
				let _t: Duration = Native::new(move |v: &Vec<u64>| { *s.borrow_mut() = v.clone(); v.len() }).compute(self, r);
				same_elems(25, &seen.borrow(), es, 76);
				let (_, n) = self.comp_native(Rc::new(|v: &Vec<u64>| v.len()), r);
				ck(25, n == es.len(), 78);
			}
			_ => {
				let (_, v): (Duration, Vec<u64>) = CompMap::comp_map(self, Rc::new(plus1), r);
				let want: Vec<u64> = es.iter().map(plus1).collect();
				same_elems(25, &v, &want, 79);
			}
		}
	}
}

/// `got` are the contents `m` says, archive points included (not for vectors)
fn as_model<T: Ev>(got: &[Item], m: &[Item], id: u64) {
	if T::KIND == 2 { same_elems(25, &elems(got), &elems(m), id) }
	else { same_items(25, 25, &bare(got), &bare(m), id); ck(25, distinct(got), id + 6) }
}
/// the same, as a condition
fn agree<T: Ev>(got: &[Item], m: &[Item]) -> bool {
	let (a, b) = (elems(got), elems(m));
	if a.len() != b.len() { return false }
	if T::KIND != 2 {
		let gaps = |v: &[Item]| { let mut g: Vec<Vec<Item>> = vec![vec![]]; for i in v { match *i { E(_) => g.push(vec![]), _ => g.last_mut().unwrap().push(i.clone()) } } g };
		let (g, w) = (gaps(&bare(got)), gaps(&bare(m)));
		let last = w.len() - 1;
		for i in 0..w.len() {
			let ok = if i == 0 || i == last || w[i].is_empty() { g[i].is_empty() } else { g[i].len() == 1 && w[i].contains(&g[i][0]) };
			if !ok { return false }
		}
	}
	let mut ok = true;
	for i in 0..a.len() { ok = ok & (a[i] == b[i]) }
	ok
}
/// pushes with the archive points the gauges ask for; `count` pushes came before
fn paced(m: &mut Vec<Item>, es: &[u64], count: &mut usize, dg: usize, ng: usize) {
	for e in es {
		m.push(E(*e));
		*count += 1;
		if *count % dg == 0 { m.push(A(0, if *count % (dg * ng) == 0 { Some(name_of_usize(*count)) } else { None })) }
	}
}
/// A converted tree reuses the names of the stack, so it is edited in a namespace of its own.
fn within<R, F: FnOnce() -> R>(from: usize, f: F) -> R { if from == 4 { ns(name_of_string(String::from("apart")), f) } else { f() } }
fn run<T: Ev>() {
	let (from, n, dg, ng, ops, batch, which, kinds) = (param(3), param(4), param(5), param(6), param(7), param(8), param(9), param(10));
	let c = Coord::new();
	let mut r = levels_rng(param(11), param(12) as u32);
	let r = &mut r;
	let mut count = 0;
	let (mut d, want) = match from {
		0 => (T::empty(dg, ng, &c, r), vec![]),
		1 => {
			let d = T::init(n, dg, ng, &c, r);
			let (mut w, mut k) = (vec![], 0);
			let es = c.take();
			ck(25, es.len() == n, 1);
			paced(&mut w, &es, &mut k, dg, ng);
			(d, w)
		}
		_ => {
			// n segments; names on all archive points when names are what is focused on
			let named = if T::KIND == 1 { 1 } else { choose(2) };
			let mut w = vec![]; let mut ss = vec![];
			for i in 0..pat(n).1 {
				if i > 0 { w.push(A(0, if named == 1 { Some(name_of_usize(i)) } else { None })) }
				let s: Vec<u64> = (0..dg).map(|_| sym64()).collect();
				for e in &s { w.push(E(*e)) }
				ss.push(s);
			}
			(T::from(from - 2, (ss, named), dg, ng, &c, r), w)
		}
	};
	let mut got = d.items(r);
	as_model::<T>(&got, &want, 2);
	if which > 0 { d.comps(&elems(&got), &got, which - 1, r) }
	for _ in 0..ops {
		c.take();
		let old = got.clone();
		let len = elems(&old).len();
		let b = if kinds & 4 == 0 { batch } else { 1 + choose(batch) };
		let ins = match kinds & 3 { 0 => choose(2) == 1, 1 => false, _ => true };
		if !ins {
			d = within(from, || d.append(b, r));
			let es = c.take();
			ck(25, es.len() == b, 10);
			got = d.items(r);
			let mut m = old;
			paced(&mut m, &es, &mut count, dg, ng);
			as_model::<T>(&got, &m, 11);
			reach(1);
		} else {
			if len == 0 || (T::KIND == 1 && !old.iter().any(|i| match *i { A(_, Some(_)) => true, _ => false })) { return }
			c.1.set(if T::KIND == 2 { b } else { 0 });
			d = within(from, || d.insert(b, r));
			c.1.set(usize::max_value());
			let draws = c.take();
			ck(25, draws.len() == b + 1, 18);
			if draws.len() != b + 1 { return }
			got = d.items(r);
			// the place: the first number drawn, or the last
			let at = |es: &[u64], i: usize, count: usize| { let mut m = Model::at(&old, i); let mut k = count; paced(&mut m.l, es, &mut k, dg, ng); m.items() };
			let mut fwd: Vec<Vec<Item>> = vec![];
			for t in 0..2 {
				let turn = if T::KIND == 2 { 1 - t } else { t };
				let (es, loc) = if turn == 0 { (draws[1..].to_vec(), draws[0]) } else { (draws[..b].to_vec(), draws[b]) };
				let mut es = es;
				if T::KIND == 2 { es.reverse() }
				if T::KIND == 1 {
					// before or at one of the named points
					let mut hit = None;
					for (j, i) in old.iter().enumerate() { if let A(_, Some(_)) = *i {
						let k = elems(&old[..j]).len();
						let m = at(&es, k, count);
						if hit.is_none() && agree::<T>(&got, &m) { hit = Some(m) }
					} }
					if let Some(m) = hit { fwd.push(m); break }
				} else {
					let l = loc as usize % len;
					for i in 0..len { if l == i {
						let m = at(&es, i, count);
						if agree::<T>(&got, &m) { fwd.push(m) }
						break
					} }
					if !fwd.is_empty() { break }
				}
			}
			ck(25, !fwd.is_empty(), 19);
			match fwd.pop() { Some(m) => as_model::<T>(&got, &m, 20), None => return }
			count += b;
			reach(2);
		}
		if which > 0 { d.comps(&elems(&got), &got, which - 1, r) }
	}
	reach(0);
}
/// params: property, engine, driver (0 cursor, 1 by name, 2 vector), origin (0 nothing, 1 generated, 2.. from a cursor, a tree, a stack), size (given parts: of level pattern size / 100),
/// elements per archive point, archive points per name, edits, batch, computation (0 none), edits (+0 any, 1 append, 2 insert; +4 any batch size), symbolic level numbers, their bits
#[no_mangle]
pub extern "C" fn h_eval() {
	engine(param(1));
	match param(2) {
		0 => run::<EvalIRaz<u64,Coord>>(),
		1 => run::<EvalRazNameIndex<u64,Coord>>(),
		_ => run::<EvalVec<u64,Coord>>(),
	}
}

struct Probe(Rc<RefCell<Vec<Vec<u64>>>>);
impl<D: CompFold<u64, Vec<u64>, Fun<Vec<u64>>, Target=Vec<u64>>> Computor<Duration, D> for Probe {
	fn compute(&mut self, data: &D, rng: &mut StdRng) -> Duration {
		let (t, v) = fresh_ns(|| data.comp_fold(vec![], Rc::new(add_e as Fun<Vec<u64>>), rng));
		self.0.borrow_mut().push(v);
		t
	}
}
impl<D: CompFold<u64, Vec<u64>, Fun<Vec<u64>>, Target=Vec<u64>>> Computor<(Vec<Duration>, u64), D> for Probe {
	fn compute(&mut self, data: &D, rng: &mut StdRng) -> (Vec<Duration>, u64) { let t = self.compute(data, rng); (vec![t], 0) }
}
fn seq<D: CreateInc<Coord> + EditAppend + CompFold<u64, Vec<u64>, Fun<Vec<u64>>, Target=Vec<u64>>>(multi: bool) {
	let (n, dg, ng, changes, batch) = (param(4), param(5), param(6), param(7), param(8));
	let c = Coord::new();
	let mut r = levels_rng(0, 0);
	let log = Rc::new(RefCell::new(vec![]));
	let mut t = EditComputeSequence {
		init: IncrementalInit { size: n, datagauge: dg, namegauge: ng, coord: c.clone() },
		edit: BatchAppend(batch), comp: Probe(log.clone()), changes: changes,
	};
	let lens = if multi {
		let x: TestMResult<D, u64> = t.test(&mut r);
		[x.edits.len(), x.full_edits.len(), x.computes.len(), x.full_computes.len()]
	} else {
		let x: TestResult<D> = t.test(&mut r);
		[x.edits.len(), x.full_edits.len(), x.computes.len(), x.full_computes.len()]
	};
	for l in lens.iter() { ck(25, *l == changes + 1, 80) }
	let es = c.take();
	ck(25, es.len() == n + changes * batch, 81);
	let log = log.borrow();
	ck(25, log.len() == changes + 1, 82);
	for i in 0..log.len() { if n + i * batch <= es.len() { same_elems(25, &log[i], &es[..n + i * batch], 83) } }
	reach(0);
}
/// params as for h_eval; which: 0 one time, 1 many times
#[no_mangle]
pub extern "C" fn h_eval_seq() {
	engine(param(1));
	let multi = param(3) == 1;
	match param(2) {
		0 => seq::<EvalIRaz<u64,Coord>>(multi),
		1 => seq::<EvalRazNameIndex<u64,Coord>>(multi),
		_ => seq::<EvalVec<u64,Coord>>(multi),
	}
}

struct Made { size: usize }
thread_local!(static MADE: RefCell<Vec<(usize, usize)>> = RefCell::new(vec![]));
impl CreateInc<Coord> for Made {
	fn inc_init(size: usize, _: usize, _: usize, _: &Coord, _: &mut StdRng) -> (Duration, Self) { (Duration::zero(), Made { size: size }) }
}
impl EditInsert for Made {
	fn insert(self, n: usize, _: &mut StdRng) -> (Duration, Self) { let s = self.size; MADE.with(|m| m.borrow_mut().push((s, n))); (Duration::zero(), self) }
}
/// params: property, count
#[no_mangle]
pub extern "C" fn h_eval_build() {
	let n = param(1);
	let b = sym64() as usize;
	let mut t = test_build::BuildTest { init: IncrementalInit { size: 0, datagauge: 1, namegauge: 1, coord: Coord::new() }, edit: BatchInsert(b), multiplier: 2.0, count: n };
	let x: test_build::TestResult<Made> = t.test(&mut levels_rng(0, 0));
	for l in [x.build.len(), x.build_full.len(), x.edit.len(), x.edit_full.len()].iter() { ck(25, *l == n, 90) }
	let m = MADE.with(|m| m.borrow().clone());
	ck(25, m.len() == n, 91);
	for i in 0..m.len() { ck(25, m[i].0 == 1 << i, 92); ck(25, m[i].1 == b, 93) }
	reach(0);
}
/// generated values lie in their ranges
#[no_mangle]
pub extern "C" fn h_eval_types() {
	let mut c = Coord::new();
	let a = GenSmall::rand(&mut c);
	ck(25, a.0 < 100, 94);
	let b = Gen10k::rand(&mut c);
	ck(25, b.0 < 10000, 95);
	ck(25, (a + GenSmall::from(1)).0 == a.0 + 1, 96);
	let d = GenSetElm::rand(&mut c);
	let w = c.take();
	ck(25, (d.0).0 as u64 == w[2], 97);
	let _ = runs(&[]);
	reach(0);
}
