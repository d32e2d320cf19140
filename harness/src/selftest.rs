//! Exercises the executor itself: each step is observed, and the native replay must observe the same.
use api::*;
use std::collections::*;
use std::rc::{Rc, Weak};
use std::cell::{Cell, RefCell};
use std::fmt::Write;
use std::borrow::Cow;
fn ob<I: IntoIterator<Item=u64>>(i: I) { for v in i { observe(v) } }
fn h<T: ::std::hash::Hash + ?Sized>(t: &T) -> u64 { use std::hash::Hasher; let mut h = ::std::collections::hash_map::DefaultHasher::new(); t.hash(&mut h); h.finish() }
fn small(n: u64) -> u64 { let v = sym64(); assume(v < n); v }
fn vecs() {
	let mut v: Vec<u64> = (0..20).map(|x| (x * 7919 + 13) % 31).collect();
	v.sort(); ob(v.iter().cloned());
	v.sort_by(|a, b| b.cmp(a)); ob(v.clone());
	v.sort_by_key(|x| x % 5); ob(v.clone());
	v.sort_unstable(); v.dedup(); ob(v.clone());
	v.retain(|x| x % 3 != 0); ob(v.clone());
	let d: Vec<u64> = v.drain(1..4).collect(); ob(d);
	let s: Vec<u64> = v.splice(0..2, vec![9, 8, 7]).collect(); ob(s); ob(v.clone());
	v.rotate_left(2); ob(v.clone());
	v.reverse(); v.swap(0, 2); v.truncate(6); ob(v.clone());
	let t = v.split_off(3); ob(t.clone()); v.extend_from_slice(&t); v.insert(1, 99); v.swap_remove(0); ob(v.clone());
	ob(v.iter().rev().skip(1).step_by(2).cloned());
	ob(v.chunks(2).map(|c| c.iter().sum()));
	ob(v.windows(3).map(|c| c[0] ^ c[2]));
	ob(v.iter().zip(v.iter().skip(1)).map(|(a, b)| a.wrapping_sub(*b)));
	observe(v.iter().position(|x| *x == 99).map(|x| x as u64).unwrap_or(1000));
	observe(v.binary_search(&5).unwrap_or_else(|x| x) as u64);
	ob(v.iter().flat_map(|x| vec![*x; (*x % 3) as usize]));
	ob(v.iter().scan(0u64, |a, x| { *a += *x; Some(*a) }));
	let (a, b): (Vec<u64>, Vec<u64>) = v.iter().partition(|x| **x > 10); ob(a); ob(b);
	ob(vec![v.clone(), v.clone()].concat());
	let mut p = v.iter().peekable();
	while let Some(x) = p.next() { if let Some(y) = p.peek() { observe(x + **y) } }
	ob(v.iter().min_by_key(|x| **x % 7).cloned()); ob(v.iter().max().cloned());
	let mut it = v.into_iter(); observe(it.len() as u64); ob(it.next_back()); ob(it.nth(1)); ob(it.as_slice().iter().cloned());
	let mut arr = [3u64, 1, 2]; arr.sort(); ob(arr.iter().cloned());
	let bs: Box<[u64]> = vec![1, 2, 3].into_boxed_slice(); ob(bs.into_vec());
	if let Some((f, r)) = [1u64, 2, 3].split_first() { observe(*f + r.len() as u64) }
	observe([1u64, 2, 3].contains(&2) as u64); observe([1u64, 2].starts_with(&[1]) as u64);
	let mut w = vec![0u64; 5]; w[1..3].copy_from_slice(&[4, 5]); w.resize(7, 3); ob(w);
}
fn colls() {
	let mut m = BTreeMap::new(); for i in 0..30u64 { m.insert((i * 17) % 31, i); } ob(m.iter().map(|(k, v)| k * 100 + v));
	for i in 0..10 { m.remove(&(i * 3)); } ob(m.range(5..20).map(|(k, v)| k * 100 + v));
	*m.entry(7).or_insert(0) += 5; ob(m.get(&7).cloned());
	let s: BTreeSet<u64> = m.keys().cloned().collect(); ob(s.iter().cloned().take(3));
	let mut hm: HashMap<u64, u64> = HashMap::new(); for i in 0..40 { *hm.entry(i % 13).or_insert(0) += i; }
	let mut ks: Vec<_> = hm.iter().map(|(a, b)| a * 1000 + b).collect(); ks.sort(); ob(ks);
	hm.retain(|k, _| k % 2 == 0); observe(hm.len() as u64); observe(hm.contains_key(&4) as u64); ob(hm.remove(&4));
	let a: HashSet<u64> = (0..9).collect(); let b: HashSet<u64> = (5..14).collect();
	let mut i: Vec<u64> = a.intersection(&b).cloned().collect(); i.sort(); ob(i);
	let mut q: VecDeque<u64> = VecDeque::new(); for i in 0..10 { if i % 3 == 0 { q.push_front(i) } else { q.push_back(i) } } q.rotate_left(2); q.pop_front(); ob(q.iter().cloned()); ob(q.into_iter().rev());
	let mut hp: BinaryHeap<u64> = vec![3, 1, 4, 1, 5, 9].into_iter().collect(); hp.push(6); while let Some(x) = hp.pop() { observe(x) }
	let mut l: LinkedList<u64> = LinkedList::new(); l.push_back(1); l.push_front(2); ob(l.into_iter());
}
fn sets() {
	let a: HashSet<u64> = (0..3).collect(); let b: HashSet<u64> = (1..4).collect();
	for x in a.iter() { observe(b.contains(x) as u64 * *x * 0) }
	let mut i: Vec<u64> = a.intersection(&b).cloned().collect(); i.sort(); ob(i);
}
fn strings() {
	let mut s = format!("{:?} {:>5}|{:<4}|{:^6}|{:#x} {:08b} {:+}", vec![(1, "a")], 42, 7, "mid", 255, 5, 3);
	s.push_str("é∑"); write!(s, "{}", 12345u64).unwrap();
	observe(h(&s)); observe(s.len() as u64); observe(s.chars().count() as u64);
	ob(s.bytes().map(|b| b as u64));
	ob("12 34 x".split(' ').map(|x| x.parse::<u64>().unwrap_or(77)));
	observe(h(&"hello world".replace("o", "0").to_uppercase()));
	observe("abc".cmp("abd") as i8 as u64); observe(h(&"a,b,c".split(',').rev().collect::<Vec<_>>().join("-")));
	let c: Cow<str> = "x".into(); observe(h(&c.into_owned())); observe(h(&format!("{:?}", Some(Rc::new(RefCell::new(3))))));
	observe("x=3".find('=').unwrap() as u64); observe(h(&"  trim ".trim().to_string()));
	observe(h(&String::from_utf8_lossy(b"ab\xff").into_owned()));
	observe(h(&1u64.to_string())); observe(h(&(-5i32).to_string())); observe(h(&'c'.to_string()));
}
fn ints() {
	let a = sym64(); let b = sym64();
	observe(a.wrapping_mul(3).wrapping_add(b)); observe(a.count_ones() as u64 & 1); observe(a.leading_zeros() as u64); observe((a | 1).trailing_zeros() as u64);
	observe(a.swap_bytes()); observe(a.rotate_left(13)); observe(a.saturating_sub(b)); observe(a.checked_add(b).unwrap_or(3)); observe(a.overflowing_sub(b).1 as u64);
	observe(((a as u128) << 3 >> 5) as u64); observe((a as i64 >> 7) as u64); observe((a as i32 as i64) as u64); observe((a as u8 as i8 as i64) as u64);
	observe(a.reverse_bits()); observe(a.is_power_of_two() as u64); observe((a as u128 + b as u128 >> 64) as u64);
	let d = small(200); observe(d / 7); observe(d % 7); observe((d as i64 - 100).abs() as u64); observe((d as i64 - 100).signum() as u64); observe((d as i64 - 100).rem_euclid(8) as u64);
	observe(std::cmp::max(a, b)); observe(std::cmp::min(a as i64, b as i64) as u64); observe((a, b).cmp(&(b, a)) as i8 as u64); observe(a.cmp(&b) as i8 as u64);
	observe(2u64.pow(5)); observe((a >> (b & 63)) as u64); observe(u64::from(a as u32)); observe(if let Ok(x) = u8::try_from_(a) { x as u64 } else { 300 });
	observe(a.abs_diff(b)); observe(d.next_power_of_two());
}
trait TF: Sized { fn try_from_(x: u64) -> Result<Self, ()>; }
impl TF for u8 { fn try_from_(x: u64) -> Result<u8, ()> { if x < 256 { Ok(x as u8) } else { Err(()) } } }
fn rcs() {
	let r = Rc::new(RefCell::new(vec![1u64])); let w: Weak<_> = Rc::downgrade(&r); r.borrow_mut().push(2);
	observe(w.upgrade().map(|x| x.borrow().len() as u64).unwrap_or(9)); observe(Rc::strong_count(&r) as u64); observe(Rc::ptr_eq(&r, &r.clone()) as u64);
	let c = r.clone(); observe(Rc::try_unwrap(r).is_err() as u64); ob(Rc::try_unwrap(c).unwrap().into_inner()); observe(w.upgrade().is_none() as u64);
	let mut m = Rc::new(5u64); *Rc::make_mut(&mut m) += 1; observe(*m); observe(Rc::get_mut(&mut m).is_some() as u64);
	let fs: Vec<Box<Fn(u64) -> u64>> = vec![Box::new(|x| x + 1), Box::new(|x| x * 2)]; observe(fs.iter().fold(3, |a, f| f(a)));
	let k = Cell::new(4u64); k.set(k.get() + 1); observe(k.replace(7)); observe(k.take());
	let mut o = Some(3u64); ob(o.take()); ob(o.get_or_insert(8).checked_add(1)); ob(o.as_mut().map(|x| { *x += 1; *x })); ob(o.replace(1)); ob(o.filter(|x| *x > 5)); ob(o.xor(Some(2)));
	ob(o.and_then(|x| if x > 0 { Some(x + 1) } else { None })); observe(o.map_or(0, |x| x * 3)); observe(o.ok_or(3).unwrap_or(4));
	let mut a = vec![1u64]; let mut b = vec![2u64, 3]; ::std::mem::swap(&mut a, &mut b); let z = ::std::mem::replace(&mut a, vec![]); ob(z); ob(b); observe(a.len() as u64);
	let e: Result<Vec<u64>, ()> = vec![Ok(1), Err(()), Ok(2)].into_iter().collect(); observe(e.is_err() as u64);
	let so: Option<Vec<u64>> = vec![Some(1), Some(2)].into_iter().collect(); ob(so.unwrap());
	let x: Rc<[u64]> = vec![1, 2].into(); ob(x.iter().cloned()); let s: Rc<str> = "q".into(); observe(h(&*s));
	let any: Box<::std::any::Any> = Box::new(5u64); observe(any.downcast_ref::<u64>().cloned().unwrap_or(0));
	observe(::std::mem::size_of::<Option<Box<u64>>>() as u64);
}
fn symbolic() {
	let mut v: Vec<u64> = (0..3).map(|_| sym64()).collect();
	v.sort(); observe(v[0]); observe((v[0] <= v[1]) as u64); observe((v[1] <= v[2]) as u64);
	v.dedup(); observe(v.len() as u64);
	let mut m = BTreeMap::new(); m.insert(sym64(), 1u64); m.insert(sym64(), 2); observe(m.len() as u64); ob(m.values().cloned());
	let i = small(3) as usize; let t = [10u64, 20, 30]; observe(t[i]); observe(t.iter().rposition(|x| *x == 20).unwrap() as u64);
	let w: Vec<u64> = t.iter().cloned().filter(|x| *x > sym(8)).collect(); observe(w.len() as u64);
	observe(match sym(8) { 0...3 => 1, 4 | 5 => 2, x if x > 200 => 3, _ => 4 });
	let s = small(4); let st = match s { 0 => "zero", 1 => "one", 2 => "two", _ => "many" }; observe(st.len() as u64);
	let k = small(4); let mut q = VecDeque::new(); for x in 0..k { q.push_front(x) } ob(q);
	let hs: HashSet<u64> = vec![concretize(small(3)), 1].into_iter().collect(); observe(hs.len() as u64);
	observe(format!("{}", concretize(small(3))).len() as u64);
}
fn iters() {
	let v: Vec<u64> = (1..12).collect();
	ob(v.iter().cloned().chain(5..8).cycle().take(30)); let (a, b): (Vec<u64>, Vec<u64>) = v.iter().map(|x| (*x, x * x)).unzip(); ob(a); ob(b);
	observe(v.iter().product::<u64>()); observe(v.iter().fold(1, |a, x| a ^ x * 3)); observe(v.iter().try_fold(0u64, |a, x| if *x < 7 { Some(a + x) } else { None }).unwrap_or(99));
	ob(v.iter().cloned().skip_while(|x| *x < 3).take_while(|x| *x < 9)); observe(v.iter().any(|x| *x == 4) as u64); observe(v.iter().all(|x| *x < 4) as u64);
	ob(v.iter().cloned().filter_map(|x| if x % 2 == 0 { Some(x * 10) } else { None })); ob(v.iter().enumerate().map(|(i, x)| i as u64 * x)); ob(v.rchunks(3).map(|c| c.len() as u64));
	ob(v.iter().cloned().inspect(|_| ()).last()); observe(v.iter().count() as u64); ob(v.iter().cloned().max_by(|a, b| (a % 5).cmp(&(b % 5)))); ob(::std::iter::repeat(3).take(3)); ob(::std::iter::once(8));
	ob(::std::iter::successors(Some(1u64), |x| if *x < 100 { Some(x * 3) } else { None })); let mut n = 0u64; ob(::std::iter::from_fn(|| { n += 1; if n < 5 { Some(n) } else { None } }));
	ob((0..10u64).rev().step_by(3)); ob((0..=5u64).rev()); observe((3..7u64).contains(&5) as u64); observe(v.iter().lt(v.iter().skip(1)) as u64); observe(v.iter().eq(v.iter()) as u64);
	ob(v.chunks_exact(4).map(|c| c[3])); ob(v.split(|x| *x % 4 == 0).map(|c| c.len() as u64)); ob(v.iter().rev().enumerate().map(|(i, x)| i as u64 + x)); ob(vec![vec![1u64, 2], vec![3]].into_iter().flatten());
	let mut w = v.clone(); for x in w.iter_mut().rev().take(3) { *x *= 2 } ob(w.clone()); { let (a, b) = w.split_at_mut(4); a[0] = b[0]; } ob(w.clone()); for c in w.chunks_mut(3) { c.reverse() } ob(w.clone());
	w.fill(3); w.extend(v.iter().filter(|x| **x > 8)); ob(w.clone()); w.dedup_by_key(|x| *x / 2); ob(w.clone()); w.sort_by(|a, b| b.partial_cmp(a).unwrap()); ob(w); ob(v.iter().cloned().reduce(|a, b| a * 2 + b)); ob(v.repeat(2)); ob(v.first().cloned()); ob(v.last().cloned()); ob(v.get(50).cloned()); ob(v.get(2..4).unwrap().iter().cloned()); ob(v.iter().map_while(|x| if *x < 4 { Some(*x) } else { None }));
	let z: ::std::collections::HashMap<u64, Vec<u64>> = v.iter().map(|x| (x % 3, vec![*x])).collect(); observe(z.len() as u64); let st: String = vec!['a', 'b'].into_iter().collect(); observe(h(&st)); observe(v.partition_point(|x| *x < 5) as u64); 
	let sz: u64 = v.iter().map(|x| x + 1).sum(); observe(sz); let sl: &[u64] = &v; if let [a, _, b, ..] = sl { observe(a + b) } if let [.., z] = sl { observe(*z) }
}
struct D<'a>(&'a Cell<u64>, u64); impl<'a> Drop for D<'a> { fn drop(&mut self) { self.0.set(self.0.get() * 10 + self.1) } }
trait Sh { fn area(&self) -> u64; fn twice(&self) -> u64 { self.area() * 2 } } struct Q(u64); struct W(u64, u64); impl Sh for Q { fn area(&self) -> u64 { self.0 } } impl Sh for W { fn area(&self) -> u64 { self.0 * self.1 } fn twice(&self) -> u64 { 1 } }
fn mk(n: u64) -> Box<Fn(u64) -> u64> { Box::new(move |x| x + n) } fn once(f: Box<FnOnce() -> u64>) -> u64 { f() } fn quest(x: Option<u64>) -> Option<u64> { let y = x?; Some(y + 1) }
fn rec(n: u64) -> u64 { if n < 2 { n } else { rec(n - 1) + rec(n - 2) } } fn gen<T: Into<u64> + Copy>(t: &[T]) -> u64 { t.iter().map(|x| (*x).into()).sum() }
thread_local!(static TL: RefCell<Vec<u64>> = RefCell::new(vec![]));
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Default)] struct Rec { a: u64, b: Option<String>, c: (u8, i32) }
#[derive(Clone, Debug, PartialEq, Eq, Hash)] enum Ex { Num(u64), Add(Box<Ex>, Rc<Ex>), Nil } fn ev(e: &Ex) -> u64 { match *e { Ex::Num(n) => n, Ex::Add(ref a, ref b) => ev(a) + ev(b), Ex::Nil => 0 } }
fn lang() {
	let c = Cell::new(0); { let _a = D(&c, 1); let b = D(&c, 2); drop(b); let v = vec![D(&c, 3), D(&c, 4)]; let mut it = v.into_iter(); it.next(); } observe(c.get());
	let sh: Vec<Rc<Sh>> = vec![Rc::new(Q(3)), Rc::new(W(2, 5))]; ob(sh.iter().map(|s| s.area() * 100 + s.twice())); observe(mk(4)(5)); let big = vec![1u64, 2]; observe(once(Box::new(move || big.iter().sum()))); ob(quest(Some(3))); ob(quest(None)); observe(rec(10)); observe(gen(&[1u32, 2]));
	TL.with(|t| t.borrow_mut().push(4)); TL.with(|t| observe(t.borrow().len() as u64)); let r = Rec { a: 3, b: Some("x".into()), c: (1, -2) }; observe(h(&r)); observe((r.clone() == r) as u64); observe((r < Rec::default()) as u64); observe(h(&format!("{:?} {:#?}", r, r)));
	let e = Ex::Add(Box::new(Ex::Num(3)), Rc::new(Ex::Add(Box::new(Ex::Nil), Rc::new(Ex::Num(9))))); observe(ev(&e)); observe(h(&e)); observe((e == e.clone()) as u64); observe(h(&format!("{:?}", e)));
	let mut k = 0u64; let z = loop { k += 1; if k * k > 50 { break k } }; observe(z); 'o: for i in 0..5u64 { for j in 0..5 { if i * j == 6 { observe(i * 10 + j); break 'o } if j > i { continue 'o } } }
	let f = 1.5f64; observe((f * 3.0) as u64); observe((f.floor() + 0.25).to_bits()); observe((7.0f32 / 2.0) as u64); observe((f > 1.4) as u64); observe(f.max(2.0) as u64); observe((10f64).sqrt() as u64); observe((2.0f64).powi(5) as u64); observe((3u64 as f64 / 7.0).to_bits()); observe(h(&format!("{:.2} {}", 3.14159, 0.1 + 0.2))); observe((-1.7f64).round() as i64 as u64); observe((2.5f64).ceil() as u64); observe((8f64).log2() as u64); observe((8.0f64).ln().to_bits());
	println!("line {}", 3); eprintln!("err"); let x: u128 = 1 << 100; observe((x >> 90) as u64); observe((x / 1000003 % 1000) as u64); observe((-7i128 / 2) as u64); observe('x' as u64); observe(('a'..'e').count() as u64); observe('Z'.to_ascii_lowercase() as u64); observe("é".len() as u64); assert_eq!(1 + 1, 2, "never {}", 3); debug_assert!(true); if false { unreachable!("no") }
	let t = (1u64, "s", [1u8; 4]); let (a, _, [q, .., _]) = t; observe(a + q as u64); let ref rr = t; observe(rr.0); let mut arr2 = [[0u64; 3]; 3]; for i in 0..3 { for j in 0..3 { arr2[i][j] = (i * j) as u64 } } ob(arr2.iter().flat_map(|r| r.iter().cloned())); let s: &'static str = stringify!(a + b); observe(s.len() as u64); observe(::std::any::type_name::<u64>().len() as u64); let p: *const u64 = &arr2[1][1]; observe(unsafe { *p.offset(1) }); observe(u64::max_value()); observe(i32::min_value() as u64); observe(u8::MAX as u64); observe("12".parse::<i64>().map(|x| x as u64).unwrap_or(0)); observe("1.5".parse::<f64>().unwrap().to_bits()); let c2 = ::std::sync::Arc::new(::std::sync::Mutex::new(3u64)); *c2.lock().unwrap() += 1; observe(*c2.lock().unwrap()); static AT: ::std::sync::atomic::AtomicUsize = ::std::sync::atomic::AtomicUsize::new(3); AT.fetch_add(2, ::std::sync::atomic::Ordering::SeqCst); observe(AT.load(::std::sync::atomic::Ordering::SeqCst) as u64); observe(AT.compare_exchange(5, 9, ::std::sync::atomic::Ordering::SeqCst, ::std::sync::atomic::Ordering::SeqCst).is_ok() as u64);
	let on: ::std::sync::OnceLock<u64> = ::std::sync::OnceLock::new(); observe(*on.get_or_init(|| 6)); let b: Box<::std::error::Error> = "boom".into(); observe(h(&b.to_string())); let cow: Cow<[u64]> = Cow::Borrowed(&[1, 2]); observe(cow.len() as u64); let ph: ::std::marker::PhantomData<u64> = ::std::marker::PhantomData; let _ = ph; observe(::std::mem::discriminant(&Some(1)).eq(&::std::mem::discriminant(&Some(2))) as u64);
	let w = ::std::num::Wrapping(u64::max_value()) + ::std::num::Wrapping(2); observe(w.0); observe(::std::cmp::Reverse(3).cmp(&::std::cmp::Reverse(4)) as i8 as u64); let nz = ::std::num::NonZeroU64::new(0); observe(nz.is_none() as u64); observe(1u64.rotate_right(1)); observe(0x1234u16.to_be() as u64); ob(0x12345678u32.to_le_bytes().iter().map(|b| *b as u64)); observe(u32::from_str_radix("ff", 16).unwrap() as u64); observe((5u64).checked_div(0).is_none() as u64); observe((200u8).checked_mul(2).is_none() as u64); observe((5i64).pow(3) as u64); observe((17u64).isqrt()); observe(10u64.ilog2() as u64); observe(1000u64.ilog10() as u64); observe(7u64.div_ceil(2)); 
}
fn symb2() {
	match param(2) {
	0 => { let a = [sym(8) as u8, sym(8) as u8, 7]; observe((a == [1, 2, 7]) as u64); observe((&a[..2] == &a[1..]) as u64); observe((a < [3, 3, 3]) as u64); observe(a.contains(&9) as u64); }
	1 => { let a = [sym64(), sym64(), 7]; let b = [sym64(), 5, sym64()]; observe((a == b) as u64); observe(a.iter().cmp(b.iter()) as i8 as u64); observe((a.to_vec() < b.to_vec()) as u64); }
	2 => { let v: Vec<u64> = (0..3).map(|_| sym64()).collect(); observe(v.iter().cloned().max().unwrap()); observe(v.iter().fold(0, |a, x| a ^ x)); let mut w = v.clone(); w.reverse(); w.rotate_left(1); observe(w[0]); let e: Vec<u64> = v.iter().cloned().filter(|x| x % 2 == 0).collect(); observe(e.len() as u64); }
	3 => { let n = small(5) as usize; let v: Vec<u64> = (0..n as u64).collect(); observe(v.len() as u64); observe(v.iter().rev().next().cloned().unwrap_or(7)); let mut b = vec![1u64, 2, 3, 4, 5]; b.truncate(n); observe(b.iter().sum()); b.insert(n / 2, 9); ob(b.clone()); let s = b.split_off(n / 2); ob(s); let d: Vec<u64> = b.drain(..n / 4).collect(); ob(d); }
	4 => { let s = format!("{}-{}", "ab", concretize(small(12))); observe(s.len() as u64); observe(h(&s)); let x = sym64(); observe(h(&(x == 5, 3u8))); let o = if x > 9 { Some(x) } else { None }; observe(o.unwrap_or(0)); observe(o.map(|y| y - 9).unwrap_or(1)); }
	5 => { let k = sym64(); let mut m = HashMap::new(); m.insert(concretize(k & 3), 5u64); m.insert(2, 6); observe(m.len() as u64); let r = Rc::new(Cell::new(k)); let q = r.clone(); q.set(k ^ 1); observe(r.get()); let b: Box<Fn(u64) -> u64> = if k > 5 { Box::new(|x| x + 1) } else { Box::new(move |x| x ^ k) }; observe(b(3)); }
	7 => { let k = small(9); let f = k as f64 / 3.0; observe(f.floor() as u64); observe((f > 1.5) as u64); observe((f as f32).to_bits() as u64); observe(f.powf(1.5).to_bits()); observe(((k as i64 - 4) as f32 * -0.5) as i64 as u64); observe(f.log2() as i64 as u64); observe(f.max(1.0).to_bits()); observe((-f).abs().sqrt().to_bits()); observe((f % 0.7).to_bits()); }
	8 => { let k = small(40); let mut v: Vec<u64> = (0..40).map(|x| (x * 7 + 3) % 41).collect(); v[3] = k; let k = concretize(k); v.sort(); observe(v[k as usize]); v.sort_unstable_by(|a, b| b.cmp(a)); ob(v.clone()); let mut m: BTreeMap<u64, u64> = v.iter().map(|x| (*x, *x)).collect(); ob(m.remove(&k)); ob(m.range(k..).next().map(|x| *x.0)); m.retain(|x, _| x % 2 == 0); ob(m.into_iter().map(|x| x.0)); }
	9 => { let k = sym64(); let mut m: HashMap<u64, u64> = HashMap::new(); m.insert(5, 1); m.insert(9, 2); ob(m.get(&k).cloned()); m.insert(k, 3); observe(m.len() as u64); let s: HashSet<u64> = m.keys().cloned().collect(); observe(s.contains(&5) as u64); }
	_ => { let f = small(100) as u64; observe((f as u32).leading_zeros() as u64); observe(f.trailing_zeros() as u64); observe((f << 3 | f >> 2).count_ones() as u64); observe(1u64 << (f % 64)); observe((f as i64 - 50).abs() as u64); observe((f as u8).rotate_left(3) as u64); observe((f as u16).swap_bytes() as u64); let m = (f as u128) << 64 | 5; observe((m >> 60) as u64); observe((f as i8) as i64 as u64); observe(f.pow(2)); observe(f * f % 10); }
	}
}
#[no_mangle]
pub extern "C" fn h_std() {
	match param(1) { 0 => vecs(), 1 => colls(), 2 => strings(), 3 => ints(), 4 => rcs(), 6 => sets(), 7 => iters(), 8 => lang(), 9 => symb2(), _ => symbolic() }
	reach(0);
}
