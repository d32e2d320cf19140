//! Levels and skip lists.
use api::*;
use model::*;
use adapton::engine::*;
use rand::{Rng, Rand};
use iodyn::level_tree::gen_branch_level;
use iodyn::trees::{Level, NegBin};
use iodyn::skiplist::*;
use iodyn::trie::{Trie, HashVal};
use std::collections::HashMap;
use std::hash::{Hash, Hasher};
use std::collections::hash_map::DefaultHasher;
use std::fmt::Debug;

/// a generator whose every number is arbitrary
pub struct Any(pub Vec<u64>);
impl Rng for Any {
	fn next_u32(&mut self) -> u32 { let v = sym32(); self.0.push(v as u64); v }
	fn next_u64(&mut self) -> u64 { let v = sym64(); self.0.push(v); v }
}
/// 1 + the number of trailing zeros, at most 64, without bit counting instructions
fn height(x: u64) -> u32 {
	let mut n = 64; let mut k = 64;
	while k > 0 { k -= 1; n = if (x >> k) & 1 == 1 { k as u32 + 1 } else { n } }
	n
}
#[no_mangle]
pub extern "C" fn h_level() {
	let mut r = Any(vec![]);
	let a = gen_branch_level(&mut r);
	ck(19, r.0.len() == 1, 1);
	ck(19, a == height(r.0[0]), 2);
	ck(19, (a >= 1) & (a <= 64), 3);
	let b = NegBin::rand(&mut r);
	ck(19, r.0.len() == 2, 4);
	ck(19, b.0 as u32 == height(r.0[1]), 5);
	let c = r.gen::<NegBin>();
	ck(19, (c.0 >= 1) & (c.0 <= 64), 6);
	// what the generator gives decides, and nothing else
	let d = gen_branch_level(&mut r);
	assume(r.0[3] == r.0[0]);
	ck(19, a == d, 7);
	reach(0);
}
fn levels<L: Level + Debug>(a: L, b: L, id: u64) {
	ck(19, (L::l_min() <= a) & (a <= L::l_max()), id);
	if a < L::l_max() {
		let n = a.l_inc();
		ck(19, n > a, id + 1);
		// nothing between
		ck(19, !((a < b) & (b < n)), id + 2);
		ck(19, n.l_dec() == a, id + 3);
	}
	if a > L::l_min() {
		let n = a.l_dec();
		ck(19, n < a, id + 4);
		ck(19, !((n < b) & (b < a)), id + 5);
		ck(19, n.l_inc() == a, id + 6);
	}
}
#[no_mangle]
pub extern "C" fn h_level_order() {
	levels(NegBin(sym(8) as u8), NegBin(sym(8) as u8), 10);
	levels(sym64() as usize, sym64() as usize, 20);
	let (a, b) = (sym(8) as u8, sym(8) as u8);
	ck(19, (NegBin(a) < NegBin(b)) == (a < b), 30);
	ck(19, (NegBin(a) == NegBin(b)) == (a == b), 31);
	reach(0);
}

/// makes the next numbers of the thread's generator arbitrary (`n` of them): they are in the buffer of its state,
/// which is filled backwards and found by its last two numbers
fn any_thread_rng(n: usize) -> Vec<u64> {
	use std::mem::size_of;
	let mut t = ::rand::thread_rng();
	let out: Vec<u64> = (0..n).map(|_| sym64()).collect();
	let w: &mut [u64] = unsafe {
		let p = *(&t as *const ::rand::ThreadRng as *const *mut u64);
		::std::slice::from_raw_parts_mut(p, (16 + 8 + size_of::<::rand::StdRng>() + 16) / 8)
	};
	// not at the end of the buffer
	for _ in 0..4 {
		let (a, b) = (t.next_u64(), t.next_u64());
		for i in (n + 2..w.len()).rev() {
			if w[i] == a && w[i - 1] == b {
				for j in 0..n { w[i - 2 - j] = out[j] }
				return out
			}
		}
	}
	fail(1999);
	out
}
/// params: property, levels drawn: the crate's own level generator
#[no_mangle]
pub extern "C" fn h_inc_level() {
	let n = param(1);
	let r = any_thread_rng(n);
	for x in &r {
		let l = ::iodyn::inc_level();
		ck(19, l == height(*x), 50);
		ck(19, (l >= 1) & (l <= 64), 51);
	}
	reach(0);
}

/// a key: arbitrary, with a hash of the chosen class
#[derive(Clone,Debug)]
struct K { id: u64, seed: u64 }
impl PartialEq for K { fn eq(&self, o: &K) -> bool { self.id == o.id } }
impl Eq for K {}
impl Hash for K { fn hash<H: Hasher>(&self, h: &mut H) { h.write_u64(self.seed) } }
fn hash_of(k: &K) -> u64 { let mut h = DefaultHasher::new(); k.hash(&mut h); h.finish() }
/// for every class of hashes (their low `bits` bits) a seed which is hashed there
fn seeds(bits: usize) -> Vec<u64> {
	let n = 1usize << bits;
	let mut v: Vec<Option<u64>> = vec![None; n];
	let mut left = n; let mut s = 0;
	while left > 0 {
		let c = (hash_of(&K { id: 0, seed: s }) as usize) & (n - 1);
		if v[c].is_none() { v[c] = Some(s); left -= 1 }
		s += 1;
	}
	v.into_iter().map(|s| s.unwrap()).collect()
}
type Map = Vec<(K, Option<u64>)>;
fn mget(m: &Map, k: &K) -> Option<u64> { for x in m { if x.0 == *k { return x.1 } } None }
fn mput(m: &mut Map, k: &K, v: Option<u64>) -> Option<u64> {
	for x in m.iter_mut() { if x.0 == *k { let o = x.1; x.1 = v; return o } }
	m.push((k.clone(), v));
	None
}
/// params: property, engine, path length, classes (as a number of low bits), keys, operations, old copies, mode
/// mode: 0 key after key is written, then anything; 1 the same, the first writes being puts; 2 puts, removals and renamings only
#[no_mangle]
pub extern "C" fn h_skip() {
	engine(param(1));
	let (len, bits, nkeys, ops, old, mode) = (param(2), param(3), param(4), param(5), param(6), param(7));
	let seeds = seeds(bits);
	let mut keys: Vec<K> = vec![];
	for _ in 0..nkeys {
		let k = K { id: sym64(), seed: seeds[choose(seeds.len())] };
		// equal keys have equal hashes
		for q in &keys { if q.seed != k.seed { assume(q.id != k.id) } }
		keys.push(k);
	}
	let mut s: Skiplist<K,u64> = Skiplist::emp(len, name_of_string(String::from("skip")));
	let mut m: Map = vec![];
	let mut kept: Vec<(Skiplist<K,u64>, Map)> = vec![];
	let full = choose(ops);
	for i in 0..ops {
		if old > 0 && i == full { kept.push((s.clone(), m.clone())) }
		if mode == 2 {
			let o = if i == 0 { 0 } else { choose(2 * nkeys + 1) };
			if o == 2 * nkeys { s.archive(name_of_usize(fresh())); continue }
			let k = keys[o / 2].clone();
			if o % 2 == 0 { let v = sym64(); s.put(k.clone(), v); mput(&mut m, &k, Some(v)); }
			else { let o = s.rem(k.clone()); ck(20, o == mput(&mut m, &k, None), 2) }
			continue
		}
		// the first writes: key after key
		let k = if i < nkeys { keys[i].clone() } else { keys[choose(nkeys)].clone() };
		match if i < nkeys && mode == 1 { 0 } else { choose(if i < nkeys { 2 } else { 5 }) } {
			0 => { let v = sym64(); s.put(k.clone(), v); mput(&mut m, &k, Some(v)); }
			1 => {
				let v = if choose(2) == 0 { None } else { Some(sym64()) };
				let o = s.ext(k.clone(), v);
				ck(20, o == mput(&mut m, &k, v), 1);
			}
			2 => { let o = s.rem(k.clone()); ck(20, o == mput(&mut m, &k, None), 2) }
			3 => s.archive(name_of_usize(fresh())),
			_ => ck(20, s.get(k.clone()) == mget(&m, &k), 3),
		}
	}
	for k in &keys { ck(20, s.get(k.clone()) == mget(&m, k), 4) }
	if mode == 2 { reach(0); return }
	// a key that need not be among these
	let k = K { id: sym64(), seed: seeds[choose(seeds.len())] };
	for q in &keys { if q.seed != k.seed { assume(q.id != k.id) } }
	ck(20, s.get(k.clone()) == mget(&m, &k), 5);
	for &(ref s, ref m) in &kept { for k in &keys { ck(20, s.get(k.clone()) == mget(m, k), 6) } reach(1) }
	reach(0);
}

/// params: property, engine, path length, keys, operations
/// Many keys, each of its own class, and a fixed long history, of which one step is anything
#[no_mangle]
pub extern "C" fn h_skip_many() {
	engine(param(1));
	let (len, nkeys, ops) = (param(2), param(3), param(4));
	let keys: Vec<K> = (0..nkeys).map(|i| K { id: i as u64, seed: (i as u64).wrapping_mul(0x9e3779b97f4a7c15) }).collect();
	let mut s: Skiplist<K,u64> = Skiplist::emp(len, name_of_string(String::from("skip")));
	let mut m: Map = vec![];
	let at = choose(ops);
	let mut kept = None;
	let mut x = 12345u32;
	for i in 0..ops {
		x = x.wrapping_mul(1664525).wrapping_add(1013904223);
		let (k, o) = if i == at { kept = Some((s.clone(), m.clone())); (keys[choose(nkeys)].clone(), choose(6)) }
			else { (keys[(x >> 8) as usize % nkeys].clone(), [0, 0, 1, 5, 2, 3][(x >> 20) as usize % 6]) };
		match o {
			0 => { let v = sym64(); s.put(k.clone(), v); mput(&mut m, &k, Some(v)); }
			1 => { let v = Some(sym64()); ck(20, s.ext(k.clone(), v) == mput(&mut m, &k, v), 11) }
			5 => ck(20, s.ext(k.clone(), None) == mput(&mut m, &k, None), 12),
			2 => ck(20, s.rem(k.clone()) == mput(&mut m, &k, None), 13),
			3 => s.archive(name_of_usize(fresh())),
			_ => ck(20, s.get(k.clone()) == mget(&m, &k), 14),
		}
		if i % 4 == 0 { ck(20, s.get(k.clone()) == mget(&m, &k), 15) }
	}
	for k in &keys { ck(20, s.get(k.clone()) == mget(&m, k), 16) }
	ck(20, s.get(K { id: 1000, seed: 3 }) == None, 17);
	if param(1) == 0 { if let Some((s, m)) = kept { for k in &keys { ck(20, s.get(k.clone()) == mget(&m, k), 18) } } }
	reach(0);
}

/// the hash values `find` takes have no public constructor; they are a word
fn hash_val(h: u64) -> HashVal { unsafe { ::std::mem::transmute::<usize, HashVal>(h as usize) } }
/// `n` keys and their values: arbitrary, the keys different from one another and from those before
fn bindings(n: usize, seeds: &[u64], before: &[(K, u64)]) -> Vec<(K, u64)> {
	let mut v: Vec<(K, u64)> = vec![];
	for _ in 0..n {
		let k = K { id: sym64(), seed: seeds[choose(seeds.len())] };
		for q in before.iter().chain(v.iter()) { assume(q.0.id != k.id) }
		v.push((k, sym64()));
	}
	v
}
fn trie_of(b: &[(K, u64)]) -> Trie<K, u64> {
	let mut m = HashMap::new();
	for x in b { m.insert(x.0.clone(), x.1); }
	Trie::from_hashmap(m)
}
/// finds every binding, and nothing for a key that is not bound; with the key's hash, or with any
fn trie_is(t: &Trie<K, u64>, b: &[(K, u64)], seeds: &[u64], any: bool, id: u64) {
	for x in b {
		let h = if any { sym64() } else { hash_of(&x.0) };
		ck(26, Trie::find(t, hash_val(h), &x.0) == Some(x.1), id);
	}
	let k = K { id: sym64(), seed: seeds[choose(seeds.len())] };
	for q in b { if q.0.seed != k.seed { assume(q.0.id != k.id) } }
	let h = if any { sym64() } else { hash_of(&k) };
	let mut want = None;
	for q in b { if q.0 == k { want = Some(q.1) } }
	ck(26, Trie::find(t, hash_val(h), &k) == want, id + 1);
}
/// params: property, engine, bindings, classes of keys (as a number of low bits)
#[no_mangle]
pub extern "C" fn h_trie() {
	engine(param(1));
	let seeds = seeds(param(3));
	let b = bindings(param(2), &seeds, &[]);
	let t = trie_of(&b);
	trie_is(&t, &b, &seeds, true, 1);
	let e: Trie<K, u64> = Trie::empty();
	trie_is(&e, &[], &seeds, true, 3);
	let u = match choose(3) {
		0 => t.clone(),
		1 => Trie::union(Trie::empty(), t.clone(), name_of_usize(1)),
		_ => Trie::union(t.clone(), Trie::empty(), name_of_usize(2)),
	};
	ck(26, u == t, 5);
	trie_is(&u, &b, &seeds, true, 6);
	trie_is(&t, &b, &seeds, true, 8);
	let u = Trie::union(Trie::empty(), e, name_of_usize(3));
	trie_is(&u, &[], &seeds, true, 10);
	reach(0);
}
/// params: property, engine, bindings left, bindings right, classes of keys, unions
#[no_mangle]
pub extern "C" fn h_trie_union() {
	engine(param(1));
	let seeds = seeds(param(4));
	let mut all = bindings(param(2), &seeds, &[]);
	let mut t = trie_of(&all);
	for i in 0..param(5) {
		let b = bindings(param(3), &seeds, &all);
		let r = trie_of(&b);
		t = if choose(2) == 0 { Trie::union(t, r, name_of_usize(i)) } else { Trie::union(r, t, name_of_usize(i)) };
		all.extend(b);
		trie_is(&t, &all, &seeds, false, 20);
	}
	reach(0);
}
