//! Native runner: replays one input assignment against the natively compiled crate.
extern crate vh;
use std::sync::Mutex;
struct Rt { params: Vec<u64>, ins: Vec<u64>, pos: usize, obs: Vec<u64>, want: Vec<u64>, expect_panic: bool, uf: Vec<(u64,u64)>, mode: String, wantp: String }
static RT: Mutex<Option<Rt>> = Mutex::new(None);
fn with<R, F: FnOnce(&mut Rt) -> R>(f: F) -> R { let mut g = match RT.lock() { Ok(g) => g, Err(e) => e.into_inner() }; f(g.as_mut().unwrap()) }
fn die(code: i32, m: String) -> ! { println!("{}", m); std::process::exit(code) }
fn next_in() -> u64 {
    let r = with(|r| { if r.pos < r.ins.len() { r.pos += 1; Some(r.ins[r.pos - 1]) } else { None } });
    match r { Some(v) => v, None => die(13, "inputs exhausted".into()) }
}
fn finish(panicked: bool) -> ! {
    let (ok, m) = with(|r| {
        if r.mode == "violation" { return (false, "run completed without violation".to_string()); }
        let p = if panicked { "panic" } else { "ok" };
        if p != r.wantp { return (false, format!("outcome {} instead of {}", p, r.wantp)); }
        if r.obs != r.want { return (false, format!("observed {:?} expected {:?}", r.obs, r.want)); }
        if r.pos != r.ins.len() { return (false, "unused inputs".to_string()); }
        (true, "agree".to_string())
    });
    die(if ok { 0 } else { 11 }, m)
}
#[no_mangle] pub extern "C" fn sx_sym(bits: u32) -> u64 { let v = next_in(); if bits < 64 { v & ((1u64 << bits) - 1) } else { v } }
#[no_mangle] pub extern "C" fn sx_choose(n: u64) -> u64 { let v = next_in(); if v >= n { die(12, "choose out of range".into()) } v }
#[no_mangle] pub extern "C" fn sx_assume(c: u64) { if c == 0 { die(12, "assumption false".into()) } }
#[no_mangle] pub extern "C" fn sx_check(c: u64, id: u64) { if c == 0 { die(10, format!("check {} failed", id)) } }
#[no_mangle] pub extern "C" fn sx_observe(v: u64) { with(|r| r.obs.push(v)) }
#[no_mangle] pub extern "C" fn sx_param(i: u64) -> u64 { with(|r| r.params.get(i as usize).cloned().unwrap_or(0)) }
#[no_mangle] pub extern "C" fn sx_fail(id: u64) { die(10, format!("check {} failed", id)) }
#[no_mangle] pub extern "C" fn sx_expect_panic(v: u64) { with(|r| r.expect_panic = v != 0) }
#[no_mangle] pub extern "C" fn sx_reach(_i: u64) {}
#[no_mangle] pub extern "C" fn sx_concretize(v: u64) -> u64 { v }
#[no_mangle] pub extern "C" fn sx_uf_hash(v: u64, bits: u64) -> u64 {
    if let Some(x) = with(|r| r.uf.iter().find(|p| p.0 == v).map(|p| p.1)) { return x }
    let x = sx_sym(bits as u32);
    with(|r| r.uf.push((v, x)));
    x
}
fn main() {
    let f = std::env::args().nth(1).expect("replay file");
    let t = std::fs::read_to_string(&f).expect("read replay file");
    let mut name = String::new();
    let mut rt = Rt { params: vec![], ins: vec![], pos: 0, obs: vec![], want: vec![], expect_panic: false, uf: vec![], mode: "violation".into(), wantp: "ok".into() };
    for l in t.lines() {
        let mut w = l.split_whitespace();
        match w.next() {
            Some("harness") => name = w.next().unwrap().to_string(),
            Some("params") => rt.params = w.map(|x| x.parse().unwrap()).collect(),
            Some("expect") => { let m = w.next().unwrap(); rt.mode = m.to_string(); rt.wantp = m.to_string(); }
            Some("in") => rt.ins.push(w.next().unwrap().parse::<u128>().unwrap() as u64),
            Some("obs") => rt.want.push(w.next().unwrap().parse().unwrap()),
            _ => {}
        }
    }
    *RT.lock().unwrap() = Some(rt);
    std::panic::set_hook(Box::new(|i| {
        let exp = with(|r| r.expect_panic);
        if exp { finish(true) }
        println!("PANIC {}", i);
        std::process::exit(101)
    }));
    vh::run(&name);
    finish(false)
}
