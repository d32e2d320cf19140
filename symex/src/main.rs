#![allow(dead_code)]
mod exec;
mod expr;
mod ir;
mod z3;

use exec::*;
use ir::*;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::time::{Duration, Instant};

fn num(b: &[u8]) -> u32 {
    let mut n = 0;
    for &c in b {
        if c.is_ascii_digit() {
            n = n * 10 + (c - b'0') as u32;
        }
    }
    n
}

/// (file, line, function) of a debug location and everything it was inlined into
pub fn dbg_chain(m: &Module, id: u32) -> Vec<(String, u32, String)> {
    let mut out = vec![];
    let mut cur = id;
    while cur != 0 && out.len() < 40 {
        let l = m.meta_line(cur);
        if find_sub(l, b"!DILocation(").is_none() {
            break;
        }
        let line = meta_field(l, "line").map(num).unwrap_or(0);
        let scope = meta_field(l, "scope").map(num).unwrap_or(0);
        let (file, fun) = scope_info(m, scope);
        out.push((file, line, fun));
        cur = meta_field(l, "inlinedAt").map(num).unwrap_or(0);
    }
    out
}
pub fn scope_info(m: &Module, scope: u32) -> (String, String) {
    let mut sc = scope;
    let mut file = String::new();
    for _ in 0..50 {
        let l = m.meta_line(sc);
        if l.is_empty() {
            break;
        }
        if file.is_empty() {
            if let Some(f) = meta_field(l, "file") {
                let fl = m.meta_line(num(f));
                let name = meta_field(fl, "filename").map(s).unwrap_or_default();
                let dir = meta_field(fl, "directory").map(s).unwrap_or_default();
                file = if name.starts_with('/') { name } else { format!("{}/{}", dir, name) };
            }
        }
        if find_sub(l, b"!DISubprogram(").is_some() {
            return (file, meta_field(l, "name").map(s).unwrap_or_default());
        }
        match meta_field(l, "scope") {
            Some(x) => sc = num(x),
            None => break,
        }
    }
    (file, "?".into())
}

fn js(x: &str) -> String {
    let mut o = String::from("\"");
    for c in x.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn run_native(native: &str, file: &str, secs: u64) -> Result<(i32, String), String> {
    use std::process::{Command, Stdio};
    let out = format!("{}.out", file);
    let o = std::fs::File::create(&out).map_err(|e| e.to_string())?;
    let o2 = o.try_clone().unwrap();
    let mut c = Command::new(native).arg(file).env("RUST_BACKTRACE", "0").stdout(Stdio::from(o)).stderr(Stdio::from(o2)).spawn().map_err(|e| e.to_string())?;
    let t0 = Instant::now();
    loop {
        if let Some(st) = c.try_wait().map_err(|e| e.to_string())? {
            let txt = String::from_utf8_lossy(&std::fs::read(&out).unwrap_or_default()).to_string();
            let _ = std::fs::remove_file(&out);
            return Ok((st.code().unwrap_or(-1), txt));
        }
        if t0.elapsed() > Duration::from_secs(secs) {
            let _ = c.kill();
            let _ = c.wait();
            let _ = std::fs::remove_file(&out);
            return Ok((-2, "timeout".into()));
        }
        std::thread::sleep(Duration::from_millis(2));
    }
}

fn main() {
    // deep recursion in expression evaluation
    let h = std::thread::Builder::new().stack_size(1 << 30).spawn(real_main).unwrap();
    match h.join() {
        Ok(c) => std::process::exit(c),
        Err(_) => std::process::exit(70),
    }
}

fn real_main() -> i32 {
    let t0 = Instant::now();
    let mut lls = vec![];
    let mut entry = String::new();
    let mut params = vec![];
    let mut out = String::new();
    let mut native = String::new();
    let mut work = String::from("/tmp");
    let mut shard = (0, 1);
    let mut seed = 1u64;
    let mut samples = 8;
    let mut time = 800u64;
    let mut max_steps = 20_000_000u64;
    let mut path_time = 60u64;
    let mut max_paths = u64::MAX;
    let mut repo = String::from("/repo/");
    let mut dump = 0usize;
    let mut trace_calls = false;
    let mut tmo = 60_000;
    let mut label = String::new();
    let mut it = std::env::args().skip(1);
    while let Some(a) = it.next() {
        let mut v = || it.next().expect("argument value");
        match a.as_str() {
            "--ll" => lls.push(v()),
            "--entry" => entry = v(),
            "--params" => params = v().split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect(),
            "--out" => out = v(),
            "--native" => native = v(),
            "--work" => work = v(),
            "--shard" => {
                let x = v();
                let (a, b) = x.split_once('/').unwrap();
                shard = (a.parse().unwrap(), b.parse().unwrap());
            }
            "--seed" => seed = v().parse().unwrap(),
            "--samples" => samples = v().parse().unwrap(),
            "--time" => time = v().parse().unwrap(),
            "--max-steps" => max_steps = v().parse().unwrap(),
            "--path-time" => path_time = v().parse().unwrap(),
            "--max-paths" => max_paths = v().parse().unwrap(),
            "--repo" => repo = v(),
            "--dump" => dump = v().parse().unwrap(),
            "--trace" => trace_calls = true,
            "--solver-timeout" => tmo = v().parse().unwrap(),
            "--label" => label = v(),
            x => {
                eprintln!("unknown argument {}", x);
                return 64;
            }
        }
    }
    let pr = Program::new(&lls, Box::new(|n| hook_of(n)));
    let cfg = Config {
        params: params.clone(),
        max_steps,
        max_depth: 3000,
        max_paths,
        deadline: t0 + Duration::from_secs(time),
        path_time: Duration::from_secs(path_time),
        shard,
        samples,
        seed: seed.wrapping_mul(1000003).wrapping_add(shard.0),
    };
    let mut ex = Exec::new(pr, cfg, tmo);
    ex.trace_calls = trace_calls;
    ex.sol.dump_max = dump;
    let tload = t0.elapsed().as_secs_f64();
    ex.run(&entry);

    // ---- replay against the natively compiled code
    let pstr = params.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ");
    let base = format!("{}/{}", work, if label.is_empty() { format!("{}-{}", entry, shard.0) } else { label.clone() });
    let mut code = 0;
    let mut vio = String::new();
    for (i, v) in ex.violations.iter().enumerate() {
        let f = format!("{}.violation{}.replay", base, i);
        let mut t = format!("harness {}\nparams {}\nkind {}\nmsg {}\nexpect violation\n", entry, pstr, v.kind, v.msg.replace('\n', " "));
        for x in &v.inputs {
            let _ = write!(t, "in {}\n", x);
        }
        for l in v.trace.iter().take(40) {
            let _ = write!(t, "# at {}\n", l);
        }
        std::fs::write(&f, &t).unwrap();
        let mut confirmed = false;
        let mut ntxt = String::new();
        if !native.is_empty() {
            match run_native(&native, &f, 20) {
                Ok((c, txt)) => {
                    ntxt = txt;
                    confirmed = match v.kind.as_str() {
                        "panic" => c == 101 || c == 134,
                        "check" => c == 10,
                        // non-termination or runaway recursion
                        "hang" => c == -2 || c == -1 || c == 134 || c == 139,
                        _ => false,
                    };
                    if !confirmed {
                        ntxt = format!("exit {}: {}", c, ntxt);
                    }
                }
                Err(e) => ntxt = e,
            }
        }
        if !vio.is_empty() {
            vio.push(',');
        }
        let _ = write!(
            vio,
            "{{\"kind\":{},\"msg\":{},\"confirmed\":{},\"replay\":{},\"native\":{},\"inputs\":[{}],\"trace\":[{}]}}",
            js(&v.kind),
            js(&v.msg),
            confirmed,
            js(&f),
            js(ntxt.chars().take(600).collect::<String>().as_str()),
            v.inputs.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","),
            v.trace.iter().take(12).map(|x| js(x)).collect::<Vec<_>>().join(",")
        );
        code = if confirmed { 1 } else { 73 };
    }
    let mut validated = 0;
    let mut sm = String::new();
    if !native.is_empty() && code == 0 {
        for (i, p) in ex.samples.iter().enumerate() {
            let f = format!("{}.sample{}.replay", base, i);
            let mut t = format!("harness {}\nparams {}\nexpect {}\n", entry, pstr, if p.panicked { "panic" } else { "ok" });
            for x in &p.inputs {
                let _ = write!(t, "in {}\n", x);
            }
            for x in &p.obs {
                let _ = write!(t, "obs {}\n", x);
            }
            std::fs::write(&f, &t).unwrap();
            match run_native(&native, &f, 20) {
                Ok((0, _)) => {
                    validated += 1;
                    let _ = std::fs::remove_file(&f);
                }
                Ok((c, txt)) => {
                    eprintln!("ENGINE-ERROR: native run of path model disagrees (exit {}): {} {}", c, f, txt.chars().take(500).collect::<String>());
                    code = 74;
                }
                Err(e) => {
                    eprintln!("ENGINE-ERROR: native run failed: {}", e);
                    code = 74;
                }
            }
            if i < 3 {
                if !sm.is_empty() {
                    sm.push(',');
                }
                let _ = write!(
                    sm,
                    "{{\"harness\":{},\"params\":[{}],\"inputs\":[{}],\"observed\":[{}],\"constraints\":{}}}",
                    js(&entry),
                    params.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","),
                    p.inputs.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","),
                    p.obs.iter().take(24).map(|x| x.to_string()).collect::<Vec<_>>().join(","),
                    p.npath
                );
            }
        }
    }
    // ---- source coverage of the code under test
    let mut lines: BTreeMap<String, BTreeSet<u32>> = BTreeMap::new();
    let mut funs: BTreeSet<String> = BTreeSet::new();
    let mut nfun = 0;
    for fid in 0..ex.covered.len() {
        if ex.covered[fid].is_empty() {
            continue;
        }
        nfun += 1;
        let f = match ex.pr.get_func(fid as u32) {
            Some(f) => f,
            None => continue,
        };
        let m = &ex.pr.modules[f.module];
        let mut seen: BTreeSet<u32> = BTreeSet::new();
        for (i, &b) in f.block_of.iter().enumerate() {
            if !ex.covered[fid][b as usize] || f.dbg[i] == 0 || !seen.insert(f.dbg[i]) {
                continue;
            }
            for (file, line, fun) in dbg_chain(m, f.dbg[i]) {
                if file.starts_with(&repo) {
                    let short = file[repo.len()..].to_string();
                    funs.insert(format!("{}::{}", short, fun.split('<').next().unwrap_or("")));
                    lines.entry(short).or_default().insert(line);
                }
            }
        }
    }
    let mut o = String::new();
    let _ = write!(
        o,
        "{{\"entry\":{},\"params\":[{}],\"shard\":[{},{}],\"paths\":{},\"panicked_paths\":{},\"pruned\":{},\"instrs\":{},\"forks\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"solver_s\":{:.3},\"solver_max_s\":{:.3},\"checks\":{},\"checks_solver\":{},\"max_path_constraints\":{},\"max_path_instrs\":{},\"max_inputs\":{},\"exprs\":{},\"ir_functions\":{},\"load_s\":{:.3},\"wall_s\":{:.3},\"validated\":{},\"z3\":{},",
        js(&entry),
        params.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","),
        shard.0,
        shard.1,
        ex.paths,
        ex.panicked_paths,
        ex.killed,
        ex.instrs,
        ex.forks,
        ex.sol.queries,
        ex.sol.n_sat,
        ex.sol.n_unsat,
        ex.sol.time,
        ex.sol.max_time,
        ex.checks,
        ex.checks_solver,
        ex.max_path_len,
        ex.max_path_steps,
        ex.nsym_max,
        ex.ar.nodes.len(),
        nfun,
        tload,
        t0.elapsed().as_secs_f64(),
        validated,
        js(&z3::Solver::version())
    );
    let _ = write!(o, "\"reach\":{{{}}},", ex.reach.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(","));
    let _ = write!(o, "\"functions\":[{}],", funs.iter().map(|x| js(x)).collect::<Vec<_>>().join(","));
    let _ = write!(
        o,
        "\"lines\":{{{}}},",
        lines.iter().map(|(k, v)| format!("{}:[{}]", js(k), v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(",")
    );
    let _ = write!(o, "\"samples\":[{}],\"violations\":[{}]", sm, vio);
    if dump > 0 {
        for (i, (q, sat)) in ex.sol.dump.iter().enumerate() {
            let f = format!("{}.query{}.{}.smt2", base, i, if *sat { "sat" } else { "unsat" });
            let _ = std::fs::write(&f, format!("(set-logic QF_BV)\n{}\n(check-sat)\n", q));
        }
    }
    o.push_str("}\n");
    if out.is_empty() {
        print!("{}", o);
    } else {
        std::fs::write(&out, o).unwrap();
    }
    code
}
