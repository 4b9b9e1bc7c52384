mod exec;
mod expr;
mod llvm;
use exec::{Exec, Limits, Stats};
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Queue {
    tasks: VecDeque<(usize, Vec<u64>)>,
    active: usize,
    stopped: BTreeSet<usize>,
}

fn main() {
    let mut lib = String::new();
    let mut bc = String::new();
    let mut out = String::new();
    let mut pre: Vec<String> = vec![];
    let mut threads = 8usize;
    let mut limit = 600u64;
    let mut shard = 2usize;
    let mut samples = 16usize;
    let mut max_steps = 20_000_000u64;
    let mut maxv = 1usize;
    let mut seed = 1u64;
    let mut list = false;
    let mut it = std::env::args().skip(1);
    while let Some(a) = it.next() {
        let mut v = || it.next().expect("value");
        match a.as_str() {
            "--llvm" => lib = v(),
            "--bc" => bc = v(),
            "--out" => out = v(),
            "--harness" => pre.push(v()),
            "--threads" => threads = v().parse().unwrap(),
            "--time-limit" => limit = v().parse().unwrap(),
            "--shard" => shard = v().parse().unwrap(),
            "--samples" => samples = v().parse().unwrap(),
            "--max-steps" => max_steps = v().parse().unwrap(),
            "--max-violations" => maxv = v().parse().unwrap(),
            "--seed" => seed = v().parse().unwrap(),
            "--list" => list = true,
            _ => { eprintln!("unknown argument {}", a); std::process::exit(2) }
        }
    }
    let t0 = Instant::now();
    let p = match llvm::load(&lib, &bc) {
        Ok(p) => p,
        Err(e) => { eprintln!("rxsym: {}", e); std::process::exit(2) }
    };
    let load_s = t0.elapsed().as_secs_f64();
    let mut hs: Vec<(String, u32)> = p.func_by_name.iter()
        .filter(|(n, _)| n.starts_with("h_") && (pre.is_empty() || pre.iter().any(|x| if let Some(q) = x.strip_suffix('*') { n.starts_with(q) } else { *n == x })))
        .map(|(n, i)| (n.clone(), *i)).collect();
    hs.sort();
    if list { for h in &hs { println!("{}", h.0); } return; }
    if hs.is_empty() { eprintln!("rxsym: no harness"); std::process::exit(2) }
    let lim = Limits {
        max_path_steps: max_steps, max_states: 2_000_000, max_violations: maxv,
        deadline: Instant::now() + Duration::from_secs(limit), shard_depth: shard, samples,
    };
    let q = Mutex::new(Queue { tasks: (0..hs.len()).map(|i| (i, vec![])).collect(), active: 0, stopped: BTreeSet::new() });
    let cv = Condvar::new();
    let res: Mutex<Vec<Stats>> = Mutex::new(vec![Stats::default(); hs.len()]);
    let cov: Mutex<Vec<bool>> = Mutex::new(vec![false; p.locs.len()]);
    std::thread::scope(|sc| {
        for _ in 0..threads {
            std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(sc, || loop {
                let (h, forced) = {
                    let mut g = q.lock().unwrap();
                    loop {
                        if let Some(t) = g.tasks.pop_front() {
                            if g.stopped.contains(&t.0) { continue; }
                            g.active += 1;
                            break t;
                        }
                        if g.active == 0 { cv.notify_all(); return; }
                        g = cv.wait(g).unwrap();
                    }
                };
                let t = Instant::now();
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    let mut e = Exec::new(&p, &lim, seed);
                    e.run(hs[h].1, forced.clone());
                    (e.stats.clone(), std::mem::take(&mut e.new_tasks), std::mem::take(&mut e.cov))
                }));
                let (st, new, cv_lines) = match r {
                    Ok(x) => x,
                    Err(e) => {
                        let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                        let mut s = Stats::default();
                        s.errors.push(format!("engine: {}", m));
                        (s, vec![], vec![])
                    }
                };
                {
                    let mut g = cov.lock().unwrap();
                    for (i, b) in cv_lines.iter().enumerate() { if *b { g[i] = true; } }
                }
                {
                    let mut g = res.lock().unwrap();
                    let o = &mut g[h];
                    o.paths += st.paths; o.infeasible += st.infeasible; o.checks += st.checks; o.checks_solver += st.checks_solver;
                    o.branches += st.branches; o.forks += st.forks; o.steps += st.steps; o.queries += st.queries; o.cache_hits += st.cache_hits;
                    o.solver_ns += st.solver_ns;
                    o.max_query_ns = o.max_query_ns.max(st.max_query_ns);
                    o.max_path_steps = o.max_path_steps.max(st.max_path_steps);
                    o.max_vars = o.max_vars.max(st.max_vars);
                    for (k, v) in st.covers.iter() { *o.covers.entry(*k).or_default() += v; }
                    o.violations.extend(st.violations.iter().cloned());
                    if o.errors.len() < 5 { o.errors.extend(st.errors.iter().cloned()); }
                    o.wall_ns += t.elapsed().as_nanos() as u64;
                    o.samples.extend(st.samples);
                }
                let mut g = q.lock().unwrap();
                if st.violations.len() >= maxv { g.stopped.insert(h); }
                for n in new { g.tasks.push_back((h, n)); }
                g.active -= 1;
                cv.notify_all();
            }).unwrap();
        }
    });
    let res = res.into_inner().unwrap();
    let cov = cov.into_inner().unwrap();
    let mut o = String::from("{\n");
    o.push_str(&format!(" \"load_s\": {:.3}, \"wall_s\": {:.3},\n \"harnesses\": [\n", load_s, t0.elapsed().as_secs_f64()));
    for (i, st) in res.iter().enumerate() {
        let inp = |v: &Vec<(u32, u64)>| format!("[{}]", v.iter().map(|x| format!("[{},{}]", x.0, x.1)).collect::<Vec<_>>().join(","));
        let viol = st.violations.iter().map(|v| format!("{{\"kind\":{},\"msg\":{},\"trace\":[{}],\"inputs\":{}}}", js(&v.kind), js(&v.msg),
            v.trace.iter().map(|s| js(s)).collect::<Vec<_>>().join(","), inp(&v.inputs))).collect::<Vec<_>>().join(",");
        // keep a bounded, deterministic selection of the sampled paths
        let mut sm = st.samples.clone();
        sm.sort();
        let keep = samples.max(1);
        let step = (sm.len() as f64 / keep as f64).max(1.0);
        let mut sel = vec![];
        let mut x = 0.0;
        while (x as usize) < sm.len() && sel.len() < keep { sel.push(sm[x as usize].clone()); x += step; }
        o.push_str(&format!("  {{\"name\":{},\"paths\":{},\"infeasible\":{},\"checks\":{},\"checks_solver\":{},\"branches\":{},\"forks\":{},\"steps\":{},\"queries\":{},\"cache_hits\":{},\"solver_s\":{:.4},\"max_query_s\":{:.4},\"max_path_steps\":{},\"max_vars\":{},\"cpu_s\":{:.3},\"covers\":{{{}}},\"violations\":[{}],\"errors\":[{}],\"samples\":[{}]}}{}\n",
            js(&hs[i].0), st.paths, st.infeasible, st.checks, st.checks_solver, st.branches, st.forks, st.steps, st.queries, st.cache_hits,
            st.solver_ns as f64 / 1e9, st.max_query_ns as f64 / 1e9, st.max_path_steps, st.max_vars, st.wall_ns as f64 / 1e9,
            st.covers.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(","),
            viol, st.errors.iter().map(|s| js(s)).collect::<Vec<_>>().join(","),
            sel.iter().map(|(i, ob)| format!("{{\"inputs\":{},\"obs\":[{}]}}", inp(i), ob.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(","),
            if i + 1 < res.len() { "," } else { "" }));
    }
    o.push_str(" ],\n \"lines\": {");
    let mut by: BTreeMap<&str, BTreeSet<u32>> = BTreeMap::new();
    for (i, l) in p.locs.iter().enumerate() { if cov[i] && l.0.contains("/repo/") { by.entry(&l.0).or_default().insert(l.1); } }
    o.push_str(&by.iter().map(|(f, l)| format!("{}:[{}]", js(f), l.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(","));
    o.push_str("}\n}\n");
    if out.is_empty() { print!("{}", o) } else { std::fs::write(&out, o).unwrap() }
}
