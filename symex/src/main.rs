mod exec;
mod int;
mod ir;
mod solver;
mod term;
use exec::*;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut file = String::new();
    let mut out = String::new();
    let mut entries: Vec<String> = vec![];
    let mut threads = 8;
    let mut limit = 600u64;
    let mut qt = 20000u32;
    let mut max_viol = 3usize;
    let mut path_steps = 20_000_000u64;
    let mut tier = 0i64;
    let mut i = 1;
    while i < args.len() {
        match args[i].as_str() {
            "--out" => {
                i += 1;
                out = args[i].clone()
            }
            "--threads" => {
                i += 1;
                threads = args[i].parse().unwrap()
            }
            "--time" => {
                i += 1;
                limit = args[i].parse().unwrap()
            }
            "--query-ms" => {
                i += 1;
                qt = args[i].parse().unwrap()
            }
            "--max-violations" => {
                i += 1;
                max_viol = args[i].parse().unwrap()
            }
            "--tier" => {
                i += 1;
                tier = args[i].parse().unwrap()
            }
            "--path-steps" => {
                i += 1;
                path_steps = args[i].parse().unwrap()
            }
            a => {
                if file.is_empty() {
                    file = a.to_string()
                } else {
                    entries.push(a.to_string())
                }
            }
        }
        i += 1;
    }
    let t0 = Instant::now();
    let text = std::fs::read_to_string(&file).expect("read IR");
    let m = match ir::parse(&text) {
        Ok(m) => Arc::new(m),
        Err(e) => {
            eprintln!("IR parse error: {}", e);
            std::process::exit(3);
        }
    };
    drop(text);
    eprintln!("parsed {} functions, {} globals in {:?}", m.funcs.len(), m.globals.len(), t0.elapsed());
    let mut q = vec![];
    for (k, e) in entries.iter().enumerate().rev() {
        if !m.fn_index.contains_key(e) {
            eprintln!("no such entry {}", e);
            std::process::exit(3);
        }
        q.push((k, vec![]));
    }
    let pool = Arc::new(Pool {
        qlen: AtomicUsize::new(q.len()),
        queue: Mutex::new(q),
        active: AtomicUsize::new(0),
        stop: AtomicBool::new(false),
        deadline: Instant::now() + Duration::from_secs(limit),
        reached: Mutex::new(Default::default()),
        results: Mutex::new(entries.iter().map(|e| EntryResult { name: e.clone(), ..Default::default() }).collect()),
        nthreads: threads,
        max_viol,
        path_steps,
        tier,
        fix: std::env::var("SYMEX_FIX").map(|s| s.split(',').map(|x| x.parse().unwrap_or(i64::MIN)).collect()).unwrap_or_default(),
    });
    let stats = Arc::new(Mutex::new((solver::Stats::default(), Vec::<String>::new())));
    let mut hs = vec![];
    for _ in 0..threads {
        let pool = pool.clone();
        let m = m.clone();
        let entries = entries.clone();
        let stats = stats.clone();
        hs.push(
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn(move || {
                    let mut ex = Exec::new(m.clone(), pool.clone(), qt);
                    loop {
                        let t = {
                            let mut q = pool.queue.lock().unwrap();
                            let t = q.pop();
                            if t.is_some() {
                                pool.active.fetch_add(1, Ordering::SeqCst);
                            }
                            pool.qlen.store(q.len(), Ordering::Relaxed);
                            t
                        };
                        match t {
                            None => {
                                if pool.active.load(Ordering::SeqCst) == 0 {
                                    break;
                                }
                                std::thread::sleep(Duration::from_micros(200));
                            }
                            Some((e, prefix)) => {
                                let fi = m.fn_index[&entries[e]];
                                if pool.stop.load(Ordering::Relaxed) || Instant::now() > pool.deadline {
                                    pool.stop.store(true, Ordering::Relaxed);
                                    pool.results.lock().unwrap()[e].unchecked += 1;
                                    pool.active.fetch_sub(1, Ordering::SeqCst);
                                    continue;
                                }
                                ex.cur = EntryResult::default();
                                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| ex.run_task(e, fi, prefix)));
                                if r.is_err() {
                                    ex.cur.errors.push("internal error in the symbolic executor".into());
                                    ex = {
                                        let mut n = Exec::new(m.clone(), pool.clone(), qt);
                                        n.cur = ex.cur.clone();
                                        n
                                    };
                                }
                                let mut rs = pool.results.lock().unwrap();
                                let d = &mut rs[e];
                                let c = &ex.cur;
                                d.paths += c.paths;
                                d.panics_allowed += c.panics_allowed;
                                d.infeasible += c.infeasible;
                                d.asserts += c.asserts;
                                d.symbolic_asserts += c.symbolic_asserts;
                                d.steps += c.steps;
                                d.forks += c.forks;
                                d.choices += c.choices;
                                d.tasks += c.tasks;
                                d.unchecked += c.unchecked;
                                d.max_path_steps = d.max_path_steps.max(c.max_path_steps);
                                d.violations.extend(c.violations.iter().cloned());
                                for x in &c.errors {
                                    if d.errors.len() < 50 && !d.errors.contains(x) {
                                        d.errors.push(x.clone());
                                    }
                                }
                                for (k, v) in &c.reached {
                                    *d.reached.entry(k.clone()).or_insert(0) += v;
                                }
                                d.funcs.extend(c.funcs.iter().copied());
                                for s in &c.samples {
                                    if d.samples.len() < 6 && !d.samples.contains(s) {
                                        d.samples.push(s.clone());
                                    }
                                }
                                for s in &c.refusals {
                                    if d.refusals.len() < 6 && !d.refusals.contains(s) {
                                        d.refusals.push(s.clone());
                                    }
                                }
                                for s in &c.open {
                                    if d.open.len() < 24 {
                                        d.open.push(s.clone());
                                    }
                                }
                                if d.open.len() >= 3 {
                                    pool.stop.store(true, Ordering::Relaxed);
                                }
                                if d.violations.len() >= pool.max_viol {
                                    pool.stop.store(true, Ordering::Relaxed);
                                }
                                drop(rs);
                                pool.active.fetch_sub(1, Ordering::SeqCst);
                            }
                        }
                    }
                    let mut s = stats.lock().unwrap();
                    let t = &ex.solver.stats;
                    s.0.queries += t.queries;
                    s.0.cache_hits += t.cache_hits;
                    s.0.sat += t.sat;
                    s.0.unsat += t.unsat;
                    s.0.unknown += t.unknown;
                    s.0.open += t.open;
                    s.0.nia += t.nia;
                    s.0.solver_us += t.solver_us;
                    s.0.max_us = s.0.max_us.max(t.max_us);
                    let e = ex.solver.errors.clone();
                    s.1.extend(e);
                })
                .unwrap(),
        );
    }
    for h in hs {
        let _ = h.join();
    }
    let rs = pool.results.lock().unwrap();
    let st = stats.lock().unwrap();
    let mut o = String::from("{\n \"entries\": [\n");
    let mut allf: BTreeMap<String, u64> = BTreeMap::new();
    for (k, r) in rs.iter().enumerate() {
        o.push_str(&format!(
            "  {{\"name\": {}, \"paths\": {}, \"panics_allowed\": {}, \"infeasible\": {}, \"asserts\": {}, \"symbolic_asserts\": {}, \"steps\": {}, \"forks\": {}, \"choices\": {}, \"tasks\": {}, \"unchecked\": {}, \"max_path_steps\": {},\n",
            js(&r.name), r.paths, r.panics_allowed, r.infeasible, r.asserts, r.symbolic_asserts, r.steps, r.forks, r.choices, r.tasks, r.unchecked, r.max_path_steps
        ));
        o.push_str("   \"errors\": [");
        o.push_str(&r.errors.iter().map(|e| js(e)).collect::<Vec<_>>().join(", "));
        o.push_str("],\n   \"reached\": {");
        o.push_str(&r.reached.iter().map(|(a, b)| format!("{}: {}", js(a), b)).collect::<Vec<_>>().join(", "));
        o.push_str("},\n   \"samples\": [");
        o.push_str(&r.samples.iter().map(|e| js(e)).collect::<Vec<_>>().join(", "));
        o.push_str("],\n   \"refusals\": [");
        o.push_str(&r.refusals.iter().map(|e| js(e)).collect::<Vec<_>>().join(", "));
        o.push_str("],\n   \"open\": [");
        o.push_str(&r.open.iter().map(|(a, b)| format!("[{}, {}]", js(a), js(b))).collect::<Vec<_>>().join(", "));
        o.push_str("],\n   \"violations\": [");
        o.push_str(
            &r.violations
                .iter()
                .map(|v| {
                    format!(
                        "{{\"kind\": {}, \"msg\": {}, \"inputs\": {}, \"stack\": [{}]}}",
                        js(&v.kind),
                        js(&v.msg),
                        js(&v.inputs.iter().map(|(c, x)| format!("{}{}", c, x)).collect::<Vec<_>>().join(" ")),
                        v.stack.iter().map(|s| js(s)).collect::<Vec<_>>().join(", ")
                    )
                })
                .collect::<Vec<_>>()
                .join(", "),
        );
        o.push_str("]}");
        o.push_str(if k + 1 < rs.len() { ",\n" } else { "\n" });
        for f in &r.funcs {
            *allf.entry(m.funcs[*f as usize].name.clone()).or_insert(0) += m.funcs[*f as usize].insts.len() as u64;
        }
    }
    o.push_str(" ],\n \"functions\": [");
    o.push_str(&allf.keys().map(|f| js(f)).collect::<Vec<_>>().join(", "));
    let s = &st.0;
    o.push_str(&format!(
        "],\n \"solver\": {{\"queries\": {}, \"cache_hits\": {}, \"sat\": {}, \"unsat\": {}, \"unknown\": {}, \"open_branches\": {}, \"nonlinear\": {}, \"seconds\": {:.3}, \"max_query_seconds\": {:.3}, \"errors\": [{}]}},\n",
        s.queries, s.cache_hits, s.sat, s.unsat, s.unknown, s.open, s.nia, s.solver_us as f64 / 1e6, s.max_us as f64 / 1e6,
        st.1.iter().take(10).map(|e| js(e)).collect::<Vec<_>>().join(", ")
    ));
    o.push_str(&format!(" \"wall_s\": {:.3}, \"timed_out\": {}\n}}\n", t0.elapsed().as_secs_f64(), Instant::now() > pool.deadline));
    if out.is_empty() {
        print!("{}", o);
    } else {
        std::fs::write(&out, &o).unwrap();
    }
}
