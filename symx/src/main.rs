mod exec;
mod ir;
mod smt;
mod term;
mod selftest;

use std::collections::BTreeSet;
use std::fmt::Write as _;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn witness(w: &exec::Witness) -> String {
    let i: Vec<String> = w.inputs.iter().map(|(t, b, v)| format!("[{},{},{}]", t, b, js(&v.to_string()))).collect();
    let b: Vec<String> = w.bases.iter().map(|v| js(&v.to_string())).collect();
    let m: Vec<String> = w.mem.iter().map(|(k, o, v)| format!("[{},{},{}]", k, o, v)).collect();
    format!("\"inputs\":[{}],\"bases\":[{}],\"mem\":[{}]", i.join(","), b.join(","), m.join(","))
}

fn report(r: &exec::Report, m: &ir::Module) -> String {
    let mut s = String::new();
    let _ = write!(
        s,
        "{{\"name\":{},\"paths_ok\":{},\"paths_panic\":{},\"paths_cut\":{},\"forks\":{},\"instructions\":{},\"asserts\":{},\"asserts_solver\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"cached\":{},\"solver_s\":{:.4},\"slowest_query_s\":{:.4},\"wall_s\":{:.4}",
        js(&r.name), r.ok, r.panics, r.cut, r.forks, r.steps, r.asserts, r.asserts_solver, r.queries, r.sat, r.unsat, r.unknown, r.cached, r.solver_s, r.slowest_s, r.wall_s
    );
    let a: Vec<String> = r.assert_ids.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect();
    let _ = write!(s, ",\"assert_ids\":{{{}}}", a.join(","));
    let v: Vec<String> = r
        .violations
        .iter()
        .map(|v| format!("{{\"kind\":{},\"id\":{},\"msg\":{},{}}}", js(&v.kind), v.id, js(&v.msg), witness(&v.w)))
        .collect();
    let _ = write!(s, ",\"violations\":[{}]", v.join(","));
    let v: Vec<String> = r
        .samples
        .iter()
        .map(|x| {
            let o: Vec<String> = x.obs.iter().map(|v| js(&v.to_string())).collect();
            format!("{{\"panic\":{},\"obs\":[{}],{}}}", x.panic, o.join(","), witness(&x.w))
        })
        .collect();
    let _ = write!(s, ",\"samples\":[{}]", v.join(","));
    let v: Vec<String> = r.errors.iter().map(|e| js(e)).collect();
    let _ = write!(s, ",\"errors\":[{}]", v.join(","));
    let names: BTreeSet<&str> = r.funcs.iter().map(|&i| m.funcs[i as usize].name.as_str()).collect();
    let v: Vec<String> = names.iter().map(|e| js(e)).collect();
    let _ = write!(s, ",\"funcs\":[{}]}}", v.join(","));
    s
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map(|s| s.as_str()) == Some("selftest") {
        selftest::run(&args[2..]);
        return;
    }
    let mut ll = String::new();
    let mut out = String::new();
    let mut prefixes: Vec<String> = vec![];
    let mut jobs = 8usize;
    let mut verbose = false;
    let mut o = exec::Opts {
        solver: "z3 -in".into(),
        query_ms: 60000,
        harness_s: 300,
        max_paths: 200000,
        max_steps: 5_000_000,
        samples: 2,
        max_viol: 4,
        grace_s: 0,
        found: Default::default(),
    };
    let mut i = 1;
    while i < args.len() {
        let v = || args.get(i + 1).cloned().unwrap_or_default();
        match args[i].as_str() {
            "--ll" => ll = v(),
            "--out" => out = v(),
            "--prefix" => prefixes.extend(v().split(',').map(|s| s.to_string())),
            "--jobs" => jobs = v().parse().unwrap(),
            "--solver" => o.solver = v(),
            "--query-ms" => o.query_ms = v().parse().unwrap(),
            "--harness-s" => o.harness_s = v().parse().unwrap(),
            "--samples" => o.samples = v().parse().unwrap(),
            "--max-paths" => o.max_paths = v().parse().unwrap(),
            "--grace-s" => o.grace_s = v().parse().unwrap(),
            "--max-viol" => o.max_viol = v().parse().unwrap(),
            "-v" => {
                verbose = true;
                i += 1;
                continue;
            }
            a => {
                eprintln!("unknown argument {}", a);
                std::process::exit(2);
            }
        }
        i += 2;
    }
    let text = match std::fs::read_to_string(&ll) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("cannot read {}: {}", ll, e);
            std::process::exit(2);
        }
    };
    let m = match ir::Module::load(text) {
        Ok(m) => m,
        Err(e) => {
            eprintln!("cannot load module: {}", e);
            std::process::exit(2);
        }
    };
    let mut hs: Vec<String> = m
        .funcs
        .iter()
        .filter(|f| f.lines.1 != 0 && prefixes.iter().any(|p| f.name.starts_with(p.as_str())))
        .map(|f| f.name.clone())
        .collect();
    hs.sort();
    let next = AtomicUsize::new(0);
    let res: Mutex<Vec<(String, String)>> = Mutex::new(vec![]);
    std::thread::scope(|s| {
        for _ in 0..jobs.min(hs.len()).max(1) {
            let (next, res, hs, m, o) = (&next, &res, &hs, &m, &o);
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(s, move || loop {
                    let k = next.fetch_add(1, Ordering::SeqCst);
                    if k >= hs.len() {
                        break;
                    }
                    let h = &hs[k];
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| exec::Exec::new(m, o, h).run()));
                    let r = match r {
                        Ok(r) => r,
                        Err(_) => {
                            let mut r = exec::Report::default();
                            r.name = h.clone();
                            r.errors.push("internal error of the executor".into());
                            r
                        }
                    };
                    if verbose {
                        eprintln!(
                            "{:40} ok={} panic={} cut={} q={} unsat={} solver={:.2}s wall={:.2}s slow={:.2} viol={} err={:?}",
                            r.name, r.ok, r.panics, r.cut, r.queries, r.unsat, r.solver_s, r.wall_s, r.slowest_s, r.violations.len(), r.errors
                        );
                        for v in &r.violations {
                            eprintln!("    VIOL {} {} {} {:?}", v.kind, v.id, v.msg, v.w.inputs);
                        }
                    }
                    let js = report(&r, m);
                    res.lock().unwrap().push((r.name, js));
                })
                .unwrap();
        }
    });
    let mut v = res.into_inner().unwrap();
    v.sort();
    let body: Vec<String> = v.into_iter().map(|x| x.1).collect();
    let doc = format!("{{\"solver\":{},\"harnesses\":[\n{}\n]}}\n", js(&o.solver), body.join(",\n"));
    if out.is_empty() {
        println!("{}", doc);
    } else {
        std::fs::write(&out, doc).unwrap();
    }
}
