mod exec;
mod expr;
mod ir;
mod solver;
use std::fmt::Write as _;
use std::time::{Duration, Instant};

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
fn inputs(v: &[(u32, u32, Vec<u8>)]) -> String {
    let p: Vec<String> = v.iter().map(|(i, o, b)| format!("[{i},{o},\"{}\"]", hex(b))).collect();
    format!("[{}]", p.join(","))
}

fn main() {
    // deep recursion: symbolic branches nest
    let h = std::thread::Builder::new().stack_size(8 << 30).spawn(real_main).unwrap();
    let code = h.join().unwrap_or(3);
    std::process::exit(code);
}

fn real_main() -> i32 {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 3 {
        eprintln!("usage: symx MODULE.ll ENTRY [--out FILE] [--timeout S] [--samples N] ...");
        return 3;
    }
    let mut opts = exec::Opts {
        timeout: Duration::from_secs(600),
        max_paths: 1_000_000,
        max_steps: 400_000_000,
        samples: 3,
        alloc_limit: 1 << 26,
        merge: true,
        verbose: false,
        max_viol: 40,
    };
    let mut out = None;
    let mut ext = 60u64;
    let mut i = 3;
    while i < a.len() {
        let v = || a.get(i + 1).cloned().unwrap_or_default();
        match a[i].as_str() {
            "--out" => {
                out = Some(v());
                i += 1
            }
            "--timeout" => {
                opts.timeout = Duration::from_secs(v().parse().unwrap());
                i += 1
            }
            "--query-timeout" => {
                ext = v().parse().unwrap();
                i += 1
            }
            "--samples" => {
                opts.samples = v().parse().unwrap();
                i += 1
            }
            "--max-paths" => {
                opts.max_paths = v().parse().unwrap();
                i += 1
            }
            "--max-steps" => {
                opts.max_steps = v().parse().unwrap();
                i += 1
            }
            "--alloc-limit" => {
                opts.alloc_limit = v().parse().unwrap();
                i += 1
            }
            "--no-merge" => opts.merge = false,
            "-v" => opts.verbose = true,
            o => {
                eprintln!("unknown option {o}");
                return 3;
            }
        }
        i += 1;
    }
    let t0 = Instant::now();
    let verbose = opts.verbose;
    let m = match ir::Module::load(&a[1]) {
        Ok(m) => m,
        Err(e) => {
            eprintln!("symx: {e}");
            return 3;
        }
    };
    let mut x = exec::Exec::new(m, opts);
    x.sol.ext_timeout = Duration::from_secs(ext);
    if let Err(e) = x.run_entry(&a[2]) {
        eprintln!("symx: {}: {e}", a[2]);
        return 3;
    }
    if verbose {
        let mut p: Vec<_> = x.prof.iter().collect();
        p.sort_by(|a, b| b.1 .1.partial_cmp(&a.1 .1).unwrap());
        for (k, v) in p.iter().take(25) {
            eprintln!("PROF {:6} forks {:8.2}s {}", v.0, v.1, exec::demangle(k));
        }
    }
    let status = if !x.violations.is_empty() {
        "violation"
    } else if !x.incomplete.is_empty() {
        "inconclusive"
    } else {
        "ok"
    };
    let mut o = String::from("{");
    write!(o, "\"entry\":{},\"status\":\"{status}\",", js(&a[2])).unwrap();
    write!(
        o,
        "\"paths\":{},\"pruned\":{},\"forks\":{},\"merges\":{},\"merge_refused\":{},\"instructions\":{},",
        x.paths, x.pruned, x.forks, x.merges, x.merge_refused, x.instructions
    )
    .unwrap();
    let s = &x.sol;
    write!(
        o,
        "\"queries\":{},\"ext_queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"cache_hits\":{},\"solver_s\":{:.3},\"wall_s\":{:.3},\"exprs\":{},",
        s.queries, s.ext_queries, s.sat, s.unsat, s.unknowns, s.cache_hits,
        s.solver_time.as_secs_f64(), t0.elapsed().as_secs_f64(), x.cx.nodes.len()
    )
    .unwrap();
    let c: Vec<String> = x.covers.iter().map(|c| c.to_string()).collect();
    write!(o, "\"covers\":[{}],", c.join(",")).unwrap();
    let c: Vec<String> = x.asserts.iter().map(|(k, n)| format!("[{k},{n}]")).collect();
    write!(o, "\"asserts\":[{}],", c.join(",")).unwrap();
    let c: Vec<String> = x.incomplete.iter().map(|s| js(s)).collect();
    write!(o, "\"incomplete\":[{}],", c.join(",")).unwrap();
    let c: Vec<String> = x.panics_ok.iter().map(|(s, n)| format!("[{},{n}]", js(s))).collect();
    write!(o, "\"panics_ok\":[{}],", c.join(",")).unwrap();
    let c: Vec<String> = x
        .violations
        .iter()
        .map(|v| {
            let st: Vec<String> = v.stack.iter().map(|s| js(s)).collect();
            format!(
                "{{\"kind\":{},\"msg\":{},\"stack\":[{}],\"inputs\":{}}}",
                js(&v.kind),
                js(&v.msg),
                st.join(","),
                inputs(&v.inputs)
            )
        })
        .collect();
    write!(o, "\"violations\":[{}],", c.join(",")).unwrap();
    let c: Vec<String> = x
        .samples
        .iter()
        .map(|v| {
            let ob: Vec<String> = v.obs.iter().map(|(i, b)| format!("[{i},\"{}\"]", hex(b))).collect();
            format!("{{\"inputs\":{},\"obs\":[{}]}}", inputs(&v.inputs), ob.join(","))
        })
        .collect();
    write!(o, "\"samples\":[{}],", c.join(",")).unwrap();
    let c: Vec<String> = x.executed.keys().map(|s| js(&exec::demangle(s))).collect();
    let mut c2 = c.clone();
    c2.sort();
    c2.dedup();
    write!(o, "\"functions\":[{}],\"blocks\":{}", c2.join(","), x.blocks_seen.len()).unwrap();
    o.push_str("}\n");
    match out {
        Some(f) => {
            if let Err(e) = std::fs::write(&f, &o) {
                eprintln!("symx: {f}: {e}");
                return 3;
            }
        }
        None => print!("{o}"),
    }
    match status {
        "ok" => 0,
        "violation" => 1,
        _ => 2,
    }
}
