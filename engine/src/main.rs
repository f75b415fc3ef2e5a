mod decode;
mod exec;
mod expr;
mod ll;
mod sha256;
mod smt;

use std::fmt::Write;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

fn main() {
    let mut ll = String::new();
    let mut harness = String::new();
    let mut args: Vec<u64> = vec![];
    let mut timeout = 60_000u32;
    let mut traces = 0usize;
    let mut seed = 1u64;
    let mut dump = None;
    let mut max_steps = 20_000_000_000u64;
    let mut max_paths = 3_000_000u64;
    let mut max_time = 0f64;
    let mut prefix = "/repo".to_string();
    let mut verbose = false;
    let mut it = std::env::args().skip(1);
    while let Some(a) = it.next() {
        let mut v = || it.next().expect("argument value");
        match a.as_str() {
            "--ll" => ll = v(),
            "--harness" => harness = v(),
            "--args" => args = v().split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect(),
            "--timeout-ms" => timeout = v().parse().unwrap(),
            "--seed" => seed = v().parse().unwrap(),
            "--traces" => traces = v().parse().unwrap(),
            "--dump" => dump = Some(v()),
            "--max-steps" => max_steps = v().parse().unwrap(),
            "--max-paths" => max_paths = v().parse().unwrap(),
            "--max-time" => max_time = v().parse().unwrap(),
            "--prefix" => prefix = v(),
            "--verbose" => verbose = true,
            _ => panic!("unknown option {}", a),
        }
    }
    let h = std::thread::Builder::new()
        .stack_size(1 << 30)
        .spawn(move || {
            let t0 = std::time::Instant::now();
            let m: &'static ll::Module = Box::leak(Box::new(ll::Module::load(&ll)));
            let tl = t0.elapsed().as_secs_f64();
            let mut e = exec::Engine::new(m, timeout);
            e.args = args;
            e.max_traces = traces;
            e.seed = seed;
            e.max_steps = max_steps;
            e.max_paths = max_paths;
            e.smt.dump = dump;
            e.verbose = verbose;
            if max_time > 0.0 {
                e.deadline = Some(t0 + std::time::Duration::from_secs_f64(max_time));
            }
            let r = e.run(&harness);
            let mut o = String::new();
            let status = match &r {
                Ok(()) if e.violations.is_empty() => "ok",
                Ok(()) => "violation",
                Err(_) => "error",
            };
            let _ = write!(
                o,
                "{{\"status\":{},\"error\":{},\"load_s\":{:.3},\"wall_s\":{:.3},\"steps\":{},\"paths_ok\":{},\"paths_assume\":{},\"paths_panic\":{},\"forks\":{},\"checks\":{},\"checks_trivial\":{},\"checks_solver\":{},\"queries\":{},\"query_cache_hits\":{},\"solver_s\":{:.3},\"terms\":{},\"no_witness\":{}",
                js(status),
                js(r.as_ref().err().map(|s| s.as_str()).unwrap_or("")),
                tl,
                t0.elapsed().as_secs_f64(),
                e.steps,
                e.paths_ok,
                e.paths_assume,
                e.paths_panic,
                e.forks,
                e.checks,
                e.checks_trivial,
                e.checks_solver,
                e.smt.queries,
                e.cache_hits,
                e.smt.time,
                e.p.nodes.len(),
                e.nowit,
            );
            let cv: Vec<String> = e.covers.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
            let _ = write!(o, ",\"covers\":{{{}}}", cv.join(","));
            let mut vs = vec![];
            for l in e.violations.values() {
                for v in l {
                    let ins: Vec<String> = v.inputs.iter().map(|b| js(&hex(b))).collect();
                    let st: Vec<String> = v.stack.iter().map(|b| js(b)).collect();
                    let cs: Vec<String> = v.covers.iter().map(|b| js(b)).collect();
                    vs.push(format!(
                        "{{\"kind\":{},\"id\":{},\"loc\":{},\"validated\":{},\"count\":{},\"inputs\":[{}],\"stack\":[{}],\"covers\":[{}]}}",
                        js(&v.kind),
                        js(&v.id),
                        js(&v.loc),
                        v.validated,
                        v.count,
                        ins.join(","),
                        st.join(","),
                        cs.join(",")
                    ));
                }
            }
            let _ = write!(o, ",\"violations\":[{}]", vs.join(","));
            let ts: Vec<String> = e
                .traces
                .iter()
                .map(|(i, ob, cv)| {
                    let a: Vec<String> = i.iter().map(|b| js(&hex(b))).collect();
                    let b: Vec<String> = ob.iter().map(|b| js(&hex(b))).collect();
                    let c: Vec<String> = cv.iter().map(|b| js(b)).collect();
                    format!("{{\"inputs\":[{}],\"observes\":[{}],\"covers\":[{}]}}", a.join(","), b.join(","), c.join(","))
                })
                .collect();
            let _ = write!(o, ",\"traces\":[{}]", ts.join(","));
            let cov = e.coverage(&prefix);
            let cs: Vec<String> = cov.iter().map(|(k, v)| format!("{}:{}", js(k), v.len())).collect();
            let _ = write!(o, ",\"functions\":{{{}}}", cs.join(","));
            o.push('}');
            println!("{}", o);
            use std::io::Write as _;
            std::io::stdout().flush().unwrap();
            // tearing down big heaps takes time and is of no use
            std::process::exit(match status {
                "ok" => 0,
                "violation" => 1,
                _ => 2,
            });
        })
        .unwrap();
    if h.join().is_err() {
        std::process::exit(2);
    }
}
