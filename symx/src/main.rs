mod exec;
mod ir;
mod lia;
mod smt;
mod term;
use std::fmt::Write;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn main() {
    let mut args = std::env::args().skip(1);
    let mut file = String::new();
    let mut entries = vec![];
    let mut out = String::new();
    let mut o = exec::Opts {
        query_secs: 60,
        total_secs: 600,
        max_paths: 20000,
        max_steps: 400_000_000,
        tmp: "/tmp".into(),
        trace: false,
        concrete: None,
        seed: 1,
        max_viol: 1,
        reals: false,
        merge: false,
    };
    while let Some(a) = args.next() {
        let mut v = || args.next().expect("argument value");
        match a.as_str() {
            "--entry" => entries.push(v()),
            "--out" => out = v(),
            "--query-secs" => o.query_secs = v().parse().unwrap(),
            "--total-secs" => o.total_secs = v().parse().unwrap(),
            "--max-paths" => o.max_paths = v().parse().unwrap(),
            "--tmp" => o.tmp = v(),
            "--trace" => o.trace = true,
            "--reals" => o.reals = true,
            "--merge" => o.merge = true,
            "--seed" => o.seed = v().parse().unwrap(),
            "--max-viol" => o.max_viol = v().parse().unwrap(),
            "--concrete" => {
                let s = v();
                o.concrete = Some(s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect());
            }
            _ => file = a,
        }
    }
    let text = std::fs::read_to_string(&file).expect("read ir");
    let t0 = std::time::Instant::now();
    let m = match ir::Module::parse(&text) {
        Ok(m) => m,
        Err(e) => {
            eprintln!("symx: parse error: {}", e);
            std::process::exit(3);
        }
    };
    let parse_s = t0.elapsed().as_secs_f64();
    let entry = entries.remove(0);
    // a deep native stack is not needed, but terms may be nested: run on a big stack
    let h = std::thread::Builder::new()
        .stack_size(1 << 30)
        .spawn(move || {
            let t1 = std::time::Instant::now();
            let mut e = exec::Eng::new(m, o);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| e.run(&entry)));
            if r.is_err() {
                e.rep.unsup.push("engine panic".into());
            }
            let wall = t1.elapsed().as_secs_f64();
            let r = &e.rep;
            let s = &e.stats;
            let mut j = String::from("{");
            let list = |v: &Vec<String>| format!("[{}]", v.iter().take(20).map(|x| js(x)).collect::<Vec<_>>().join(","));
            let _ = write!(j, "\"entry\":{},\"parse_s\":{:.2},\"wall_s\":{:.2},", js(&entry), parse_s, wall);
            let _ = write!(
                j,
                "\"paths\":{},\"panics_ok\":{},\"infeasible\":{},\"forks\":{},\"steps\":{},\"unexplored\":{},\"inputs\":{},",
                r.paths, r.panics_ok, r.infeasible, r.forks, r.steps, r.unexplored, r.max_inputs
            );
            let _ = write!(j, "\"asserts_norm\":{},\"asserts_smt\":{},", r.asserts_norm, r.asserts_smt);
            let _ = write!(j, "\"assert_sites\":{{{}}},", r.assert_sites.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(","));
            let _ = write!(j, "\"reach\":{{{}}},", r.reach.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(","));
            let _ = write!(
                j,
                "\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"guessed\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},",
                s.queries, s.sat, s.unsat, s.unknown, s.guessed, s.time, s.max_query
            );
            let _ = write!(j, "\"by_solver\":{{{}}},", s.by_solver.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","));
            let _ = write!(j, "\"terms\":{},\"opaque\":{},", e.ts.nodes.len(), r.opaque || e.sess.opaque);
            let _ = write!(j, "\"undecided\":{},\"n_undecided\":{},\"unsupported\":{},", list(&r.undecided), r.undecided.len(), list(&r.unsup));
            let _ = write!(j, "\"panic_sites\":{{{}}},", r.panic_sites.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","));
            let _ = write!(j, "\"outs\":[{}],", r.outs.iter().map(|(k, v)| format!("[{},\"{}\"]", k, v)).collect::<Vec<_>>().join(","));
            let srcf = ir::source_functions(&text, &r.locs);
            let _ = write!(j, "\"funcs\":[{}],", srcf.iter().map(|x| js(x)).collect::<Vec<_>>().join(","));
            let vs: Vec<String> = r
                .violations
                .iter()
                .map(|v| {
                    format!(
                        "{{\"kind\":{},\"msg\":{},\"inputs\":[{}],\"stack\":{}}}",
                        js(&v.kind),
                        js(&v.msg),
                        v.inputs.iter().map(|x| format!("\"{}\"", x)).collect::<Vec<_>>().join(","),
                        list(&v.stack)
                    )
                })
                .collect();
            let _ = write!(j, "\"violations\":[{}]}}", vs.join(","));
            j
        })
        .unwrap();
    let j = h.join().unwrap_or_else(|_| "{\"unsupported\":[\"engine crash\"]}".into());
    if out.is_empty() {
        println!("{}", j);
    } else {
        std::fs::write(&out, j).expect("write report");
    }
}
