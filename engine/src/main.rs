mod exec;
mod expr;
mod ir;
mod solver;
use std::rc::Rc;
use std::time::Instant;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut ll = String::new();
    let mut harness = String::new();
    let mut out = String::new();
    let mut solver = "z3-new -in".to_string();
    let mut src_prefix = "/repo/".to_string();
    let mut o = exec::Opts { case: None, max_paths: 1_000_000, max_steps: 30_000_000, time: 1e9, profile: false, concrete: None, trace: false };
    let mut i = 1;
    while i < a.len() {
        let nx = || a[i + 1].clone();
        match a[i].as_str() {
            "--ll" => ll = nx(),
            "--harness" => harness = nx(),
            "--out" => out = nx(),
            "--solver" => solver = nx(),
            "--case" => o.case = Some(nx().parse().unwrap()),
            "--max-paths" => o.max_paths = nx().parse().unwrap(),
            "--max-steps" => o.max_steps = nx().parse().unwrap(),
            "--time" => o.time = nx().parse().unwrap(),
            "--src" => src_prefix = nx(),
            "--concrete" => o.concrete = Some(nx().split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect()),
            "--profile" => {
                o.profile = true;
                i += 1;
                continue;
            }
            "--trace" => {
                o.trace = true;
                i += 1;
                continue;
            }
            x => panic!("unknown option {}", x),
        }
        i += 2;
    }
    let t = Instant::now();
    let m = Rc::new(ir::parse(std::fs::read_to_string(&ll).expect("read IR")));
    let tparse = t.elapsed().as_secs_f64();
    let profile = o.profile;
    let mut e = exec::Exec::new(m, solver::Solver::new(&solver), o);
    e.run(&harness);
    let wall = t.elapsed().as_secs_f64();
    let mut s = String::from("{");
    s.push_str(&format!("\"harness\":{},", js(&harness)));
    s.push_str(&format!(
        "\"paths\":{},\"infeasible\":{},\"steps\":{},\"forks\":{},\"obligations\":{},\"constant_obligations\":{},\"interval_decisions\":{},\"pinned_decisions\":{},\"concretizations\":{},\"max_inputs\":{},\"max_path_steps\":{},",
        e.paths, e.infeasible, e.steps, e.forks, e.obligations, e.trivially, e.interval, e.pindec, e.concretized, e.max_inputs, e.max_path_steps
    ));
    s.push_str(&format!(
        "\"solver\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"cache_hits\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},\"wall_s\":{:.3},\"parse_s\":{:.3},",
        js(&e.solver.name), e.solver.queries, e.solver.sat, e.solver.unsat, e.solver.cache_hits, e.solver.time, e.solver.max_query, wall, tparse
    ));
    let mp = |m: &std::collections::BTreeMap<String, u64>| m.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(",");
    s.push_str(&format!("\"covers\":{{{}}},\"checks\":{{{}}},\"incomplete\":{{{}}},", mp(&e.covers), mp(&e.checks), mp(&e.incomplete)));
    s.push_str(&format!("\"externals\":[{}],", e.ext_seen.iter().map(|x| js(x)).collect::<Vec<_>>().join(",")));
    let vs: Vec<String> = e
        .violations
        .iter()
        .map(|v| {
            format!(
                "{{\"kind\":{},\"id\":{},\"count\":{},\"inputs\":[{}],\"stack\":[{}]}}",
                js(&v.kind),
                js(&v.id),
                v.count,
                v.inputs.iter().map(|x| format!("\"{}\"", x)).collect::<Vec<_>>().join(","),
                v.stack.iter().map(|x| js(x)).collect::<Vec<_>>().join(",")
            )
        })
        .collect();
    s.push_str(&format!("\"violations\":[{}],", vs.join(",")));
    let sm: Vec<String> = e
        .samples
        .iter()
        .map(|(x, n)| format!("{{\"inputs\":[{}],\"checks\":{}}}", x.iter().map(|v| format!("\"{}\"", v)).collect::<Vec<_>>().join(","), n))
        .collect();
    s.push_str(&format!("\"samples\":[{}],", sm.join(",")));
    let cov: Vec<String> = e
        .coverage()
        .into_iter()
        .filter(|(f, _)| f.starts_with(&src_prefix))
        .map(|(f, (fns, lines))| {
            format!(
                "{}:{{\"functions\":[{}],\"lines\":{}}}",
                js(&f[src_prefix.len()..]),
                fns.iter().map(|x| js(x)).collect::<Vec<_>>().join(","),
                lines.len()
            )
        })
        .collect();
    s.push_str(&format!("\"code\":{{{}}}}}", cov.join(",")));
    if profile {
        let mut p: Vec<_> = e.prof.iter().collect();
        p.sort_by(|a, b| b.1.cmp(a.1));
        for (k, v) in p.into_iter().take(25) {
            eprintln!("{:8} {}", v, k);
        }
    }
    if out.is_empty() {
        println!("{}", s);
    } else {
        std::fs::write(&out, s).unwrap();
    }
}
