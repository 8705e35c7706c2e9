//! rsx: symbolic execution of Rust harnesses compiled to whole-program LLVM IR, decided by Z3.
mod exec;
mod expr;
mod ir;
mod solver;

use std::fmt::Write as _;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn real_main() {
    let mut args = std::env::args().skip(1);
    let mut ll = String::new();
    let mut entry = String::new();
    let mut out = String::new();
    let mut cfg = exec::Cfg { max_steps: 40_000_000, time_limit: 600.0, max_paths: 10_000_000, enum_limit: 300, verbose: false, tier: 0 };
    let mut filter: Vec<String> = vec![];
    while let Some(a) = args.next() {
        match a.as_str() {
            "--ll" => ll = args.next().unwrap(),
            "--entry" => entry = args.next().unwrap(),
            "--out" => out = args.next().unwrap(),
            "--time" => cfg.time_limit = args.next().unwrap().parse().unwrap(),
            "--steps" => cfg.max_steps = args.next().unwrap().parse().unwrap(),
            "--paths" => cfg.max_paths = args.next().unwrap().parse().unwrap(),
            "--enum" => cfg.enum_limit = args.next().unwrap().parse().unwrap(),
            "--fn-filter" => filter.push(args.next().unwrap()),
            "--tier" => cfg.tier = args.next().unwrap().parse().unwrap(),
            "-v" => cfg.verbose = true,
            x => panic!("argument {x}"),
        }
    }
    let t0 = std::time::Instant::now();
    let text = std::fs::read(&ll).expect("read .ll");
    let m = ir::Module::load(text);
    if cfg.verbose {
        eprintln!("loaded {} functions, {} globals in {:.2}s", m.fns.len(), m.globals.len(), t0.elapsed().as_secs_f64());
    }
    let mut e = exec::Engine::new(m, cfg);
    e.run(&entry);
    let mut o = String::from("{");
    let _ = write!(o, "\"entry\":{},\"complete\":{},\"paths\":{},\"assumed_away\":{},\"forks\":{},\"instructions\":{},\"max_path_instructions\":{},\"max_fork_depth\":{},", js(&entry), e.done && e.unsup.is_empty(), e.paths, e.assumed, e.forks, e.steps, e.max_path_steps, e.max_depth);
    let _ = write!(o, "\"crosschecked_sat\":{},\"crosschecked_unsat\":{},\"checks\":{},\"checks_trivial\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"cache_hits\":{},\"table_queries\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},\"wall_s\":{:.3},\"symbols\":{},\"exprs\":{},", e.xsat, e.xunsat, e.checks, e.checks_trivial, e.s.queries, e.s.sat, e.s.unsat, e.s.cache_hits, e.table_queries, e.s.time, e.s.max_query, t0.elapsed().as_secs_f64(), e.p.sym_names.len(), e.p.n.len());
    let kv = |m: &std::collections::BTreeMap<String, u64>| m.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(",");
    let _ = write!(o, "\"covers\":{{{}}},\"labels\":{{{}}},\"unsupported\":{{{}}},", kv(&e.covers), kv(&e.labels), kv(&e.unsup));
    let mut fns: Vec<String> = e.fns_run.iter().map(|i| exec::demangle(&e.m.fns[*i as usize].name)).filter(|n| filter.is_empty() || filter.iter().any(|f| n.contains(f.as_str()))).collect();
    fns.sort();
    fns.dedup();
    let _ = write!(o, "\"functions_total\":{},\"functions\":[{}],", e.fns_run.len(), fns.iter().map(|f| js(f)).collect::<Vec<_>>().join(","));
    let mut vs = vec![];
    for v in &e.viol {
        let ins = v.inputs.iter().map(|(n, b)| format!("[{},{}]", js(n), js(&b.iter().map(|x| format!("{x:02x}")).collect::<String>()))).collect::<Vec<_>>().join(",");
        let notes = v.notes.iter().map(|(n, b)| format!("[{},{}]", js(n), js(b))).collect::<Vec<_>>().join(",");
        vs.push(format!("{{\"kind\":{},\"label\":{},\"msg\":{},\"count\":{},\"inputs\":[{}],\"notes\":[{}],\"stack\":[{}]}}", js(&v.kind), js(&v.label), js(&v.msg), v.count, ins, notes, v.stack.iter().take(12).map(|s| js(s)).collect::<Vec<_>>().join(",")));
    }
    let sm: Vec<String> = e
        .samples
        .iter()
        .map(|(i, c)| {
            let ins = i.iter().map(|(n, b)| format!("[{},{}]", js(n), js(&b.iter().map(|x| format!("{x:02x}")).collect::<String>()))).collect::<Vec<_>>().join(",");
            format!("{{\"inputs\":[{}],\"covers\":[{}]}}", ins, c.iter().map(|x| js(x)).collect::<Vec<_>>().join(","))
        })
        .collect();
    let _ = write!(o, "\"samples\":[{}],", sm.join(","));
    let _ = write!(o, "\"violations\":[{}]}}", vs.join(","));
    if out.is_empty() {
        println!("{o}");
    } else {
        std::fs::write(&out, o).unwrap();
    }
}

fn main() {
    // deep expression recursion
    let h = std::thread::Builder::new().stack_size(2 << 30).spawn(real_main).unwrap();
    if h.join().is_err() {
        std::process::exit(3);
    }
}
