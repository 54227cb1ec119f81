mod exec;
mod expr;
mod ll;
mod z3;
use std::fmt::Write;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 || (c as u32) > 126 => {
                let _ = write!(o, "\\u{:04x}", (c as u32) & 0xffff);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// The result as JSON; `partial` while the exploration goes on.
pub fn report(ex: &exec::Exec, partial: bool) -> String {
    let mut s = String::from("{\n");
    let _ = writeln!(s, "\"entry\": {},", js(&ex.cfg.entry));
    let _ = writeln!(s, "\"paths\": {}, \"infeasible\": {}, \"instructions\": {},", ex.paths, ex.infeasible, ex.instrs);
    let _ = writeln!(
        s,
        "\"queries\": {}, \"slow_queries\": {}, \"cache_hits\": {}, \"model_hits\": {}, \"solver_s\": {:.3}, \"max_query_s\": {:.3},",
        ex.z3.queries, ex.z3.slow_queries, ex.cache_hits, ex.model_hits, ex.z3.time, ex.z3.max
    );
    let _ = writeln!(s, "\"wall_s\": {:.3}, \"timed_out\": {}, \"solver\": {},", ex.t0.elapsed().as_secs_f64(), ex.timed_out || partial, js(&z3::version()));
    let _ = writeln!(s, "\"max_pc\": {}, \"max_path_steps\": {}, \"max_inputs\": {}, \"expr_nodes\": {},", ex.max_pc, ex.max_path_steps, ex.ninputs_max, ex.cx.nodes.len());
    let _ = writeln!(s, "\"reach\": {{{}}},", ex.reach.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(","));
    let _ = writeln!(s, "\"asserts\": {{{}}},", ex.asserts.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(","));
    let _ = writeln!(s, "\"observed\": [{}],", ex.observed.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(","));
    let nums = |v: &[u128]| v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
    let _ = writeln!(s, "\"samples\": [{}],", ex.samples.iter().map(|(i, o)| format!("{{\"inputs\":[{}],\"observed\":[{}]}}", nums(i), nums(o))).collect::<Vec<_>>().join(","));
    let _ = writeln!(s, "\"errors\": [{}],", ex.errors.iter().map(|e| js(e)).collect::<Vec<_>>().join(","));
    let fns: Vec<String> = ex.fn_seen.iter().map(|&i| js(&ex.m.fns[i as usize].name)).collect();
    let _ = writeln!(s, "\"functions\": [{}],", fns.join(","));
    let vs: Vec<String> = ex
        .viols
        .iter()
        .map(|v| {
            format!(
                "{{\"key\":{},\"kind\":{},\"msg\":{},\"inputs\":[{}],\"trace\":[{}]}}",
                js(&v.key),
                js(&v.kind),
                js(&v.msg),
                v.inputs.iter().map(|x| format!("{}", x.1)).collect::<Vec<_>>().join(","),
                v.trace.iter().map(|t| js(t)).collect::<Vec<_>>().join(",")
            )
        })
        .collect();
    let _ = writeln!(s, "\"violations\": [{}]\n}}", vs.join(",\n"));
    s
}

fn real_main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let (mut ll, mut entry, mut out) = (String::new(), String::new(), String::new());
    let mut cfg = exec::Config { max_steps: 40_000_000, max_time: 600.0, query_ms: 120_000, concrete: None, max_viol: 3, prof: false, trace: false, entry: String::new(), out: String::new() };
    let mut i = 0;
    while i < args.len() {
        let v = args.get(i + 1).cloned().unwrap_or_default();
        match args[i].as_str() {
            "--ll" => ll = v,
            "--entry" => entry = v,
            "--out" => out = v,
            "--time" => cfg.max_time = v.parse().unwrap(),
            "--steps" => cfg.max_steps = v.parse().unwrap(),
            "--query-ms" => cfg.query_ms = v.parse().unwrap(),
            "--max-viol" => cfg.max_viol = v.parse().unwrap(),
            "--concrete" => {
                let t = std::fs::read_to_string(&v).unwrap();
                cfg.concrete = Some(t.split_whitespace().map(|x| x.parse().unwrap()).collect());
            }
            "--prof" => {
                cfg.prof = true;
                i += 1;
                continue;
            }
            "--trace" => {
                cfg.trace = true;
                i += 1;
                continue;
            }
            a => {
                eprintln!("bad argument {}", a);
                std::process::exit(2);
            }
        }
        i += 2;
    }
    let text = std::fs::read_to_string(&ll).expect("cannot read IR");
    let m = ll::Module::load(text);
    cfg.entry = entry.clone();
    cfg.out = out.clone();
    let mut ex = exec::Exec::new(m, cfg);
    ex.run(&entry);
    let s = report(&ex, false);
    if out.is_empty() {
        print!("{}", s);
    } else {
        std::fs::write(&out, s).unwrap();
    }
    if ex.cfg.prof {
        let mut p: Vec<_> = ex.prof.iter().collect();
        p.sort_by_key(|x| std::cmp::Reverse(*x.1));
        for (k, v) in p.iter().filter(|x| x.0.starts_with("FORK")).take(40).chain(p.iter().filter(|x| !x.0.starts_with("FORK")).take(40)) {
            eprintln!("{:>10} {}", v, k);
        }
    }
    std::process::exit(0);
}

fn main() {
    let h = std::thread::Builder::new().stack_size(2 << 30).spawn(real_main).unwrap();
    if h.join().is_err() {
        std::process::exit(4);
    }
}
