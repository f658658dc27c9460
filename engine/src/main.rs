mod exec;
mod ir;
mod smt;
mod poly;
mod term;

use exec::*;
use std::collections::HashMap;
use std::fmt::Write as _;
use term::*;

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn cvs(v: &CV) -> String {
    match v {
        CV::B(b) => format!("b:{}", *b as u8),
        CV::I(i) => format!("i:{}", i),
        CV::F(f) => format!("f:{:016x}", f.to_bits()),
    }
}

fn human(v: &CV) -> String {
    match v {
        CV::B(b) => b.to_string(),
        CV::I(i) => i.to_string(),
        CV::F(f) => format!("{:?}", f),
    }
}

fn inputs_json(v: &[(String, Sort, CV)]) -> String {
    let parts: Vec<String> = v.iter().map(|(n, _, c)| format!("{{\"name\":{},\"bits\":{},\"value\":{}}}", esc(n), esc(&cvs(c)), esc(&human(c)))).collect();
    format!("[{}]", parts.join(","))
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut ll = String::new();
    let mut harness = String::new();
    let mut real = true;
    let mut out = None;
    let mut qt = 20000u64;
    let mut branch = 1500;
    let mut fixed: Option<HashMap<String, CV>> = None;
    let mut cfg = Config { max_paths: 200000, max_instrs: 2_000_000_000, time_s: 800.0, concretize_index: false, keep_going: false, fixed: None };
    let mut i = 1;
    while i < args.len() {
        match args[i].as_str() {
            "--mode" => {
                i += 1;
                real = args[i] != "fp";
            }
            "--max-paths" => {
                i += 1;
                cfg.max_paths = args[i].parse().unwrap();
            }
            "--time" => {
                i += 1;
                cfg.time_s = args[i].parse().unwrap();
            }
            "--query-ms" => {
                i += 1;
                qt = args[i].parse().unwrap();
            }
            "--branch-ms" => {
                i += 1;
                branch = args[i].parse().unwrap();
            }
            "--keep-going" => cfg.keep_going = true,
            "--concretize-index" => cfg.concretize_index = true,
            "--out" => {
                i += 1;
                out = Some(args[i].clone());
            }
            "--fixed" => {
                i += 1;
                let txt = std::fs::read_to_string(&args[i]).expect("fixed inputs");
                let mut m = HashMap::new();
                for l in txt.lines() {
                    if let Some((n, v)) = l.rsplit_once('=') {
                        let c = if let Some(h) = v.strip_prefix("f:") {
                            CV::F(f64::from_bits(u64::from_str_radix(h, 16).unwrap()))
                        } else if let Some(h) = v.strip_prefix("i:") {
                            CV::I(h.parse().unwrap())
                        } else {
                            CV::B(v == "b:1")
                        };
                        m.insert(n.to_string(), c);
                    }
                }
                fixed = Some(m);
            }
            a if ll.is_empty() => ll = a.to_string(),
            a => harness = a.to_string(),
        }
        i += 1;
    }
    cfg.fixed = fixed;
    let text = std::fs::read_to_string(&ll).unwrap_or_else(|e| {
        eprintln!("cannot read {}: {}", ll, e);
        std::process::exit(3)
    });
    let module = match ir::Module::parse(&text) {
        Ok(m) => m,
        Err(e) => {
            eprintln!("cannot parse {}: {}", ll, e);
            std::process::exit(3)
        }
    };
    drop(text);
    let t0 = std::time::Instant::now();
    let time_s = cfg.time_s;
    let mut ex = Exec::new(&module, real, cfg.clone());
    loop {
        ex.solver.timeout_ms = qt;
        ex.branch_ms = branch;
        ex.run(&harness);
        if !ex.restart {
            break;
        }
        cfg.time_s = (time_s - t0.elapsed().as_secs_f64()).max(5.0);
        let mut next = Exec::new(&module, real, cfg.clone());
        next.eager = std::mem::take(&mut ex.eager);
        std::mem::swap(&mut next.solver, &mut ex.solver);
        ex = next;
    }
    let wall = t0.elapsed().as_secs_f64();
    let r = &ex.rep;
    let s = &ex.solver.stats;
    let mut j = String::from("{");
    let _ = write!(j, "\"truncated\":{},", ex.rep.truncated);
    let _ = write!(j, "\"harness\":{},\"mode\":{},\"wall_s\":{:.3},", esc(&harness), esc(if real { "real" } else { "fp" }), wall);
    let _ = write!(j, "\"paths\":{},\"forks\":{},\"max_depth\":{},\"instructions\":{},\"terms\":{},", r.paths, r.forks, r.max_depth, r.instrs, ex.tm.nodes.len());
    let ended: Vec<String> = r.ended.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect();
    let _ = write!(j, "\"ended\":{{{}}},", ended.join(","));
    let _ = write!(
        j,
        "\"queries\":{{\"solver\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"interval\":{},\"cached\":{},\"solver_s\":{:.3},\"max_s\":{:.3},\"z3\":{},\"cvc5\":{}}},",
        s.queries, s.sat, s.unsat, s.unknown, s.by_interval, s.cached, s.solver_s, s.max_s, s.by_z3, s.by_cvc5
    );
    let _ = write!(j, "\"atoms\":{{\"exact\":{},\"relaxed\":{},\"idealised\":{},\"max_relaxation\":{:e}}},", s.exact_atoms, s.relaxed_atoms, s.idealised_atoms, s.max_delta);
    let checks: Vec<String> = r.checks.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect();
    let _ = write!(j, "\"checks\":{{{}}},", checks.join(","));
    let cov: Vec<String> = r.declared_covers.iter().map(|k| format!("{}:{}", esc(k), r.covers.contains_key(k))).collect();
    let _ = write!(j, "\"covers\":{{{}}},", cov.join(","));
    let inp: Vec<String> = r.inputs.iter().map(|(k, v)| format!("{}:{}", esc(k), esc(v))).collect();
    let _ = write!(j, "\"inputs\":{{{}}},", inp.join(","));
    let mut fs: Vec<String> = r.funcs.iter().filter(|f| f.contains("traffic_sim")).map(|f| demangle(f)).collect();
    fs.sort();
    fs.dedup();
    let fs: Vec<String> = fs.iter().map(|f| esc(f)).collect();
    let _ = write!(j, "\"functions\":[{}],\"functions_total\":{},", fs.join(","), r.funcs.len());
    let vs: Vec<String> = r
        .violations
        .iter()
        .map(|v| format!("{{\"id\":{},\"kind\":{},\"msg\":{},\"confirmed\":{},\"inputs\":{}}}", esc(&v.id), esc(&v.kind), esc(&v.msg), v.confirmed, inputs_json(&v.inputs)))
        .collect();
    let _ = write!(j, "\"violations\":[{}],", vs.join(","));
    let inc: Vec<String> = r.inconclusive.iter().map(|x| esc(x)).collect();
    let _ = write!(j, "\"inconclusive\":[{}],", inc.join(","));
    let sm: Vec<String> = r.sample_models.iter().map(|m| inputs_json(m)).collect();
    let _ = write!(j, "\"sample_models\":[{}],", sm.join(","));
    let notes: Vec<String> = r
        .notes
        .iter()
        .map(|p| {
            let x: Vec<String> = p
                .iter()
                .map(|(n, v)| {
                    let b = match v {
                        V::F(f) => format!("{:016x}", f.to_bits()),
                        V::I(i) => format!("{:x}", i),
                        _ => "sym".into(),
                    };
                    format!("[{},{}]", esc(n), esc(&b))
                })
                .collect();
            format!("[{}]", x.join(","))
        })
        .collect();
    let _ = write!(j, "\"notes\":[{}]", notes.join(","));
    j.push('}');
    match out {
        Some(p) => std::fs::write(p, j).expect("write result"),
        None => println!("{}", j),
    }
}
