mod eval;
mod exec;
mod ir;
mod poly;
mod smt;
mod term;

use exec::*;
use std::time::{Duration, Instant};

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jf(v: f64) -> String {
    if v.is_finite() { format!("{:e}", v) } else { js(&format!("{}", v)) }
}
fn jins(v: &[(String, String)]) -> String {
    format!("[{}]", v.iter().map(|(k, x)| format!("[{},{}]", js(k), js(x))).collect::<Vec<_>>().join(","))
}

fn main() {
    // deep recursion in simplifiers
    let h = std::thread::Builder::new().stack_size(2 << 30).spawn(real_main).unwrap();
    let c = h.join().unwrap_or(3);
    std::process::exit(c);
}

fn real_main() -> i32 {
    let t0 = Instant::now();
    let args: Vec<String> = std::env::args().collect();
    let mut lls = vec![];
    let mut entry = String::new();
    let mut out = String::new();
    let mut mode = "real".to_string();
    let mut tier = 0u32;
    let mut limit = 300.0f64;
    let mut timeout = 20000u64;
    let mut feas = 1500u64;
    let mut dump = None;
    let mut nwit = 4usize;
    let mut guess = true;
    let mut seed = 1u64;
    let mut bx = 4.0f64;
    let mut z3 = "z3-new -in".to_string();
    let mut cvc = "cvc5 --incremental --nl-cov -q".to_string();
    let mut z3old = "z3 -in".to_string();
    let mut i = 1;
    while i < args.len() {
        let v = args.get(i + 1).cloned().unwrap_or_default();
        match args[i].as_str() {
            "--ll" => lls.push(v),
            "--entry" => entry = v,
            "--out" => out = v,
            "--mode" => mode = v,
            "--tier" => tier = v.parse().unwrap(),
            "--limit" => limit = v.parse().unwrap(),
            "--timeout" => timeout = v.parse().unwrap(),
            "--feas" => feas = v.parse().unwrap(),
            "--dump" => dump = Some(v),
            "--nwit" => nwit = v.parse().unwrap(),
            "--seed" => seed = v.parse().unwrap(),
            "--box" => bx = v.parse().unwrap(),
            "--guess" => guess = v != "0",
            "--z3" => z3 = v,
            "--cvc" => cvc = v,
            "--z3old" => z3old = v,
            a => {
                eprintln!("unknown argument {}", a);
                return 2;
            }
        }
        i += 2;
    }
    let mut mods = vec![];
    for (k, f) in lls.iter().enumerate() {
        let t = match std::fs::read_to_string(f) {
            Ok(t) => t,
            Err(e) => {
                eprintln!("{}: {}", f, e);
                return 2;
            }
        };
        match ir::parse_module(&t, k) {
            Ok(m) => mods.push(m),
            Err(e) => {
                eprintln!("{}: {}", f, e);
                return 2;
            }
        }
    }
    let p = match Prog::link(mods) {
        Ok(p) => p,
        Err(e) => {
            eprintln!("link: {}", e);
            return 2;
        }
    };
    let tparse = t0.elapsed().as_secs_f64();
    let o = Opts {
        timeout_ms: timeout,
        feas_ms: feas,
        deadline: t0 + Duration::from_secs_f64(limit),
        max_steps: 60_000_000,
        tier,
        max_cex: 3,
        guess,
        nwit,
        seed: seed.wrapping_mul(0x9E3779B97F4A7C15) | 1,
        bx,
    };
    let mut e = Engine::new(p, mode == "real", &z3, &cvc, &z3old, o);
    e.z3.dump = dump;
    e.run(&entry);
    // ---- report
    let mut s = String::from("{");
    s.push_str(&format!("\"entry\":{},\"mode\":{},", js(&entry), js(&mode)));
    let st = &e.st;
    s.push_str(&format!(
        "\"paths\":{},\"infeasible\":{},\"panic_paths\":{},\"steps\":{},\"forks\":{},\"obligations\":{},\"obl_syntactic\":{},\"obl_smt\":{},\"obl_tol\":{},\"unknown_feas\":{},\"undef_reads\":{},\"terms\":{},",
        st.paths, st.paths_infeasible, st.paths_panic, st.steps, st.forks, st.obl_total, st.obl_syntactic, st.obl_smt, st.obl_tol, st.unknown_feas, st.undef_reads, e.ar.nodes.len()
    ));
    let q = e.z3.queries + e.cvc.queries + e.z3old.queries;
    s.push_str(&format!(
        "\"queries\":{},\"unsat\":{},\"sat\":{},\"unknown\":{},\"solver_time\":{:.3},\"max_query\":{:.3},\"slowest\":{},\"cvc5_queries\":{},",
        q,
        e.z3.unsat + e.cvc.unsat + e.z3old.unsat,
        e.z3.sat + e.cvc.sat + e.z3old.sat,
        e.z3.unknown + e.cvc.unknown + e.z3old.unknown,
        e.z3.time + e.cvc.time + e.z3old.time,
        e.z3.max_time.max(e.cvc.max_time),
        js(&e.z3.slowest),
        e.cvc.queries
    ));
    s.push_str(&format!("\"parse_s\":{:.3},\"wall_s\":{:.3},\"bad_bits\":{},", tparse, t0.elapsed().as_secs_f64(), e.ar.bad_bits));
    s.push_str(&format!(
        "\"labels\":{{{}}},",
        e.labels.iter().map(|(k, v)| format!("{}:[{},{}]", js(k), v.0, v.1)).collect::<Vec<_>>().join(",")
    ));
    s.push_str(&format!("\"errors\":[{}],", e.errors.iter().map(|x| js(x)).collect::<Vec<_>>().join(",")));
    s.push_str(&format!("\"inconclusive\":[{}],", e.inconclusive.iter().map(|x| js(x)).collect::<Vec<_>>().join(",")));
    s.push_str(&format!("\"stubs\":[{}],", e.stubs.iter().map(|x| js(x)).collect::<Vec<_>>().join(",")));
    let cov = e.coverage();
    s.push_str(&format!(
        "\"coverage\":[{}],",
        cov.iter()
            .map(|((f, n), l)| format!("[{},{},[{}]]", js(f), js(n), l.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")))
            .collect::<Vec<_>>()
            .join(",")
    ));
    s.push_str(&format!(
        "\"functions\":[{}],",
        e.funcs_seen.iter().map(|f| js(&e.p.func(*f).pretty)).collect::<Vec<_>>().join(",")
    ));
    s.push_str(&format!(
        "\"cex\":[{}],",
        e.cex
            .iter()
            .map(|c| format!("{{\"kind\":{},\"label\":{},\"inputs\":{}}}", js(&c.kind), js(&c.label), jins(&c.inputs)))
            .collect::<Vec<_>>()
            .join(",")
    ));
    s.push_str(&format!(
        "\"witness\":[{}]",
        e.wit
            .iter()
            .map(|w| format!(
                "{{\"inputs\":{},\"obs\":[{}]}}",
                jins(&w.inputs),
                w.obs.iter().map(|(l, v)| format!("[{},{}]", js(l), jf(*v))).collect::<Vec<_>>().join(",")
            ))
            .collect::<Vec<_>>()
            .join(",")
    ));
    s.push_str("}\n");
    if out.is_empty() {
        println!("{}", s);
    } else {
        std::fs::write(&out, s).unwrap();
    }
    if !e.errors.is_empty() {
        return 2;
    }
    if !e.cex.is_empty() {
        return 1;
    }
    if !e.inconclusive.is_empty() || e.st.paths == 0 {
        return 2;
    }
    0
}
