//! SMT-LIB emission and solver processes.
use crate::eval::{Model, V};
use crate::ir::BinOp;
use crate::term::*;
use std::collections::{HashMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::mpsc::{channel, Receiver};
use std::time::{Duration, Instant};

#[derive(Debug)]
pub enum Res {
    Sat(Model),
    Unsat,
    Unknown(String),
}

pub struct Proc {
    child: Child,
    stdin: ChildStdin,
    rx: Receiver<String>,
}

pub struct Solver {
    pub cmd: Vec<String>,
    pub cvc: bool,
    proc_: Option<Proc>,
    pub queries: usize,
    pub unsat: usize,
    pub sat: usize,
    pub unknown: usize,
    pub time: f64,
    pub max_time: f64,
    pub slowest: String,
    pub dump: Option<String>,
    pub tag: String,
}

impl Solver {
    pub fn new(cmd: &str) -> Solver {
        let cmd: Vec<String> = cmd.split_whitespace().map(|s| s.to_string()).collect();
        let cvc = cmd[0].contains("cvc5");
        Solver {
            cmd,
            cvc,
            proc_: None,
            queries: 0,
            unsat: 0,
            sat: 0,
            unknown: 0,
            time: 0.0,
            max_time: 0.0,
            slowest: String::new(),
            dump: None,
            tag: String::new(),
        }
    }
    fn start(&mut self) -> Result<(), String> {
        let mut c = Command::new(&self.cmd[0]);
        c.args(&self.cmd[1..]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null());
        let mut child = c.spawn().map_err(|e| format!("spawn {:?}: {}", self.cmd, e))?;
        let stdin = child.stdin.take().unwrap();
        let out = child.stdout.take().unwrap();
        let (tx, rx) = channel();
        std::thread::spawn(move || {
            let r = BufReader::new(out);
            for l in r.lines() {
                match l {
                    Ok(l) => {
                        if tx.send(l).is_err() {
                            break;
                        }
                    }
                    Err(_) => break,
                }
            }
        });
        self.proc_ = Some(Proc { child, stdin, rx });
        Ok(())
    }
    fn kill(&mut self) {
        if let Some(mut p) = self.proc_.take() {
            let _ = p.child.kill();
            let _ = p.child.wait();
        }
    }
    /// run a script; `vars` are the (name, term) pairs whose values are requested
    pub fn run(&mut self, script: &str, vars: &[(String, T)], timeout_ms: u64, ar: &Arena) -> Res {
        let t0 = Instant::now();
        let r = self.run_inner(script, vars, timeout_ms, ar);
        let dt = t0.elapsed().as_secs_f64();
        self.queries += 1;
        self.time += dt;
        if dt > self.max_time {
            self.max_time = dt;
            self.slowest = self.tag.clone();
        }
        match &r {
            Res::Sat(_) => self.sat += 1,
            Res::Unsat => self.unsat += 1,
            Res::Unknown(_) => self.unknown += 1,
        }
        if let Some(d) = &self.dump {
            let _ = std::fs::create_dir_all(d);
            let n = format!("{}/q{:05}_{}.smt2", d, self.queries, match &r {
                Res::Sat(_) => "sat",
                Res::Unsat => "unsat",
                Res::Unknown(_) => "unknown",
            });
            let _ = std::fs::write(n, format!("; {} {:.3}s\n{}", self.tag, dt, script));
        }
        r
    }
    fn run_inner(&mut self, script: &str, vars: &[(String, T)], timeout_ms: u64, ar: &Arena) -> Res {
        if self.proc_.is_none() {
            if let Err(e) = self.start() {
                return Res::Unknown(e);
            }
        }
        let mut full = String::new();
        full.push_str("(reset)\n");
        if self.cvc {
            full.push_str(&format!("(set-option :tlimit-per {})\n(set-option :produce-models true)\n", timeout_ms));
            if !script.contains("(set-logic") {
                full.push_str("(set-logic ALL)\n");
            }
        } else {
            full.push_str(&format!("(set-option :timeout {})\n(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 25)\n", timeout_ms));
        }
        full.push_str(script);
        full.push_str("(check-sat)\n(echo \"@@\")\n");
        let p = self.proc_.as_mut().unwrap();
        if p.stdin.write_all(full.as_bytes()).and_then(|_| p.stdin.flush()).is_err() {
            self.kill();
            return Res::Unknown("solver died".into());
        }
        let deadline = Instant::now() + Duration::from_millis(timeout_ms + 3000 + timeout_ms / 2);
        let mut lines = match self.read_until(deadline) {
            Some(l) => l,
            None => {
                self.kill();
                return Res::Unknown("timeout".into());
            }
        };
        lines.retain(|l| !l.trim().is_empty());
        if lines.iter().any(|l| l.contains("(error")) {
            let e = lines.iter().find(|l| l.contains("(error")).unwrap().clone();
            self.kill();
            return Res::Unknown(e);
        }
        let verdict = lines.iter().find(|l| matches!(l.trim(), "sat" | "unsat" | "unknown" | "timeout")).cloned().unwrap_or_default();
        match verdict.trim() {
            "unsat" => Res::Unsat,
            "sat" => {
                if vars.is_empty() {
                    return Res::Sat(Model::new());
                }
                let mut q = String::from("(get-value (");
                for (n, _) in vars {
                    q.push_str(n);
                    q.push(' ');
                }
                q.push_str("))\n(echo \"@@\")\n");
                let p = self.proc_.as_mut().unwrap();
                if p.stdin.write_all(q.as_bytes()).and_then(|_| p.stdin.flush()).is_err() {
                    self.kill();
                    return Res::Unknown("solver died".into());
                }
                match self.read_until(Instant::now() + Duration::from_millis(20000)) {
                    Some(l) => {
                        let txt = l.join("\n");
                        match parse_model(&txt, vars, ar) {
                            Ok(m) => Res::Sat(m),
                            Err(e) => Res::Unknown(format!("model: {} {}", e, &txt[..txt.len().min(300)])),
                        }
                    }
                    None => {
                        self.kill();
                        Res::Unknown("model timeout".into())
                    }
                }
            }
            v => Res::Unknown(v.to_string()),
        }
    }
    fn read_until(&mut self, deadline: Instant) -> Option<Vec<String>> {
        let mut out = vec![];
        let p = self.proc_.as_mut()?;
        loop {
            let now = Instant::now();
            if now >= deadline {
                return None;
            }
            match p.rx.recv_timeout(deadline - now) {
                Ok(l) => {
                    if l.trim().trim_matches('"') == "@@" {
                        return Some(out);
                    }
                    out.push(l);
                }
                Err(_) => return None,
            }
        }
    }
}
impl Drop for Solver {
    fn drop(&mut self) {
        self.kill();
    }
}

#[derive(Debug)]
enum Sx {
    A(String),
    L(Vec<Sx>),
}
fn parse_sx(s: &str) -> Result<Sx, String> {
    let b = s.as_bytes();
    let mut st: Vec<Vec<Sx>> = vec![vec![]];
    let mut i = 0;
    while i < b.len() {
        match b[i] {
            b'(' => {
                st.push(vec![]);
                i += 1;
            }
            b')' => {
                let l = st.pop().ok_or("paren")?;
                st.last_mut().ok_or("paren")?.push(Sx::L(l));
                i += 1;
            }
            c if c.is_ascii_whitespace() => i += 1,
            b'|' => {
                let j = s[i + 1..].find('|').ok_or("bar")? + i + 1;
                st.last_mut().unwrap().push(Sx::A(s[i..=j].to_string()));
                i = j + 1;
            }
            _ => {
                let st0 = i;
                while i < b.len() && !b[i].is_ascii_whitespace() && b[i] != b'(' && b[i] != b')' {
                    i += 1;
                }
                st.last_mut().ok_or("paren")?.push(Sx::A(s[st0..i].to_string()));
            }
        }
    }
    let mut top = st.pop().ok_or("empty")?;
    if top.len() != 1 {
        return Err(format!("sx {}", top.len()));
    }
    Ok(top.pop().unwrap())
}
fn num(s: &str) -> Result<f64, String> {
    s.trim_end_matches('?').parse::<f64>().map_err(|e| format!("{} {}", s, e))
}
fn sx_real(x: &Sx) -> Result<f64, String> {
    match x {
        Sx::A(s) => num(s),
        Sx::L(l) => match l.get(0) {
            Some(Sx::A(o)) if o == "-" && l.len() == 2 => Ok(-sx_real(&l[1])?),
            Some(Sx::A(o)) if o == "/" => Ok(sx_real(&l[1])? / sx_real(&l[2])?),
            Some(Sx::A(o)) if o == "+" => Ok(sx_real(&l[1])? + sx_real(&l[2])?),
            Some(Sx::A(o)) if o == "*" => Ok(sx_real(&l[1])? * sx_real(&l[2])?),
            Some(Sx::A(o)) if o == "to_real" => sx_real(&l[1]),
            Some(Sx::A(o)) if o == "_" => {
                // cvc5: (_ real_algebraic_number <poly, (lo, hi)>)
                let flat = format!("{:?}", x);
                let nums: Vec<f64> = flat
                    .rsplit("L([")
                    .next()
                    .unwrap_or("")
                    .split('"')
                    .filter_map(|p| {
                        let p = p.trim_matches(|c| c == ',' || c == '>');
                        if let Some((a, b)) = p.split_once('/') {
                            Some(a.parse::<f64>().ok()? / b.parse::<f64>().ok()?)
                        } else {
                            p.parse::<f64>().ok()
                        }
                    })
                    .collect();
                if nums.len() >= 2 {
                    Ok((nums[0] + nums[1]) / 2.0)
                } else {
                    Err(format!("alg {}", flat))
                }
            }
            _ => Err(format!("real {:?}", x)),
        },
    }
}
fn sx_bits(s: &str) -> Result<(u128, u32), String> {
    if let Some(h) = s.strip_prefix("#x") {
        Ok((u128::from_str_radix(h, 16).map_err(|e| e.to_string())?, 4 * h.len() as u32))
    } else if let Some(h) = s.strip_prefix("#b") {
        Ok((u128::from_str_radix(h, 2).map_err(|e| e.to_string())?, h.len() as u32))
    } else {
        Err(format!("bits {}", s))
    }
}
fn sx_fp(x: &Sx, s: Sort) -> Result<f64, String> {
    let is32 = s == Sort::F32;
    match x {
        Sx::L(l) => {
            let h = match &l[0] {
                Sx::A(a) => a.as_str(),
                _ => "",
            };
            if h == "fp" {
                let g = |i: usize| match &l[i] {
                    Sx::A(a) => sx_bits(a),
                    _ => Err("fp".to_string()),
                };
                let (sg, _) = g(1)?;
                let (e, ew) = g(2)?;
                let (m, mw) = g(3)?;
                let b = (sg << (ew + mw)) | (e << mw) | m;
                return Ok(if is32 { f32::from_bits(b as u32) as f64 } else { f64::from_bits(b as u64) });
            }
            if h == "_" {
                if let Sx::A(k) = &l[1] {
                    return Ok(match k.as_str() {
                        "NaN" => f64::NAN,
                        "+oo" => f64::INFINITY,
                        "-oo" => f64::NEG_INFINITY,
                        "+zero" => 0.0,
                        "-zero" => -0.0,
                        _ => return Err(format!("fp {}", k)),
                    });
                }
            }
            Err(format!("fp {:?}", x))
        }
        Sx::A(a) => {
            let (b, w) = sx_bits(a)?;
            Ok(if w == 32 { f32::from_bits(b as u32) as f64 } else { f64::from_bits(b as u64) })
        }
    }
}

fn parse_model(txt: &str, vars: &[(String, T)], ar: &Arena) -> Result<Model, String> {
    let sx = parse_sx(txt)?;
    let mut m = Model::new();
    let by: HashMap<&str, T> = vars.iter().map(|(n, t)| (n.as_str(), *t)).collect();
    if let Sx::L(l) = sx {
        for e in l {
            if let Sx::L(p) = e {
                if let Sx::A(n) = &p[0] {
                    if let Some(t) = by.get(n.as_str()) {
                        let v = match ar.sort(*t) {
                            Sort::Bool => match &p[1] {
                                Sx::A(a) => V::B(a == "true"),
                                _ => return Err("bool".into()),
                            },
                            Sort::Bv(_) => match &p[1] {
                                Sx::A(a) => V::Bv(sx_bits(a)?.0),
                                Sx::L(l) => match &l[1] {
                                    Sx::A(a) if a.starts_with("bv") => V::Bv(a[2..].parse().map_err(|_| "bv")?),
                                    _ => return Err("bv".into()),
                                },
                            },
                            s => V::F(if ar.real { sx_real(&p[1])? } else { sx_fp(&p[1], s)? }),
                        };
                        m.insert(*t, v);
                    }
                }
            }
        }
    }
    Ok(m)
}

// ---------------------------------------------------------------- emission

fn pow2_dec(e: u32) -> String {
    let mut d = vec![1u8];
    for _ in 0..e {
        let mut c = 0;
        for x in d.iter_mut() {
            let v = *x * 2 + c;
            *x = v % 10;
            c = v / 10;
        }
        if c > 0 {
            d.push(c);
        }
    }
    d.iter().rev().map(|x| (b'0' + x) as char).collect()
}
pub fn real_const(v: f64) -> Result<String, String> {
    if !v.is_finite() {
        return Err("non-finite constant in real arithmetic".into());
    }
    if v == 0.0 {
        return Ok("0.0".into());
    }
    let neg = v < 0.0;
    let b = v.abs().to_bits();
    let e = ((b >> 52) & 0x7ff) as i32;
    let m = b & ((1u64 << 52) - 1);
    let (m, e) = if e == 0 { (m, -1074) } else { (m | (1 << 52), e - 1075) };
    let tz = m.trailing_zeros() as i32;
    let (m, e) = (m >> tz, e + tz);
    let s = if e == 0 {
        format!("{}.0", m)
    } else if e > 0 {
        format!("(* {}.0 {}.0)", m, pow2_dec(e as u32))
    } else {
        format!("(/ {}.0 {}.0)", m, pow2_dec((-e) as u32))
    };
    Ok(if neg { format!("(- {})", s) } else { s })
}

fn sortname(ar: &Arena, s: Sort) -> String {
    match s {
        Sort::Bool => "Bool".into(),
        Sort::Bv(w) => format!("(_ BitVec {})", w),
        _ if ar.real => "Real".into(),
        Sort::F32 => "(_ FloatingPoint 8 24)".into(),
        Sort::F64 => "(_ FloatingPoint 11 53)".into(),
    }
}
fn fpdim(s: Sort) -> &'static str {
    if s == Sort::F32 { "8 24" } else { "11 53" }
}

pub struct Emit {
    pub text: String,
    pub vars: Vec<(String, T)>,
    pub has_bv: bool,
    pub has_real: bool,
    pub has_fp: bool,
    pub nonlin: bool,
}

/// transitive set of variables of a term
pub fn vars_of(ar: &Arena, t: T, cache: &mut HashMap<T, std::rc::Rc<HashSet<T>>>) -> std::rc::Rc<HashSet<T>> {
    if let Some(s) = cache.get(&t) {
        return s.clone();
    }
    let mut seen = HashSet::new();
    let mut out = HashSet::new();
    let mut st = vec![t];
    while let Some(x) = st.pop() {
        if !seen.insert(x) {
            continue;
        }
        if let Node::Var(..) = ar.n(x) {
            out.insert(x);
        }
        // uninterpreted applications link everything below them through their own arguments
        for k in ar.kids(x) {
            st.push(k);
        }
    }
    let r = std::rc::Rc::new(out);
    cache.insert(t, r.clone());
    r
}

/// facts about correctly rounded operations, used instead of their bit-level definition
fn lemmas(op: FB, n: &str, a: &str, b: &str, [z, one, m1, two, half]: [&str; 5]) -> String {
    let mut o = String::new();
    let mut add = |s: String| o.push_str(&format!("(assert {})\n", s));
    add(format!("(=> (or (fp.isNaN {a}) (fp.isNaN {b})) (fp.isNaN {n}))"));
    match op {
        FB::Add => {
            add(format!("(=> (and (not (fp.isNaN {a})) (not (fp.isNaN {b})) (not (and (fp.isInfinite {a}) (fp.isInfinite {b})))) (not (fp.isNaN {n})))"));
            for (x, y) in [(a, b), (b, a)] {
                add(format!("(=> (fp.leq {z} {x}) (=> (not (fp.isNaN {n})) (fp.leq {y} {n})))"));
                add(format!("(=> (fp.leq {x} {z}) (=> (not (fp.isNaN {n})) (fp.leq {n} {y})))"));
            }
            add(format!("(=> (and (fp.leq {z} {a}) (fp.leq {z} {b})) (fp.leq {z} {n}))"));
            add(format!("(=> (and (fp.leq (fp.abs {a}) {one}) (fp.leq (fp.abs {b}) {one})) (fp.leq (fp.abs {n}) {two}))"));
        }
        FB::Sub => {
            add(format!("(=> (and (not (fp.isNaN {a})) (not (fp.isNaN {b})) (not (and (fp.isInfinite {a}) (fp.isInfinite {b})))) (not (fp.isNaN {n})))"));
            add(format!("(=> (fp.leq {z} {b}) (=> (not (fp.isNaN {n})) (fp.leq {n} {a})))"));
            add(format!("(=> (fp.leq {b} {z}) (=> (not (fp.isNaN {n})) (fp.leq {a} {n})))"));
            add(format!("(=> (and (fp.leq {b} {a}) (not (fp.isNaN {n}))) (fp.leq {z} {n}))"));
            add(format!("(=> (and (fp.leq {a} {b}) (not (fp.isNaN {n}))) (fp.leq {n} {z}))"));
            add(format!("(=> (and (fp.leq {z} {a}) (fp.leq {b} {one}) (not (fp.isNaN {n}))) (fp.leq {m1} {n}))"));
            add(format!("(=> (and (fp.leq (fp.abs {a}) {one}) (fp.leq (fp.abs {b}) {one})) (fp.leq (fp.abs {n}) {two}))"));
        }
        FB::Mul => {
            add(format!("(=> (and (not (fp.isNaN {a})) (not (fp.isNaN {b})) (not (and (fp.isInfinite {a}) (fp.isZero {b}))) (not (and (fp.isZero {a}) (fp.isInfinite {b})))) (not (fp.isNaN {n})))"));
            add(format!("(=> (and (not (fp.isNaN {n})) (or (and (fp.leq {z} {a}) (fp.leq {z} {b})) (and (fp.leq {a} {z}) (fp.leq {b} {z})))) (fp.leq {z} {n}))"));
            add(format!("(=> (and (not (fp.isNaN {n})) (or (and (fp.leq {z} {a}) (fp.leq {b} {z})) (and (fp.leq {a} {z}) (fp.leq {z} {b})))) (fp.leq {n} {z}))"));
            for (x, y) in [(a, b), (b, a)] {
                add(format!("(=> (and (fp.leq (fp.abs {x}) {one}) (not (fp.isNaN {n}))) (fp.leq (fp.abs {n}) (fp.abs {y})))"));
                add(format!("(=> (and (fp.leq {one} (fp.abs {x})) (not (fp.isNaN {n}))) (fp.leq (fp.abs {y}) (fp.abs {n})))"));
                add(format!("(=> (and (fp.leq (fp.abs {x}) {two}) (fp.leq (fp.abs {y}) {half})) (fp.leq (fp.abs {n}) {one}))"));
            }
        }
        FB::Div => {
            add(format!("(=> (and (not (fp.isNaN {a})) (not (fp.isNaN {b})) (not (and (fp.isZero {a}) (fp.isZero {b}))) (not (and (fp.isInfinite {a}) (fp.isInfinite {b})))) (not (fp.isNaN {n})))"));
            add(format!("(=> (and (fp.isInfinite {a}) (fp.isInfinite {b})) (fp.isNaN {n}))"));
            add(format!("(=> (and (not (fp.isNaN {n})) (fp.leq {z} {a}) (fp.lt {z} {b})) (fp.leq {z} {n}))"));
            add(format!("(=> (and (not (fp.isNaN {n})) (fp.leq (fp.abs {a}) (fp.abs {b}))) (fp.leq (fp.abs {n}) {one}))"));
            add(format!("(=> (and (not (fp.isNaN {n})) (fp.leq {one} (fp.abs {b}))) (fp.leq (fp.abs {n}) (fp.abs {a})))"));
        }
        _ => {}
    }
    o
}

pub fn emit(ar: &mut Arena, asserts: &[T]) -> Result<Emit, String> {
    emit_with(ar, asserts, false)
}
/// `lemma`: IEEE operations are described by sound lemmas only (an unsat answer carries over)
pub fn emit_with(ar: &mut Arena, asserts: &[T], lemma: bool) -> Result<Emit, String> {
    let mut e = Emit { text: String::new(), vars: vec![], has_bv: false, has_real: false, has_fp: false, nonlin: false };
    let mut done: HashSet<T> = HashSet::new();
    let mut order: Vec<T> = vec![];
    let mut stack: Vec<(T, bool)> = vec![];
    for a in asserts.iter().rev() {
        stack.push((*a, false));
    }
    while let Some((x, d)) = stack.pop() {
        if done.contains(&x) {
            continue;
        }
        if d {
            done.insert(x);
            order.push(x);
            continue;
        }
        stack.push((x, true));
        for k in ar.kids(x) {
            if !done.contains(&k) {
                stack.push((k, false));
            }
        }
    }
    let mut body = String::new();
    let mut axioms = String::new();
    let mut name: HashMap<T, String> = HashMap::new();
    let mut apps: HashMap<Un, Vec<(String, String)>> = HashMap::new();
    let mut trig: HashMap<T, (String, String)> = HashMap::new();
    let mut at2: Vec<(String, String, String)> = vec![];
    for &x in &order {
        let s = ar.sort(x);
        match s {
            Sort::Bv(_) => e.has_bv = true,
            Sort::F32 | Sort::F64 => {
                if ar.real { e.has_real = true } else { e.has_fp = true }
            }
            _ => {}
        }
        let g = |k: T| -> &str { name[&k].as_str() };
        let real = ar.real;
        let node = ar.n(x).clone();
        let expr: String = match node {
            Node::B(b) => {
                name.insert(x, format!("{}", b));
                continue;
            }
            Node::Bv(w, v) => {
                let n = if w % 4 == 0 { format!("#x{:0>1$x}", v, (w / 4) as usize) } else { format!("#b{:0>1$b}", v, w as usize) };
                name.insert(x, n);
                continue;
            }
            Node::F(s, b) => {
                let n = if real {
                    real_const(fval(s, b))?
                } else if s == Sort::F32 {
                    format!("((_ to_fp 8 24) #x{:08x})", b)
                } else {
                    format!("((_ to_fp 11 53) #x{:016x})", b)
                };
                name.insert(x, n);
                continue;
            }
            Node::Var(s, i) => {
                let n = format!("v{}", i);
                body.push_str(&format!("(declare-const {} {})\n", n, sortname(ar, s)));
                if let Some((lo, hi)) = ar.var_range.get(&x) {
                    if let Sort::Bv(w) = s {
                        body.push_str(&format!("(assert (and (bvule (_ bv{} {}) {}) (bvule {} (_ bv{} {}))))\n", lo, w, n, n, hi, w));
                    }
                }
                e.vars.push((n.clone(), x));
                name.insert(x, n);
                continue;
            }
            Node::Not(a) => format!("(not {})", g(a)),
            Node::And(a, b) => format!("(and {} {})", g(a), g(b)),
            Node::Or(a, b) => format!("(or {} {})", g(a), g(b)),
            Node::Ite(c, a, b) => format!("(ite {} {} {})", g(c), g(a), g(b)),
            Node::Eq(a, b) => format!("(= {} {})", g(a), g(b)),
            Node::Ult(a, b) => format!("(bvult {} {})", g(a), g(b)),
            Node::Ule(a, b) => format!("(bvule {} {})", g(a), g(b)),
            Node::Slt(a, b) => format!("(bvslt {} {})", g(a), g(b)),
            Node::Sle(a, b) => format!("(bvsle {} {})", g(a), g(b)),
            Node::Bin(op, a, b) => {
                let o = match op {
                    BinOp::Add => "bvadd",
                    BinOp::Sub => "bvsub",
                    BinOp::Mul => "bvmul",
                    BinOp::UDiv => "bvudiv",
                    BinOp::URem => "bvurem",
                    BinOp::SDiv => "bvsdiv",
                    BinOp::SRem => "bvsrem",
                    BinOp::Shl => "bvshl",
                    BinOp::LShr => "bvlshr",
                    BinOp::AShr => "bvashr",
                    BinOp::And => "bvand",
                    BinOp::Or => "bvor",
                    BinOp::Xor => "bvxor",
                };
                format!("({} {} {})", o, g(a), g(b))
            }
            Node::Ext(a, lo, w) => format!("((_ extract {} {}) {})", lo + w - 1, lo, g(a)),
            Node::Cat(a, b) => format!("(concat {} {})", g(a), g(b)),
            Node::Zext(a, w) => format!("((_ zero_extend {}) {})", w - ar.sort(a).bits(), g(a)),
            Node::Sext(a, w) => format!("((_ sign_extend {}) {})", w - ar.sort(a).bits(), g(a)),
            Node::FLt(a, b) => {
                if real { format!("(< {} {})", g(a), g(b)) } else { format!("(fp.lt {} {})", g(a), g(b)) }
            }
            Node::FLe(a, b) => {
                if real { format!("(<= {} {})", g(a), g(b)) } else { format!("(fp.leq {} {})", g(a), g(b)) }
            }
            Node::FEq(a, b) => {
                if real { format!("(= {} {})", g(a), g(b)) } else { format!("(fp.eq {} {})", g(a), g(b)) }
            }
            Node::FNan(a) => format!("(fp.isNaN {})", g(a)),
            Node::FCvt(s, a) => {
                if real { g(a).to_string() } else { format!("((_ to_fp {}) RNE {})", fpdim(s), g(a)) }
            }
            Node::UToF(s, a) => {
                if real {
                    let (lo, hi) = ar.interval(a);
                    let g = name[&a].as_str();
                    let w = ar.sort(a).bits();
                    let n = format!("u{}", x.0);
                    body.push_str(&format!("(declare-const {} Real)\n", n));
                    axioms.push_str(&format!("(assert (and (<= {}.0 {}) (<= {} {}.0)))\n", lo, n, n, hi));
                    if w <= 16 {
                        // exact for narrow integers: sum of bits
                        let mut sum = String::from("(+ 0.0");
                        for b in 0..w {
                            sum.push_str(&format!(" (ite (= ((_ extract {} {}) {}) #b1) {}.0 0.0)", b, b, g, 1u64 << b));
                        }
                        sum.push(')');
                        axioms.push_str(&format!("(assert (= {} {}))\n", n, sum));
                    }
                    name.insert(x, n);
                    continue;
                }
                format!("((_ to_fp_unsigned {}) RNE {})", fpdim(s), g(a))
            }
            Node::SToF(s, a) => {
                if real {
                    let n = format!("u{}", x.0);
                    body.push_str(&format!("(declare-const {} Real)\n", n));
                    name.insert(x, n);
                    continue;
                }
                format!("((_ to_fp {}) RNE {})", fpdim(s), g(a))
            }
            Node::FToU(w, a) => {
                if real {
                    return Err("float to integer conversion in real arithmetic".into());
                }
                let sa = ar.sort(a);
                let max = fbits(sa, 2f64.powi(w as i32));
                let mx = if sa == Sort::F32 { format!("((_ to_fp 8 24) #x{:08x})", max) } else { format!("((_ to_fp 11 53) #x{:016x})", max) };
                let ga = g(a);
                format!(
                    "(ite (or (fp.isNaN {a}) (fp.isNegative {a})) (_ bv0 {w}) (ite (fp.geq {a} {mx}) (bvnot (_ bv0 {w})) ((_ fp.to_ubv {w}) RTZ {a})))",
                    a = ga, w = w, mx = mx
                )
            }
            Node::FToS(..) => return Err("float to signed integer conversion".into()),
            Node::Bits(a, w) => {
                if real {
                    return Err("bit pattern of a real".into());
                }
                let n = format!("b{}", x.0);
                body.push_str(&format!("(declare-const {} (_ BitVec {}))\n", n, w));
                axioms.push_str(&format!("(assert (= ((_ to_fp {}) {}) {}))\n", fpdim(ar.sort(a)), n, g(a)));
                e.has_bv = true;
                name.insert(x, n);
                continue;
            }
            Node::FromBits(s, b) => {
                if real {
                    let n = format!("u{}", x.0);
                    body.push_str(&format!("(declare-const {} Real)\n", n));
                    ar.bad_bits += 1;
                    name.insert(x, n);
                    continue;
                }
                format!("((_ to_fp {}) {})", fpdim(s), g(b))
            }
            Node::Fma(a, b, c) => format!("(fp.fma RNE {} {} {})", g(a), g(b), g(c)),
            Node::FB(op, a, b) => {
                if real {
                    match op {
                        FB::Add => format!("(+ {} {})", g(a), g(b)),
                        FB::Sub => format!("(- {} {})", g(a), g(b)),
                        FB::Mul => {
                            e.nonlin = true;
                            format!("(* {} {})", g(a), g(b))
                        }
                        FB::Div => {
                            e.nonlin = true;
                            format!("(/ {} {})", g(a), g(b))
                        }
                        FB::Atan2 => {
                            let n = format!("u{}", x.0);
                            body.push_str(&format!("(declare-const {} Real)\n", n));
                            let (y, xx) = (g(a).to_string(), g(b).to_string());
                            let pi = "3.14159265358979323846";
                            axioms.push_str(&format!(
                                "(assert (and (<= (- 3.1415927411) {n}) (<= {n} 3.1415927411) (=> (> {y} 0.0) (and (> {n} 0.0) (< {n} {pi}))) (=> (< {y} 0.0) (and (< {n} 0.0) (> {n} (- {pi})))) (=> (and (= {y} 0.0) (>= {x} 0.0)) (= {n} 0.0)) (=> (and (= {y} 0.0) (< {x} 0.0)) (> {n} 3.14159))))\n",
                                n = n, y = y, x = xx, pi = pi
                            ));
                            axioms.push_str(&format!(
                                "(assert (and (=> (> {x} 0.0) (and (< {n} 1.5707964) (> {n} (- 1.5707964)))) (=> (< {x} 0.0) (or (> {n} 1.5707962) (< {n} (- 1.5707962))))))\n",
                                n = n, x = xx
                            ));
                            at2.push((n.clone(), y, xx));
                            name.insert(x, n);
                            continue;
                        }
                        _ => return Err(format!("real op {:?}", op)),
                    }
                } else if lemma && matches!(op, FB::Add | FB::Sub | FB::Mul | FB::Div) {
                    let n = format!("u{}", x.0);
                    body.push_str(&format!("(declare-const {} {})\n", n, sortname(ar, s)));
                    let k = |v: f64| if s == Sort::F32 { format!("((_ to_fp 8 24) #x{:08x})", fbits(s, v)) } else { format!("((_ to_fp 11 53) #x{:016x})", fbits(s, v)) };
                    axioms.push_str(&lemmas(op, &n, g(a), g(b), [&k(0.0), &k(1.0), &k(-1.0), &k(2.0), &k(0.5)]));
                    name.insert(x, n);
                    continue;
                } else {
                    match op {
                        FB::Add => format!("(fp.add RNE {} {})", g(a), g(b)),
                        FB::Sub => format!("(fp.sub RNE {} {})", g(a), g(b)),
                        FB::Mul => format!("(fp.mul RNE {} {})", g(a), g(b)),
                        FB::Div => format!("(fp.div RNE {} {})", g(a), g(b)),
                        FB::Min => format!("(fp.min {} {})", g(a), g(b)),
                        FB::Max => format!("(fp.max {} {})", g(a), g(b)),
                        _ => {
                            let n = format!("u{}", x.0);
                            body.push_str(&format!("(declare-const {} {})\n", n, sortname(ar, s)));
                            if op == FB::Atan2 {
                                let k = |v: f64| if s == Sort::F32 { format!("((_ to_fp 8 24) #x{:08x})", fbits(s, v)) } else { format!("((_ to_fp 11 53) #x{:016x})", fbits(s, v)) };
                                axioms.push_str(&format!(
                                    "(assert (ite (or (fp.isNaN {a}) (fp.isNaN {b})) (fp.isNaN {n}) (and (fp.leq {l} {n}) (fp.leq {n} {h}))))\n",
                                    a = g(a), b = g(b), n = n, l = k(-std::f64::consts::PI), h = k(std::f64::consts::PI)
                                ));
                            }
                            name.insert(x, n);
                            continue;
                        }
                    }
                }
            }
            Node::FU(u, a) => {
                if real {
                    match u {
                        Un::Id => {
                            let n = g(a).to_string();
                            name.insert(x, n);
                            continue;
                        }
                        Un::Neg => format!("(- {})", g(a)),
                        _ => {
                            let ga = g(a).to_string();
                            let n = format!("u{}", x.0);
                            body.push_str(&format!("(declare-const {} Real)\n", n));
                            match u {
                                Un::Sqrt => {
                                    e.nonlin = true;
                                    axioms.push_str(&format!("(assert (=> (>= {a} 0.0) (and (>= {n} 0.0) (= (* {n} {n}) {a}))))\n", a = ga, n = n))
                                }
                                Un::Exp => {
                                    axioms.push_str(&format!(
                                        "(assert (and (> {n} 0.0) (>= {n} (+ 1.0 {a})) (= (> {a} 0.0) (> {n} 1.0)) (= (= {a} 0.0) (= {n} 1.0))))\n",
                                        a = ga, n = n
                                    ));
                                    for (c, lo, hi) in [
                                        ("15.0", "3269017.37", "3269017.38"),
                                        ("30.0", "10686474581524.46", "10686474581524.47"),
                                        ("1.0", "2.718281828", "2.718281829"),
                                        ("(- 1.0)", "0.36787944", "0.36787945"),
                                        ("(- 15.0)", "0.000000305902", "0.000000305903"),
                                        ("(- 30.0)", "0.0000000000000935762", "0.0000000000000935763"),
                                    ] {
                                        axioms.push_str(&format!(
                                            "(assert (and (=> (>= {a} {c}) (>= {n} {lo})) (=> (<= {a} {c}) (<= {n} {hi}))))\n",
                                            a = ga, n = n, c = c, lo = lo, hi = hi
                                        ));
                                    }
                                }
                                Un::Ln => axioms.push_str(&format!(
                                    "(assert (=> (> {a} 0.0) (and (<= {n} (- {a} 1.0)) (= (> {a} 1.0) (> {n} 0.0)) (= (= {a} 1.0) (= {n} 0.0)))))\n",
                                    a = ga, n = n
                                )),
                                Un::Sin | Un::Cos => {
                                    let ent = trig.entry(a).or_insert((String::new(), String::new()));
                                    if u == Un::Sin { ent.0 = n.clone() } else { ent.1 = n.clone() }
                                    axioms.push_str(&format!("(assert (and (<= (- 1.0) {n}) (<= {n} 1.0)))\n", n = n));
                                }
                                Un::Atan => axioms.push_str(&format!(
                                    "(assert (and (< {n} 1.5707964) (> {n} (- 1.5707964)) (= (> {a} 0.0) (> {n} 0.0)) (= (= {a} 0.0) (= {n} 0.0))))\n",
                                    a = ga, n = n
                                )),
                                Un::Floor => axioms.push_str(&format!("(assert (and (<= {n} {a}) (< (- {a} 1.0) {n})))\n", a = ga, n = n)),
                                Un::Ceil => axioms.push_str(&format!("(assert (and (>= {n} {a}) (< {n} (+ {a} 1.0))))\n", a = ga, n = n)),
                                _ => {}
                            }
                            apps.entry(u).or_default().push((ga, n.clone()));
                            name.insert(x, n);
                            continue;
                        }
                    }
                } else {
                    match u {
                        Un::Neg => format!("(fp.neg {})", g(a)),
                        Un::Abs => format!("(fp.abs {})", g(a)),
                        Un::Sqrt => format!("(fp.sqrt RNE {})", g(a)),
                        Un::Floor => format!("(fp.roundToIntegral RTN {})", g(a)),
                        Un::Ceil => format!("(fp.roundToIntegral RTP {})", g(a)),
                        Un::Trunc => format!("(fp.roundToIntegral RTZ {})", g(a)),
                        Un::Round => format!("(fp.roundToIntegral RNA {})", g(a)),
                        Un::RoundEven => format!("(fp.roundToIntegral RNE {})", g(a)),
                        _ => {
                            // contract-only model of libm in IEEE mode
                            let n = format!("u{}", x.0);
                            let ga = g(a).to_string();
                            body.push_str(&format!("(declare-const {} {})\n", n, sortname(ar, s)));
                            let k = |v: f64| if s == Sort::F32 { format!("((_ to_fp 8 24) #x{:08x})", fbits(s, v)) } else { format!("((_ to_fp 11 53) #x{:016x})", fbits(s, v)) };
                            match u {
                                Un::Sin | Un::Cos => axioms.push_str(&format!(
                                    "(assert (ite (or (fp.isNaN {a}) (fp.isInfinite {a})) (fp.isNaN {n}) (and (fp.leq {l} {n}) (fp.leq {n} {h}))))\n",
                                    a = ga, n = n, l = k(-1.0), h = k(1.0)
                                )),
                                Un::Exp => {
                                    axioms.push_str(&format!(
                                        "(assert (ite (fp.isNaN {a}) (fp.isNaN {n}) (and (fp.leq {z} {n}) (=> (fp.leq {a} {z}) (fp.leq {n} {one})) (=> (fp.leq {z} {a}) (fp.leq {one} {n})))))\n",
                                        a = ga, n = n, z = k(0.0), one = k(1.0)
                                    ));
                                    let (over, under) = if s == Sort::F32 { (89.0, -104.0) } else { (710.0, -746.0) };
                                    axioms.push_str(&format!(
                                        "(assert (and (=> (fp.leq {o} {a}) (= {n} {i})) (=> (fp.leq {a} {u}) (fp.isZero {n}))))\n",
                                        a = ga, n = n, o = k(over), u = k(under), i = k(f64::INFINITY)
                                    ));
                                    let fin: &[(f64, f64, f64)] = &[
                                        (if s == Sort::F32 { 88.0 } else { 709.0 }, 1e30, if s == Sort::F32 { 2e38 } else { 1e308 }),
                                        (30.0, 1.06e13, 1.07e13),
                                        (15.0, 3.26e6, 3.28e6),
                                        (-15.0, 3.05e-7, 3.07e-7),
                                        (-30.0, 9.3e-14, 9.4e-14),
                                    ];
                                    for (c, lo, hi) in fin {
                                        axioms.push_str(&format!(
                                            "(assert (and (=> (fp.leq {c} {a}) (fp.leq {lo} {n})) (=> (fp.leq {a} {c}) (fp.leq {n} {hi}))))\n",
                                            a = ga, n = n, c = k(*c), lo = k(*lo), hi = k(*hi)
                                        ));
                                    }
                                }
                                Un::Tanh => axioms.push_str(&format!(
                                    "(assert (ite (fp.isNaN {a}) (fp.isNaN {n}) (and (fp.leq {l} {n}) (fp.leq {n} {h}) (=> (fp.leq {a} {z}) (fp.leq {n} {z})) (=> (fp.leq {z} {a}) (fp.leq {z} {n})))))\n",
                                    a = ga, n = n, l = k(-1.0), h = k(1.0), z = k(0.0)
                                )),
                                Un::Cosh => axioms.push_str(&format!(
                                    "(assert (ite (fp.isNaN {a}) (fp.isNaN {n}) (fp.leq {one} {n})))\n",
                                    a = ga, n = n, one = k(1.0)
                                )),
                                Un::Sinh => axioms.push_str(&format!(
                                    "(assert (= (fp.isNaN {a}) (fp.isNaN {n})))\n",
                                    a = ga, n = n
                                )),
                                Un::Atan => axioms.push_str(&format!(
                                    "(assert (ite (fp.isNaN {a}) (fp.isNaN {n}) (and (fp.leq {l} {n}) (fp.leq {n} {h}))))\n",
                                    a = ga, n = n, l = k(-std::f64::consts::FRAC_PI_2), h = k(std::f64::consts::FRAC_PI_2)
                                )),
                                Un::Ln => {
                                    let lim = if s == Sort::F32 { 104.0 } else { 746.0 };
                                    axioms.push_str(&format!(
                                    "(assert (and (=> (fp.lt {a} {z}) (fp.isNaN {n})) (=> (fp.isNaN {a}) (fp.isNaN {n})) (=> (fp.eq {a} {z}) (= {n} {ni})) (=> (and (fp.lt {z} {a}) (not (fp.isInfinite {a}))) (and (fp.leq {l} {n}) (fp.leq {n} {h}) (=> (fp.leq {a} {one}) (fp.leq {n} {z}))))))\n",
                                    a = ga, n = n, z = k(0.0), one = k(1.0), ni = k(f64::NEG_INFINITY), l = k(-lim), h = k(if s == Sort::F32 { 89.0 } else { 710.0 })
                                ))
                                }
                                _ => {}
                            }
                            apps.entry(u).or_default().push((ga, n.clone()));
                            name.insert(x, n);
                            continue;
                        }
                    }
                }
            }
        };
        let n = format!("t{}", x.0);
        body.push_str(&format!("(define-fun {} () {} {})\n", n, sortname(ar, s), expr));
        name.insert(x, n);
    }
    if lemma && !ar.real {
        for x in &order {
            let s = ar.sort(*x);
            if !matches!(s, Sort::F32 | Sort::F64) || matches!(ar.n(*x), Node::F(..)) {
                continue;
            }
            if let Some((lo, hi)) = ar.finterval(*x) {
                let k = |v: f64| if s == Sort::F32 { format!("((_ to_fp 8 24) #x{:08x})", fbits(s, v)) } else { format!("((_ to_fp 11 53) #x{:016x})", fbits(s, v)) };
                axioms.push_str(&format!("(assert (and (fp.leq {} {n}) (fp.leq {n} {})))\n", k(lo), k(hi), n = name[x]));
            }
        }
    }
    // pairwise congruence / monotonicity
    for (u, v) in &apps {
        let lim = 14;
        for i in 0..v.len().min(lim) {
            for j in 0..i {
                let (a1, n1) = &v[i];
                let (a2, n2) = &v[j];
                if !ar.real {
                    axioms.push_str(&format!("(assert (=> (= {} {}) (= {} {})))\n", a1, a2, n1, n2));
                    continue;
                }
                match u {
                    Un::Exp | Un::Atan | Un::Cbrt | Un::Exp2 => axioms.push_str(&format!(
                        "(assert (and (= (< {a} {b}) (< {m} {n})) (= (= {a} {b}) (= {m} {n}))))\n",
                        a = a1, b = a2, m = n1, n = n2
                    )),
                    Un::Ln | Un::Sqrt | Un::Log2 | Un::Log10 => axioms.push_str(&format!(
                        "(assert (=> (and (> {a} 0.0) (> {b} 0.0)) (and (= (< {a} {b}) (< {m} {n})) (= (= {a} {b}) (= {m} {n})))))\n",
                        a = a1, b = a2, m = n1, n = n2
                    )),
                    _ => axioms.push_str(&format!("(assert (=> (= {} {}) (= {} {})))\n", a1, a2, n1, n2)),
                }
            }
        }
    }
    for (_, (s, c)) in &trig {
        if !s.is_empty() && !c.is_empty() {
            e.nonlin = true;
            axioms.push_str(&format!("(assert (= (+ (* {s} {s}) (* {c} {c})) 1.0))\n", s = s, c = c));
        }
    }
    for i in 0..at2.len().min(8) {
        for j in 0..i {
            let (n1, y1, x1) = &at2[i];
            let (n2, y2, x2) = &at2[j];
            axioms.push_str(&format!(
                "(assert (=> (and (= (* {y1} {x2}) (* {y2} {x1})) (> (+ (* {y1} {y2}) (* {x1} {x2})) 0.0)) (= {n1} {n2})))\n",
                y1 = y1, x2 = x2, y2 = y2, x1 = x1, n1 = n1, n2 = n2
            ));
        }
    }
    e.text = body;
    e.text.push_str(&axioms);
    for a in asserts {
        e.text.push_str(&format!("(assert {})\n", name[a]));
    }
    Ok(e)
}
