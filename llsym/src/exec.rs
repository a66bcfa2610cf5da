//! Symbolic execution of the linked IR.
use crate::eval::{self, Model, V};
use crate::ir::*;
use crate::smt::{self, Res, Solver};
use crate::term::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cell {
    U,
    B(u8),
    S(T, u8, u8),
}

#[derive(Clone, Debug)]
pub enum Val {
    I(u32, u128),
    T(T),
    Agg(Rc<Vec<Val>>),
    Cells(Rc<Vec<Cell>>),
    U,
}

#[derive(Clone, Debug)]
pub struct Obj {
    pub base: u64,
    pub bytes: Rc<Vec<Cell>>,
    pub heap: bool,
}

#[derive(Clone)]
pub struct Frame {
    f: usize,
    bb: u32,
    ip: usize,
    regs: Vec<Val>,
    ret: Option<u32>,
    allocas: Vec<u64>,
    is_try: bool,
}

#[derive(Clone)]
pub struct Input {
    pub kind: &'static str,
    pub t: T,
}

#[derive(Clone, Debug)]
pub enum Kind {
    Bool,
    Eq,
    Le,
    Def,
}
#[derive(Clone, Debug)]
pub struct Obl {
    kind: Kind,
    label: String,
    a: T,
    b: T,
    cond: T,
    tol: f64,
}

pub struct MM {
    pub m: Model,
    pub memo: RefCell<HashMap<T, V>>,
}

#[derive(Clone)]
pub struct State {
    frames: Vec<Frame>,
    heap: BTreeMap<u64, Obj>,
    next: u64,
    pc: Vec<T>,
    inputs: Vec<Input>,
    known: Rc<HashMap<T, T>>,
    memo: HashMap<T, T>,
    pending: Vec<Obl>,
    obs: Vec<(String, T)>,
    model: Option<Rc<MM>>,
    steps: u64,
    need_check: bool,
    files: Vec<VFile>,
    split: Option<u128>,
    nfloat_unary: u32,
    depth: u32,
}

#[derive(Clone)]
pub struct VFile {
    bytes: Rc<Vec<Cell>>,
    pos: usize,
}

pub enum Ctl {
    ForkBool(T),
    Concretize(T),
    /// fresh integer input, one path per value of the range
    Split(u128, u128),
    Panic(String),
    Abort(String), // engine error
    Dead,          // infeasible (assume false)
    Done,
}
type X<R> = Result<R, Ctl>;

pub struct Cex {
    pub kind: String,
    pub label: String,
    pub inputs: Vec<(String, String)>,
    pub exact: bool,
}
pub struct Witness {
    pub inputs: Vec<(String, String)>,
    pub obs: Vec<(String, f64)>,
    pub panicked: Option<String>,
}

#[derive(Default)]
pub struct Stats {
    pub paths: usize,
    pub paths_infeasible: usize,
    pub paths_panic: usize,
    pub steps: u64,
    pub forks: usize,
    pub obl_total: usize,
    pub obl_syntactic: usize,
    pub obl_smt: usize,
    pub obl_tol: usize,
    pub obl_def: usize,
    pub unknown_feas: usize,
    pub undef_reads: usize,
    pub poly: usize,
    pub guessed: usize,
}

pub struct Opts {
    pub timeout_ms: u64,
    pub feas_ms: u64,
    pub deadline: Instant,
    pub max_steps: u64,
    pub tier: u32,
    pub max_cex: usize,
    pub guess: bool,
    pub nwit: usize,
    pub seed: u64,
    pub bx: f64,
}

pub struct Prog {
    pub mods: Vec<Module>,
    pub fidx: HashMap<String, (usize, usize)>,
    pub funcs: Vec<(usize, usize)>,
    pub fnum: HashMap<String, usize>,
    pub addr: HashMap<String, u64>,
    pub faddr: HashMap<u64, String>,
    pub globals: BTreeMap<u64, Obj>,
    pub noreturn: HashMap<String, bool>,
}

pub struct Engine {
    pub p: Prog,
    pub ar: Arena,
    pub z3: Solver,
    pub cvc: Solver,
    pub z3old: Solver,
    pub o: Opts,
    pub st: Stats,
    pub nvars: u32,
    pub cex: Vec<Cex>,
    pub wit: Vec<Witness>,
    pub labels: BTreeMap<String, (usize, usize)>,
    pub errors: Vec<String>,
    pub inconclusive: Vec<String>,
    pub funcs_seen: BTreeSet<usize>,
    pub dbg_seen: HashSet<(usize, u32)>,
    pub stubs: BTreeSet<String>,
    vcache: HashMap<T, Rc<HashSet<T>>>,
    lemma: bool,
    qcache: HashMap<Vec<T>, bool>,
    defmemo: HashMap<T, T>,
    derivmemo: HashMap<(T, T), T>,
    pub trace: bool,
    pub max_bound: BTreeMap<String, (u128, u128)>,
}

fn mangled_has(n: &str, pats: &[&str]) -> bool {
    pats.iter().any(|p| n.contains(p))
}

impl Prog {
    pub fn link(mods: Vec<Module>) -> Result<Prog, String> {
        let mut p = Prog {
            mods: vec![],
            fidx: HashMap::new(),
            funcs: vec![],
            fnum: HashMap::new(),
            addr: HashMap::new(),
            faddr: HashMap::new(),
            globals: BTreeMap::new(),
            noreturn: HashMap::new(),
        };
        let mut fa = 0x1000u64;
        let mut ga = 0x1000_0000u64;
        let mut inits: Vec<(u64, Global)> = vec![];
        for (mi, m) in mods.iter().enumerate() {
            for (fi, f) in m.funcs.iter().enumerate() {
                if !p.fidx.contains_key(&f.name) {
                    p.fidx.insert(f.name.clone(), (mi, fi));
                    p.fnum.insert(f.name.clone(), p.funcs.len());
                    p.funcs.push((mi, fi));
                    p.addr.insert(f.name.clone(), fa);
                    p.faddr.insert(fa, f.name.clone());
                    fa += 16;
                }
            }
        }
        for m in mods.iter() {
            for (n, nr) in &m.decls {
                *p.noreturn.entry(n.clone()).or_insert(false) |= *nr;
                if !p.addr.contains_key(n) {
                    p.addr.insert(n.clone(), fa);
                    p.faddr.insert(fa, n.clone());
                    fa += 16;
                }
            }
            for g in &m.globals {
                if let Some(_) = &g.init {
                    if p.addr.contains_key(&g.name) {
                        continue;
                    }
                    let a = g.align.max(16);
                    ga = (ga + a - 1) / a * a;
                    p.addr.insert(g.name.clone(), ga);
                    inits.push((ga, g.clone()));
                    ga += g.ty.size() + 32;
                }
            }
        }
        // external globals without initialiser
        for m in mods.iter() {
            for g in &m.globals {
                if g.init.is_none() && !p.addr.contains_key(&g.name) {
                    ga = (ga + 15) / 16 * 16;
                    p.addr.insert(g.name.clone(), ga);
                    let sz = g.ty.size().max(8);
                    p.globals.insert(ga, Obj { base: ga, bytes: Rc::new(vec![Cell::U; sz as usize]), heap: false });
                    ga += sz + 32;
                }
            }
        }
        for (a, g) in inits {
            let mut b = vec![Cell::B(0); g.ty.size() as usize];
            p.init(&mut b, 0, &g.ty, g.init.as_ref().unwrap())?;
            p.globals.insert(a, Obj { base: a, bytes: Rc::new(b), heap: false });
        }
        p.mods = mods;
        Ok(p)
    }
    fn init(&self, b: &mut Vec<Cell>, off: usize, ty: &Ty, o: &Opnd) -> Result<(), String> {
        match o {
            Opnd::Bytes(v) => {
                for (i, x) in v.iter().enumerate() {
                    b[off + i] = Cell::B(*x);
                }
            }
            Opnd::Zero(_) => {}
            Opnd::Undef(_) => {
                for i in 0..ty.size() as usize {
                    b[off + i] = Cell::U;
                }
            }
            Opnd::Agg(v) => {
                for (i, (t, x)) in v.iter().enumerate() {
                    let fo = ty.field_off(i) as usize;
                    self.init(b, off + fo, t, x)?;
                }
            }
            Opnd::Float(t, v) => {
                let n = if *t == Ty::F32 { 4 } else { 8 };
                for i in 0..n {
                    b[off + i] = Cell::B((v >> (8 * i)) as u8);
                }
            }
            _ => {
                let v = self.konst(o)?;
                let n = ty.size() as usize;
                for i in 0..n {
                    b[off + i] = Cell::B((v >> (8 * i)) as u8);
                }
            }
        }
        Ok(())
    }
    pub fn konst(&self, o: &Opnd) -> Result<u128, String> {
        Ok(match o {
            Opnd::Int(_, v) => *v,
            Opnd::Sym(n) => *self.addr.get(n).ok_or_else(|| format!("symbol {}", n))? as u128,
            Opnd::Gep(t, base, idx) => {
                let mut a = self.konst(base)? as u64;
                let mut cur = t.clone();
                for (k, i) in idx.iter().enumerate() {
                    let (w, v) = match i {
                        Opnd::Int(w, v) => (*w, *v),
                        _ => return Err("gep const".into()),
                    };
                    let v = sext(v, w);
                    if k == 0 {
                        a = a.wrapping_add((v as u64).wrapping_mul(t.size()));
                    } else {
                        a = a.wrapping_add(cur.field_off(v as usize));
                        cur = cur.field(v as usize);
                    }
                }
                a as u128
            }
            Opnd::Cast(op, x, from, to) => {
                let v = self.konst(x)?;
                match op.as_str() {
                    "sext" => sext(v, from.bits()) as u128 & mask(to.bits()),
                    _ => v & mask(to.bits()),
                }
            }
            Opnd::Bin(op, a, b, t) => {
                let (x, y) = (self.konst(a)?, self.konst(b)?);
                let r = match op.as_str() {
                    "add" => x.wrapping_add(y),
                    "sub" => x.wrapping_sub(y),
                    "mul" => x.wrapping_mul(y),
                    "xor" => x ^ y,
                    "and" => x & y,
                    "or" => x | y,
                    _ => return Err("const bin".into()),
                };
                r & mask(t.bits())
            }
            Opnd::Zero(_) => 0,
            _ => return Err(format!("const {:?}", o)),
        })
    }
    pub fn func(&self, i: usize) -> &Func {
        let (m, f) = self.funcs[i];
        &self.mods[m].funcs[f]
    }
}

impl State {
    fn new() -> State {
        State {
            frames: vec![],
            heap: BTreeMap::new(),
            next: 0x10_0000_0000,
            pc: vec![],
            inputs: vec![],
            known: Rc::new(HashMap::new()),
            memo: HashMap::new(),
            pending: vec![],
            obs: vec![],
            model: None,
            steps: 0,
            need_check: false,
            files: vec![],
            split: None,
            nfloat_unary: 0,
            depth: 0,
        }
    }
    fn alloc(&mut self, size: u64, align: u64, fill: Cell, heap: bool) -> u64 {
        let a = align.max(16);
        let base = (self.next + a - 1) / a * a;
        self.next = base + size + 64;
        self.heap.insert(base, Obj { base, bytes: Rc::new(vec![fill; size as usize]), heap });
        base
    }
}

fn bad<R>(s: impl Into<String>) -> X<R> {
    Err(Ctl::Abort(s.into()))
}

impl Engine {
    // ------------------------------------------------------------- solver
    fn logic(&self, e: &smt::Emit) -> String {
        if self.ar.real {
            if e.has_bv {
                String::new()
            } else if e.nonlin {
                "(set-logic QF_NRA)\n".into()
            } else {
                "(set-logic QF_LRA)\n".into()
            }
        } else if e.has_fp {
            "(set-logic QF_BVFP)\n".into()
        } else {
            "(set-logic QF_BV)\n".into()
        }
    }
    fn slice(&mut self, pc: &[T], goal: &[T]) -> Vec<T> {
        let mut vars: HashSet<T> = HashSet::new();
        for g in goal {
            for v in smt::vars_of(&self.ar, *g, &mut self.vcache).iter() {
                vars.insert(*v);
            }
        }
        let mut rest: Vec<T> = pc.to_vec();
        let mut out = vec![];
        loop {
            let mut changed = false;
            let mut nr = vec![];
            for c in rest {
                let vs = smt::vars_of(&self.ar, c, &mut self.vcache);
                if vs.iter().any(|v| vars.contains(v)) {
                    for v in vs.iter() {
                        vars.insert(*v);
                    }
                    out.push(c);
                    changed = true;
                } else {
                    nr.push(c);
                }
            }
            rest = nr;
            if !changed {
                return out;
            }
        }
    }
    /// satisfiability of a conjunction
    fn sat(&mut self, asserts: &[T], timeout: u64, hard: bool, tag: &str) -> Res {
        let mut a: Vec<T> = vec![];
        for t in asserts {
            match self.ar.isb(*t) {
                Some(true) => {}
                Some(false) => return Res::Unsat,
                None => a.push(*t),
            }
        }
        a.sort();
        a.dedup();
        if a.is_empty() {
            return Res::Sat(Model::new());
        }
        if self.qcache.get(&a) == Some(&false) {
            return Res::Unsat;
        }
        let e = match smt::emit_with(&mut self.ar, &a, self.lemma) {
            Ok(e) => e,
            Err(e) => return Res::Unknown(e),
        };
        let mut timeout = timeout;
        let left = self.o.deadline.saturating_duration_since(Instant::now()).as_millis() as u64;
        if left < 200 {
            return Res::Unknown("deadline".into());
        }
        timeout = timeout.min(left);
        let script = format!("{}{}", self.logic(&e), e.text);
        self.z3.tag = tag.to_string();
        // short first attempt, then a portfolio
        let first = if hard { timeout.min(4000) } else { timeout };
        let mut r = self.z3.run(&script, &e.vars, first, &self.ar);
        if hard {
            if let Res::Unknown(_) = r {
                self.cvc.tag = tag.to_string();
                r = self.cvc.run(&script, &e.vars, timeout, &self.ar);
            }
            if let Res::Unknown(_) = r {
                self.z3.tag = tag.to_string();
                // without a logic: the general SMT core
                r = self.z3.run(&e.text, &e.vars, timeout, &self.ar);
            }
            if let Res::Unknown(_) = r {
                self.z3old.tag = tag.to_string();
                r = self.z3old.run(&script, &e.vars, timeout, &self.ar);
            }
        }
        if let Res::Unsat = r {
            self.qcache.insert(a, false);
        }
        r
    }
    fn feasible(&mut self, st: &State, extra: T) -> (bool, Option<Rc<MM>>) {
        let rel = self.slice(&st.pc, &[extra]);
        let mut q = rel.clone();
        q.push(extra);
        let mut r = Res::Unknown(String::new());
        if let Some(m) = self.guess(st, &q) {
            r = Res::Sat(m);
        }
        if let (Res::Unknown(_), false) = (&r, self.ar.real) {
            if let Some(qa) = self.abstracted(&q, 1) {
                if let Res::Unsat = self.sat(&qa, self.o.feas_ms.min(500), false, "feasibility-abstract") {
                    r = Res::Unsat;
                }
            }
        }
        if let (Res::Unknown(_), true) = (&r, self.ar.opaque) {
            if let Some(qa) = self.abstracted_draws(&q) {
                match self.sat(&qa, self.o.feas_ms.min(500), false, "feasibility-abstract") {
                    Res::Unsat => r = Res::Unsat,
                    // explored without a model; sound, the path may be infeasible
                    _ => return (true, None),
                }
            }
        }
        if let Res::Unknown(_) = r {
            r = self.sat(&q, self.o.feas_ms, false, "feasibility");
        }
        match r {
            Res::Sat(m) => {
                // combine with the previous model for unrelated variables
                let mut full = st.model.as_ref().map(|x| x.m.clone()).unwrap_or_default();
                for (k, v) in m {
                    full.insert(k, v);
                }
                (true, Some(Rc::new(MM { m: full, memo: RefCell::new(HashMap::new()) })))
            }
            Res::Unsat => (false, None),
            Res::Unknown(_) => {
                self.st.unknown_feas += 1;
                (true, None)
            }
        }
    }
    /// a few concrete assignments evaluated directly: finds easy models without the solver
    fn guess(&mut self, st: &State, q: &[T]) -> Option<Model> {
        let mut vs: BTreeSet<T> = BTreeSet::new();
        for t in q {
            for v in smt::vars_of(&self.ar, *t, &mut self.vcache).iter() {
                vs.insert(*v);
            }
        }
        if vs.len() > 64 {
            return None;
        }
        let mut top: HashMap<T, u128> = HashMap::new();
        for t in q {
            if let Node::Ule(v, k) = *self.ar.n(*t) {
                if let Some(k) = self.ar.isbv(k) {
                    top.insert(v, k);
                }
            }
        }
        let tries = if self.ar.opaque { 600 } else if vs.len() <= 3 && vs.iter().all(|v| matches!(self.ar.sort(*v), Sort::Bv(_))) { 400 } else { 12 };
        for k in 0..tries {
            let mut m = st.model.as_ref().map(|x| x.m.clone()).unwrap_or_default();
            for v in &vs {
                let r = self.rng();
                match self.ar.sort(*v) {
                    Sort::Bool => return None,
                    Sort::Bv(w) => {
                        let (lo, hi) = self.ar.var_range.get(v).cloned().unwrap_or((0, mask(w)));
                        let hi = top.get(v).map_or(hi, |k| hi.min(*k).max(lo));
                        let x = match k {
                            0 => lo,
                            1 => hi,
                            2 | 3 => (r as u128 % 8).clamp(lo, hi),
                            _ => {
                                let r2 = ((r as u128) << 64) | self.rng() as u128;
                                if hi - lo == u128::MAX { r2 } else { lo + r2 % (hi - lo + 1) }
                            }
                        };
                        m.insert(*v, V::Bv(x));
                    }
                    _ => {
                        let unit = (r >> 11) as f64 / (1u64 << 53) as f64;
                        let x = match (k + r % 3) % 8 {
                            0 => 0.0,
                            1 => 1.0,
                            2 => -1.0,
                            3 if !self.ar.real && k > 6 => f64::NAN,
                            4 if !self.ar.real && k > 6 => f64::INFINITY,
                            5 => 40.0 * unit - 20.0,
                            _ => 4.0 * unit - 2.0,
                        };
                        let x = if self.ar.sort(*v) == Sort::F32 { x as f32 as f64 } else { x };
                        m.insert(*v, V::F(x));
                    }
                }
            }
            let mut memo = HashMap::new();
            if q.iter().all(|t| eval::eval(&self.ar, *t, &m, &mut memo).b()) {
                self.st.guessed += 1;
                return Some(m);
            }
        }
        None
    }
    /// concrete assignments that satisfy the path condition and clearly break one of the
    /// obligations; each is replayed natively before it counts
    fn refute(&mut self, st: &State, obls: &[Obl]) -> bool {
        if !self.o.guess {
            return false;
        }
        let t0 = Instant::now();
        let vs: Vec<T> = {
            let mut s: BTreeSet<T> = BTreeSet::new();
            for t in st.pc.iter().chain(obls.iter().map(|o| &o.cond)) {
                for v in smt::vars_of(&self.ar, *t, &mut self.vcache).iter() {
                    s.insert(*v);
                }
            }
            s.into_iter().collect()
        };
        if vs.iter().any(|v| self.ar.sort(*v) == Sort::Bool) {
            return false;
        }
        let base = st.model.as_ref().map(|x| x.m.clone()).unwrap_or_default();
        for k in 0..600u64 {
            if k > 8 && t0.elapsed().as_millis() > 1500 {
                break;
            }
            let mut m = base.clone();
            let part = k % 3 == 2 && !vs.is_empty();
            let two = [self.rng(), self.rng()];
            let chosen: Vec<T> = if part {
                (0..1 + self.rng() % 3).map(|_| vs[(self.rng() % vs.len() as u64) as usize]).collect()
            } else {
                vs.clone()
            };
            for v in &chosen {
                let mut r = self.rng();
                if k % 5 == 4 {
                    r = two[(r % 2) as usize];
                }
                let x = match self.ar.sort(*v) {
                    Sort::Bool => return false,
                    Sort::Bv(w) => {
                        let (lo, hi) = self.ar.var_range.get(v).cloned().unwrap_or((0, mask(w)));
                        let r2 = ((r as u128) << 64) | self.rng() as u128;
                        V::Bv(match k % 4 {
                            0 if hi - lo > 64 => lo + r2 % 9,
                            1 if hi - lo > 64 => hi - r2 % 3,
                            2 if hi - lo > 64 => ((1u128 << (r % w as u64)) - (r >> 40 & 1) as u128).clamp(lo, hi),
                            _ => if hi - lo == u128::MAX { r2 } else { lo + r2 % (hi - lo + 1) },
                        })
                    }
                    s => {
                        let unit = (r >> 11) as f64 / (1u64 << 53) as f64;
                        let x = match k % 7 {
                            0 | 3 => (r % 5) as f64 - 2.0,
                            1 => unit,
                            4 if !self.ar.real => [0.0, -0.0, 1.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 1e30, -1e30, 1e-30][(r % 9) as usize],
                            _ => 4.0 * unit - 2.0,
                        };
                        V::F(if s == Sort::F32 { x as f32 as f64 } else { x })
                    }
                };
                m.insert(*v, x);
            }
            if part && k % 2 == 0 {
                // two inputs equal
                let (a, b) = (vs[(self.rng() % vs.len() as u64) as usize], vs[(self.rng() % vs.len() as u64) as usize]);
                if self.ar.sort(a) == self.ar.sort(b) {
                    if let Some(x) = m.get(&a).cloned() {
                        m.insert(b, x);
                    }
                }
            }
            let mut memo = HashMap::new();
            if !st.pc.iter().all(|t| eval::eval(&self.ar, *t, &m, &mut memo).b()) {
                continue;
            }
            for o in obls {
                let hit = match o.kind {
                    Kind::Eq | Kind::Le if self.ar.real => {
                        let a = eval::eval(&self.ar, o.a, &m, &mut memo).f();
                        let b = eval::eval(&self.ar, o.b, &m, &mut memo).f();
                        let lim = o.tol * (1.0 + a.abs() + b.abs());
                        if let Kind::Eq = o.kind { (a - b).abs() > lim } else { a - b > lim }
                    }
                    _ if self.ar.real => false,
                    _ => !eval::eval(&self.ar, o.cond, &m, &mut memo).b(),
                };
                if hit {
                    self.st.guessed += 1;
                    self.push_cex(st, "guess", &o.label, &m, true);
                    return true;
                }
            }
        }
        false
    }
    fn sub(&mut self, st: &mut State, t: T) -> T {
        if st.known.is_empty() {
            return t;
        }
        let k = st.known.clone();
        self.ar.subst(t, &k, &mut st.memo)
    }
    fn learn(&mut self, st: &mut State, cond: T, val: bool) {
        let v = self.ar.b(val);
        let k = Rc::make_mut(&mut st.known);
        k.insert(cond, v);
        if let Node::Not(x) = *self.ar.n(cond) {
            let nv = self.ar.b(!val);
            k.insert(x, nv);
        }
        if val {
            if let Node::Eq(a, b) = *self.ar.n(cond) {
                if self.ar.isbv(b).is_some() {
                    k.insert(a, b);
                } else if self.ar.isbv(a).is_some() {
                    k.insert(b, a);
                }
            }
            if let Node::And(a, b) = *self.ar.n(cond) {
                let tt = self.ar.b(true);
                k.insert(a, tt);
                k.insert(b, tt);
            }
        }
        st.memo = HashMap::new();
    }
    /// decide a boolean term on this path, forking when both outcomes are possible
    fn decide(&mut self, st: &mut State, c: T) -> X<bool> {
        let c = self.sub(st, c);
        if let Some(b) = self.ar.isb(c) {
            return Ok(b);
        }
        Err(Ctl::ForkBool(c))
    }
    fn conc(&mut self, st: &mut State, v: &Val) -> X<u128> {
        match v {
            Val::I(_, x) => Ok(*x),
            Val::T(t) => {
                let t = self.sub(st, *t);
                if let Some(v) = self.ar.isbv(t) {
                    return Ok(v);
                }
                if self.ar.sort(t) == Sort::Bool {
                    return Err(Ctl::ForkBool(t));
                }
                Err(Ctl::Concretize(t))
            }
            Val::Cells(_) => {
                let t = self.to_bv(v, 0)?;
                self.conc(st, &Val::T(t))
            }
            _ => bad("concretize of undef/aggregate"),
        }
    }

    // ------------------------------------------------------------- values
    fn cell_byte(&mut self, c: Cell) -> T {
        match c {
            Cell::U => {
                self.st.undef_reads += 1;
                self.ar.bv(8, 0)
            }
            Cell::B(b) => self.ar.bv(8, b as u128),
            Cell::S(t, i, n) => {
                let b = match self.ar.sort(t) {
                    Sort::Bool => self.ar.zext(t, 8 * n as u32),
                    Sort::Bv(_) => t,
                    _ => self.ar.bits(t, 8 * n as u32),
                };
                self.ar.ext(b, 8 * i as u32, 8)
            }
        }
    }
    /// integer term of a value (width taken from the value, or w for concrete bools)
    fn to_bv(&mut self, v: &Val, w: u32) -> X<T> {
        match v {
            Val::I(ww, x) => Ok(self.ar.bv(*ww, *x)),
            Val::T(t) => Ok(*t),
            Val::Cells(c) => {
                let c = c.clone();
                let mut acc: Option<T> = None;
                for x in c.iter() {
                    let b = self.cell_byte(*x);
                    acc = Some(match acc {
                        None => b,
                        Some(l) => self.ar.cat(b, l),
                    });
                }
                acc.ok_or(Ctl::Abort("empty cells".into()))
            }
            Val::U => {
                self.st.undef_reads += 1;
                Ok(self.ar.bv(w.max(1), 0))
            }
            _ => bad("aggregate as int"),
        }
    }
    fn mkval(&self, t: T) -> Val {
        match self.ar.n(t) {
            Node::Bv(w, v) => Val::I(*w, *v),
            Node::B(b) => Val::I(1, *b as u128),
            _ => Val::T(t),
        }
    }
    fn fsort(ty: &Ty) -> Sort {
        if *ty == Ty::F32 { Sort::F32 } else { Sort::F64 }
    }
    fn to_f(&mut self, v: &Val, ty: &Ty) -> X<T> {
        let s = Self::fsort(ty);
        match v {
            Val::T(t) => {
                if self.ar.sort(*t).is_f() { Ok(*t) } else { Ok(self.ar.frombits(s, *t)) }
            }
            Val::I(_, x) => Ok(self.ar.fb(s, *x as u64)),
            Val::Cells(_) => {
                let b = self.to_bv(v, 0)?;
                Ok(self.ar.frombits(s, b))
            }
            Val::U => Ok(self.ar.f(s, 0.0)),
            _ => bad("aggregate as float"),
        }
    }
    fn opnd(&mut self, fr: &Frame, o: &Opnd) -> X<Val> {
        Ok(match o {
            Opnd::Reg(r) => fr.regs[*r as usize].clone(),
            Opnd::Int(w, v) => Val::I(*w, *v),
            Opnd::Float(t, b) => Val::T(self.ar.fb(Self::fsort(t), *b)),
            Opnd::Undef(t) => {
                if t.is_agg() {
                    self.undef_agg(t)
                } else {
                    Val::U
                }
            }
            Opnd::Zero(t) => self.zero(t),
            Opnd::Agg(v) => {
                let mut out = vec![];
                for (_, x) in v {
                    out.push(self.opnd(fr, x)?);
                }
                Val::Agg(Rc::new(out))
            }
            Opnd::Splat(t, v) => {
                let x = self.opnd(fr, v)?;
                Val::Agg(Rc::new(vec![x; t.nfields()]))
            }
            Opnd::Meta => Val::U,
            Opnd::Bytes(b) => Val::Agg(Rc::new(b.iter().map(|x| Val::I(8, *x as u128)).collect())),
            _ => match self.p.konst(o) {
                Ok(v) => Val::I(64, v),
                Err(e) => return bad(e),
            },
        })
    }
    fn undef_agg(&mut self, t: &Ty) -> Val {
        let mut v = vec![];
        for i in 0..t.nfields() {
            let f = t.field(i);
            v.push(if f.is_agg() { self.undef_agg(&f) } else { Val::U });
        }
        Val::Agg(Rc::new(v))
    }
    fn zero(&mut self, t: &Ty) -> Val {
        match t {
            Ty::Int(w) => Val::I(*w, 0),
            Ty::Ptr => Val::I(64, 0),
            Ty::F32 | Ty::F64 => Val::T(self.ar.f(Self::fsort(t), 0.0)),
            _ => {
                let mut v = vec![];
                for i in 0..t.nfields() {
                    v.push(self.zero(&t.field(i)));
                }
                Val::Agg(Rc::new(v))
            }
        }
    }

    // ------------------------------------------------------------- memory
    fn find(&self, st: &State, addr: u64, n: u64) -> Option<(bool, u64)> {
        if let Some((b, o)) = st.heap.range(..=addr).next_back() {
            if addr + n <= b + o.bytes.len() as u64 {
                return Some((true, *b));
            }
        }
        if let Some((b, o)) = self.p.globals.range(..=addr).next_back() {
            if addr + n <= b + o.bytes.len() as u64 {
                return Some((false, *b));
            }
        }
        None
    }
    fn rd(&self, st: &State, addr: u64, n: u64) -> X<Vec<Cell>> {
        if n == 0 {
            return Ok(vec![]);
        }
        match self.find(st, addr, n) {
            Some((true, b)) => {
                let o = &st.heap[&b];
                let s = (addr - b) as usize;
                Ok(o.bytes[s..s + n as usize].to_vec())
            }
            Some((false, b)) => {
                let o = &self.p.globals[&b];
                let s = (addr - b) as usize;
                Ok(o.bytes[s..s + n as usize].to_vec())
            }
            None => bad(format!("memory read out of bounds: {:#x}+{}", addr, n)),
        }
    }
    fn wr(&mut self, st: &mut State, addr: u64, cells: &[Cell]) -> X<()> {
        if cells.is_empty() {
            return Ok(());
        }
        match self.find(st, addr, cells.len() as u64) {
            Some((true, b)) => {
                let o = st.heap.get_mut(&b).unwrap();
                let v = Rc::make_mut(&mut o.bytes);
                let s = (addr - b) as usize;
                v[s..s + cells.len()].copy_from_slice(cells);
                Ok(())
            }
            Some((false, b)) => {
                let mut o = self.p.globals[&b].clone();
                let v = Rc::make_mut(&mut o.bytes);
                let s = (addr - b) as usize;
                v[s..s + cells.len()].copy_from_slice(cells);
                st.heap.insert(b, o);
                Ok(())
            }
            None => bad(format!("memory write out of bounds: {:#x}+{}", addr, cells.len())),
        }
    }
    fn load(&mut self, st: &State, ty: &Ty, addr: u64) -> X<Val> {
        match ty {
            Ty::Struct(..) | Ty::Array(..) | Ty::Vector(..) => {
                let mut v = vec![];
                for i in 0..ty.nfields() {
                    v.push(self.load(st, &ty.field(i), addr + ty.field_off(i))?);
                }
                Ok(Val::Agg(Rc::new(v)))
            }
            Ty::Int(w) => {
                let n = (*w as u64 + 7) / 8;
                let c = self.rd(st, addr, n)?;
                self.int_of_cells(c, *w)
            }
            Ty::Ptr => {
                let c = self.rd(st, addr, 8)?;
                self.int_of_cells(c, 64)
            }
            Ty::F32 | Ty::F64 => {
                let n = ty.size();
                let c = self.rd(st, addr, n)?;
                if let Cell::S(t, 0, k) = c[0] {
                    if k as u64 == n && self.ar.sort(t).is_f() && c.iter().enumerate().all(|(i, x)| *x == Cell::S(t, i as u8, k)) {
                        return Ok(Val::T(t));
                    }
                }
                let v = self.int_of_cells(c, 8 * n as u32)?;
                if let Val::U = v {
                    return Ok(Val::U);
                }
                Ok(Val::T(self.to_f(&v, ty)?))
            }
            _ => bad(format!("load of {:?}", ty)),
        }
    }
    fn int_of_cells(&mut self, c: Vec<Cell>, w: u32) -> X<Val> {
        if c.iter().all(|x| matches!(x, Cell::B(_))) {
            let mut v = 0u128;
            for (i, x) in c.iter().enumerate() {
                if let Cell::B(b) = x {
                    v |= (*b as u128) << (8 * i);
                }
            }
            return Ok(Val::I(w, v & mask(w)));
        }
        if c.iter().all(|x| *x == Cell::U) {
            return Ok(Val::U);
        }
        if let Cell::S(t, 0, k) = c[0] {
            if k as usize == c.len() && c.iter().enumerate().all(|(i, x)| *x == Cell::S(t, i as u8, k)) {
                let b = match self.ar.sort(t) {
                    Sort::Bool => {
                        if w == 1 {
                            t
                        } else {
                            self.ar.zext(t, 8 * k as u32)
                        }
                    }
                    Sort::Bv(_) => t,
                    _ => return Ok(Val::Cells(Rc::new(c))),
                };
                let sw = self.ar.sort(b).bits();
                let b = if sw > w { self.ar.ext(b, 0, w) } else { b };
                return Ok(self.mkval(b));
            }
        }
        if w as usize != 8 * c.len() {
            let v = self.to_bv(&Val::Cells(Rc::new(c)), 0)?;
            let b = self.ar.ext(v, 0, w);
            return Ok(self.mkval(b));
        }
        Ok(Val::Cells(Rc::new(c)))
    }
    fn cells_of(&mut self, ty: &Ty, v: &Val, out: &mut Vec<Cell>, off: usize) -> X<()> {
        match ty {
            Ty::Struct(..) | Ty::Array(..) | Ty::Vector(..) => {
                if let Val::Agg(a) = v {
                    for i in 0..ty.nfields() {
                        self.cells_of(&ty.field(i), &a[i], out, off + ty.field_off(i) as usize)?;
                    }
                    return Ok(());
                }
                if let Val::U = v {
                    return Ok(());
                }
                bad("store agg")
            }
            Ty::Int(_) | Ty::Ptr => {
                let w = ty.bits();
                let n = ((w + 7) / 8) as usize;
                match v {
                    Val::I(_, x) => {
                        for i in 0..n {
                            out[off + i] = Cell::B((x >> (8 * i)) as u8);
                        }
                    }
                    Val::Cells(c) => {
                        for i in 0..n {
                            out[off + i] = c[i];
                        }
                    }
                    Val::U => {
                        for i in 0..n {
                            out[off + i] = Cell::U;
                        }
                    }
                    Val::T(t) => {
                        let mut t = *t;
                        // a byte-structured term is split again so that floats survive integer copies
                        let sw = self.ar.sort(t).bits();
                        if sw > 1 && sw % 8 != 0 {
                            t = self.ar.zext(t, 8 * n as u32);
                        }
                        self.split(t, out, off, n);
                    }
                    _ => return bad("store int"),
                }
                Ok(())
            }
            Ty::F32 | Ty::F64 => {
                let n = ty.size() as usize;
                match v {
                    Val::U => {
                        for i in 0..n {
                            out[off + i] = Cell::U;
                        }
                    }
                    _ => {
                        let t = self.to_f(v, ty)?;
                        for i in 0..n {
                            out[off + i] = Cell::S(t, i as u8, n as u8);
                        }
                    }
                }
                Ok(())
            }
            _ => bad("store type"),
        }
    }
    fn split(&mut self, t: T, out: &mut Vec<Cell>, off: usize, n: usize) {
        match *self.ar.n(t) {
            Node::Cat(h, l) if self.ar.sort(l).bits() % 8 == 0 => {
                let ln = (self.ar.sort(l).bits() / 8) as usize;
                self.split(l, out, off, ln);
                self.split(h, out, off + ln, n - ln);
            }
            Node::Bits(f, _) => {
                for i in 0..n {
                    out[off + i] = Cell::S(f, i as u8, n as u8);
                }
            }
            Node::Bv(_, v) => {
                for i in 0..n {
                    out[off + i] = Cell::B((v >> (8 * i)) as u8);
                }
            }
            Node::Zext(x, _) if self.ar.sort(x).bits() % 8 == 0 => {
                let ln = (self.ar.sort(x).bits() / 8) as usize;
                self.split(x, out, off, ln);
                for i in ln..n {
                    out[off + i] = Cell::B(0);
                }
            }
            _ => {
                for i in 0..n {
                    out[off + i] = Cell::S(t, i as u8, n as u8);
                }
            }
        }
    }
    fn store(&mut self, st: &mut State, ty: &Ty, v: &Val, addr: u64) -> X<()> {
        let n = match ty {
            Ty::Int(w) => ((*w + 7) / 8) as usize,
            _ => ty.size() as usize,
        };
        if ty.is_agg() {
            // keep padding
            let mut c = self.rd(st, addr, n as u64)?;
            self.cells_of(ty, v, &mut c, 0)?;
            return self.wr(st, addr, &c);
        }
        let mut c = vec![Cell::U; n];
        self.cells_of(ty, v, &mut c, 0)?;
        self.wr(st, addr, &c)
    }
    fn copy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> X<()> {
        let c = self.rd(st, s, n)?;
        self.wr(st, d, &c)
    }
    fn bytes_at(&self, st: &State, a: u64, n: u64) -> X<Vec<u8>> {
        let c = self.rd(st, a, n)?;
        let mut o = vec![];
        for x in c {
            match x {
                Cell::B(b) => o.push(b),
                _ => return bad("symbolic string"),
            }
        }
        Ok(o)
    }

    // ------------------------------------------------------------- driver
    pub fn run(&mut self, entry: &str) {
        let fi = match self.p.fnum.get(entry) {
            Some(f) => *f,
            None => {
                self.errors.push(format!("entry {} not found", entry));
                return;
            }
        };
        let mut s0 = State::new();
        let nr = self.p.func(fi).nregs as usize;
        s0.frames.push(Frame { f: fi, bb: 0, ip: 0, regs: vec![Val::U; nr], ret: None, allocas: vec![], is_try: false });
        self.funcs_seen.insert(fi);
        s0.model = Some(Rc::new(MM { m: Model::new(), memo: RefCell::new(HashMap::new()) }));
        let mut work = vec![s0];
        while let Some(mut st) = work.pop() {
            if Instant::now() > self.o.deadline {
                self.inconclusive.push("time limit reached with unexplored paths".into());
                return;
            }
            if self.cex.len() >= self.o.max_cex || !self.errors.is_empty() {
                return;
            }
            if st.need_check {
                st.need_check = false;
                let c = *st.pc.last().unwrap();
                let rest = State { pc: st.pc[..st.pc.len() - 1].to_vec(), ..st.clone() };
                let (ok, m) = self.feasible(&rest, c);
                if !ok {
                    continue;
                }
                st.model = m;
            }
            loop {
                let r = self.step(&mut st);
                match r {
                    Ok(()) => {
                        st.steps += 1;
                        if st.steps & 0xfff == 0 && Instant::now() > self.o.deadline {
                            self.inconclusive.push("time limit reached inside a path".into());
                            return;
                        }
                        if st.steps > self.o.max_steps {
                            self.errors.push(format!("step limit {} exceeded (possible non-termination)", self.o.max_steps));
                            return;
                        }
                        continue;
                    }
                    Err(Ctl::Done) => {
                        self.flush(&mut st);
                        self.finish(&st, None);
                        break;
                    }
                    Err(Ctl::Dead) => {
                        self.st.paths_infeasible += 1;
                        break;
                    }
                    Err(Ctl::Panic(msg)) => {
                        // unwind to the nearest catch frame
                        let mut caught = None;
                        for (i, f) in st.frames.iter().enumerate().rev() {
                            if f.is_try {
                                caught = Some(i);
                                break;
                            }
                        }
                        if let Some(i) = caught {
                            let fs: Vec<Frame> = st.frames.drain(i..).collect();
                            let ret = fs[0].ret;
                            for f in &fs {
                                for a in &f.allocas {
                                    st.heap.remove(a);
                                }
                            }
                            let top = st.frames.last_mut().unwrap();
                            if let Some(r) = ret {
                                top.regs[r as usize] = Val::I(32, 1);
                            }
                            continue;
                        }
                        self.flush(&mut st);
                        self.finish(&st, Some(msg));
                        break;
                    }
                    Err(Ctl::Abort(e)) => {
                        let (where_, stack) = self.loc(&st);
                        // an engine failure on an infeasible path is not an error
                        let r = self.sat(&st.pc.clone(), self.o.feas_ms, false, "abort-feasibility");
                        if let Res::Unsat = r {
                            self.st.paths_infeasible += 1;
                        } else {
                            self.errors.push(format!("{} at {} [{}]", e, where_, stack));
                        }
                        break;
                    }
                    Err(Ctl::ForkBool(c)) => {
                        self.flush(&mut st);
                        let nc = self.ar.not(c);
                        let hint = self.hint(&st, c);
                        let (t, tm) = if hint == Some(true) { (true, st.model.clone()) } else { self.feasible(&st, c) };
                        let (f, fm) = if hint == Some(false) { (true, st.model.clone()) } else { self.feasible(&st, nc) };
                        if t && f {
                            self.st.forks += 1;
                            st.depth += 1;
                            let mut o = st.clone();
                            o.pc.push(nc);
                            o.model = fm;
                            self.learn(&mut o, c, false);
                            work.push(o);
                            st.pc.push(c);
                            st.model = tm;
                            self.learn(&mut st, c, true);
                        } else if t {
                            if self.ar.opaque {
                                // implied, but no longer after abstraction
                                st.pc.push(c);
                            }
                            self.learn(&mut st, c, true);
                            if hint.is_none() {
                                st.model = tm;
                            }
                        } else if f {
                            if self.ar.opaque {
                                let n = self.ar.not(c);
                                st.pc.push(n);
                            }
                            self.learn(&mut st, c, false);
                            if hint.is_none() {
                                st.model = fm;
                            }
                        } else {
                            self.st.paths_infeasible += 1;
                            break;
                        }
                    }
                    Err(Ctl::Split(lo, hi)) => {
                        self.flush(&mut st);
                        // the value is unconstrained: every case is feasible
                        for v in (lo + 1..=hi).rev() {
                            let mut o = st.clone();
                            o.split = Some(v);
                            self.st.forks += 1;
                            work.push(o);
                        }
                        st.split = Some(lo);
                    }
                    Err(Ctl::Concretize(t)) => {
                        self.flush(&mut st);
                        let w = self.ar.sort(t).bits();
                        // pick a feasible value
                        let tt = self.ar.b(true);
                        let v = match &st.model {
                            Some(m) => Some(eval::eval(&self.ar, t, &m.m, &mut m.memo.borrow_mut()).u()),
                            None => None,
                        };
                        let (lo, hi) = self.ar.interval(t);
                        if hi - lo < 64 && (lo..=hi).all(|v| {
                            let k = self.ar.bv(w, v);
                            let c = self.ar.eq(t, k);
                            st.pc.iter().any(|p| *self.ar.n(*p) == Node::Not(c))
                        }) {
                            // every possible value has been taken by another path
                            self.st.paths_infeasible += 1;
                            break;
                        }
                        let v = match v {
                            Some(v) => v,
                            None if hi - lo < 16 => {
                                // few values: one path for each, feasibility decided afterwards
                                st.depth += 1;
                                for v in lo..=hi {
                                    let k = self.ar.bv(w, v);
                                    let c = self.ar.eq(t, k);
                                    if st.pc.iter().any(|p| *self.ar.n(*p) == Node::Not(c)) {
                                        continue;
                                    }
                                    let mut o = st.clone();
                                    o.pc.push(c);
                                    o.need_check = true;
                                    self.learn(&mut o, c, true);
                                    Rc::make_mut(&mut o.known).insert(t, k);
                                    self.st.forks += 1;
                                    work.push(o);
                                }
                                break;
                            }
                            None => {
                                let q = st.pc.clone();
                                let mut q2 = self.slice(&q, &[t]);
                                // force the variables of t into the model
                                let z = self.ar.bv(w, 0);
                                let e1 = self.ar.eq(t, z);
                                let e2 = self.ar.not(e1);
                                let e = self.ar.or(e1, e2);
                                q2.push(e);
                                match self.sat(&q2, self.o.feas_ms * 5, true, "concretize") {
                                    Res::Sat(m) => {
                                        let mut memo = HashMap::new();
                                        eval::eval(&self.ar, t, &m, &mut memo).u()
                                    }
                                    Res::Unsat => {
                                        self.st.paths_infeasible += 1;
                                        break;
                                    }
                                    Res::Unknown(e) => {
                                        self.inconclusive.push(format!("concretization: {}", e));
                                        break;
                                    }
                                }
                            }
                        };
                        let _ = tt;
                        let k = self.ar.bv(w, v);
                        let c = self.ar.eq(t, k);
                        let nc = self.ar.not(c);
                        self.st.forks += 1;
                        st.depth += 1;
                        if st.depth > 4000 {
                            self.errors.push("too many forks on one path (unbounded symbolic size?)".into());
                            break;
                        }
                        let mut o = st.clone();
                        o.pc.push(nc);
                        o.need_check = true;
                        self.learn(&mut o, c, false);
                        work.push(o);
                        st.pc.push(c);
                        self.learn(&mut st, c, true);
                        Rc::make_mut(&mut st.known).insert(t, k);
                        // confirm with the model we already have, otherwise ask
                        if self.hint(&st, c) != Some(true) {
                            let rest = State { pc: st.pc[..st.pc.len() - 1].to_vec(), ..st.clone() };
                            let (ok, m) = self.feasible(&rest, c);
                            if !ok {
                                self.st.paths_infeasible += 1;
                                break;
                            }
                            st.model = m;
                        }
                    }
                }
            }
            self.st.steps += st.steps;
        }
    }
    fn hint(&self, st: &State, c: T) -> Option<bool> {
        let m = st.model.as_ref()?;
        let mut memo = m.memo.borrow_mut();
        Some(eval::eval(&self.ar, c, &m.m, &mut memo).b())
    }
    fn loc(&self, st: &State) -> (String, String) {
        let mut v = vec![];
        for f in st.frames.iter().rev() {
            let fun = self.p.func(f.f);
            let b = &fun.blocks[f.bb as usize];
            let d = b.ins.get(f.ip).map(|x| x.1).unwrap_or(0);
            v.push(format!("{}:{}", fun.pretty, self.line(fun.module, d)));
        }
        (v.get(0).cloned().unwrap_or_default(), v.iter().skip(1).take(6).cloned().collect::<Vec<_>>().join(" < "))
    }
    pub fn line(&self, m: usize, d: u32) -> String {
        if d == 0 {
            return String::new();
        }
        let md = &self.p.mods[m];
        let (l, mut sc) = match md.dloc.get(&d) {
            Some(x) => *x,
            None => return String::new(),
        };
        for _ in 0..50 {
            if let Some((_, f)) = md.dsub.get(&sc) {
                let file = md.dfile.get(f).cloned().unwrap_or_default();
                return format!("{}:{}", file, l);
            }
            match md.dscope.get(&sc) {
                Some(p) => sc = *p,
                None => break,
            }
        }
        String::new()
    }
    /// (file, line, function) of every executed instruction that carries a debug location
    pub fn coverage(&self) -> BTreeMap<(String, String), BTreeSet<u32>> {
        let mut out: BTreeMap<(String, String), BTreeSet<u32>> = BTreeMap::new();
        for (m, d) in &self.dbg_seen {
            let md = &self.p.mods[*m];
            let (l, mut sc) = match md.dloc.get(d) {
                Some(x) => *x,
                None => continue,
            };
            for _ in 0..50 {
                if let Some((n, f)) = md.dsub.get(&sc) {
                    let file = md.dfile.get(f).cloned().unwrap_or_default();
                    // qualify with the enclosing namespaces
                    let mut q = n.clone();
                    let mut up = md.dscope.get(&sc).cloned().unwrap_or(0);
                    for _ in 0..6 {
                        if let Some((nn, k)) = md.dsub.get(&up) {
                            if *k == u32::MAX {
                                q = format!("{}::{}", nn, q);
                            }
                            up = md.dscope.get(&up).cloned().unwrap_or(0);
                        } else {
                            break;
                        }
                    }
                    out.entry((file, q)).or_default().insert(l);
                    break;
                }
                match md.dscope.get(&sc) {
                    Some(p) => sc = *p,
                    None => break,
                }
            }
        }
        out
    }

    // ------------------------------------------------------------- obligations
    fn def(&mut self, t: T) -> T {
        // iterative post-order
        let mut stack = vec![(t, false)];
        while let Some((x, done)) = stack.pop() {
            if self.defmemo.contains_key(&x) {
                continue;
            }
            let ks = self.ar.kids(x);
            if !done {
                stack.push((x, true));
                for k in ks {
                    if !self.defmemo.contains_key(&k) {
                        stack.push((k, false));
                    }
                }
                continue;
            }
            let tt = self.ar.b(true);
            let r = match self.ar.n(x).clone() {
                Node::Ite(c, a, b) => {
                    let (dc, da, db) = (self.defmemo[&c], self.defmemo[&a], self.defmemo[&b]);
                    let i = self.ar.ite(c, da, db);
                    self.ar.and(dc, i)
                }
                Node::F(s, b) => {
                    let f = fval(s, b).is_finite();
                    self.ar.b(f)
                }
                n => {
                    let mut r = tt;
                    for k in &ks {
                        let d = self.defmemo[k];
                        r = self.ar.and(r, d);
                    }
                    let extra = match n {
                        Node::FB(FB::Div, _, b) => {
                            let z = self.ar.f(Sort::F64, 0.0);
                            let e = self.ar.feq(b, z);
                            Some(self.ar.not(e))
                        }
                        Node::FU(Un::Ln, a) => {
                            let z = self.ar.f(Sort::F64, 0.0);
                            Some(self.ar.flt(z, a))
                        }
                        Node::FU(Un::Sqrt, a) => {
                            let z = self.ar.f(Sort::F64, 0.0);
                            Some(self.ar.fle(z, a))
                        }
                        _ => None,
                    };
                    match extra {
                        Some(e) => self.ar.and(r, e),
                        None => r,
                    }
                }
            };
            self.defmemo.insert(x, r);
        }
        self.defmemo[&t]
    }
    fn boxed(&mut self, ts: &[T], lim: f64) -> Vec<T> {
        let mut out = vec![];
        let mut vs: BTreeSet<T> = BTreeSet::new();
        for t in ts {
            for v in smt::vars_of(&self.ar, *t, &mut self.vcache).iter() {
                vs.insert(*v);
            }
        }
        for v in vs {
            if self.ar.sort(v).is_f() {
                let s = self.ar.sort(v);
                let h = self.ar.f(s, lim);
                let l = self.ar.f(s, -lim);
                out.push(self.ar.fle(v, h));
                out.push(self.ar.fle(l, v));
            }
        }
        out
    }
    fn add_obl(&mut self, st: &mut State, mut o: Obl) {
        self.st.obl_total += 1;
        self.labels.entry(o.label.clone()).or_insert((0, 0)).0 += 1;
        o.cond = self.sub(st, o.cond);
        if self.ar.real && matches!(o.kind, Kind::Eq) && o.a == o.b && self.ar.isf(o.a).is_none() {
            // both sides were built as the same term: still put to the solver
            o.cond = self.ar.mk(Node::FEq(o.a, o.b), Sort::Bool);
            st.pending.push(o);
            return;
        }
        if let Some(true) = self.ar.isb(o.cond) {
            self.st.obl_syntactic += 1;
            self.labels.get_mut(&o.label).unwrap().1 += 1;
            return;
        }
        st.pending.push(o);
    }
    fn flush(&mut self, st: &mut State) {
        if st.pending.is_empty() {
            return;
        }
        let pend = std::mem::take(&mut st.pending);
        let mut raw: Vec<T> = vec![];
        for o in &pend {
            let g = self.ar.mk(Node::Not(o.cond), Sort::Bool);
            raw.push(if self.ar.isb(o.cond).is_some() { self.ar.not(o.cond) } else { g });
        }
        let mut goals: Vec<Option<T>> = vec![None; pend.len()];
        let mut i = 0;
        while i < pend.len() {
            let chunk = 24.min(pend.len() - i);
            // the obligations as built; then, if the solver does not settle them, in polynomial form
            let mut done = false;
            if !self.ar.real {
                // over-approximation first: arithmetic subterms become free variables
                let mut disj = self.ar.b(false);
                for k in i..i + chunk {
                    disj = self.ar.or(disj, raw[k]);
                }
                let mut q = self.slice(&st.pc, &[disj]);
                q.push(disj);
                for level in 0..2 {
                    if let Some(qa) = self.abstracted(&q, level) {
                        if let Res::Unsat = self.sat(&qa, 2500, false, "batch-abstract") {
                            for o in &pend[i..i + chunk] {
                                self.st.obl_smt += 1;
                                self.labels.get_mut(&o.label).unwrap().1 += 1;
                            }
                            done = true;
                            break;
                        }
                    }
                }
                if !done && self.by_lemma(&q) {
                    for o in &pend[i..i + chunk] {
                        self.st.obl_smt += 1;
                        self.labels.get_mut(&o.label).unwrap().1 += 1;
                    }
                    done = true;
                }
                if done {
                    i += chunk;
                    continue;
                }
            }
            if self.ar.opaque {
                done = true;
                for k in i..i + chunk {
                    // sliced after the abstraction
                    let mut q = st.pc.clone();
                    q.push(raw[k]);
                    let r = match self.abstracted_draws(&q) {
                        Some(qa) => self.sat(&qa, self.o.timeout_ms, false, "abstract"),
                        None => self.sat(&q, self.o.timeout_ms, false, "obligation"),
                    };
                    match r {
                        Res::Unsat => {
                            self.st.obl_smt += 1;
                            self.labels.get_mut(&pend[k].label).unwrap().1 += 1;
                            raw[k] = self.ar.b(false);
                            goals[k] = Some(raw[k]);
                        }
                        _ => done = false,
                    }
                }
            }
            for form in 0..2 {
                if done || form == 1 && !self.ar.real {
                    break;
                }
                let mut disj = self.ar.b(false);
                for k in i..i + chunk {
                    let g = if form == 0 || self.ar.isb(raw[k]) == Some(false) {
                        raw[k]
                    } else {
                        let g = self.neg_goal(st, &pend[k]);
                        goals[k] = Some(g);
                        g
                    };
                    disj = self.ar.or(disj, g);
                }
                let mut q = self.slice(&st.pc, &[disj]);
                q.push(disj);
                match self.sat(&q, if form == 0 { 800 } else { self.o.timeout_ms.min(6000) }, false, "batch") {
                    Res::Unsat => {
                        for k in i..i + chunk {
                            if self.ar.opaque && self.ar.isb(raw[k]) == Some(false) {
                                continue;
                            }
                            self.st.obl_smt += 1;
                            self.labels.get_mut(&pend[k].label).unwrap().1 += 1;
                        }
                        done = true;
                        break;
                    }
                    Res::Sat(_) => break,
                    _ => {}
                }
            }
            if done {
                i += chunk;
                continue;
            }
            if self.refute(st, &pend[i..i + chunk]) {
                return;
            }
            for k in i..i + chunk {
                if self.ar.opaque && self.ar.isb(raw[k]) == Some(false) {
                    continue;
                }
                let g = match goals[k] {
                    Some(g) => g,
                    None => self.neg_goal(st, &pend[k]),
                };
                self.decide_obl(st, &pend[k], g);
                if self.cex.len() >= self.o.max_cex {
                    return;
                }
            }
            i += chunk;
        }
    }
    /// replaces the outermost arithmetic subterms by fresh variables of the same sort, the same
    /// term always by the same variable (values keep their interval); every model of the
    /// original extends to one of the result. Level 2 keeps floating-point operations.
    fn abstracted(&mut self, ts: &[T], level: u32) -> Option<Vec<T>> {
        let mut map: HashMap<T, T> = HashMap::new();
        let mut seen: HashSet<T> = HashSet::new();
        let mut side: Vec<T> = vec![];
        let mut stack: Vec<T> = ts.to_vec();
        while let Some(x) = stack.pop() {
            if !seen.insert(x) {
                continue;
            }
            let hit = match self.ar.n(x) {
                Node::UToF(..) | Node::SToF(..) => true,
                Node::FB(..) | Node::FU(..) | Node::Fma(..) if level == 2 => false,
                Node::FB(FB::Add, ..) | Node::FB(FB::Sub, ..) => level == 0,
                Node::FB(FB::Min, ..) | Node::FB(FB::Max, ..) | Node::FB(FB::CopySign, ..) => false,
                Node::FB(..) | Node::Fma(..) => true,
                Node::FU(Un::Abs, _) | Node::FU(Un::Neg, _) => false,
                Node::FU(..) => true,
                Node::Bin(BinOp::Mul, ..) | Node::Bin(BinOp::UDiv, ..) | Node::Bin(BinOp::URem, ..)
                | Node::Bin(BinOp::SDiv, ..) | Node::Bin(BinOp::SRem, ..) => true,
                _ => false,
            };
            if hit {
                let s = self.ar.sort(x);
                let v = self.ar.var(s, 0x4000_0000 + x.0);
                if let Sort::Bv(w) = s {
                    let (lo, hi) = self.ar.interval(x);
                    if lo > 0 {
                        let k = self.ar.bv(w, lo);
                        let c = self.ar.ule(k, v);
                        side.push(c);
                    }
                    if hi < mask(w) {
                        let k = self.ar.bv(w, hi);
                        let c = self.ar.ule(v, k);
                        side.push(c);
                    }
                }
                if let (Sort::F32 | Sort::F64, Some((lo, hi))) = (s, self.ar.finterval(x)) {
                    self.ar.fiv.insert(v, Some((lo, hi)));
                    let (l, h) = (self.ar.f(s, lo), self.ar.f(s, hi));
                    for (p, q) in [(l, v), (v, h)] {
                        let c = self.ar.fle(p, q);
                        side.push(c);
                    }
                }
                map.insert(x, v);
            } else {
                stack.extend(self.ar.kids(x));
            }
        }
        if map.is_empty() {
            return None;
        }
        let mut memo = HashMap::new();
        let mut out = side;
        for t in ts {
            out.push(self.ar.subst(*t, &map, &mut memo));
        }
        Some(out)
    }
    /// real arithmetic on random draws: the draws and the sums of waves become free variables
    /// (within their interval); every model of the original extends to one of the result
    fn abstracted_draws(&mut self, ts: &[T]) -> Option<Vec<T>> {
        let mut map: HashMap<T, T> = HashMap::new();
        let mut seen: HashSet<T> = HashSet::new();
        let mut side: Vec<T> = vec![];
        let mut draws = false;
        let mut stack: Vec<T> = ts.to_vec();
        while let Some(x) = stack.pop() {
            if !seen.insert(x) {
                continue;
            }
            let draw = matches!(*self.ar.n(x), Node::UToF(_, a) if self.ar.sort(a).bits() > 16);
            let hit = draw || matches!(*self.ar.n(x), Node::FU(Un::Id, _));
            draws |= hit;
            if hit {
                let s = self.ar.sort(x);
                let v = self.ar.var(s, 0x4000_0000 + x.0);
                if let (true, Some((lo, hi))) = (draw, self.ar.finterval(x)) {
                    let (l, h) = (self.ar.f(s, lo), self.ar.f(s, hi));
                    for (p, q) in [(l, v), (v, h)] {
                        let c = self.ar.fle(p, q);
                        side.push(c);
                    }
                }
                map.insert(x, v);
            } else {
                stack.extend(self.ar.kids(x));
            }
        }
        if !draws || !self.ar.opaque {
            return None;
        }
        let mut memo = HashMap::new();
        for t in ts {
            side.push(self.ar.subst(*t, &map, &mut memo));
        }
        let goal = side.pop().unwrap();
        let mut q = self.slice(&side, &[goal]);
        q.push(goal);
        Some(q)
    }
    /// floating-point operations known by lemmas only
    fn by_lemma(&mut self, q: &[T]) -> bool {
        let qa = self.abstracted(q, 2);
        self.lemma = true;
        let r = self.sat(qa.as_deref().unwrap_or(q), 2500, false, "lemma");
        self.lemma = false;
        matches!(r, Res::Unsat)
    }
    fn has_ite(&self, t: T) -> bool {
        let mut seen: HashSet<T> = HashSet::new();
        let mut stack = vec![t];
        while let Some(x) = stack.pop() {
            if !seen.insert(x) {
                continue;
            }
            if let Node::Ite(..) = self.ar.n(x) {
                return true;
            }
            stack.extend(self.ar.kids(x));
        }
        false
    }
    /// t with the case distinctions removed that the path condition settles
    fn decided_ites(&mut self, st: &State, t: T) -> T {
        let mut conds: Vec<T> = vec![];
        let mut seen: HashSet<T> = HashSet::new();
        let mut stack = vec![t];
        while let Some(x) = stack.pop() {
            if !seen.insert(x) {
                continue;
            }
            if let Node::Ite(c, ..) = *self.ar.n(x) {
                if !conds.contains(&c) {
                    conds.push(c);
                }
            }
            stack.extend(self.ar.kids(x));
        }
        // those without case distinctions of their own first: the others may change with them
        let inner: Vec<T> = conds.iter().cloned().filter(|c| !self.has_ite(*c)).collect();
        let conds = if inner.is_empty() { conds } else { inner };
        if conds.is_empty() || conds.len() > 8 {
            return t;
        }
        let mut map: HashMap<T, T> = HashMap::new();
        for c in conds {
            let n = self.ar.not(c);
            for (g, v) in [(c, false), (n, true)] {
                let mut q = self.slice(&st.pc, &[g]);
                q.push(g);
                if let Res::Unsat = self.sat(&q, 800, false, "case") {
                    let b = self.ar.b(v);
                    map.insert(c, b);
                    break;
                }
            }
        }
        if map.is_empty() {
            return t;
        }
        self.ar.subst(t, &map, &mut HashMap::new())
    }
    /// t with applications of the same function merged where their arguments are equal as
    /// rational expressions
    fn merged_apps(&mut self, st: &State, t: T) -> T {
        let mut apps: Vec<(Un, T, T)> = vec![];
        let mut seen: HashSet<T> = HashSet::new();
        // children before parents
        let mut stack = vec![(t, false)];
        while let Some((x, out)) = stack.pop() {
            if out {
                if let Node::FU(u, a) = *self.ar.n(x) {
                    if !matches!(u, Un::Neg | Un::Abs) {
                        apps.push((u, a, x));
                    }
                }
                continue;
            }
            if !seen.insert(x) {
                continue;
            }
            stack.push((x, true));
            for k in self.ar.kids(x) {
                stack.push((k, false));
            }
        }
        if apps.len() < 2 || apps.len() > 40 {
            return t;
        }
        let mut map: HashMap<T, T> = HashMap::new();
        let mut kept: Vec<(Un, T, T)> = vec![];
        for (u, a, x) in apps {
            let a = self.ar.subst(a, &map, &mut HashMap::new());
            let mut hit = None;
            for (v, b, y) in kept.clone() {
                if u != v {
                    continue;
                }
                if a == b {
                    hit = Some(y);
                    break;
                }
                let d = self.ar.fbin(FB::Sub, a, b);
                if let Some(p) = crate::poly::to_poly(&mut self.ar, d) {
                    if !p.keys().any(|m| m.iter().any(|e| e.1 < 0)) {
                        continue;
                    }
                    let mut sums = vec![];
                    if crate::poly::vanishes(&mut self.ar, &p, &mut sums) && sums.iter().all(|t| self.never_zero(st, *t)) {
                        hit = Some(y);
                        break;
                    }
                }
            }
            match hit {
                Some(y) => {
                    if x != y {
                        map.insert(x, y);
                    }
                }
                None => kept.push((u, a, x)),
            }
        }
        if map.is_empty() {
            return t;
        }
        self.ar.subst(t, &map, &mut HashMap::new())
    }
    /// 1 where c holds, else 0
    fn indicator(&mut self, c: T) -> T {
        let one = self.ar.f(Sort::F64, 1.0);
        match self.ar.n(c).clone() {
            Node::FLe(a, b) => {
                let l = self.ar.mk(Node::FLt(b, a), Sort::Bool);
                let x = self.indicator(l);
                self.ar.fbin(FB::Sub, one, x)
            }
            Node::Not(a) => {
                let x = self.indicator(a);
                self.ar.fbin(FB::Sub, one, x)
            }
            Node::And(a, b) => {
                let (x, y) = (self.indicator(a), self.indicator(b));
                self.ar.fbin(FB::Mul, x, y)
            }
            Node::Or(a, b) => {
                let (x, y) = (self.indicator(a), self.indicator(b));
                let (x, y) = (self.ar.fbin(FB::Sub, one, x), self.ar.fbin(FB::Sub, one, y));
                let m = self.ar.fbin(FB::Mul, x, y);
                self.ar.fbin(FB::Sub, one, m)
            }
            _ => {
                let z = self.ar.f(Sort::F64, 0.0);
                self.ar.mk(Node::Ite(c, one, z), Sort::F64)
            }
        }
    }
    /// case distinctions outside function arguments written as b + [c] (a - b)
    fn indicators(&mut self, t: T, memo: &mut HashMap<T, T>) -> T {
        if let Some(r) = memo.get(&t) {
            return *r;
        }
        let r = match self.ar.n(t).clone() {
            Node::Ite(c, a, b) if !matches!(self.ar.sort(t), Sort::Bool | Sort::Bv(_)) => {
                let (a, b) = (self.indicators(a, memo), self.indicators(b, memo));
                let i = self.indicator(c);
                let d = self.ar.fbin(FB::Sub, a, b);
                let m = self.ar.fbin(FB::Mul, i, d);
                self.ar.fbin(FB::Add, b, m)
            }
            Node::FB(op, a, b) if matches!(op, FB::Add | FB::Sub | FB::Mul | FB::Div) => {
                let (a, b) = (self.indicators(a, memo), self.indicators(b, memo));
                self.ar.fbin(op, a, b)
            }
            Node::FU(Un::Neg, a) => {
                let a = self.indicators(a, memo);
                self.ar.fu(Un::Neg, a)
            }
            Node::FCvt(s, a) => {
                let a = self.indicators(a, memo);
                self.ar.fcvt(s, a)
            }
            _ => t,
        };
        memo.insert(t, r);
        r
    }
    /// t = 0 contradicts the path condition
    fn never_zero(&mut self, st: &State, t: T) -> bool {
        let z = self.ar.f(Sort::F64, 0.0);
        let e = self.ar.feq(t, z);
        let mut q = self.slice(&st.pc, &[e]);
        q.push(e);
        matches!(self.sat(&q, 2500, false, "denominator"), Res::Unsat)
    }
    /// comparisons of operands the path condition says are different, in one orientation
    fn oriented(&mut self, st: &State, t: T) -> T {
        let mut map: HashMap<T, T> = HashMap::new();
        let mut seen: HashSet<T> = HashSet::new();
        let mut stack = vec![t];
        while let Some(x) = stack.pop() {
            if !seen.insert(x) {
                continue;
            }
            if let Node::FLt(a, b) | Node::FLe(a, b) = *self.ar.n(x) {
                let e = self.ar.feq(a, b);
                let ne = self.ar.not(e);
                if st.pc.contains(&ne) {
                    let r = if a < b {
                        self.ar.mk(Node::FLt(a, b), Sort::Bool)
                    } else {
                        let l = self.ar.mk(Node::FLt(b, a), Sort::Bool);
                        self.ar.not(l)
                    };
                    if r != x {
                        map.insert(x, r);
                    }
                }
                continue;
            }
            stack.extend(self.ar.kids(x));
        }
        self.ar.subst(t, &map, &mut HashMap::new())
    }
    fn poly_proof(&mut self, st: &State, d: T) -> (bool, Option<Rc<crate::poly::Poly>>) {
        let d = self.indicators(d, &mut HashMap::new());
        let p = match crate::poly::to_poly(&mut self.ar, d) {
            Some(p) => p,
            None => return (false, None),
        };
        let mut sums = vec![];
        let ok = crate::poly::vanishes(&mut self.ar, &p, &mut sums) && sums.iter().all(|t| self.never_zero(st, *t));
        (ok, Some(p))
    }
    fn neg_goal(&mut self, st: &State, o: &Obl) -> T {
        if self.ar.real {
            if let Kind::Eq = o.kind {
                let d = self.ar.fbin(FB::Sub, o.a, o.b);
                let d = self.oriented(st, d);
                let mut last = None;
                for step in 0..3 {
                    let e = match step {
                        0 => d,
                        1 => self.decided_ites(st, d),
                        _ => {
                            let e = self.decided_ites(st, d);
                            self.merged_apps(st, e)
                        }
                    };
                    if step > 0 && last.as_ref().map_or(false, |(x, _)| *x == e) {
                        continue;
                    }
                    let (ok, p) = self.poly_proof(st, e);
                    if ok {
                        self.st.poly += 1;
                        return self.ar.b(false);
                    }
                    last = Some((e, p));
                }
                if let Some((_, Some(p))) = last {
                    if p.len() <= 60 {
                        self.st.poly += 1;
                        let t = crate::poly::from_poly(&mut self.ar, &p, Sort::F64);
                        let z = self.ar.f(Sort::F64, 0.0);
                        let e = self.ar.feq(t, z);
                        return self.ar.not(e);
                    }
                }
            }
        }
        self.ar.not(o.cond)
    }
    fn decide_obl(&mut self, st: &mut State, o: &Obl, goal: T) {
        let mut q = self.slice(&st.pc, &[goal]);
        q.push(goal);
        let tag = format!("obligation {}", o.label);
        let r = if !self.ar.real && self.by_lemma(&q) { Res::Unsat } else { self.sat(&q, self.o.timeout_ms, true, &tag) };
        let mut why = String::new();
        match r {
            Res::Unsat => {
                self.st.obl_smt += 1;
                self.labels.get_mut(&o.label).unwrap().1 += 1;
                return;
            }
            Res::Sat(m) => {
                if !self.ar.real {
                    let m = self.complete(st, &[goal], m);
                    self.push_cex(st, "check", &o.label, &m, true);
                    return;
                }
                if let Kind::Bool = o.kind {
                    // comparisons in real arithmetic: ask for a model inside the box first
                    let mut q2 = st.pc.clone();
                    q2.push(goal);
                    let mut more = self.boxed(&q2.clone(), self.o.bx);
                    for t in q2.clone() {
                        more.push(self.def(t));
                    }
                    let mut q3 = q2.clone();
                    q3.extend(more);
                    match self.sat(&q3, self.o.timeout_ms, true, &tag) {
                        Res::Sat(m) => self.push_cex(st, "check", &o.label, &m, true),
                        _ => {
                            let m = self.complete(st, &[goal], m);
                            self.push_cex(st, "check", &o.label, &m, true)
                        }
                    }
                    return;
                }
            }
            Res::Unknown(e) => why = e,
        }
        // margin query in a box, restricted to inputs where everything is defined
        let mut esc: Vec<f64> = if o.tol < 0.02 { vec![1.0, 0.02, o.tol] } else { vec![1.0, o.tol] };
        if !matches!(o.kind, Kind::Eq | Kind::Le) {
            esc = vec![o.tol];
        }
        for (ei, tolv) in esc.iter().enumerate() {
        let last = ei + 1 == esc.len();
        let tol = self.ar.f(Sort::F64, *tolv);
        let mg = match o.kind {
            Kind::Eq => {
                let d1 = self.ar.fbin(FB::Sub, o.a, o.b);
                let d2 = self.ar.fbin(FB::Sub, o.b, o.a);
                let g1 = self.ar.flt(tol, d1);
                let g2 = self.ar.flt(tol, d2);
                self.ar.or(g1, g2)
            }
            Kind::Le => {
                let d1 = self.ar.fbin(FB::Sub, o.a, o.b);
                self.ar.flt(tol, d1)
            }
            _ => goal,
        };
        let mut base = self.slice(&st.pc, &[mg]);
        base.push(mg);
        let mut q2 = base.clone();
        if !matches!(o.kind, Kind::Def) {
            for t in base.clone() {
                q2.push(self.def(t));
            }
        }
        let bx = self.boxed(&base, self.o.bx);
        q2.extend(bx);
        let tag = format!("margin {}", o.label);
        match self.sat(&q2, self.o.timeout_ms * 2, true, &tag) {
            Res::Unsat => {
                if !last {
                    continue;
                }
                if matches!(o.kind, Kind::Def) {
                    // satisfiable only outside the box: report as inconclusive
                    self.inconclusive.push(format!("{}: undefined only outside the box", o.label));
                    return;
                }
                // the answer means nothing when the box excludes the whole path
                let mut qb = self.slice(&st.pc, &[mg]);
                let bx = self.boxed(&base, self.o.bx);
                qb.extend(bx);
                if let Res::Unsat = self.sat(&qb, self.o.timeout_ms, true, "box") {
                    let mut qn = base.clone();
                    for t in base.clone() {
                        qn.push(self.def(t));
                    }
                    match self.sat(&qn, self.o.timeout_ms * 2, true, &tag) {
                        Res::Unsat => {}
                        Res::Sat(m) => {
                            let m = self.complete(st, &qn, m);
                            self.push_cex(st, "check", &o.label, &m, true);
                            return;
                        }
                        Res::Unknown(e) => {
                            self.inconclusive.push(format!("{}: solver gave no answer outside the box ({})", o.label, e));
                            return;
                        }
                    }
                }
                self.st.obl_tol += 1;
                self.labels.get_mut(&o.label).unwrap().1 += 1;
            }
            Res::Sat(m) => {
                // prefer a model of the full path condition
                let mut q4 = st.pc.clone();
                q4.extend(q2.iter().cloned());
                let m = match self.sat(&q4, self.o.timeout_ms, true, &tag) {
                    Res::Sat(m2) => m2,
                    _ => m,
                };
                self.push_cex(st, "check", &o.label, &m, true);
                return;
            }
            Res::Unknown(e) => {
                if !last {
                    continue;
                }
                self.inconclusive.push(format!("{}: solver gave no answer ({} / {})", o.label, why, e));
            }
        }
        }
    }
    /// extend a model of a slice to the whole path condition
    fn complete(&mut self, st: &State, goal: &[T], m: Model) -> Model {
        let mut q = st.pc.clone();
        q.extend_from_slice(goal);
        match self.sat(&q, self.o.timeout_ms, true, "complete-model") {
            Res::Sat(m2) => m2,
            _ => m,
        }
    }
    fn encode_inputs(&self, st: &State, m: &Model) -> Vec<(String, String)> {
        let mut out = vec![];
        for (i, inp) in st.inputs.iter().enumerate() {
            let v = m.get(&inp.t).cloned();
            let s = match inp.kind {
                "f32" => {
                    let x = v.map(|v| v.f()).unwrap_or(0.5 + 0.125 * (i % 11) as f64) as f32;
                    format!("{:08x}", x.to_bits())
                }
                "f64" => {
                    let x = v.map(|v| v.f()).unwrap_or(0.5 + 0.125 * (i % 11) as f64);
                    format!("{:016x}", x.to_bits())
                }
                _ => {
                    if let Some(c) = self.ar.isbv(inp.t) {
                        format!("{:x}", c)
                    } else {
                        let lo = self.ar.var_range.get(&inp.t).map(|r| r.0).unwrap_or(0);
                        format!("{:x}", v.map(|v| v.u()).unwrap_or(lo))
                    }
                }
            };
            out.push((inp.kind.to_string(), s));
        }
        out
    }
    fn push_cex(&mut self, st: &State, kind: &str, label: &str, m: &Model, exact: bool) {
        let inputs = self.encode_inputs(st, m);
        self.cex.push(Cex { kind: kind.into(), label: label.into(), inputs, exact });
    }
    fn finish(&mut self, st: &State, panic: Option<String>) {
        if let Some(msg) = panic {
            // an uncaught panic is a violation if the path is feasible
            self.st.paths_panic += 1;
            let mut q = st.pc.clone();
            let q0 = q.clone();
            let bx = self.boxed(&q0, self.o.bx * 16.0);
            q.extend(bx);
            let r = match self.sat(&q, self.o.timeout_ms, true, "panic path") {
                Res::Sat(m) => Res::Sat(m),
                _ => self.sat(&q0, self.o.timeout_ms, true, "panic path"),
            };
            match r {
                Res::Unsat => self.st.paths_infeasible += 1,
                Res::Sat(m) => {
                    let (w, s) = self.loc(st);
                    let l = format!("panic: {} at {} < {}", msg, w, s);
                    self.push_cex(st, "panic", &l, &m, true)
                }
                Res::Unknown(e) => self.inconclusive.push(format!("panic path feasibility unknown: {} ({})", msg, e)),
            }
            return;
        }
        self.st.paths += 1;
        if self.wit.len() < self.o.nwit || (self.st.paths % 64 == 0 && self.wit.len() < self.o.nwit * 3) {
            self.witness(st);
        }
    }
    fn rng(&mut self) -> u64 {
        self.o.seed ^= self.o.seed << 13;
        self.o.seed ^= self.o.seed >> 7;
        self.o.seed ^= self.o.seed << 17;
        self.o.seed
    }
    fn witness(&mut self, st: &State) {
        // solver model of the path condition first (vacuity guard) ...
        let known = match &st.model {
            Some(m) if !self.ar.real && st.pc.iter().all(|c| eval::eval(&self.ar, *c, &m.m, &mut m.memo.borrow_mut()).b()) => Some(m.m.clone()),
            _ => None,
        };
        let r = match known {
            Some(m) => Res::Sat(m),
            None if self.ar.opaque => match self.guess(st, &st.pc) {
                Some(m) => Res::Sat(m),
                None => return,
            },
            None => self.sat(&st.pc.clone(), self.o.timeout_ms, true, "witness"),
        };
        let base = match r {
            Res::Sat(m) => m,
            _ => match &st.model {
                Some(m) => m.m.clone(),
                None => return,
            },
        };
        // ... then try to randomise unconstrained floats so that the replay is not degenerate
        let mut chosen: Option<Model> = None;
        for k in 0..12 {
            let mut m = base.clone();
            for inp in &st.inputs {
                match inp.kind {
                    "f32" | "f64" => {
                        let r = (self.rng() >> 11) as f64 / (1u64 << 53) as f64;
                        let sc = if k % 2 == 0 { 2.0 } else { 1.0 };
                        let v = ((r * 2.0 - 1.0) * sc) as f32 as f64;
                        m.insert(inp.t, V::F(v));
                    }
                    "u8" => {
                        let r = self.rng() & 0xff;
                        m.insert(inp.t, V::Bv(r as u128));
                    }
                    _ => {
                        m.entry(inp.t).or_insert(V::Bv(self.ar.var_range.get(&inp.t).map(|r| r.0).unwrap_or(0)));
                    }
                }
            }
            let mut memo = HashMap::new();
            if st.pc.iter().all(|c| eval::eval(&self.ar, *c, &m, &mut memo).b()) {
                chosen = Some(m);
                break;
            }
        }
        let m = match chosen {
            Some(m) => m,
            None => {
                let mut m = base;
                for inp in &st.inputs {
                    let x = m.get(&inp.t).cloned();
                    match inp.kind {
                        "f32" => {
                            let v = x.map(|v| v.f()).unwrap_or(0.5);
                            m.insert(inp.t, V::F(v as f32 as f64));
                        }
                        "f64" => {
                            m.entry(inp.t).or_insert(V::F(0.5));
                        }
                        _ => {
                            m.entry(inp.t).or_insert(V::Bv(self.ar.var_range.get(&inp.t).map(|r| r.0).unwrap_or(0)));
                        }
                    }
                }
                let mut memo = HashMap::new();
                if !st.pc.iter().all(|c| eval::eval(&self.ar, *c, &m, &mut memo).b()) {
                    return;
                }
                m
            }
        };
        let mut memo = HashMap::new();
        let obs = st
            .obs
            .iter()
            .map(|(l, t)| (l.clone(), eval::eval(&self.ar, *t, &m, &mut memo).f()))
            .collect();
        let inputs = self.encode_inputs(st, &m);
        self.wit.push(Witness { inputs, obs, panicked: None });
    }

    // ------------------------------------------------------------- derivative
    pub fn deriv(&mut self, t: T, v: T) -> X<T> {
        let mut stack = vec![(t, false)];
        let zero = self.ar.f(Sort::F64, 0.0);
        let one = self.ar.f(Sort::F64, 1.0);
        while let Some((x, done)) = stack.pop() {
            if self.derivmemo.contains_key(&(x, v)) {
                continue;
            }
            if x == v {
                self.derivmemo.insert((x, v), one);
                continue;
            }
            if !self.ar.sort(x).is_f() || !smt::vars_of(&self.ar, x, &mut self.vcache).contains(&v) {
                self.derivmemo.insert((x, v), zero);
                continue;
            }
            let ks = self.ar.kids(x);
            if !done {
                stack.push((x, true));
                for k in ks {
                    if !self.derivmemo.contains_key(&(k, v)) {
                        stack.push((k, false));
                    }
                }
                continue;
            }
            let d = |e: &Engine, k: T| e.derivmemo[&(k, v)];
            let r = match self.ar.n(x).clone() {
                Node::Ite(c, a, b) => {
                    let (p, q) = (d(self, a), d(self, b));
                    self.ar.ite(c, p, q)
                }
                Node::FCvt(_, a) => d(self, a),
                Node::FB(op, a, b) => {
                    let (p, q) = (d(self, a), d(self, b));
                    match op {
                        FB::Add | FB::Sub => self.ar.fbin(op, p, q),
                        FB::Mul => {
                            let l = self.ar.fbin(FB::Mul, p, b);
                            let r = self.ar.fbin(FB::Mul, a, q);
                            self.ar.fbin(FB::Add, l, r)
                        }
                        FB::Div => {
                            // p/b - x*q/b
                            let xq = self.ar.fbin(FB::Mul, x, q);
                            let n = self.ar.fbin(FB::Sub, p, xq);
                            self.ar.fbin(FB::Div, n, b)
                        }
                        FB::Atan2 => {
                            // (x y' - y x')/(x^2+y^2), a = y, b = x
                            let l = self.ar.fbin(FB::Mul, b, p);
                            let r = self.ar.fbin(FB::Mul, a, q);
                            let n = self.ar.fbin(FB::Sub, l, r);
                            let aa = self.ar.fbin(FB::Mul, a, a);
                            let bb = self.ar.fbin(FB::Mul, b, b);
                            let den = self.ar.fbin(FB::Add, aa, bb);
                            self.ar.fbin(FB::Div, n, den)
                        }
                        _ => return bad(format!("derivative of {:?}", op)),
                    }
                }
                Node::FU(u, a) => {
                    let p = d(self, a);
                    let g = match u {
                        Un::Id => self.ar.f(Sort::F64, 1.0),
                        Un::Neg => self.ar.f(Sort::F64, -1.0),
                        Un::Exp => x,
                        Un::Ln => self.ar.fbin(FB::Div, one, a),
                        Un::Sqrt => {
                            let two = self.ar.f(Sort::F64, 2.0);
                            let m = self.ar.fbin(FB::Mul, two, x);
                            self.ar.fbin(FB::Div, one, m)
                        }
                        Un::Sin => self.ar.fu(Un::Cos, a),
                        Un::Cos => {
                            let s = self.ar.fu(Un::Sin, a);
                            self.ar.fu(Un::Neg, s)
                        }
                        Un::Atan => {
                            let aa = self.ar.fbin(FB::Mul, a, a);
                            let den = self.ar.fbin(FB::Add, one, aa);
                            self.ar.fbin(FB::Div, one, den)
                        }
                        _ => return bad(format!("derivative of {:?}", u)),
                    };
                    self.ar.fbin(FB::Mul, g, p)
                }
                n => return bad(format!("derivative of {:?}", n)),
            };
            self.derivmemo.insert((x, v), r);
        }
        Ok(self.derivmemo[&(t, v)])
    }

    // ------------------------------------------------------------- interpreter
    fn jump(&mut self, st: &mut State, to: u32) -> X<()> {
        let fi = st.frames.last().unwrap().f;
        let from = st.frames.last().unwrap().bb;
        let (mi, fx) = self.p.funcs[fi];
        // collect phis
        let mut upd: Vec<(u32, Val)> = vec![];
        let mut n = 0;
        let blk: *const Block = &self.p.mods[mi].funcs[fx].blocks[to as usize];
        // the program is immutable while executing
        let blk = unsafe { &*blk };
        for (ins, _) in &blk.ins {
            if let Ins::Phi { dst, inc } = ins {
                let o = match inc.iter().find(|(_, b)| *b == from) {
                    Some((o, _)) => o,
                    None => return bad("phi without edge"),
                };
                let fr = st.frames.last().unwrap();
                let v = match o {
                    Opnd::Reg(r) => fr.regs[*r as usize].clone(),
                    _ => {
                        let frp: *const Frame = fr;
                        self.opnd(unsafe { &*frp }, o)?
                    }
                };
                upd.push((*dst, v));
                n += 1;
            } else {
                break;
            }
        }
        let fr = st.frames.last_mut().unwrap();
        for (d, v) in upd {
            fr.regs[d as usize] = v;
        }
        fr.bb = to;
        fr.ip = n;
        Ok(())
    }
    fn step(&mut self, st: &mut State) -> X<()> {
        let (fi, bb, ip) = {
            let f = st.frames.last().unwrap();
            (f.f, f.bb, f.ip)
        };
        let (mi, fx) = self.p.funcs[fi];
        let fun: *const Func = &self.p.mods[mi].funcs[fx];
        let fun = unsafe { &*fun };
        let (ins, dbg) = match fun.blocks[bb as usize].ins.get(ip) {
            Some(x) => x,
            None => return bad("fell off block"),
        };
        if *dbg != 0 {
            self.dbg_seen.insert((mi, *dbg));
        }
        macro_rules! op {
            ($o:expr) => {{
                let fr: *const Frame = st.frames.last().unwrap();
                self.opnd(unsafe { &*fr }, $o)?
            }};
        }
        macro_rules! set {
            ($d:expr, $v:expr) => {{
                let v = $v;
                let fr = st.frames.last_mut().unwrap();
                fr.regs[$d as usize] = v;
                fr.ip += 1;
                return Ok(());
            }};
        }
        match ins {
            Ins::Alloca { dst, size, align } => {
                let a = st.alloc(*size, *align, Cell::U, false);
                st.frames.last_mut().unwrap().allocas.push(a);
                set!(*dst, Val::I(64, a as u128))
            }
            Ins::Load { dst, ty, ptr } => {
                let p = op!(ptr);
                let a = self.conc(st, &p)? as u64;
                let v = self.load(st, ty, a)?;
                set!(*dst, v)
            }
            Ins::Store { ty, val, ptr } => {
                let p = op!(ptr);
                let v = op!(val);
                let a = self.conc(st, &p)? as u64;
                self.store(st, ty, &v, a)?;
                st.frames.last_mut().unwrap().ip += 1;
                Ok(())
            }
            Ins::Gep { dst, base, coff, idx } => {
                let b = op!(base);
                let mut sym: Option<T> = None;
                let mut acc: u64 = *coff;
                match &b {
                    Val::I(_, v) => acc = acc.wrapping_add(*v as u64),
                    Val::T(t) => sym = Some(*t),
                    Val::Cells(_) => sym = Some(self.to_bv(&b, 64)?),
                    _ => return bad("gep base"),
                }
                for (sc, o) in idx {
                    match op!(o) {
                        Val::I(_, v) => acc = acc.wrapping_add((v as u64).wrapping_mul(*sc)),
                        v => {
                            let t = self.to_bv(&v, 64)?;
                            let t = self.sub(st, t);
                            if let Some(c) = self.ar.isbv(t) {
                                acc = acc.wrapping_add((c as u64).wrapping_mul(*sc));
                                continue;
                            }
                            let k = self.ar.bv(64, *sc as u128);
                            let m = self.ar.bin(BinOp::Mul, t, k);
                            sym = Some(match sym {
                                None => m,
                                Some(s) => self.ar.bin(BinOp::Add, s, m),
                            });
                        }
                    }
                }
                let v = match sym {
                    None => Val::I(64, acc as u128),
                    Some(s) => {
                        let k = self.ar.bv(64, acc as u128);
                        let r = self.ar.bin(BinOp::Add, s, k);
                        self.mkval(r)
                    }
                };
                set!(*dst, v)
            }
            Ins::Bin { dst, op: bop, ty, a, b } => {
                let x = op!(a);
                let y = op!(b);
                if ty.is_agg() {
                    let (Val::Agg(p), Val::Agg(q)) = (&x, &y) else { return bad("vector bin") };
                    let mut v = vec![];
                    let et = ty.field(0);
                    for i in 0..p.len() {
                        v.push(self.binop(*bop, &et, &p[i], &q[i])?);
                    }
                    set!(*dst, Val::Agg(Rc::new(v)))
                }
                if matches!(bop, BinOp::UDiv | BinOp::SDiv | BinOp::URem | BinOp::SRem) {
                    if let Val::I(_, 0) = y {
                        return bad("division by zero reached in IR");
                    }
                }
                let v = self.binop(*bop, ty, &x, &y)?;
                set!(*dst, v)
            }
            Ins::FBin { dst, op: fop, ty, a, b } => {
                let o = match fop {
                    FOp::Add => FB::Add,
                    FOp::Sub => FB::Sub,
                    FOp::Mul => FB::Mul,
                    FOp::Div => FB::Div,
                    FOp::Rem => FB::Rem,
                };
                let x = op!(a);
                let y = op!(b);
                if ty.is_agg() {
                    let (Val::Agg(p), Val::Agg(q)) = (&x, &y) else { return bad("vector fbin") };
                    let et = ty.field(0);
                    let mut v = vec![];
                    for i in 0..p.len() {
                        let l = self.to_f(&p[i], &et)?;
                        let r = self.to_f(&q[i], &et)?;
                        v.push(Val::T(self.ar.fbin(o, l, r)));
                    }
                    set!(*dst, Val::Agg(Rc::new(v)))
                }
                let l = self.to_f(&x, ty)?;
                let r = self.to_f(&y, ty)?;
                let v = self.ar.fbin(o, l, r);
                set!(*dst, Val::T(v))
            }
            Ins::FNeg { dst, ty, a } => {
                let x = op!(a);
                if ty.is_agg() {
                    let Val::Agg(p) = &x else { return bad("vector fneg") };
                    let et = ty.field(0);
                    let mut v = vec![];
                    for i in 0..p.len() {
                        let l = self.to_f(&p[i], &et)?;
                        v.push(Val::T(self.ar.fu(Un::Neg, l)));
                    }
                    set!(*dst, Val::Agg(Rc::new(v)))
                }
                let l = self.to_f(&x, ty)?;
                let v = self.ar.fu(Un::Neg, l);
                set!(*dst, Val::T(v))
            }
            Ins::ICmp { dst, pred, ty, a, b } => {
                let x = op!(a);
                let y = op!(b);
                let v = self.icmp(*pred, ty.bits(), &x, &y)?;
                set!(*dst, v)
            }
            Ins::FCmp { dst, pred, ty, a, b } => {
                let x = op!(a);
                let y = op!(b);
                let l = self.to_f(&x, ty)?;
                let r = self.to_f(&y, ty)?;
                let v = self.fcmp(pred, l, r)?;
                let v = self.mkval(v);
                set!(*dst, v)
            }
            Ins::Cast { dst, op: cop, from, to, a } => {
                let x = op!(a);
                let v = self.cast(cop, from, to, &x)?;
                set!(*dst, v)
            }
            Ins::Select { dst, ty, c, a, b } => {
                let cv = op!(c);
                let x = op!(a);
                let y = op!(b);
                match cv {
                    Val::I(_, k) => set!(*dst, if k & 1 == 1 { x } else { y }),
                    Val::U => set!(*dst, x),
                    _ => {}
                }
                let ct = self.to_bv(&cv, 1)?;
                let ct = self.sub(st, ct);
                if let Some(k) = self.ar.isb(ct) {
                    set!(*dst, if k { x } else { y });
                }
                match (&x, &y) {
                    (Val::U, _) => set!(*dst, y),
                    (_, Val::U) => set!(*dst, x),
                    _ => {}
                }
                let is_cells = matches!(x, Val::Cells(_) | Val::Agg(_)) || matches!(y, Val::Cells(_) | Val::Agg(_));
                if is_cells || *ty == Ty::Ptr || self.ar.opaque && matches!(ty, Ty::F32 | Ty::F64) {
                    let k = self.decide(st, ct)?;
                    set!(*dst, if k { x } else { y });
                }
                let v = if matches!(ty, Ty::F32 | Ty::F64) {
                    let l = self.to_f(&x, ty)?;
                    let r = self.to_f(&y, ty)?;
                    Val::T(self.ar.ite(ct, l, r))
                } else {
                    let l = self.to_bv(&x, ty.bits())?;
                    let r = self.to_bv(&y, ty.bits())?;
                    let v = self.ar.ite(ct, l, r);
                    self.mkval(v)
                };
                set!(*dst, v)
            }
            Ins::Phi { .. } => bad("stray phi"),
            Ins::Extract { dst, ty: _, a, idx } => {
                let mut v = op!(a);
                for i in idx {
                    v = match v {
                        Val::Agg(x) => x[*i].clone(),
                        Val::U => Val::U,
                        _ => return bad("extractvalue"),
                    };
                }
                set!(*dst, v)
            }
            Ins::Insert { dst, ty, a, vty: _, v, idx } => {
                let base = op!(a);
                let nv = op!(v);
                let base = if let Val::U = base { self.undef_agg(ty) } else { base };
                fn ins_(b: &Val, idx: &[usize], nv: Val) -> Val {
                    if idx.is_empty() {
                        return nv;
                    }
                    if let Val::Agg(x) = b {
                        let mut y = (**x).clone();
                        y[idx[0]] = ins_(&y[idx[0]].clone(), &idx[1..], nv);
                        return Val::Agg(Rc::new(y));
                    }
                    Val::U
                }
                set!(*dst, ins_(&base, idx, nv))
            }
            Ins::ExtractElem { dst, a, i, .. } => {
                let v = op!(a);
                let k = op!(i);
                let k = self.conc(st, &k)? as usize;
                match v {
                    Val::Agg(x) => set!(*dst, x[k].clone()),
                    _ => set!(*dst, Val::U),
                }
            }
            Ins::InsertElem { dst, ty, a, v, i } => {
                let base = op!(a);
                let nv = op!(v);
                let k = op!(i);
                let k = self.conc(st, &k)? as usize;
                let base = if let Val::U = base { self.undef_agg(ty) } else { base };
                match base {
                    Val::Agg(x) => {
                        let mut y = (*x).clone();
                        y[k] = nv;
                        set!(*dst, Val::Agg(Rc::new(y)))
                    }
                    _ => bad("insertelement"),
                }
            }
            Ins::Shuffle { dst, ty, a, b, mask } => {
                let x = op!(a);
                let y = op!(b);
                let n = ty.nfields();
                let get = |v: &Val, i: usize| match v {
                    Val::Agg(z) => z[i].clone(),
                    _ => Val::U,
                };
                let out: Vec<Val> = mask
                    .iter()
                    .map(|m| if *m < 0 { Val::U } else if (*m as usize) < n { get(&x, *m as usize) } else { get(&y, *m as usize - n) })
                    .collect();
                set!(*dst, Val::Agg(Rc::new(out)))
            }
            Ins::Freeze { dst, ty, a } => {
                let v = op!(a);
                let v = match v {
                    Val::U if !ty.is_agg() => self.zero(ty),
                    v => v,
                };
                set!(*dst, v)
            }
            Ins::Br(b) => self.jump(st, *b),
            Ins::CondBr(c, a, b) => {
                let cv = op!(c);
                let k = match cv {
                    Val::I(_, k) => k & 1 == 1,
                    Val::U => return bad("branch on undef"),
                    v => {
                        let t = self.to_bv(&v, 1)?;
                        self.decide(st, t)?
                    }
                };
                self.jump(st, if k { *a } else { *b })
            }
            Ins::Switch { ty, v, def, cases } => {
                let x = op!(v);
                if let Val::I(_, k) = x {
                    let t = cases.iter().find(|(c, _)| *c == k).map(|(_, b)| *b).unwrap_or(*def);
                    return self.jump(st, t);
                }
                let t = self.to_bv(&x, ty.bits())?;
                let t = self.sub(st, t);
                for (c, b) in cases {
                    let k = self.ar.bv(ty.bits(), *c);
                    let e = self.ar.eq(t, k);
                    if self.decide(st, e)? {
                        return self.jump(st, *b);
                    }
                }
                self.jump(st, *def)
            }
            Ins::Ret(v) => {
                let rv = match v {
                    Some((_, o)) => Some(op!(o)),
                    None => None,
                };
                let fr = st.frames.pop().unwrap();
                for a in &fr.allocas {
                    st.heap.remove(a);
                }
                if st.frames.is_empty() {
                    // put the frame back so that locations can still be printed
                    st.frames.push(fr);
                    return Err(Ctl::Done);
                }
                let top = st.frames.last_mut().unwrap();
                if let Some(r) = fr.ret {
                    if fr.is_try {
                        top.regs[r as usize] = Val::I(32, 0);
                    } else if let Some(v) = rv {
                        top.regs[r as usize] = v;
                    }
                }
                Ok(())
            }
            Ins::Unreachable => bad("unreachable reached"),
            Ins::Call { dst, ret, callee, args } => {
                let name = match callee {
                    Opnd::Sym(n) => n.clone(),
                    o => {
                        let v = op!(o);
                        let a = self.conc(st, &v)? as u64;
                        match self.p.faddr.get(&a) {
                            Some(n) => n.clone(),
                            None => return bad(format!("call of non-function {:#x}", a)),
                        }
                    }
                };
                let mut av = Vec::with_capacity(args.len());
                for (_, o) in args {
                    av.push(op!(o));
                }
                if let Some(r) = self.intrinsic(st, &name, ret, args, &av)? {
                    match r {
                        IR::Val(v) => {
                            let fr = st.frames.last_mut().unwrap();
                            if let Some(d) = dst {
                                fr.regs[*d as usize] = v;
                            }
                            fr.ip += 1;
                            return Ok(());
                        }
                        IR::Try(fname, data) => {
                            st.frames.last_mut().unwrap().ip += 1;
                            return self.push_frame(st, &fname, vec![data], *dst, true);
                        }
                    }
                }
                if self.p.fnum.contains_key(&name) {
                    st.frames.last_mut().unwrap().ip += 1;
                    return self.push_frame(st, &name, av, *dst, false);
                }
                if self.p.noreturn.get(&name).cloned().unwrap_or(false) {
                    return Err(Ctl::Panic(short(&name)));
                }
                bad(format!("call to unmodelled external function {}", name))
            }
            Ins::Bad(e) => bad(format!("unsupported instruction: {}", e)),
        }
    }
    fn push_frame(&mut self, st: &mut State, name: &str, args: Vec<Val>, dst: Option<u32>, is_try: bool) -> X<()> {
        let fi = match self.p.fnum.get(name) {
            Some(f) => *f,
            None => return bad(format!("no body for {}", name)),
        };
        self.funcs_seen.insert(fi);
        if st.frames.len() > 400 {
            return bad("call depth");
        }
        let f = self.p.func(fi);
        let mut regs = vec![Val::U; f.nregs as usize];
        for (i, (_, r)) in f.params.iter().enumerate() {
            if i < args.len() {
                regs[*r as usize] = args[i].clone();
            }
        }
        // phis cannot be in the entry block
        st.frames.push(Frame { f: fi, bb: 0, ip: 0, regs, ret: dst, allocas: vec![], is_try });
        Ok(())
    }
    fn binop(&mut self, op: BinOp, ty: &Ty, x: &Val, y: &Val) -> X<Val> {
        let w = ty.bits();
        if let (Val::I(_, a), Val::I(_, b)) = (x, y) {
            if let Some(r) = cbin(op, w, *a, *b) {
                return Ok(Val::I(w, r));
            }
            return bad("constant division by zero");
        }
        // byte-aligned shuffles of partially symbolic words
        if let (Val::Cells(c), Val::I(_, k)) = (x, y) {
            if op == BinOp::LShr && k % 8 == 0 && *k < w as u128 {
                let n = (*k / 8) as usize;
                let mut v: Vec<Cell> = c[n..].to_vec();
                v.resize(c.len(), Cell::B(0));
                return self.int_of_cells(v, w);
            }
            if op == BinOp::Shl && k % 8 == 0 && *k < w as u128 {
                let n = (*k / 8) as usize;
                let mut v = vec![Cell::B(0); n];
                v.extend_from_slice(&c[..c.len() - n]);
                return self.int_of_cells(v, w);
            }
        }
        if op == BinOp::Or {
            if let (Val::Cells(a), Val::Cells(b)) = (x, y) {
                let mut v = vec![];
                let mut ok = a.len() == b.len();
                for i in 0..a.len().min(b.len()) {
                    match (a[i], b[i]) {
                        (Cell::B(0), z) | (z, Cell::B(0)) => v.push(z),
                        _ => {
                            ok = false;
                            break;
                        }
                    }
                }
                if ok {
                    return self.int_of_cells(v, w);
                }
            }
        }
        let a = self.to_bv(x, w)?;
        let b = self.to_bv(y, w)?;
        let r = self.ar.bin(op, a, b);
        Ok(self.mkval(r))
    }
    fn icmp(&mut self, p: IPred, w: u32, x: &Val, y: &Val) -> X<Val> {
        if let (Val::I(_, a), Val::I(_, b)) = (x, y) {
            let (sa, sb) = (sext(*a, w), sext(*b, w));
            let r = match p {
                IPred::Eq => a == b,
                IPred::Ne => a != b,
                IPred::Ugt => a > b,
                IPred::Uge => a >= b,
                IPred::Ult => a < b,
                IPred::Ule => a <= b,
                IPred::Sgt => sa > sb,
                IPred::Sge => sa >= sb,
                IPred::Slt => sa < sb,
                IPred::Sle => sa <= sb,
            };
            return Ok(Val::I(1, r as u128));
        }
        let a = self.to_bv(x, w)?;
        let b = self.to_bv(y, w)?;
        // lift float words
        let r = match p {
            IPred::Eq => self.ar.eq(a, b),
            IPred::Ne => {
                let e = self.ar.eq(a, b);
                self.ar.not(e)
            }
            IPred::Ugt => self.ar.ult(b, a),
            IPred::Uge => self.ar.ule(b, a),
            IPred::Ult => self.ar.ult(a, b),
            IPred::Ule => self.ar.ule(a, b),
            IPred::Sgt => self.ar.slt(b, a),
            IPred::Sge => self.ar.sle(b, a),
            IPred::Slt => self.ar.slt(a, b),
            IPred::Sle => self.ar.sle(a, b),
        };
        Ok(self.mkval(r))
    }
    fn fcmp(&mut self, p: &str, a: T, b: T) -> X<T> {
        let na = self.ar.fnan(a);
        let nb = self.ar.fnan(b);
        let uno = self.ar.or(na, nb);
        Ok(match p {
            "false" => self.ar.b(false),
            "true" => self.ar.b(true),
            "oeq" => self.ar.feq(a, b),
            "ogt" => self.ar.flt(b, a),
            "oge" => self.ar.fle(b, a),
            "olt" => self.ar.flt(a, b),
            "ole" => self.ar.fle(a, b),
            "one" => {
                let l = self.ar.flt(a, b);
                let g = self.ar.flt(b, a);
                self.ar.or(l, g)
            }
            "ord" => self.ar.not(uno),
            "uno" => uno,
            "ueq" => {
                let e = self.ar.feq(a, b);
                self.ar.or(e, uno)
            }
            "ugt" => {
                let e = self.ar.fle(a, b);
                self.ar.not(e)
            }
            "uge" => {
                let e = self.ar.flt(a, b);
                self.ar.not(e)
            }
            "ult" => {
                let e = self.ar.fle(b, a);
                self.ar.not(e)
            }
            "ule" => {
                let e = self.ar.flt(b, a);
                self.ar.not(e)
            }
            "une" => {
                let e = self.ar.feq(a, b);
                self.ar.not(e)
            }
            _ => return bad(format!("fcmp {}", p)),
        })
    }
    fn cast(&mut self, op: &str, from: &Ty, to: &Ty, x: &Val) -> X<Val> {
        match op {
            "ptrtoint" | "inttoptr" | "bitcast" | "addrspacecast" | "ptrtoaddr" => {
                let ff = matches!(from, Ty::F32 | Ty::F64);
                let tf = matches!(to, Ty::F32 | Ty::F64);
                if ff == tf {
                    if from.bits() > to.bits() {
                        return self.cast("trunc", from, to, x);
                    }
                    return Ok(x.clone());
                }
                if let Val::U = x {
                    return Ok(Val::U);
                }
                if tf {
                    return Ok(Val::T(self.to_f(x, to)?));
                }
                let f = self.to_f(x, from)?;
                let b = self.ar.bits(f, to.bits());
                Ok(self.mkval(b))
            }
            "trunc" => {
                let w = to.bits();
                match x {
                    Val::I(_, v) => Ok(Val::I(w, v & mask(w))),
                    Val::U => Ok(Val::U),
                    Val::Cells(c) if w % 8 == 0 => {
                        let v = c[..(w / 8) as usize].to_vec();
                        self.int_of_cells(v, w)
                    }
                    _ => {
                        let t = self.to_bv(x, from.bits())?;
                        let r = self.ar.ext(t, 0, w);
                        Ok(self.mkval(r))
                    }
                }
            }
            "zext" => {
                let w = to.bits();
                match x {
                    Val::I(_, v) => Ok(Val::I(w, *v)),
                    Val::Cells(c) if w % 8 == 0 => {
                        let mut v = (**c).clone();
                        v.resize((w / 8) as usize, Cell::B(0));
                        self.int_of_cells(v, w)
                    }
                    _ => {
                        let t = self.to_bv(x, from.bits())?;
                        let r = self.ar.zext(t, w);
                        Ok(self.mkval(r))
                    }
                }
            }
            "sext" => {
                let t = self.to_bv(x, from.bits())?;
                let r = self.ar.sextt(t, to.bits());
                Ok(self.mkval(r))
            }
            "fptrunc" | "fpext" => {
                let f = self.to_f(x, from)?;
                Ok(Val::T(self.ar.fcvt(Self::fsort(to), f)))
            }
            "uitofp" => {
                let t = self.to_bv(x, from.bits())?;
                let t = if self.ar.sort(t) == Sort::Bool { self.ar.zext(t, 8) } else { t };
                Ok(Val::T(self.ar.utof(Self::fsort(to), t)))
            }
            "sitofp" => {
                let t = self.to_bv(x, from.bits())?;
                Ok(Val::T(self.ar.stof(Self::fsort(to), t)))
            }
            "fptoui" => {
                let f = self.to_f(x, from)?;
                let r = self.ar.ftou(to.bits(), f);
                Ok(self.mkval(r))
            }
            "fptosi" => {
                let f = self.to_f(x, from)?;
                let r = self.ar.ftos(to.bits(), f);
                Ok(self.mkval(r))
            }
            _ => bad(format!("cast {}", op)),
        }
    }
    fn newvar(&mut self, st: &mut State, kind: &'static str, s: Sort) -> T {
        // reuse the same variable for the same input position and kind on every path
        let id = st.inputs.len() as u32;
        let code = match kind {
            "f32" => 0,
            "f64" => 1,
            "u64" => 2,
            "u128" => 3,
            "u8" => 4,
            _ => 5,
        };
        let vid = id * 8 + code;
        let t = self.ar.var(s, vid);
        st.inputs.push(Input { kind, t });
        t
    }
    fn intrinsic(&mut self, st: &mut State, name: &str, ret: &Ty, args: &[(Ty, Opnd)], a: &[Val]) -> X<Option<IR>> {
        let ok = |v: Val| -> X<Option<IR>> { Ok(Some(IR::Val(v))) };
        if let Some(n) = name.strip_prefix("llvm.") {
            return self.llvm(st, n, ret, args, a).map(|v| Some(IR::Val(v)));
        }
        if let Some(n) = name.strip_prefix("v_") {
            match n {
                "f32" => {
                    let t = self.newvar(st, "f32", Sort::F32);
                    return ok(Val::T(t));
                }
                "f64" => {
                    let t = self.newvar(st, "f64", Sort::F64);
                    return ok(Val::T(t));
                }
                "u64" => {
                    let t = self.newvar(st, "u64", Sort::Bv(64));
                    return ok(Val::T(t));
                }
                "u128" => {
                    let t = self.newvar(st, "u128", Sort::Bv(128));
                    return ok(Val::T(t));
                }
                "u8" => {
                    let t = self.newvar(st, "u8", Sort::Bv(8));
                    return ok(Val::T(t));
                }
                "range" => {
                    let lo = self.conc(st, &a[0])?;
                    let hi = self.conc(st, &a[1])?;
                    if lo == hi {
                        // keep the input stream aligned with the native run
                        let t = self.newvar(st, "u64", Sort::Bv(64));
                        let k = self.ar.bv(64, lo);
                        let e = self.ar.eq(t, k);
                        st.pc.push(e);
                        self.learn(st, e, true);
                        st.model = None;
                        return ok(Val::I(64, lo));
                    }
                    if lo > hi {
                        return bad("empty range");
                    }
                    let t = self.newvar(st, "u64", Sort::Bv(64));
                    let l = self.ar.bv(64, lo);
                    let h = self.ar.bv(64, hi);
                    let c1 = self.ar.ule(l, t);
                    let c2 = self.ar.ule(t, h);
                    let c = self.ar.and(c1, c2);
                    if self.ar.isb(c).is_none() {
                        st.pc.push(c);
                        self.learn(st, c, true);
                    }
                    // a model value inside the range keeps the cached model valid
                    if let Some(m) = &st.model {
                        let mut mm = m.m.clone();
                        mm.insert(t, V::Bv(lo));
                        st.model = Some(Rc::new(MM { m: mm, memo: RefCell::new(HashMap::new()) }));
                    }
                    return ok(Val::T(t));
                }
                "choose" => {
                    let lo = self.conc(st, &a[0])?;
                    let hi = self.conc(st, &a[1])?;
                    if let Some(v) = st.split.take() {
                        let t = self.ar.bv(64, v);
                        st.inputs.push(Input { kind: "u64", t });
                        return ok(Val::I(64, v));
                    }
                    if lo > hi {
                        return bad("empty choice");
                    }
                    return Err(Ctl::Split(lo, hi));
                }
                "assume" => {
                    let c = self.to_bv(&a[0], 1)?;
                    let c = self.sub(st, c);
                    let c = self.tobool(c);
                    match self.ar.isb(c) {
                        Some(true) => return ok(Val::U),
                        Some(false) => return Err(Ctl::Dead),
                        None => {}
                    }
                    self.flush(st);
                    if self.hint(st, c) != Some(true) {
                        let (f, m) = self.feasible(st, c);
                        if !f {
                            return Err(Ctl::Dead);
                        }
                        st.model = m;
                    }
                    st.pc.push(c);
                    self.learn(st, c, true);
                    return ok(Val::U);
                }
                "check" => {
                    let label = self.label(st, &a[1], &a[2])?;
                    let c = self.to_bv(&a[0], 1)?;
                    let c = self.tobool(c);
                    let z = self.ar.f(Sort::F64, 0.0);
                    self.add_obl(st, Obl { kind: Kind::Bool, label, a: z, b: z, cond: c, tol: 0.0 });
                    return ok(Val::U);
                }
                "eq32" | "eq64" | "le32" | "le64" => {
                    let ty = if n.ends_with("32") { Ty::F32 } else { Ty::F64 };
                    let x = self.to_f(&a[0], &ty)?;
                    let y = self.to_f(&a[1], &ty)?;
                    let tol = self.to_f(&a[2], &Ty::F64)?;
                    let tol = self.ar.isf(tol).unwrap_or(1e-3);
                    let label = self.label(st, &a[3], &a[4])?;
                    st.obs.push((label.clone(), x));
                    st.obs.push((label.clone(), y));
                    let eq = n.starts_with("eq");
                    let cond = if eq {
                        let e = self.ar.feq(x, y);
                        if self.ar.real {
                            e
                        } else {
                            let n1 = self.ar.fnan(x);
                            let n2 = self.ar.fnan(y);
                            let b = self.ar.and(n1, n2);
                            self.ar.or(e, b)
                        }
                    } else {
                        self.ar.fle(x, y)
                    };
                    // non-finite constants in real mode can never be equal to a real
                    self.add_obl(st, Obl { kind: if eq { Kind::Eq } else { Kind::Le }, label, a: x, b: y, cond, tol });
                    return ok(Val::U);
                }
                "def32" | "def64" => {
                    let ty = if n.ends_with("32") { Ty::F32 } else { Ty::F64 };
                    let x = self.to_f(&a[0], &ty)?;
                    let label = self.label(st, &a[1], &a[2])?;
                    let cond = if self.ar.real {
                        self.def(x)
                    } else {
                        let nn = self.ar.fnan(x);
                        let ab = self.ar.fu(Un::Abs, x);
                        let inf = self.ar.f(self.ar.sort(x), f64::INFINITY);
                        let e = self.ar.feq(ab, inf);
                        let b = self.ar.or(nn, e);
                        self.ar.not(b)
                    };
                    self.add_obl(st, Obl { kind: Kind::Def, label, a: x, b: x, cond, tol: 0.0 });
                    return ok(Val::U);
                }
                "obs32" | "obs64" => {
                    let ty = if n.ends_with("32") { Ty::F32 } else { Ty::F64 };
                    let x = self.to_f(&a[0], &ty)?;
                    st.obs.push(("observe".into(), x));
                    return ok(Val::U);
                }
                "waves" => {
                    self.ar.opaque = self.ar.real;
                    return ok(Val::I(32, 0));
                }
                "tier" => return ok(Val::I(32, self.o.tier as u128)),
                "native" => return ok(Val::I(32, 0)),
                "deriv" => {
                    let x = self.to_f(&a[0], &Ty::F64)?;
                    let v = self.to_f(&a[1], &Ty::F64)?;
                    // d/d(-v) = -d/dv
                    let (v, neg) = match *self.ar.n(v) {
                        Node::FU(Un::Neg, w) => (w, true),
                        _ => (v, false),
                    };
                    if !matches!(self.ar.n(v), Node::Var(..)) {
                        return bad("derivative with respect to a non-variable");
                    }
                    let d = self.deriv(x, v)?;
                    let d = if neg { self.ar.fu(Un::Neg, d) } else { d };
                    return ok(Val::T(d));
                }
                "try" => {
                    let f = self.conc(st, &a[0])? as u64;
                    let n = match self.p.faddr.get(&f) {
                        Some(n) => n.clone(),
                        None => return bad("v_try function"),
                    };
                    return Ok(Some(IR::Try(n, a[1].clone())));
                }
                "file" => {
                    let p = self.conc(st, &a[0])? as u64;
                    let n = self.conc(st, &a[1])? as u64;
                    let c = self.rd(st, p, n)?;
                    st.files.push(VFile { bytes: Rc::new(c), pos: 0 });
                    return ok(Val::I(32, (1000 + st.files.len() - 1) as u128));
                }
                "filepos" => {
                    let fd = self.conc(st, &a[0])? as usize - 1000;
                    return ok(Val::I(64, st.files[fd].pos as u128));
                }
                _ => return bad(format!("unknown harness intrinsic v_{}", n)),
            }
        }
        if self.p.fnum.contains_key(name) {
            return Ok(None);
        }
        // allocator
        if name.contains("___rust_alloc_zeroed") || name == "calloc" {
            let sz = self.conc(st, &a[0])? as u64;
            let al = self.conc(st, &a[1])? as u64;
            return ok(self.do_alloc(st, sz, al, Cell::B(0))?);
        }
        if name.contains("___rust_realloc") {
            let p = self.conc(st, &a[0])? as u64;
            let old = self.conc(st, &a[1])? as u64;
            let al = self.conc(st, &a[2])? as u64;
            let new = self.conc(st, &a[3])? as u64;
            let v = self.do_alloc(st, new, al, Cell::U)?;
            if let Val::I(_, q) = v {
                let n = old.min(new);
                self.copy(st, q as u64, p, n)?;
                st.heap.remove(&p);
            }
            return ok(v);
        }
        if name.contains("___rust_dealloc") {
            let p = self.conc(st, &a[0])? as u64;
            if st.heap.remove(&p).is_none() {
                return bad(format!("free of unknown pointer {:#x}", p));
            }
            return ok(Val::U);
        }
        if name.contains("___rust_alloc") {
            let sz = self.conc(st, &a[0])? as u64;
            let al = self.conc(st, &a[1])? as u64;
            return ok(self.do_alloc(st, sz, al, Cell::U)?);
        }
        if name.contains("___rust_no_alloc_shim") {
            return ok(Val::U);
        }
        // libm
        let f = |s: &str| -> Option<(Un, Ty)> {
            let (b, t) = match s {
                "sinf" | "cosf" | "tanf" | "expf" | "logf" | "sqrtf" | "tanhf" | "coshf" | "sinhf" | "atanf" | "asinf" | "acosf"
                | "cbrtf" | "expm1f" | "log1pf" | "exp2f" | "log2f" | "log10f" => (&s[..s.len() - 1], Ty::F32),
                _ => (s, Ty::F64),
            };
            Some((
                match b {
                    "sin" => Un::Sin,
                    "cos" => Un::Cos,
                    "tan" => Un::Tan,
                    "exp" => Un::Exp,
                    "log" => Un::Ln,
                    "sqrt" => Un::Sqrt,
                    "tanh" => Un::Tanh,
                    "cosh" => Un::Cosh,
                    "sinh" => Un::Sinh,
                    "atan" => Un::Atan,
                    "asin" => Un::Asin,
                    "acos" => Un::Acos,
                    "cbrt" => Un::Cbrt,
                    "expm1" => Un::ExpM1,
                    "log1p" => Un::Ln1p,
                    "exp2" => Un::Exp2,
                    "log2" => Un::Log2,
                    "log10" => Un::Log10,
                    _ => return None,
                },
                t,
            ))
        };
        if let Some((u, t)) = f(name) {
            self.stubs.insert(format!("libm {}", name));
            let x = self.to_f(&a[0], &t)?;
            let r = self.ar.fu(u, x);
            return ok(Val::T(r));
        }
        let f2 = match name {
            "atan2" => Some((FB::Atan2, Ty::F64)),
            "atan2f" => Some((FB::Atan2, Ty::F32)),
            "pow" => Some((FB::Pow, Ty::F64)),
            "powf" => Some((FB::Pow, Ty::F32)),
            "hypot" => Some((FB::Hypot, Ty::F64)),
            "hypotf" => Some((FB::Hypot, Ty::F32)),
            "fmod" => Some((FB::Rem, Ty::F64)),
            "fmodf" => Some((FB::Rem, Ty::F32)),
            "fmin" => Some((FB::Min, Ty::F64)),
            "fminf" => Some((FB::Min, Ty::F32)),
            "fmax" => Some((FB::Max, Ty::F64)),
            "fmaxf" => Some((FB::Max, Ty::F32)),
            _ => None,
        };
        if let Some((o, t)) = f2 {
            self.stubs.insert(format!("libm {}", name));
            let x = self.to_f(&a[0], &t)?;
            let y = self.to_f(&a[1], &t)?;
            let r = self.ar.fbin(o, x, y);
            return ok(Val::T(r));
        }
        match name {
            "close" => {
                self.stubs.insert("close (virtual file, succeeds)".into());
                return ok(Val::I(32, 0));
            }
            "memcmp" | "bcmp" => {
                let p = self.conc(st, &a[0])? as u64;
                let q = self.conc(st, &a[1])? as u64;
                let n = self.conc(st, &a[2])? as u64;
                let x = self.rd(st, p, n)?;
                let y = self.rd(st, q, n)?;
                let mut eq = self.ar.b(true);
                for i in 0..n as usize {
                    let l = self.cell_byte(x[i]);
                    let r = self.cell_byte(y[i]);
                    let e = self.ar.eq(l, r);
                    eq = self.ar.and(eq, e);
                }
                if name == "memcmp" && self.ar.isb(eq).is_none() {
                    return bad("symbolic memcmp");
                }
                if name == "memcmp" && self.ar.isb(eq) == Some(false) {
                    let (x, y) = (self.bytes_at(st, p, n)?, self.bytes_at(st, q, n)?);
                    return ok(Val::I(32, if x < y { mask(32) } else { 1 }));
                }
                let z = self.ar.bv(32, 0);
                let o = self.ar.bv(32, 1);
                let r = self.ar.ite(eq, z, o);
                return ok(self.mkval(r));
            }
            _ => {}
        }
        // raw_vec::handle_error & friends are noreturn and handled by the caller
        if let Some(r) = self.std_stub(st, name, a)? {
            return Ok(Some(r));
        }
        Ok(None)
    }
    /// std functions whose bodies are not in the emitted IR
    fn std_stub(&mut self, st: &mut State, name: &str, a: &[Val]) -> X<Option<IR>> {
        // <std::fs::File as std::io::Read>::read(&mut File, &mut [u8]) -> io::Result<usize>
        if name.contains("3std2fs") && name.contains("4File") && name.contains("4Read") {
            let this = self.conc(st, &a[0])? as u64;
            let fdv = self.load(st, &Ty::Int(32), this)?;
            // `&File` receives a pointer to a pointer
            let mut fd = self.conc(st, &fdv)? as usize;
            if fd < 1000 || fd >= 1000 + st.files.len() {
                let pv = self.load(st, &Ty::Ptr, this)?;
                let p = self.conc(st, &pv)? as u64;
                let v = self.load(st, &Ty::Int(32), p)?;
                fd = self.conc(st, &v)? as usize;
            }
            if fd < 1000 || fd >= 1000 + st.files.len() {
                return bad("read from a file that is not virtual");
            }
            let k = fd - 1000;
            if name.ends_with("4read") {
                self.stubs.insert("std::fs::File::read (virtual file, full reads until end of file)".into());
                let buf = self.conc(st, &a[1])? as u64;
                let n = self.conc(st, &a[2])? as usize;
                let f = st.files[k].clone();
                let m = n.min(f.bytes.len() - f.pos);
                let cells = f.bytes[f.pos..f.pos + m].to_vec();
                self.wr(st, buf, &cells)?;
                st.files[k].pos += m;
                // Result<usize, io::Error>: { i64 tag (0 = Ok), ptr payload }
                return Ok(Some(IR::Val(Val::Agg(Rc::new(vec![Val::I(64, 0), Val::I(64, m as u128)])))));
            }
            if name.ends_with("10read_exact") {
                return bad("read_exact external");
            }
        }
        // alloc::raw_vec::RawVec<T>::grow_one, instantiated inside the standard library only
        if let (Some(i), true) = (name.find("6RawVec"), name.contains("8grow_one")) {
            let t = &name[i + 7..];
            let size = match t.as_bytes()[0] {
                b'h' | b'a' => 1,
                b't' | b's' => 2,
                b'm' | b'l' | b'f' => 4,
                b'j' | b'i' | b'y' | b'x' | b'd' => 8,
                b'o' | b'n' => 16,
                _ if t.starts_with("INtNt") && t.contains("3vec3Vec") => 24,
                _ if t.contains("6string6String") => 24,
                _ => return Ok(None),
            };
            self.stubs.insert("RawVec::grow_one (amortised doubling)".into());
            let this = self.conc(st, &a[0])? as u64;
            let cv = self.load(st, &Ty::Int(64), this)?;
            let cap = self.conc(st, &cv)? as u64;
            let pv = self.load(st, &Ty::Ptr, this + 8)?;
            let p = self.conc(st, &pv)? as u64;
            let new = (2 * cap).max(if size == 1 { 8 } else { 4 });
            let v = self.do_alloc(st, new * size, if size >= 8 { 8 } else { size }, Cell::U)?;
            let q = self.conc(st, &v)? as u64;
            if cap > 0 {
                self.copy(st, q, p, cap * size)?;
                st.heap.remove(&p);
            }
            self.store(st, &Ty::Int(64), &Val::I(64, new as u128), this)?;
            self.store(st, &Ty::Ptr, &v, this + 8)?;
            return Ok(Some(IR::Val(Val::U)));
        }
        if name.contains("3std2io5error5Error") && name.contains("drop_in_place") {
            return Ok(Some(IR::Val(Val::U)));
        }
        Ok(None)
    }
    fn do_alloc(&mut self, st: &mut State, sz: u64, al: u64, fill: Cell) -> X<Val> {
        if sz > (1 << 26) {
            return bad(format!("allocation of {} bytes exceeds the engine limit", sz));
        }
        Ok(Val::I(64, st.alloc(sz, al, fill, true) as u128))
    }
    fn tobool(&mut self, t: T) -> T {
        match self.ar.sort(t) {
            Sort::Bool => t,
            Sort::Bv(w) => {
                let z = self.ar.bv(w, 0);
                let e = self.ar.eq(t, z);
                self.ar.not(e)
            }
            _ => t,
        }
    }
    fn label(&mut self, st: &mut State, p: &Val, n: &Val) -> X<String> {
        let p = self.conc(st, p)? as u64;
        let n = self.conc(st, n)? as u64;
        let b = self.bytes_at(st, p, n)?;
        Ok(String::from_utf8_lossy(&b).to_string())
    }
    fn llvm(&mut self, st: &mut State, n: &str, ret: &Ty, args: &[(Ty, Opnd)], a: &[Val]) -> X<Val> {
        let base = n.split('.').next().unwrap();
        match base {
            "lifetime" | "dbg" | "experimental" | "invariant" | "prefetch" => return Ok(Val::U),
            "assume" => return Ok(Val::U),
            "memcpy" | "memmove" => {
                let d = self.conc(st, &a[0])? as u64;
                let s = self.conc(st, &a[1])? as u64;
                let k = self.conc(st, &a[2])? as u64;
                self.copy(st, d, s, k)?;
                return Ok(Val::U);
            }
            "memset" => {
                let d = self.conc(st, &a[0])? as u64;
                let k = self.conc(st, &a[2])? as u64;
                let mut c = vec![Cell::U; 1];
                self.cells_of(&Ty::Int(8), &a[1], &mut c, 0)?;
                let v = vec![c[0]; k as usize];
                self.wr(st, d, &v)?;
                return Ok(Val::U);
            }
            "expect" => return Ok(a[0].clone()),
            "trap" => return Err(Ctl::Panic("llvm.trap".into())),
            _ => {}
        }
        if n.starts_with("noalias") {
            return Ok(Val::U);
        }
        if n.starts_with("load.relative") {
            let p = self.conc(st, &a[0])? as u64;
            let o = self.conc(st, &a[1])? as u64;
            let v = self.load(st, &Ty::Int(32), p.wrapping_add(o))?;
            let d = self.conc(st, &v)?;
            return Ok(Val::I(64, p.wrapping_add(sext(d, 32) as u64) as u128));
        }
        let isf = matches!(ret, Ty::F32 | Ty::F64);
        if isf {
            let un = match base {
                "cos" => Some(Un::Cos),
                "sin" => Some(Un::Sin),
                "tan" => Some(Un::Tan),
                "exp" => Some(Un::Exp),
                "exp2" => Some(Un::Exp2),
                "log" => Some(Un::Ln),
                "log2" => Some(Un::Log2),
                "log10" => Some(Un::Log10),
                "sqrt" => Some(Un::Sqrt),
                "fabs" => Some(Un::Abs),
                "floor" => Some(Un::Floor),
                "ceil" => Some(Un::Ceil),
                "trunc" => Some(Un::Trunc),
                "round" => Some(Un::Round),
                "roundeven" | "rint" | "nearbyint" => Some(Un::RoundEven),
                "tanh" => Some(Un::Tanh),
                "cosh" => Some(Un::Cosh),
                "sinh" => Some(Un::Sinh),
                "atan" => Some(Un::Atan),
                "asin" => Some(Un::Asin),
                "acos" => Some(Un::Acos),
                _ => None,
            };
            if let Some(u) = un {
                if !matches!(u, Un::Abs | Un::Sqrt | Un::Floor | Un::Ceil) {
                    self.stubs.insert(format!("libm {}", base));
                }
                let x = self.to_f(&a[0], ret)?;
                return Ok(Val::T(self.ar.fu(u, x)));
            }
            let bi = match base {
                "minnum" | "minimumnum" | "minimum" => Some(FB::Min),
                "maxnum" | "maximumnum" | "maximum" => Some(FB::Max),
                "copysign" => Some(FB::CopySign),
                "pow" => Some(FB::Pow),
                "atan2" => Some(FB::Atan2),
                _ => None,
            };
            if let Some(o) = bi {
                let x = self.to_f(&a[0], ret)?;
                let y = self.to_f(&a[1], ret)?;
                return Ok(Val::T(self.ar.fbin(o, x, y)));
            }
            match base {
                "fma" | "fmuladd" => {
                    let x = self.to_f(&a[0], ret)?;
                    let y = self.to_f(&a[1], ret)?;
                    let z = self.to_f(&a[2], ret)?;
                    return Ok(Val::T(self.ar.fma(x, y, z)));
                }
                "powi" => {
                    let x = self.to_f(&a[0], ret)?;
                    let k = self.conc(st, &a[1])?;
                    let k = sext(k, 32) as i32;
                    if k.unsigned_abs() > 64 {
                        return bad("powi exponent");
                    }
                    return Ok(Val::T(self.ar.powi(x, k)));
                }
                _ => {}
            }
        }
        if n.starts_with("is.fpclass") {
            let x = self.to_f(&a[0], &args[0].0)?;
            let m = self.conc(st, &a[1])?;
            return self.fpclass(x, m as u32);
        }
        if n.starts_with("fptoui.sat") {
            let x = self.to_f(&a[0], &args[0].0)?;
            let r = self.ar.ftou(ret.bits(), x);
            return Ok(self.mkval(r));
        }
        if n.starts_with("fptosi.sat") {
            let x = self.to_f(&a[0], &args[0].0)?;
            let r = self.ar.ftos(ret.bits(), x);
            return Ok(self.mkval(r));
        }
        if n.contains(".with.overflow") {
            let w = args[0].0.bits();
            let x = self.to_bv(&a[0], w)?;
            let y = self.to_bv(&a[1], w)?;
            let (op, signed) = match base {
                "uadd" => (BinOp::Add, false),
                "usub" => (BinOp::Sub, false),
                "umul" => (BinOp::Mul, false),
                "sadd" => (BinOp::Add, true),
                "ssub" => (BinOp::Sub, true),
                "smul" => (BinOp::Mul, true),
                _ => return bad(format!("llvm.{}", n)),
            };
            let r = self.ar.bin(op, x, y);
            let ov = match (op, signed) {
                (BinOp::Add, false) => self.ar.ult(r, x),
                (BinOp::Sub, false) => self.ar.ult(x, y),
                (BinOp::Mul, false) => self.umul_ov(x, y, w),
                _ => {
                    let e = 2 * w;
                    if e > 128 && (self.ar.isbv(x).is_none() || self.ar.isbv(y).is_none()) {
                        return bad("wide signed overflow");
                    }
                    let xs = self.ar.sextt(x, e);
                    let ys = self.ar.sextt(y, e);
                    let rw = self.ar.bin(op, xs, ys);
                    let rs = self.ar.sextt(r, e);
                    let q = self.ar.eq(rw, rs);
                    self.ar.not(q)
                }
            };
            let (rv, ovv) = (self.mkval(r), self.mkval(ov));
            return Ok(Val::Agg(Rc::new(vec![rv, ovv])));
        }
        if let Ty::Int(w) = ret {
            let w = *w;
            let x = self.to_bv(&a[0], w)?;
            match base {
                "umax" | "umin" | "smax" | "smin" => {
                    let y = self.to_bv(&a[1], w)?;
                    let c = match base {
                        "umax" => self.ar.ult(y, x),
                        "umin" => self.ar.ult(x, y),
                        "smax" => self.ar.slt(y, x),
                        _ => self.ar.slt(x, y),
                    };
                    let r = self.ar.ite(c, x, y);
                    return Ok(self.mkval(r));
                }
                "usub" => {
                    let y = self.to_bv(&a[1], w)?;
                    let c = self.ar.ult(x, y);
                    let d = self.ar.bin(BinOp::Sub, x, y);
                    let z = self.ar.bv(w, 0);
                    let r = self.ar.ite(c, z, d);
                    return Ok(self.mkval(r));
                }
                "uadd" => {
                    let y = self.to_bv(&a[1], w)?;
                    let d = self.ar.bin(BinOp::Add, x, y);
                    let c = self.ar.ult(d, x);
                    let z = self.ar.bv(w, mask(w));
                    let r = self.ar.ite(c, z, d);
                    return Ok(self.mkval(r));
                }
                "abs" => {
                    let z = self.ar.bv(w, 0);
                    let c = self.ar.slt(x, z);
                    let m = self.ar.bin(BinOp::Sub, z, x);
                    let r = self.ar.ite(c, m, x);
                    return Ok(self.mkval(r));
                }
                "ctpop" | "ctlz" | "cttz" | "bswap" => {
                    let v = self.conc(st, &a[0])?;
                    let r = match base {
                        "ctpop" => v.count_ones() as u128,
                        "ctlz" => (v.leading_zeros() - (128 - w)) as u128,
                        "cttz" => (v.trailing_zeros().min(w)) as u128,
                        _ => v.swap_bytes() >> (128 - w),
                    };
                    return Ok(Val::I(w, r));
                }
                "fshl" | "fshr" => {
                    let y = self.to_bv(&a[1], w)?;
                    let k = self.conc(st, &a[2])? as u32 % w;
                    // concat(x,y) shifted
                    let (hi, lo) = if base == "fshl" { (k, w - k) } else { (w - k, k) };
                    if hi == 0 || lo == 0 {
                        return Ok(if (base == "fshl") == (k == 0) { a[0].clone() } else { a[1].clone() });
                    }
                    let h = self.ar.bv(w, hi as u128);
                    let l = self.ar.bv(w, lo as u128);
                    let p = self.ar.bin(BinOp::Shl, x, h);
                    let q = self.ar.bin(BinOp::LShr, y, l);
                    let r = self.ar.bin(BinOp::Or, p, q);
                    return Ok(self.mkval(r));
                }
                "ucmp" | "scmp" => {
                    let w2 = args[0].0.bits();
                    let x = self.to_bv(&a[0], w2)?;
                    let y = self.to_bv(&a[1], w2)?;
                    let lt = if base == "ucmp" { self.ar.ult(x, y) } else { self.ar.slt(x, y) };
                    let eq = self.ar.eq(x, y);
                    let m1 = self.ar.bv(w, mask(w));
                    let z = self.ar.bv(w, 0);
                    let o = self.ar.bv(w, 1);
                    let i = self.ar.ite(eq, z, o);
                    let r = self.ar.ite(lt, m1, i);
                    return Ok(self.mkval(r));
                }
                _ => {}
            }
        }
        bad(format!("unmodelled intrinsic llvm.{}", n))
    }
    fn umul_ov(&mut self, x: T, y: T, w: u32) -> T {
        let (_, hx) = self.ar.interval(x);
        let (_, hy) = self.ar.interval(y);
        if hx.checked_mul(hy).map_or(false, |p| p <= mask(w)) {
            return self.ar.b(false);
        }
        // by a constant: x > MAX / c
        for (p, q) in [(x, y), (y, x)] {
            if let Some(c) = self.ar.isbv(q) {
                if c == 0 {
                    return self.ar.b(false);
                }
                let lim = self.ar.bv(w, mask(w) / c);
                return self.ar.ult(lim, p);
            }
        }
        // general: y != 0 && x > MAX / y
        let z = self.ar.bv(w, 0);
        let nz = self.ar.eq(y, z);
        let nz = self.ar.not(nz);
        let m = self.ar.bv(w, mask(w));
        let d = self.ar.bin(BinOp::UDiv, m, y);
        let g = self.ar.ult(d, x);
        self.ar.and(nz, g)
    }
    fn fpclass(&mut self, x: T, m: u32) -> X<Val> {
        // bits: 0 snan 1 qnan 2 -inf 3 -normal 4 -subnormal 5 -0 6 +0 7 +subnormal 8 +normal 9 +inf
        let mut r = self.ar.b(false);
        let s = self.ar.sort(x);
        let z = self.ar.f(s, 0.0);
        if m & 3 != 0 {
            if m & 3 != 3 {
                return bad("fpclass nan kind");
            }
            let t = self.ar.fnan(x);
            r = self.ar.or(r, t);
        }
        let neg = self.ar.flt(x, z);
        let pos = self.ar.flt(z, x);
        let zero = self.ar.feq(x, z);
        if self.ar.real {
            // subnormals and infinities are not distinguished over the reals
            if m & (1 << 3) != 0 {
                r = self.ar.or(r, neg);
            }
            if m & (1 << 8) != 0 {
                r = self.ar.or(r, pos);
            }
            if m & (1 << 6) != 0 || m & (1 << 5) != 0 {
                r = self.ar.or(r, zero);
            }
            return Ok(self.mkval(r));
        }
        let inf = self.ar.f(s, f64::INFINITY);
        let ninf = self.ar.f(s, f64::NEG_INFINITY);
        let minn = self.ar.f(s, if s == Sort::F32 { f32::MIN_POSITIVE as f64 } else { f64::MIN_POSITIVE });
        let nminn = self.ar.fu(Un::Neg, minn);
        let w = s.bits();
        let bits = self.ar.bits(x, w);
        let zb = self.ar.bv(w, 0);
        let sign = self.ar.slt(bits, zb);
        let nsign = self.ar.not(sign);
        let parts: Vec<(u32, Vec<T>)> = vec![
            (2, vec![self.ar.feq(x, ninf)]),
            (3, vec![self.ar.flt(ninf, x), self.ar.fle(x, nminn)]),
            (4, vec![self.ar.flt(nminn, x), neg]),
            (5, vec![zero, sign]),
            (6, vec![zero, nsign]),
            (7, vec![pos, self.ar.flt(x, minn)]),
            (8, vec![self.ar.fle(minn, x), self.ar.flt(x, inf)]),
            (9, vec![self.ar.feq(x, inf)]),
        ];
        for (b, cs) in parts {
            if m & (1 << b) != 0 {
                let mut c = self.ar.b(true);
                for k in cs {
                    c = self.ar.and(c, k);
                }
                r = self.ar.or(r, c);
            }
        }
        Ok(self.mkval(r))
    }
    pub fn new(p: Prog, real: bool, z3: &str, cvc: &str, z3old: &str, o: Opts) -> Engine {
        Engine {
            p,
            ar: Arena::new(real),
            z3: Solver::new(z3),
            cvc: Solver::new(cvc),
            z3old: Solver::new(z3old),
            o,
            st: Stats::default(),
            nvars: 0,
            cex: vec![],
            wit: vec![],
            labels: BTreeMap::new(),
            errors: vec![],
            inconclusive: vec![],
            funcs_seen: BTreeSet::new(),
            dbg_seen: HashSet::new(),
            stubs: BTreeSet::new(),
            vcache: HashMap::new(),
            lemma: false,
            qcache: HashMap::new(),
            defmemo: HashMap::new(),
            derivmemo: HashMap::new(),
            trace: false,
            max_bound: BTreeMap::new(),
        }
    }
}

pub enum IR {
    Val(Val),
    Try(String, Val),
}

pub fn short(n: &str) -> String {
    // last identifiers of a v0 mangled name
    let mut out = vec![];
    let b: Vec<char> = n.chars().collect();
    let mut i = 0;
    while i < b.len() {
        if b[i].is_ascii_digit() {
            let mut j = i;
            while j < b.len() && b[j].is_ascii_digit() {
                j += 1;
            }
            let len: usize = b[i..j].iter().collect::<String>().parse().unwrap_or(0);
            let st = if j < b.len() && b[j] == '_' { j + 1 } else { j };
            if len > 1 && st + len <= b.len() {
                out.push(b[st..st + len].iter().collect::<String>());
                i = st + len;
                continue;
            }
            i = j;
        } else {
            i += 1;
        }
    }
    if out.is_empty() {
        return n.to_string();
    }
    let k = out.len().saturating_sub(3);
    out[k..].join("::")
}
#[allow(dead_code)]
fn _unused() {
    let _ = mangled_has("", &[]);
}
