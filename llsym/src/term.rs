//! Hash-consed symbolic terms with on-the-fly simplification.
use crate::ir::{sext, BinOp};
use crate::poly;
use std::collections::HashMap;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct T(pub u32);

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Sort {
    Bool,
    Bv(u32),
    F32,
    F64,
}
impl Sort {
    pub fn bits(self) -> u32 {
        match self {
            Sort::Bool => 1,
            Sort::Bv(w) => w,
            Sort::F32 => 32,
            Sort::F64 => 64,
        }
    }
    pub fn is_f(self) -> bool {
        matches!(self, Sort::F32 | Sort::F64)
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Un {
    Neg, Abs, Sqrt, Exp, Ln, Sin, Cos, Tan, Tanh, Cosh, Sinh, Atan, Asin, Acos,
    Floor, Ceil, Round, RoundEven, Trunc, Exp2, Log2, Log10, Ln1p, ExpM1, Cbrt,
    /// the value itself, kept apart by the rewriting
    Id,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum FB {
    Add, Sub, Mul, Div, Rem, Min, Max, Atan2, Pow, Hypot, CopySign,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    B(bool),
    Bv(u32, u128),
    F(Sort, u64),
    Var(Sort, u32),
    Not(T),
    And(T, T),
    Or(T, T),
    Ite(T, T, T),
    Eq(T, T),
    Ult(T, T),
    Ule(T, T),
    Slt(T, T),
    Sle(T, T),
    Bin(BinOp, T, T),
    Ext(T, u32, u32), // lo, width
    Cat(T, T),        // hi, lo
    Zext(T, u32),
    Sext(T, u32),
    FB(FB, T, T),
    FU(Un, T),
    Fma(T, T, T),
    FLt(T, T),
    FLe(T, T),
    FEq(T, T),
    FNan(T),
    FCvt(Sort, T),
    UToF(Sort, T),
    SToF(Sort, T),
    FToU(u32, T), // saturating (Rust `as`)
    FToS(u32, T),
    Bits(T, u32),
    FromBits(Sort, T),
}

pub struct Arena {
    pub nodes: Vec<Node>,
    pub sorts: Vec<Sort>,
    map: HashMap<Node, T>,
    pub real: bool,
    iv: HashMap<T, (u128, u128)>,
    pub fiv: HashMap<T, Option<(f64, f64)>>,
    pub canon_memo: HashMap<T, T>,
    pub poly_memo: HashMap<T, Option<std::rc::Rc<poly::Poly>>>,
    pub bad_bits: usize,
    /// sums of products with a sine or cosine are kept apart (Un::Id)
    pub opaque: bool,
    /// optional user supplied value ranges for BV variables
    pub var_range: HashMap<T, (u128, u128)>,
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 { u128::MAX } else { (1u128 << w) - 1 }
}

pub fn fval(s: Sort, b: u64) -> f64 {
    match s {
        Sort::F32 => f32::from_bits(b as u32) as f64,
        _ => f64::from_bits(b),
    }
}
pub fn fbits(s: Sort, v: f64) -> u64 {
    match s {
        Sort::F32 => (v as f32).to_bits() as u64,
        _ => v.to_bits(),
    }
}

impl Arena {
    pub fn new(real: bool) -> Arena {
        Arena {
            nodes: vec![],
            sorts: vec![],
            map: HashMap::new(),
            real,
            iv: HashMap::new(),
            fiv: HashMap::new(),
            canon_memo: HashMap::new(),
            poly_memo: HashMap::new(),
            bad_bits: 0,
            opaque: false,
            var_range: HashMap::new(),
        }
    }
    pub fn n(&self, t: T) -> &Node {
        &self.nodes[t.0 as usize]
    }
    pub fn sort(&self, t: T) -> Sort {
        self.sorts[t.0 as usize]
    }
    pub fn mk(&mut self, n: Node, s: Sort) -> T {
        if let Some(t) = self.map.get(&n) {
            return *t;
        }
        let t = T(self.nodes.len() as u32);
        self.nodes.push(n.clone());
        self.sorts.push(s);
        self.map.insert(n, t);
        t
    }
    pub fn var(&mut self, s: Sort, id: u32) -> T {
        let s = self.fs(s);
        self.mk(Node::Var(s, id), s)
    }
    pub fn b(&mut self, v: bool) -> T {
        self.mk(Node::B(v), Sort::Bool)
    }
    pub fn bv(&mut self, w: u32, v: u128) -> T {
        if w == 1 {
            return self.b(v & 1 == 1);
        }
        self.mk(Node::Bv(w, v & mask(w)), Sort::Bv(w))
    }
    /// in real mode every float lives in one sort
    pub fn fs(&self, s: Sort) -> Sort {
        if self.real && s == Sort::F32 { Sort::F64 } else { s }
    }
    pub fn f(&mut self, s: Sort, v: f64) -> T {
        let s = self.fs(s);
        let v = if self.real && v == 0.0 { 0.0 } else { v };
        self.mk(Node::F(s, fbits(s, v)), s)
    }
    pub fn fb(&mut self, s: Sort, bits: u64) -> T {
        if self.real {
            return self.f(s, fval(s, bits));
        }
        self.mk(Node::F(s, bits), s)
    }
    pub fn isb(&self, t: T) -> Option<bool> {
        if let Node::B(b) = self.n(t) { Some(*b) } else { None }
    }
    pub fn isbv(&self, t: T) -> Option<u128> {
        match self.n(t) {
            Node::Bv(_, v) => Some(*v),
            Node::B(b) => Some(*b as u128),
            _ => None,
        }
    }
    pub fn isf(&self, t: T) -> Option<f64> {
        if let Node::F(s, b) = self.n(t) { Some(fval(*s, *b)) } else { None }
    }
    pub fn not(&mut self, a: T) -> T {
        match *self.n(a) {
            Node::B(b) => self.b(!b),
            Node::Not(x) => x,
            Node::Ult(x, y) => self.ule(y, x),
            Node::Ule(x, y) => self.ult(y, x),
            Node::Slt(x, y) => self.sle(y, x),
            Node::Sle(x, y) => self.slt(y, x),
            Node::FLt(x, y) if self.real => self.fle(y, x),
            Node::FLe(x, y) if self.real => self.flt(y, x),
            _ => self.mk(Node::Not(a), Sort::Bool),
        }
    }
    pub fn and(&mut self, a: T, b: T) -> T {
        if let Some(v) = self.isb(a) {
            return if v { b } else { a };
        }
        if let Some(v) = self.isb(b) {
            return if v { a } else { b };
        }
        if a == b {
            return a;
        }
        let na = self.not(a);
        if na == b {
            return self.b(false);
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.mk(Node::And(a, b), Sort::Bool)
    }
    pub fn or(&mut self, a: T, b: T) -> T {
        if let Some(v) = self.isb(a) {
            return if v { a } else { b };
        }
        if let Some(v) = self.isb(b) {
            return if v { b } else { a };
        }
        if a == b {
            return a;
        }
        let na = self.not(a);
        if na == b {
            return self.b(true);
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.mk(Node::Or(a, b), Sort::Bool)
    }
    pub fn xorb(&mut self, a: T, b: T) -> T {
        let e = self.eq(a, b);
        self.not(e)
    }
    pub fn ite(&mut self, c: T, a: T, b: T) -> T {
        if let Some(v) = self.isb(c) {
            return if v { a } else { b };
        }
        if a == b {
            return a;
        }
        if let Node::Not(x) = *self.n(c) {
            return self.ite(x, b, a);
        }
        // one form for the minimum and the maximum with a constant
        if let Node::Ult(p, q) = *self.n(c) {
            if (p, q) == (a, b) && self.isbv(q).is_some() {
                let k = self.ult(q, p);
                return self.ite(k, q, p);
            }
            if (q, p) == (a, b) && self.isbv(q).is_some() {
                let k = self.ult(q, p);
                return self.ite(k, p, q);
            }
        }
        let s = self.sort(a);
        if s == Sort::Bool {
            match (self.isb(a), self.isb(b)) {
                (Some(true), Some(false)) => return c,
                (Some(false), Some(true)) => return self.not(c),
                (Some(true), None) => return self.or(c, b),
                (Some(false), None) => {
                    let n = self.not(c);
                    return self.and(n, b);
                }
                (None, Some(true)) => {
                    let n = self.not(c);
                    return self.or(n, a);
                }
                (None, Some(false)) => return self.and(c, a),
                _ => {}
            }
        }
        // nested ite on the same condition
        let a2 = if let Node::Ite(c2, x, _) = *self.n(a) { if c2 == c { x } else { a } } else { a };
        let b2 = if let Node::Ite(c2, _, y) = *self.n(b) { if c2 == c { y } else { b } } else { b };
        if a2 == b2 {
            return a2;
        }
        self.mk(Node::Ite(c, a2, b2), s)
    }
    pub fn eq(&mut self, a: T, b: T) -> T {
        if a == b {
            return self.b(true);
        }
        if let (Some(x), Some(y)) = (self.isbv(a), self.isbv(b)) {
            return self.b(x == y);
        }
        if self.sort(a) == Sort::Bool {
            if let Some(v) = self.isb(a) {
                return if v { b } else { self.not(b) };
            }
            if let Some(v) = self.isb(b) {
                return if v { a } else { self.not(a) };
            }
        } else {
            let (la, ha) = self.interval(a);
            let (lb, hb) = self.interval(b);
            if ha < lb || hb < la {
                return self.b(false);
            }
            // ite(c, k1, k2) == k
            for (x, y) in [(a, b), (b, a)] {
                if let (Node::Ite(c, p, q), Some(k)) = (self.n(x).clone(), self.isbv(y)) {
                    if let (Some(p), Some(q)) = (self.isbv(p), self.isbv(q)) {
                        return if p == k && q == k {
                            self.b(true)
                        } else if p == k {
                            c
                        } else if q == k {
                            self.not(c)
                        } else {
                            self.b(false)
                        };
                    }
                }
                if let (Node::Zext(p, _), Some(k)) = (self.n(x).clone(), self.isbv(y)) {
                    let w = self.sort(p).bits();
                    if k <= mask(w) {
                        let kk = self.bv(w, k);
                        return self.eq(p, kk);
                    }
                    return self.b(false);
                }
            }
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.mk(Node::Eq(a, b), Sort::Bool)
    }
    pub fn ult(&mut self, a: T, b: T) -> T {
        if a == b {
            return self.b(false);
        }
        if self.sort(a) == Sort::Bool {
            let na = self.not(a);
            return self.and(na, b);
        }
        let (la, ha) = self.interval(a);
        let (lb, hb) = self.interval(b);
        if ha < lb {
            return self.b(true);
        }
        if la >= hb {
            return self.b(false);
        }
        self.mk(Node::Ult(a, b), Sort::Bool)
    }
    pub fn ule(&mut self, a: T, b: T) -> T {
        if a == b {
            return self.b(true);
        }
        if self.sort(a) == Sort::Bool {
            let na = self.not(a);
            return self.or(na, b);
        }
        let (la, ha) = self.interval(a);
        let (lb, hb) = self.interval(b);
        if ha <= lb {
            return self.b(true);
        }
        if la > hb {
            return self.b(false);
        }
        self.mk(Node::Ule(a, b), Sort::Bool)
    }
    /// sign bit of a word built from bit patterns of reals by bitwise operations
    fn negative(&mut self, t: T) -> Option<T> {
        let w = self.sort(t).bits();
        match self.n(t).clone() {
            Node::Bits(f, _) => {
                let z = self.f(self.sort(f), 0.0);
                Some(self.flt(f, z))
            }
            Node::Bv(..) => {
                let k = self.isbv(t)? >> (w - 1) & 1 == 1;
                Some(self.b(k))
            }
            Node::Bin(BinOp::Or, a, b) => {
                let (x, y) = (self.negative(a)?, self.negative(b)?);
                Some(self.or(x, y))
            }
            Node::Bin(BinOp::And, a, b) => {
                let (x, y) = (self.negative(a)?, self.negative(b)?);
                Some(self.and(x, y))
            }
            Node::Bin(BinOp::Xor, a, b) => {
                let (x, y) = (self.negative(a)?, self.negative(b)?);
                let e = self.eq(x, y);
                Some(self.not(e))
            }
            Node::Ite(c, a, b) => {
                let (x, y) = (self.negative(a)?, self.negative(b)?);
                Some(self.ite(c, x, y))
            }
            _ => None,
        }
    }
    pub fn slt(&mut self, a: T, b: T) -> T {
        if a == b {
            return self.b(false);
        }
        let w = self.sort(a).bits();
        if let (Some(x), Some(y)) = (self.isbv(a), self.isbv(b)) {
            return self.b(sext(x, w) < sext(y, w));
        }
        if w > 1 {
            // sign-bit tests on float bit patterns
            if self.real {
                if self.isbv(b) == Some(0) {
                    if let Some(n) = self.negative(a) {
                        return n;
                    }
                }
                if self.isbv(a) == Some(mask(w)) {
                    if let Some(n) = self.negative(b) {
                        return self.not(n);
                    }
                }
            }
            let half = 1u128 << (w - 1);
            let (_, ha) = self.interval(a);
            let (_, hb) = self.interval(b);
            if ha < half && hb < half {
                return self.ult(a, b);
            }
        }
        self.mk(Node::Slt(a, b), Sort::Bool)
    }
    pub fn sle(&mut self, a: T, b: T) -> T {
        if a == b {
            return self.b(true);
        }
        let w = self.sort(a).bits();
        if let (Some(x), Some(y)) = (self.isbv(a), self.isbv(b)) {
            return self.b(sext(x, w) <= sext(y, w));
        }
        if self.real && w > 1 {
            // 0 <=s bits  |  bits <=s -1
            if self.isbv(a) == Some(0) {
                if let Some(n) = self.negative(b) {
                    return self.not(n);
                }
            }
            if self.isbv(b) == Some(mask(w)) {
                if let Some(n) = self.negative(a) {
                    return n;
                }
            }
        }
        if w > 1 {
            let half = 1u128 << (w - 1);
            let (_, ha) = self.interval(a);
            let (_, hb) = self.interval(b);
            if ha < half && hb < half {
                return self.ule(a, b);
            }
        }
        self.mk(Node::Sle(a, b), Sort::Bool)
    }
    pub fn interval(&mut self, t: T) -> (u128, u128) {
        let w = self.sort(t).bits();
        if let Some(v) = self.isbv(t) {
            return (v, v);
        }
        if let Some(r) = self.iv.get(&t) {
            return *r;
        }
        let full = (0, mask(w));
        let r = match self.n(t).clone() {
            Node::Zext(a, _) => {
                if self.sort(a) == Sort::Bool { (0, 1) } else { self.interval(a) }
            }
            Node::Var(..) => self.var_range.get(&t).cloned().unwrap_or(full),
            Node::Ite(_, a, b) if self.sort(a) != Sort::Bool => {
                let x = self.interval(a);
                let y = self.interval(b);
                (x.0.min(y.0), x.1.max(y.1))
            }
            Node::Bin(op, a, b) => {
                let x = self.interval(a);
                let y = self.interval(b);
                match op {
                    BinOp::URem => {
                        if y.0 > 0 { (0, x.1.min(y.1 - 1)) } else { (0, x.1) }
                    }
                    BinOp::UDiv => {
                        if y.0 > 0 { (x.0 / y.1, x.1 / y.0) } else { full }
                    }
                    BinOp::And => (0, x.1.min(y.1)),
                    BinOp::LShr => {
                        if y.0 == y.1 && y.0 < w as u128 { (x.0 >> y.0, x.1 >> y.0) } else { (0, x.1) }
                    }
                    BinOp::Add => match x.1.checked_add(y.1) {
                        Some(h) if h <= mask(w) => (x.0 + y.0, h),
                        _ => full,
                    },
                    BinOp::Sub => {
                        if x.0 >= y.1 { (x.0 - y.1, x.1 - y.0) } else { full }
                    }
                    BinOp::Mul => match x.1.checked_mul(y.1) {
                        Some(h) if h <= mask(w) => (x.0 * y.0, h),
                        _ => full,
                    },
                    _ => full,
                }
            }
            Node::Ext(a, 0, w2) => {
                let x = self.interval(a);
                if x.1 <= mask(w2) { x } else { full }
            }
            _ => full,
        };
        self.iv.insert(t, r);
        r
    }
    /// IEEE mode: bounds of a value that is never NaN, from the monotonicity of correctly rounded
    /// operations (computed with the operations of the value's own format)
    pub fn finterval(&mut self, t: T) -> Option<(f64, f64)> {
        if let Some(r) = self.fiv.get(&t) {
            return *r;
        }
        let s = self.sort(t);
        let rnd = |v: f64| if s == Sort::F32 { v as f32 as f64 } else { v };
        let op2 = |op: FB, a: f64, b: f64| {
            if s == Sort::F32 {
                let (a, b) = (a as f32, b as f32);
                (match op { FB::Add => a + b, FB::Sub => a - b, FB::Mul => a * b, _ => a / b }) as f64
            } else {
                match op { FB::Add => a + b, FB::Sub => a - b, FB::Mul => a * b, _ => a / b }
            }
        };
        let fin = |x: (f64, f64)| x.0.is_finite() && x.1.is_finite();
        let r = match self.n(t).clone() {
            Node::F(fs, b) => {
                let v = fval(fs, b);
                if v.is_nan() { None } else { Some((v, v)) }
            }
            Node::UToF(fs, a) => {
                let (lo, hi) = self.interval(a);
                Some(if fs == Sort::F32 { (lo as f32 as f64, hi as f32 as f64) } else { (lo as f64, hi as f64) })
            }
            Node::FCvt(fs, a) => self.finterval(a).map(|x| if fs == Sort::F32 { (x.0 as f32 as f64, x.1 as f32 as f64) } else { x }),
            Node::Ite(c, a, b) => match (self.finterval(a), self.finterval(b)) {
                (Some(x), Some(y)) => match *self.n(c) {
                    Node::FLt(p, q) | Node::FLe(p, q) if p == a && q == b => Some((x.0.min(y.0), x.1.min(y.1))),
                    Node::FLt(p, q) | Node::FLe(p, q) if p == b && q == a => Some((x.0.max(y.0), x.1.max(y.1))),
                    _ => Some((x.0.min(y.0), x.1.max(y.1))),
                },
                _ => None,
            },
            Node::FB(op, a, b) => match (self.finterval(a), self.finterval(b)) {
                (Some(x), Some(y)) => match op {
                    FB::Add | FB::Sub if fin(x) && fin(y) => {
                        let z = if op == FB::Add { y } else { (y.1, y.0) };
                        Some((op2(op, x.0, z.0), op2(op, x.1, z.1)))
                    }
                    FB::Mul | FB::Div if fin(x) && fin(y) && (op == FB::Mul || y.0 > 0.0 || y.1 < 0.0) => {
                        let c = [op2(op, x.0, y.0), op2(op, x.0, y.1), op2(op, x.1, y.0), op2(op, x.1, y.1)];
                        Some((c.iter().cloned().fold(f64::INFINITY, f64::min), c.iter().cloned().fold(f64::NEG_INFINITY, f64::max)))
                    }
                    FB::Min => Some((x.0.min(y.0), x.1.min(y.1))),
                    FB::Max => Some((x.0.max(y.0), x.1.max(y.1))),
                    _ => None,
                },
                _ => None,
            },
            Node::FU(u, a) => {
                let x = self.finterval(a);
                match (u, x) {
                    (Un::Id, x) => x,
                    (Un::Neg, Some(x)) => Some((-x.1, -x.0)),
                    (Un::Abs, Some(x)) => {
                        let h = x.0.abs().max(x.1.abs());
                        Some((if x.0 > 0.0 { x.0 } else if x.1 < 0.0 { -x.1 } else { 0.0 }, h))
                    }
                    (Un::Sqrt, Some(x)) if x.0 >= 0.0 => {
                        Some(if s == Sort::F32 { ((x.0 as f32).sqrt() as f64, (x.1 as f32).sqrt() as f64) } else { (x.0.sqrt(), x.1.sqrt()) })
                    }
                    (Un::Sin, Some(x)) | (Un::Cos, Some(x)) if fin(x) => Some((-1.0, 1.0)),
                    (Un::Ln, Some(x)) if x.0 > 0.0 && fin(x) => {
                        // contract: 1e-5 around the exact value, and the sign is right
                        let lo = x.0.ln();
                        let hi = x.1.ln();
                        let wide = |v: f64, d: f64| v + d * (1e-5 * v.abs() + 1e-30);
                        Some((
                            rnd(if x.0 >= 1.0 { wide(lo, -1.0).max(0.0) } else { wide(lo, -1.0) }),
                            rnd(if x.1 <= 1.0 { wide(hi, 1.0).min(0.0) } else { wide(hi, 1.0) }),
                        ))
                    }
                    (Un::Tanh, Some(_)) => Some((-1.0, 1.0)),
                    _ => None,
                }
            }
            _ => None,
        };
        let r = r.filter(|x| !x.0.is_nan() && !x.1.is_nan());
        self.fiv.insert(t, r);
        r
    }
    /// t = x*c + d without wrap-around
    fn affine(&mut self, t: T) -> (T, u128, u128) {
        let strip = |s: &Self, mut x: T| {
            while let Node::Zext(y, _) = *s.n(x) {
                x = y;
            }
            x
        };
        let mut x = strip(self, t);
        let (mut c, mut d) = (1, 0);
        if let Node::Bin(BinOp::Add, p, q) = *self.n(x) {
            if let Some(k) = self.isbv(q) {
                let m = mask(self.sort(x).bits());
                if self.interval(p).1.checked_add(k).map_or(false, |h| h <= m) {
                    d = k;
                    x = strip(self, p);
                }
            }
        }
        if let Node::Bin(BinOp::Mul, p, q) = *self.n(x) {
            let (y, k) = match (self.isbv(p), self.isbv(q)) {
                (Some(k), _) => (q, k),
                (_, Some(k)) => (p, k),
                _ => return (x, c, d),
            };
            let m = mask(self.sort(x).bits());
            if self.interval(y).1.checked_mul(k).map_or(false, |h| h <= m) {
                c = k;
                x = strip(self, y);
            }
        }
        (x, c, d)
    }
    /// (c*((e*y + f) mod m) + d) mod m = ((c*e mod m)*y + (c*f + d) mod m) mod m
    fn nested_rem(&mut self, a: T, m: u128) -> Option<T> {
        let w = self.sort(a).bits();
        if w < 32 || m >= 1 << 62 {
            return None;
        }
        let (x, c, d) = self.affine(a);
        let i = match *self.n(x) {
            Node::Bin(BinOp::URem, i, k) if self.isbv(k) == Some(m) => i,
            _ => return None,
        };
        let (y, e, f) = self.affine(i);
        let (c2, d2) = ((c % m) * (e % m) % m, ((c % m) * (f % m) % m + d % m) % m);
        let yw = self.sort(y).bits();
        if yw > w || self.interval(y).1.checked_mul(c2)?.checked_add(d2)? > mask(w) {
            return None;
        }
        let y = if yw < w { self.zext(y, w) } else { y };
        let (kc, kd, km) = (self.bv(w, c2), self.bv(w, d2), self.bv(w, m));
        let p = self.bin(BinOp::Mul, y, kc);
        let p = self.bin(BinOp::Add, p, kd);
        Some(self.bin(BinOp::URem, p, km))
    }
    pub fn bin(&mut self, op: BinOp, a: T, b: T) -> T {
        let s = self.sort(a);
        let w = s.bits();
        if s == Sort::Bool {
            return match op {
                BinOp::And | BinOp::Mul => self.and(a, b),
                BinOp::Or => self.or(a, b),
                BinOp::Xor | BinOp::Add | BinOp::Sub => self.xorb(a, b),
                _ => a,
            };
        }
        if let (Some(x), Some(y)) = (self.isbv(a), self.isbv(b)) {
            if let Some(r) = cbin(op, w, x, y) {
                return self.bv(w, r);
            }
        }
        let bc = self.isbv(b);
        let ac = self.isbv(a);
        match (op, ac, bc) {
            (BinOp::Add, Some(0), _) | (BinOp::Or, Some(0), _) | (BinOp::Xor, Some(0), _) => return b,
            (BinOp::Add, _, Some(0))
            | (BinOp::Sub, _, Some(0))
            | (BinOp::Or, _, Some(0))
            | (BinOp::Xor, _, Some(0))
            | (BinOp::Shl, _, Some(0))
            | (BinOp::LShr, _, Some(0))
            | (BinOp::AShr, _, Some(0)) => return a,
            (BinOp::Mul, Some(1), _) => return b,
            (BinOp::Mul, _, Some(1)) | (BinOp::UDiv, _, Some(1)) => return a,
            (BinOp::Mul, Some(0), _) | (BinOp::Mul, _, Some(0)) | (BinOp::And, Some(0), _) | (BinOp::And, _, Some(0)) => {
                return self.bv(w, 0)
            }
            (BinOp::URem, _, Some(1)) => return self.bv(w, 0),
            (BinOp::And, _, Some(m)) if m == mask(w) => return a,
            (BinOp::And, Some(m), _) if m == mask(w) => return b,
            (BinOp::Sub, _, _) if a == b => return self.bv(w, 0),
            (BinOp::Xor, _, _) if a == b => return self.bv(w, 0),
            (BinOp::And, _, _) | (BinOp::Or, _, _) if a == b => return a,
            (BinOp::UDiv, _, Some(k)) if k > 1 => {
                if self.interval(a).1 < k {
                    return self.bv(w, 0);
                }
            }
            (BinOp::URem, _, Some(k)) if k > 1 => {
                if self.interval(a).1 < k {
                    return a;
                }
                if let Some(r) = self.nested_rem(a, k) {
                    return r;
                }
            }
            (BinOp::Xor, _, Some(m)) if m == mask(w) => {}
            _ => {}
        }
        // wide arithmetic on small values
        if w == 128 && matches!(op, BinOp::Mul | BinOp::UDiv | BinOp::URem | BinOp::Add) {
            let (x, y) = (self.interval(a).1, self.interval(b).1);
            let h = match op {
                BinOp::Mul => x.checked_mul(y),
                BinOp::Add => x.checked_add(y),
                _ => Some(x),
            };
            if h.map_or(false, |h| h.max(x).max(y) <= mask(64)) && (matches!(op, BinOp::Mul | BinOp::Add) || self.interval(b).0 > 0) {
                let (p, q) = (self.ext(a, 0, 64), self.ext(b, 0, 64));
                let r = self.bin(op, p, q);
                return self.zext(r, 128);
            }
        }
        // reassociate constants for add
        if op == BinOp::Add {
            if let (Some(c), Node::Bin(BinOp::Add, x, y)) = (bc, self.n(a).clone()) {
                if let Some(d) = self.isbv(y) {
                    let k = self.bv(w, c.wrapping_add(d));
                    return self.bin(BinOp::Add, x, k);
                }
            }
            if ac.is_some() {
                return self.bin(op, b, a);
            }
        }
        if op == BinOp::Sub {
            if let Some(c) = bc {
                let k = self.bv(w, c.wrapping_neg());
                // keep interval information: only for a = x + d form
                if let Node::Bin(BinOp::Add, ..) = self.n(a) {
                    return self.bin(BinOp::Add, a, k);
                }
            }
            if let Node::Bin(BinOp::Add, x, y) = *self.n(a) {
                if x == b {
                    return y;
                }
                if y == b {
                    return x;
                }
            }
        }
        // sign flips of floats through bits
        if self.real {
            let (ba, bb) = (self.bitty(a), self.bitty(b));
            if ba || bb {
                if let (BinOp::Shl | BinOp::LShr, Some(k), true) = (op, bc, ba) {
                    let k = k as u32;
                    if k > 0 && k < w - 1 {
                        if op == BinOp::Shl {
                            let h = self.ext(a, 0, w - k);
                            let z = self.bv_or_bool(k, 0);
                            if k > 1 {
                                return self.cat(h, z);
                            }
                        } else {
                            let h = self.ext(a, k, w - k);
                            return self.zext(h, w);
                        }
                    }
                }
                if let BinOp::Or | BinOp::And | BinOp::Xor = op {
                    let cut = |t: &Self, x: T| match *t.n(x) {
                        Node::Zext(y, _) => Some(t.sort(y).bits()),
                        Node::Cat(_, l) => Some(t.sort(l).bits()),
                        _ => None,
                    };
                    let c = if ba { cut(self, a).or_else(|| cut(self, b)) } else { cut(self, b).or_else(|| cut(self, a)) };
                    if let Some(c) = c {
                        if c > 1 && w - c > 1 {
                            let (al, ah) = (self.ext(a, 0, c), self.ext(a, c, w - c));
                            let (bl, bh) = (self.ext(b, 0, c), self.ext(b, c, w - c));
                            let l = self.bin(op, al, bl);
                            let h = self.bin(op, ah, bh);
                            return self.cat(h, l);
                        }
                    }
                }
            }
            if let (Node::Bits(f, _), Some(m)) = (self.n(a).clone(), bc) {
                let sign = 1u128 << (w - 1);
                if op == BinOp::Xor && m == sign {
                    let n = self.fu(Un::Neg, f);
                    return self.bits(n, w);
                }
                if op == BinOp::And && m == sign - 1 {
                    let n = self.fu(Un::Abs, f);
                    return self.bits(n, w);
                }
                if op == BinOp::LShr && m == (w - 1) as u128 {
                    let z = self.f(self.sort(f), 0.0);
                    let c = self.flt(f, z);
                    return self.zext(c, w);
                }
                if op == BinOp::And && m == sign {
                    let z = self.f(self.sort(f), 0.0);
                    let c = self.flt(f, z);
                    let k = self.bv(w, sign);
                    let zz = self.bv(w, 0);
                    return self.ite(c, k, zz);
                }
            }
        }
        self.mk(Node::Bin(op, a, b), s)
    }
    fn bv_or_bool(&mut self, w: u32, v: u128) -> T {
        if w == 1 { self.b(v & 1 == 1) } else { self.bv(w, v) }
    }
    /// a word with the bit pattern of a real somewhere in it
    fn bitty(&self, t: T) -> bool {
        match *self.n(t) {
            Node::Bits(..) => true,
            Node::Zext(x, _) => self.bitty(x),
            Node::Cat(h, l) => self.bitty(h) || self.bitty(l),
            Node::Ite(_, x, y) => self.bitty(x) || self.bitty(y),
            _ => false,
        }
    }
    pub fn ext(&mut self, a: T, lo: u32, w: u32) -> T {
        let sw = self.sort(a).bits();
        if lo == 0 && w == sw {
            return a;
        }
        match self.n(a).clone() {
            Node::Bv(_, v) => return self.bv(w, v >> lo),
            Node::Ext(x, l2, _) => return self.ext(x, l2 + lo, w),
            Node::Cat(h, l) => {
                let lw = self.sort(l).bits();
                if lo + w <= lw {
                    return self.ext(l, lo, w);
                }
                if lo >= lw {
                    return self.ext(h, lo - lw, w);
                }
            }
            Node::Zext(x, _) => {
                let xw = self.sort(x).bits();
                if lo + w <= xw {
                    return self.ext(x, lo, w);
                }
                if lo >= xw {
                    return self.bv_or_bool(w, 0);
                }
                if lo == 0 {
                    return self.zext(x, w);
                }
            }
            Node::Ite(c, x, y)
                if (self.isbv(x).is_some() && self.isbv(y).is_some())
                    || (self.real && (self.bitty(x) || self.bitty(y))) =>
            {
                let p = self.ext(x, lo, w);
                let q = self.ext(y, lo, w);
                return self.ite(c, p, q);
            }
            Node::Bin(BinOp::Shl, x, k) => {
                if let Some(k) = self.isbv(k) {
                    if k >= (lo + w) as u128 {
                        return self.bv_or_bool(w, 0);
                    }
                    if k <= lo as u128 {
                        return self.ext(x, lo - k as u32, w);
                    }
                }
            }
            Node::Bin(BinOp::LShr, x, k) => {
                if let Some(k) = self.isbv(k) {
                    if k + (lo + w) as u128 <= sw as u128 {
                        return self.ext(x, lo + k as u32, w);
                    }
                }
            }
            Node::Bin(op @ (BinOp::Or | BinOp::And | BinOp::Xor), x, y) if self.real && w > 1 && (self.bitty(x) || self.bitty(y)) => {
                let p = self.ext(x, lo, w);
                let q = self.ext(y, lo, w);
                return self.bin(op, p, q);
            }
            _ => {}
        }
        if w == 1 {
            // produce Bool: bit test
            let e = self.mk(Node::Ext(a, lo, 1), Sort::Bv(1));
            let one = self.mk(Node::Bv(1, 1), Sort::Bv(1));
            return self.mk(Node::Eq(e, one), Sort::Bool);
        }
        self.mk(Node::Ext(a, lo, w), Sort::Bv(w))
    }
    pub fn cat(&mut self, h: T, l: T) -> T {
        let hw = self.sort(h).bits();
        let lw = self.sort(l).bits();
        if let (Some(x), Some(y)) = (self.isbv(h), self.isbv(l)) {
            return self.bv(hw + lw, (x << lw) | y);
        }
        if self.isbv(h) == Some(0) {
            return self.zext(l, hw + lw);
        }
        if let (Node::Ext(x, l1, w1), Node::Ext(y, l2, w2)) = (self.n(h).clone(), self.n(l).clone()) {
            if x == y && l2 + w2 == l1 {
                return self.ext(x, l2, w1 + w2);
            }
        }
        self.mk(Node::Cat(h, l), Sort::Bv(hw + lw))
    }
    pub fn zext(&mut self, a: T, w: u32) -> T {
        let sw = self.sort(a).bits();
        if sw == w {
            return a;
        }
        if self.sort(a) == Sort::Bool {
            let o = self.bv(w, 1);
            let z = self.bv(w, 0);
            return self.ite(a, o, z);
        }
        if let Some(v) = self.isbv(a) {
            return self.bv(w, v);
        }
        if let Node::Zext(x, _) = *self.n(a) {
            return self.zext(x, w);
        }
        self.mk(Node::Zext(a, w), Sort::Bv(w))
    }
    pub fn sextt(&mut self, a: T, w: u32) -> T {
        let sw = self.sort(a).bits();
        if sw == w {
            return a;
        }
        if self.sort(a) == Sort::Bool {
            let o = self.bv(w, mask(w));
            let z = self.bv(w, 0);
            return self.ite(a, o, z);
        }
        if let Some(v) = self.isbv(a) {
            return self.bv(w, sext(v, sw) as u128);
        }
        if let Node::Ite(c, p, q) = *self.n(a) {
            if self.isbv(p).is_some() && self.isbv(q).is_some() {
                let p2 = self.sextt(p, w);
                let q2 = self.sextt(q, w);
                return self.ite(c, p2, q2);
            }
        }
        self.mk(Node::Sext(a, w), Sort::Bv(w))
    }
    pub fn bits(&mut self, f: T, w: u32) -> T {
        match *self.n(f) {
            Node::F(s, b) => {
                let v = if w == 32 { fbits(Sort::F32, fval(s, b)) } else { fbits(Sort::F64, fval(s, b)) };
                return self.bv(w, v as u128);
            }
            Node::FromBits(_, b) if self.sort(b).bits() == w => return b,
            _ => {}
        }
        self.mk(Node::Bits(f, w), Sort::Bv(w))
    }
    pub fn frombits(&mut self, s: Sort, b: T) -> T {
        let w = s.bits();
        match *self.n(b) {
            Node::Bv(_, v) => return self.fb(s, v as u64),
            Node::Bits(f, w2) if w2 == w => return f,
            Node::Ite(c, x, y) => {
                let ok = |n: &Node| matches!(n, Node::Bv(..) | Node::Bits(..) | Node::Ite(..));
                if self.real || ok(self.n(x)) && ok(self.n(y)) {
                    let p = self.frombits(s, x);
                    let q = self.frombits(s, y);
                    return self.ite(c, p, q);
                }
            }
            _ => {}
        }
        let s = self.fs(s);
        self.mk(Node::FromBits(s, b), s)
    }

    // ---- floats ----
    pub fn fu(&mut self, u: Un, a: T) -> T {
        let s = self.sort(a);
        if let Some(v) = self.isf(a) {
            if s == Sort::F32 {
                let x = v as f32;
                let r = match u {
                    Un::Neg => Some(-x),
                    Un::Abs => Some(x.abs()),
                    Un::Sqrt => {
                        let r = x.sqrt();
                        if self.real && (r as f64) * (r as f64) != x as f64 { None } else { Some(r) }
                    }
                    Un::Floor => Some(x.floor()),
                    Un::Ceil => Some(x.ceil()),
                    Un::Trunc => Some(x.trunc()),
                    Un::Round => Some(x.round()),
                    _ => None,
                };
                if let Some(r) = r {
                    return self.fb(s, r.to_bits() as u64);
                }
            } else {
                let r = match u {
                    Un::Neg => Some(-v),
                    Un::Abs => Some(v.abs()),
                    Un::Sqrt => {
                        let r = v.sqrt();
                        if self.real && !(r.fract() == 0.0 && r * r == v) { None } else { Some(r) }
                    }
                    Un::Floor => Some(v.floor()),
                    Un::Ceil => Some(v.ceil()),
                    Un::Trunc => Some(v.trunc()),
                    Un::Round => Some(v.round()),
                    _ => None,
                };
                if let Some(r) = r {
                    return self.fb(s, r.to_bits());
                }
            }
        }
        match (u, self.n(a).clone()) {
            (Un::Neg, Node::FU(Un::Neg, x)) => return x,
            (Un::Abs, Node::FU(Un::Neg, x)) | (Un::Abs, Node::FU(Un::Abs, x)) => return self.fu(Un::Abs, x),
            _ => {}
        }
        if self.real && !(self.opaque && matches!(u, Un::Sin | Un::Cos | Un::Id)) {
            if let Some(r) = self.fu_real(u, a, s) {
                return r;
            }
        }
        self.mk(Node::FU(u, a), s)
    }
    pub fn raw_fu(&mut self, u: Un, a: T) -> T {
        let s = self.sort(a);
        self.mk(Node::FU(u, a), s)
    }
    pub fn raw_fb(&mut self, u: FB, a: T, b: T) -> T {
        let s = self.sort(a);
        self.mk(Node::FB(u, a, b), s)
    }
    fn fu_real(&mut self, u: Un, a: T, s: Sort) -> Option<T> {
        let one = self.f(s, 1.0);
        let zero = self.f(s, 0.0);
        match u {
            Un::Abs => {
                let c = self.flt(a, zero);
                let n = self.fu(Un::Neg, a);
                Some(self.ite(c, n, a))
            }
            Un::Tanh => {
                let e = self.fu(Un::Exp, a);
                let e2 = self.fbin(FB::Mul, e, e);
                let n = self.fbin(FB::Sub, e2, one);
                let d = self.fbin(FB::Add, e2, one);
                Some(self.fbin(FB::Div, n, d))
            }
            Un::Cosh | Un::Sinh => {
                let e = self.fu(Un::Exp, a);
                let i = self.fbin(FB::Div, one, e);
                let h = self.f(s, 0.5);
                let sm = self.fbin(if u == Un::Cosh { FB::Add } else { FB::Sub }, e, i);
                Some(self.fbin(FB::Mul, h, sm))
            }
            Un::ExpM1 => {
                let e = self.fu(Un::Exp, a);
                Some(self.fbin(FB::Sub, e, one))
            }
            Un::Ln1p => {
                let e = self.fbin(FB::Add, a, one);
                Some(self.fu(Un::Ln, e))
            }
            Un::Tan => {
                let si = self.fu(Un::Sin, a);
                let co = self.fu(Un::Cos, a);
                Some(self.fbin(FB::Div, si, co))
            }
            Un::Exp => {
                if self.isf(a) == Some(0.0) {
                    return Some(one);
                }
                // exp(ln x) = x
                if let Node::FU(Un::Ln, x) = *self.n(a) {
                    return Some(x);
                }
                // exp(ite) distributes
                if let Node::Ite(c, x, y) = *self.n(a) {
                    let p = self.fu(Un::Exp, x);
                    let q = self.fu(Un::Exp, y);
                    return Some(self.ite(c, p, q));
                }
                // exp of a sum is the product of the exps (case distinctions always apart)
                if let Some(parts) = poly::exp_parts(self, a) {
                    let mut num = one;
                    let mut den = one;
                    for (k, x) in parts {
                        let e = self.fu(Un::Exp, x);
                        for _ in 0..k.unsigned_abs() {
                            if k > 0 { num = self.fbin(FB::Mul, num, e) } else { den = self.fbin(FB::Mul, den, e) }
                        }
                    }
                    return Some(self.fbin(FB::Div, num, den));
                }
                // canonical primitive argument with integer content
                let (k, prim) = poly::split_content(self, a)?;
                let e = self.raw_fu(Un::Exp, prim);
                let mut p = e;
                for _ in 1..k.unsigned_abs() {
                    p = self.fbin(FB::Mul, p, e);
                }
                Some(if k < 0 { self.fbin(FB::Div, one, p) } else { p })
            }
            Un::Ln => {
                if self.isf(a) == Some(1.0) {
                    return Some(zero);
                }
                match self.n(a).clone() {
                    Node::FU(Un::Exp, x) => return Some(x),
                    Node::Ite(c, x, y) => {
                        let p = self.fu(Un::Ln, x);
                        let q = self.fu(Un::Ln, y);
                        return Some(self.ite(c, p, q));
                    }
                    Node::FB(FB::Div, x, y) if self.syn_pos(x) && self.syn_pos(y) => {
                        let p = self.fu(Un::Ln, x);
                        let q = self.fu(Un::Ln, y);
                        return Some(self.fbin(FB::Sub, p, q));
                    }
                    Node::FB(FB::Mul, x, y) if self.syn_pos(x) && self.syn_pos(y) => {
                        let p = self.fu(Un::Ln, x);
                        let q = self.fu(Un::Ln, y);
                        return Some(self.fbin(FB::Add, p, q));
                    }
                    _ => {}
                }
                let c = poly::canon(self, a);
                Some(self.raw_fu(Un::Ln, c))
            }
            Un::Sqrt => {
                let c = poly::canon(self, a);
                if let Some(v) = self.isf(c) {
                    if v == 0.0 || v == 1.0 {
                        return Some(self.f(s, v));
                    }
                }
                Some(self.raw_fu(Un::Sqrt, c))
            }
            Un::Sin | Un::Cos => {
                if self.isf(a) == Some(0.0) {
                    return Some(if u == Un::Sin { zero } else { one });
                }
                match self.n(a).clone() {
                    Node::Ite(c, x, y) => {
                        let p = self.fu(u, x);
                        let q = self.fu(u, y);
                        return Some(self.ite(c, p, q));
                    }
                    Node::FB(FB::Atan2, y, x) => {
                        let yy = self.fbin(FB::Mul, y, y);
                        let xx = self.fbin(FB::Mul, x, x);
                        let r2 = self.fbin(FB::Add, xx, yy);
                        let r = self.fu(Un::Sqrt, r2);
                        let z = self.feq(r2, zero);
                        let v = self.fbin(FB::Div, if u == Un::Cos { x } else { y }, r);
                        let d = if u == Un::Cos { one } else { zero };
                        return Some(self.ite(z, d, v));
                    }
                    Node::FU(Un::Atan, t) => {
                        let tt = self.fbin(FB::Mul, t, t);
                        let o = self.fbin(FB::Add, one, tt);
                        let r = self.fu(Un::Sqrt, o);
                        return Some(self.fbin(FB::Div, if u == Un::Cos { one } else { t }, r));
                    }
                    _ => {}
                }
                let (neg, c) = poly::split_sign(self, a)?;
                if let Node::FB(FB::Atan2, ..) | Node::FU(Un::Atan, _) = self.n(c) {
                    let r = self.fu(u, c);
                    return Some(if neg && u == Un::Sin { self.fu(Un::Neg, r) } else { r });
                }
                // sin(2p), cos(2p) expressed over p when the content is even
                if let Some((k, prim)) = poly::split_content(self, c) {
                    if k == 2 {
                        let sp = self.fu(Un::Sin, prim);
                        let cp = self.fu(Un::Cos, prim);
                        let two = self.f(s, 2.0);
                        let r = if u == Un::Sin {
                            let m = self.fbin(FB::Mul, sp, cp);
                            self.fbin(FB::Mul, two, m)
                        } else {
                            let m = self.fbin(FB::Mul, cp, cp);
                            let m2 = self.fbin(FB::Mul, two, m);
                            self.fbin(FB::Sub, m2, one)
                        };
                        return Some(if neg && u == Un::Sin { self.fu(Un::Neg, r) } else { r });
                    }
                }
                let r = self.raw_fu(u, c);
                Some(if neg && u == Un::Sin { self.fu(Un::Neg, r) } else { r })
            }
            Un::Atan | Un::Asin | Un::Acos | Un::Cbrt | Un::Exp2 | Un::Log2 | Un::Log10 | Un::Floor | Un::Ceil | Un::Round
            | Un::RoundEven | Un::Trunc => {
                let c = poly::canon(self, a);
                Some(self.raw_fu(u, c))
            }
            _ => None,
        }
    }
    /// syntactically positive real
    pub fn syn_pos(&self, t: T) -> bool {
        match *self.n(t) {
            Node::F(s, b) => fval(s, b) > 0.0,
            Node::FU(Un::Exp, _) | Node::FU(Un::Cosh, _) => true,
            Node::FB(FB::Add, a, b) => (self.syn_pos(a) && self.syn_nonneg(b)) || (self.syn_nonneg(a) && self.syn_pos(b)),
            Node::FB(FB::Mul, a, b) | Node::FB(FB::Div, a, b) => self.syn_pos(a) && self.syn_pos(b),
            Node::Ite(_, a, b) => self.syn_pos(a) && self.syn_pos(b),
            Node::FCvt(_, a) => self.syn_pos(a),
            _ => false,
        }
    }
    pub fn syn_nonneg(&self, t: T) -> bool {
        match *self.n(t) {
            Node::F(s, b) => fval(s, b) >= 0.0,
            Node::FU(Un::Exp, _) | Node::FU(Un::Sqrt, _) | Node::FU(Un::Abs, _) | Node::UToF(..) => true,
            Node::FB(FB::Add, a, b) => self.syn_nonneg(a) && self.syn_nonneg(b),
            Node::FB(FB::Mul, a, b) => a == b || (self.syn_nonneg(a) && self.syn_nonneg(b)),
            Node::FB(FB::Div, a, b) => self.syn_nonneg(a) && self.syn_nonneg(b),
            Node::Ite(_, a, b) => self.syn_nonneg(a) && self.syn_nonneg(b),
            Node::FCvt(_, a) => self.syn_nonneg(a),
            _ => false,
        }
    }
    pub fn fbin(&mut self, op: FB, a: T, b: T) -> T {
        let s = self.sort(a);
        if let (Some(x), Some(y)) = (self.isf(a), self.isf(b)) {
            if let Some(r) = self.fold(op, s, x, y) {
                return r;
            }
        }
        if self.opaque {
            if let Some(r) = self.wave(op, a, b, s) {
                return r;
            }
        }
        if self.real {
            if let Some(r) = self.fbin_real(op, a, b, s) {
                return r;
            }
        }
        // commutative normal order (exact for IEEE add/mul too)
        let (a, b) = if matches!(op, FB::Add | FB::Mul) && b < a { (b, a) } else { (a, b) };
        self.mk(Node::FB(op, a, b), s)
    }
    fn wave(&mut self, op: FB, a: T, b: T, s: Sort) -> Option<T> {
        let trig = |t: &Self, x: T| matches!(t.n(x), Node::FU(Un::Sin | Un::Cos, _));
        let inner = |t: &Self, x: T| match *t.n(x) {
            Node::FU(Un::Id, y) => Some(y),
            _ => None,
        };
        let (x, y) = match op {
            FB::Mul if trig(self, a) != trig(self, b) && self.isf(a) != Some(0.0) && self.isf(b) != Some(0.0) => (a, b),
            FB::Add | FB::Sub => (inner(self, a)?, inner(self, b)?),
            _ => return None,
        };
        let r = self.mk(Node::FB(op, x, y), s);
        Some(self.raw_fu(Un::Id, r))
    }
    fn fold(&mut self, op: FB, s: Sort, x: f64, y: f64) -> Option<T> {
        if self.real && x.is_finite() && y.is_finite() {
            let r = match op {
                FB::Min => return Some(self.f(s, x.min(y))),
                FB::Max => return Some(self.f(s, x.max(y))),
                FB::CopySign => return Some(self.f(s, x.copysign(y))),
                FB::Add | FB::Sub | FB::Mul | FB::Div => {
                    if op == FB::Div && y == 0.0 {
                        return Some(self.f(s, f64::NAN));
                    }
                    let (p, q) = (poly::Rat::from_f64(x)?, poly::Rat::from_f64(y)?);
                    match op {
                        FB::Add => p.add(q)?,
                        FB::Sub => p.add(poly::Rat { n: -q.n, d: q.d })?,
                        FB::Mul => p.mul(q)?,
                        _ => p.mul(poly::Rat::new(q.d, q.n)?)?,
                    }
                }
                _ => return None,
            };
            // fold only when the real result is exactly a double
            let v = r.n as f64 / r.d as f64;
            if poly::Rat::from_f64(v)? == r {
                return Some(self.f(s, v));
            }
            return None;
        }
        if self.real {
            let r = match op {
                FB::Add => x + y,
                FB::Sub => x - y,
                FB::Mul => x * y,
                FB::Div => x / y,
                FB::Min => x.min(y),
                FB::Max => x.max(y),
                _ => return None,
            };
            return Some(self.f(s, r));
        }
        if s == Sort::F32 {
            let (x, y) = (x as f32, y as f32);
            let r = match op {
                FB::Add => x + y,
                FB::Sub => x - y,
                FB::Mul => x * y,
                FB::Div => x / y,
                FB::Rem => x % y,
                FB::CopySign => x.copysign(y),
                _ => return None,
            };
            Some(self.fb(s, r.to_bits() as u64))
        } else {
            let r = match op {
                FB::Add => x + y,
                FB::Sub => x - y,
                FB::Mul => x * y,
                FB::Div => x / y,
                FB::Rem => x % y,
                FB::CopySign => x.copysign(y),
                _ => return None,
            };
            Some(self.fb(s, r.to_bits()))
        }
    }
    fn fbin_real(&mut self, op: FB, a: T, b: T, s: Sort) -> Option<T> {
        let ac = self.isf(a);
        let bc = self.isf(b);
        let inf = |v: Option<f64>| v.map_or(false, |x| !x.is_finite());
        if inf(ac) || inf(bc) {
            // only min/max against infinities are meaningful here
            return match op {
                FB::Min | FB::Max => {
                    let (k, o) = if inf(ac) { (ac.unwrap(), b) } else { (bc.unwrap(), a) };
                    if k.is_nan() {
                        return Some(o);
                    }
                    let take_o = (op == FB::Min) == (k > 0.0);
                    Some(if take_o { o } else { self.f(s, k) })
                }
                FB::Div if inf(bc) && !bc.unwrap().is_nan() => Some(self.f(s, 0.0)),
                FB::Add | FB::Sub | FB::Mul | FB::Div => Some(self.f(s, f64::NAN)),
                _ => None,
            };
        }
        match op {
            FB::Add => {
                if ac == Some(0.0) {
                    return Some(b);
                }
                if bc == Some(0.0) {
                    return Some(a);
                }
                if let Node::FU(Un::Neg, x) = *self.n(b) {
                    return Some(self.fbin(FB::Sub, a, x));
                }
            }
            FB::Sub => {
                if bc == Some(0.0) {
                    return Some(a);
                }
                if ac == Some(0.0) {
                    return Some(self.fu(Un::Neg, b));
                }
                if a == b {
                    return Some(self.f(s, 0.0));
                }
                if let Node::FU(Un::Neg, x) = *self.n(b) {
                    return Some(self.fbin(FB::Add, a, x));
                }
            }
            FB::Mul => {
                if ac == Some(0.0) || bc == Some(0.0) {
                    return Some(self.f(s, 0.0));
                }
                if ac == Some(1.0) {
                    return Some(b);
                }
                if bc == Some(1.0) {
                    return Some(a);
                }
                if ac == Some(-1.0) {
                    return Some(self.fu(Un::Neg, b));
                }
                if bc == Some(-1.0) {
                    return Some(self.fu(Un::Neg, a));
                }
                if a == b {
                    if let Node::FU(Un::Sqrt, x) = *self.n(a) {
                        return Some(x);
                    }
                }
                if let (Node::FU(Un::Neg, x), Node::FU(Un::Neg, y)) = (self.n(a).clone(), self.n(b).clone()) {
                    return Some(self.fbin(FB::Mul, x, y));
                }
            }
            FB::Div => {
                if bc == Some(0.0) {
                    return Some(self.f(s, f64::NAN));
                }
                if bc == Some(1.0) {
                    return Some(a);
                }
                if bc == Some(-1.0) {
                    return Some(self.fu(Un::Neg, a));
                }
                if ac == Some(0.0) {
                    return Some(a);
                }
            }
            FB::Min => {
                let c = self.flt(a, b);
                return Some(self.ite(c, a, b));
            }
            FB::Max => {
                let c = self.flt(b, a);
                return Some(self.ite(c, a, b));
            }
            FB::Hypot => {
                let p = self.fbin(FB::Mul, a, a);
                let q = self.fbin(FB::Mul, b, b);
                let r = self.fbin(FB::Add, p, q);
                return Some(self.fu(Un::Sqrt, r));
            }
            FB::CopySign => {
                let m = self.fu(Un::Abs, a);
                let n = self.fu(Un::Neg, m);
                let z = self.f(s, 0.0);
                let c = self.flt(b, z);
                return Some(self.ite(c, n, m));
            }
            FB::Pow => {
                if let Some(k) = bc {
                    if k.fract() == 0.0 && k.abs() <= 8.0 {
                        return Some(self.powi(a, k as i32));
                    }
                    if k == 0.5 {
                        return Some(self.fu(Un::Sqrt, a));
                    }
                }
                // pow(x,y) = exp(y ln x)
                let l = self.fu(Un::Ln, a);
                let m = self.fbin(FB::Mul, b, l);
                return Some(self.fu(Un::Exp, m));
            }
            FB::Atan2 => {
                // positive common scale is not removed; canonicalise both arguments
                let x = poly::canon(self, a);
                let y = poly::canon(self, b);
                return Some(self.raw_fb(FB::Atan2, x, y));
            }
            _ => {}
        }
        None
    }
    pub fn powi(&mut self, a: T, k: i32) -> T {
        let s = self.sort(a);
        let one = self.f(s, 1.0);
        if k == 0 {
            return one;
        }
        let mut r = a;
        for _ in 1..k.unsigned_abs() {
            r = self.fbin(FB::Mul, r, a);
        }
        if k < 0 { self.fbin(FB::Div, one, r) } else { r }
    }
    pub fn fma(&mut self, a: T, b: T, c: T) -> T {
        if self.real {
            let m = self.fbin(FB::Mul, a, b);
            return self.fbin(FB::Add, m, c);
        }
        let s = self.sort(a);
        self.mk(Node::Fma(a, b, c), s)
    }
    /// a - b as a polynomial with positive leading coefficient: (negated, polynomial)
    fn cmp_canon(&mut self, a: T, b: T) -> Option<(bool, T)> {
        let comp = |n: &Node| matches!(n, Node::FB(FB::Add | FB::Sub | FB::Mul, ..));
        if !comp(self.n(a)) && !comp(self.n(b)) {
            return None;
        }
        crate::poly::difference(self, a, b)
    }
    pub fn flt(&mut self, a: T, b: T) -> T {
        if self.real {
            if let Some((neg, d)) = self.cmp_canon(a, b) {
                let z = self.f(Sort::F64, 0.0);
                return if neg { self.flt0(z, d) } else { self.flt0(d, z) };
            }
        }
        self.flt0(a, b)
    }
    pub fn fle(&mut self, a: T, b: T) -> T {
        if self.real {
            if let Some((neg, d)) = self.cmp_canon(a, b) {
                let z = self.f(Sort::F64, 0.0);
                return if neg { self.fle0(z, d) } else { self.fle0(d, z) };
            }
        }
        self.fle0(a, b)
    }
    pub fn feq(&mut self, a: T, b: T) -> T {
        if self.real {
            if let Some((_, d)) = self.cmp_canon(a, b) {
                let z = self.f(Sort::F64, 0.0);
                return self.feq0(d, z);
            }
        } else if a == b && self.finterval(a).is_some() {
            return self.b(true);
        }
        self.feq0(a, b)
    }
    fn flt0(&mut self, a: T, b: T) -> T {
        if let (Some(x), Some(y)) = (self.isf(a), self.isf(b)) {
            return self.b(x < y);
        }
        if a == b {
            return self.b(false);
        }
        if self.real {
            if let Some(y) = self.isf(b) {
                if !y.is_finite() {
                    return self.b(y == f64::INFINITY);
                }
                if y <= 0.0 && self.syn_nonneg(a) {
                    return self.b(false);
                }
            }
            if let Some(x) = self.isf(a) {
                if !x.is_finite() {
                    return self.b(x == f64::NEG_INFINITY);
                }
                if x <= 0.0 && self.syn_pos(b) {
                    return self.b(true);
                }
            }
        }
        self.mk(Node::FLt(a, b), Sort::Bool)
    }
    fn fle0(&mut self, a: T, b: T) -> T {
        if let (Some(x), Some(y)) = (self.isf(a), self.isf(b)) {
            return self.b(x <= y);
        }
        if self.real {
            if a == b {
                return self.b(true);
            }
            if let Some(y) = self.isf(b) {
                if !y.is_finite() {
                    return self.b(y == f64::INFINITY);
                }
                if y <= 0.0 && self.syn_pos(a) {
                    return self.b(false);
                }
            }
            if let Some(x) = self.isf(a) {
                if !x.is_finite() {
                    return self.b(x == f64::NEG_INFINITY);
                }
                if x <= 0.0 && self.syn_nonneg(b) {
                    return self.b(true);
                }
            }
        }
        self.mk(Node::FLe(a, b), Sort::Bool)
    }
    fn feq0(&mut self, a: T, b: T) -> T {
        if let (Some(x), Some(y)) = (self.isf(a), self.isf(b)) {
            return self.b(x == y);
        }
        if self.real {
            if a == b {
                return self.b(true);
            }
            for (x, y) in [(a, b), (b, a)] {
                if let Some(k) = self.isf(x) {
                    if !k.is_finite() {
                        return self.b(false);
                    }
                    if k == 0.0 && self.syn_pos(y) {
                        return self.b(false);
                    }
                }
            }
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.mk(Node::FEq(a, b), Sort::Bool)
    }
    pub fn fnan(&mut self, a: T) -> T {
        if let Some(x) = self.isf(a) {
            return self.b(x.is_nan());
        }
        if self.real {
            return self.b(false);
        }
        if self.finterval(a).is_some() || matches!(self.n(a), Node::SToF(..)) {
            return self.b(false);
        }
        self.mk(Node::FNan(a), Sort::Bool)
    }
    pub fn fcvt(&mut self, s: Sort, a: T) -> T {
        if self.real {
            return a;
        }
        let sa = self.sort(a);
        if sa == s {
            return a;
        }
        if let Some(x) = self.isf(a) {
            return self.f(s, x);
        }
        self.mk(Node::FCvt(s, a), s)
    }
    pub fn utof(&mut self, s: Sort, a: T) -> T {
        if let Node::Zext(x, _) = *self.n(a) {
            if self.sort(x) != Sort::Bool {
                return self.utof(s, x);
            }
        }
        let s = self.fs(s);
        if let Some(v) = self.isbv(a) {
            return match s {
                Sort::F32 => self.fb(s, (v as f32).to_bits() as u64),
                _ => self.fb(s, (v as f64).to_bits()),
            };
        }
        if let Node::Zext(x, _) = *self.n(a) {
            return self.utof(s, x);
        }
        if let Node::Ite(c, x, y) = *self.n(a) {
            if self.isbv(x).is_some() || self.isbv(y).is_some() {
                let p = self.utof(s, x);
                let q = self.utof(s, y);
                return self.ite(c, p, q);
            }
        }
        self.mk(Node::UToF(s, a), s)
    }
    pub fn stof(&mut self, s: Sort, a: T) -> T {
        let s = self.fs(s);
        let w = self.sort(a).bits();
        if let Some(v) = self.isbv(a) {
            let v = sext(v, w);
            return match s {
                Sort::F32 => self.fb(s, (v as f32).to_bits() as u64),
                _ => self.fb(s, (v as f64).to_bits()),
            };
        }
        if w > 1 && self.interval(a).1 < (1u128 << (w - 1)) {
            return self.utof(s, a);
        }
        self.mk(Node::SToF(s, a), s)
    }
    pub fn ftou(&mut self, w: u32, a: T) -> T {
        if let Some(x) = self.isf(a) {
            let v = if w == 128 { x as u128 } else { (x as u128).min(mask(w)) };
            return self.bv(w, v);
        }
        if let Node::UToF(s, x) = *self.n(a) {
            // exact when the integer is small enough
            let lim = if s == Sort::F32 { 1u128 << 24 } else { 1u128 << 53 };
            if self.interval(x).1 <= lim {
                let xw = self.sort(x).bits();
                return if xw >= w { self.ext(x, 0, w) } else { self.zext(x, w) };
            }
        }
        self.mk(Node::FToU(w, a), Sort::Bv(w))
    }
    pub fn ftos(&mut self, w: u32, a: T) -> T {
        if let Some(x) = self.isf(a) {
            let lo = if w == 128 { i128::MIN } else { -(1i128 << (w - 1)) };
            let hi = if w == 128 { i128::MAX } else { (1i128 << (w - 1)) - 1 };
            let v = (x as i128).clamp(lo, hi);
            return self.bv(w, v as u128);
        }
        self.mk(Node::FToS(w, a), Sort::Bv(w))
    }
    pub fn kids(&self, t: T) -> Vec<T> {
        match *self.n(t) {
            Node::B(_) | Node::Bv(..) | Node::F(..) | Node::Var(..) => vec![],
            Node::Not(a)
            | Node::Ext(a, _, _)
            | Node::Zext(a, _)
            | Node::Sext(a, _)
            | Node::FU(_, a)
            | Node::FNan(a)
            | Node::FCvt(_, a)
            | Node::UToF(_, a)
            | Node::SToF(_, a)
            | Node::FToU(_, a)
            | Node::FToS(_, a)
            | Node::Bits(a, _)
            | Node::FromBits(_, a) => vec![a],
            Node::And(a, b)
            | Node::Or(a, b)
            | Node::Eq(a, b)
            | Node::Ult(a, b)
            | Node::Ule(a, b)
            | Node::Slt(a, b)
            | Node::Sle(a, b)
            | Node::Bin(_, a, b)
            | Node::Cat(a, b)
            | Node::FB(_, a, b)
            | Node::FLt(a, b)
            | Node::FLe(a, b)
            | Node::FEq(a, b) => vec![a, b],
            Node::Ite(a, b, c) | Node::Fma(a, b, c) => vec![a, b, c],
        }
    }
    /// rebuild a node with new children (through the simplifying constructors)
    pub fn rebuild(&mut self, t: T, k: &[T]) -> T {
        match self.n(t).clone() {
            Node::B(_) | Node::Bv(..) | Node::F(..) | Node::Var(..) => t,
            Node::Not(_) => self.not(k[0]),
            Node::And(..) => self.and(k[0], k[1]),
            Node::Or(..) => self.or(k[0], k[1]),
            Node::Ite(..) => self.ite(k[0], k[1], k[2]),
            Node::Eq(..) => {
                if self.sort(k[0]) == Sort::Bv(1) {
                    // bit test produced by ext(.,.,1)
                    if let (Some(x), Some(y)) = (self.isbv(k[0]), self.isbv(k[1])) {
                        return self.b(x == y);
                    }
                    return self.mk(Node::Eq(k[0], k[1]), Sort::Bool);
                }
                self.eq(k[0], k[1])
            }
            Node::Ult(..) => self.ult(k[0], k[1]),
            Node::Ule(..) => self.ule(k[0], k[1]),
            Node::Slt(..) => self.slt(k[0], k[1]),
            Node::Sle(..) => self.sle(k[0], k[1]),
            Node::Bin(op, ..) => self.bin(op, k[0], k[1]),
            Node::Ext(_, lo, w) => {
                if w == 1 {
                    if let Some(v) = self.isbv(k[0]) {
                        return self.mk(Node::Bv(1, (v >> lo) & 1), Sort::Bv(1));
                    }
                    return self.mk(Node::Ext(k[0], lo, 1), Sort::Bv(1));
                }
                self.ext(k[0], lo, w)
            }
            Node::Cat(..) => self.cat(k[0], k[1]),
            Node::Zext(_, w) => self.zext(k[0], w),
            Node::Sext(_, w) => self.sextt(k[0], w),
            Node::FB(op, ..) => self.fbin(op, k[0], k[1]),
            Node::FU(u, _) => self.fu(u, k[0]),
            Node::Fma(..) => self.fma(k[0], k[1], k[2]),
            Node::FLt(..) => self.flt(k[0], k[1]),
            Node::FLe(..) => self.fle(k[0], k[1]),
            Node::FEq(..) => self.feq(k[0], k[1]),
            Node::FNan(_) => self.fnan(k[0]),
            Node::FCvt(s, _) => self.fcvt(s, k[0]),
            Node::UToF(s, _) => self.utof(s, k[0]),
            Node::SToF(s, _) => self.stof(s, k[0]),
            Node::FToU(w, _) => self.ftou(w, k[0]),
            Node::FToS(w, _) => self.ftos(w, k[0]),
            Node::Bits(_, w) => self.bits(k[0], w),
            Node::FromBits(s, _) => self.frombits(s, k[0]),
        }
    }
    /// substitute sub-terms according to `m` (memoised in `memo`)
    pub fn subst(&mut self, t: T, m: &HashMap<T, T>, memo: &mut HashMap<T, T>) -> T {
        if m.is_empty() {
            return t;
        }
        let mut stack = vec![(t, false)];
        while let Some((x, done)) = stack.pop() {
            if memo.contains_key(&x) {
                continue;
            }
            if let Some(r) = m.get(&x) {
                memo.insert(x, *r);
                continue;
            }
            let ks = self.kids(x);
            if done {
                let nk: Vec<T> = ks.iter().map(|k| memo[k]).collect();
                let r = if nk == ks { x } else { self.rebuild(x, &nk) };
                let r = *m.get(&r).unwrap_or(&r);
                memo.insert(x, r);
            } else {
                stack.push((x, true));
                for k in ks {
                    if !memo.contains_key(&k) {
                        stack.push((k, false));
                    }
                }
            }
        }
        memo[&t]
    }
}

pub fn cbin(op: BinOp, w: u32, x: u128, y: u128) -> Option<u128> {
    let m = mask(w);
    Some(
        match op {
            BinOp::Add => x.wrapping_add(y),
            BinOp::Sub => x.wrapping_sub(y),
            BinOp::Mul => x.wrapping_mul(y),
            BinOp::UDiv => x.checked_div(y)?,
            BinOp::URem => x.checked_rem(y)?,
            BinOp::SDiv => sext(x, w).checked_div(sext(y, w))? as u128,
            BinOp::SRem => sext(x, w).checked_rem(sext(y, w))? as u128,
            BinOp::Shl => {
                if y >= w as u128 { 0 } else { x << y }
            }
            BinOp::LShr => {
                if y >= w as u128 { 0 } else { x >> y }
            }
            BinOp::AShr => {
                let y = y.min(w as u128 - 1);
                (sext(x, w) >> y) as u128
            }
            BinOp::And => x & y,
            BinOp::Or => x | y,
            BinOp::Xor => x ^ y,
        } & m,
    )
}
