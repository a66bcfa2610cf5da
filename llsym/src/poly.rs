//! Polynomial normal forms over the reals, used to canonicalise arguments of
//! uninterpreted functions (exp, ln, sqrt, sin, cos, atan2) and to pre-normalise equalities.
use crate::term::*;
use std::collections::{BTreeMap, HashSet};
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub struct Rat {
    pub n: i128,
    pub d: i128,
}
fn gcd(a: i128, b: i128) -> i128 {
    let (mut a, mut b) = (a.unsigned_abs(), b.unsigned_abs());
    while b != 0 {
        let t = a % b;
        a = b;
        b = t;
    }
    a as i128
}
impl Rat {
    pub fn int(n: i128) -> Rat {
        Rat { n, d: 1 }
    }
    pub fn new(n: i128, d: i128) -> Option<Rat> {
        if d == 0 {
            return None;
        }
        let g = gcd(n, d).max(1);
        let (n, d) = (n / g, d / g);
        Some(if d < 0 { Rat { n: n.checked_neg()?, d: d.checked_neg()? } } else { Rat { n, d } })
    }
    pub fn add(self, o: Rat) -> Option<Rat> {
        let g = gcd(self.d, o.d).max(1);
        let l = (self.d / g).checked_mul(o.d)?;
        let a = self.n.checked_mul(o.d / g)?;
        let b = o.n.checked_mul(self.d / g)?;
        Rat::new(a.checked_add(b)?, l)
    }
    pub fn mul(self, o: Rat) -> Option<Rat> {
        let g1 = gcd(self.n, o.d).max(1);
        let g2 = gcd(o.n, self.d).max(1);
        Rat::new((self.n / g1).checked_mul(o.n / g2)?, (self.d / g2).checked_mul(o.d / g1)?)
    }
    pub fn from_f64(v: f64) -> Option<Rat> {
        if !v.is_finite() {
            return None;
        }
        if v == 0.0 {
            return Some(Rat::int(0));
        }
        let b = v.to_bits();
        let e = ((b >> 52) & 0x7ff) as i32;
        let m = (b & ((1 << 52) - 1)) as i128;
        let (m, e) = if e == 0 { (m, -1074) } else { (m | (1 << 52), e - 1075) };
        let tz = m.trailing_zeros() as i32;
        let (m, e) = (m >> tz, e + tz);
        let m = if v < 0.0 { -m } else { m };
        if e >= 0 {
            if e > 60 {
                return None;
            }
            Some(Rat { n: m.checked_mul(1i128 << e)?, d: 1 })
        } else {
            if e < -100 {
                return None;
            }
            Rat::new(m, 1i128 << (-e))
        }
    }
}

pub type Mono = Vec<(T, i32)>;
pub type Poly = BTreeMap<Mono, Rat>;

const LIMIT: usize = 400;

fn padd(a: &Poly, b: &Poly, k: Rat) -> Option<Poly> {
    let mut r = a.clone();
    for (m, c) in b {
        let c = c.mul(k)?;
        let e = r.entry(m.clone()).or_insert(Rat::int(0));
        *e = e.add(c)?;
        if e.n == 0 {
            r.remove(m);
        }
    }
    Some(r)
}

fn mmul(a: &Mono, b: &Mono) -> Mono {
    let mut r: Mono = Vec::with_capacity(a.len() + b.len());
    let (mut i, mut j) = (0, 0);
    while i < a.len() || j < b.len() {
        if j >= b.len() || (i < a.len() && a[i].0 < b[j].0) {
            r.push(a[i]);
            i += 1;
        } else if i >= a.len() || b[j].0 < a[i].0 {
            r.push(b[j]);
            j += 1;
        } else {
            let e = a[i].1 + b[j].1;
            if e != 0 {
                r.push((a[i].0, e));
            }
            i += 1;
            j += 1;
        }
    }
    r
}

/// multiply two monomials and reduce sqrt(t)^2 -> t, sin^2 -> 1 - cos^2
fn mono_mul_reduce(ar: &mut Arena, a: &Mono, b: &Mono, lim: usize) -> Option<Poly> {
    let m = mmul(a, b);
    reduce_mono(ar, m, lim)
}
fn reduce_mono(ar: &mut Arena, m: Mono, lim: usize) -> Option<Poly> {
    let mut m = m;
    for x in m.iter_mut() {
        // an indicator is its own square
        if x.1 >= 2 {
            if let Node::Ite(_, a, b) = *ar.n(x.0) {
                if ar.isf(a) == Some(1.0) && ar.isf(b) == Some(0.0) {
                    x.1 = 1;
                }
            }
        }
    }
    for i in 0..m.len() {
        let (t, e) = m[i];
        let rep: Option<Poly> = match *ar.n(t) {
            Node::FU(Un::Sqrt, x) if e >= 2 || e <= -2 => {
                if e >= 2 {
                    Some((*to_poly_l(ar, x, lim)?).clone())
                } else {
                    // 1/sqrt(x)^2 = 1/x
                    let p = to_poly_l(ar, x, lim)?;
                    Some(inv_poly(ar, &p)?)
                }
            }
            Node::FU(Un::Sin, x) if e >= 2 => {
                let c = ar.raw_fu(Un::Cos, x);
                let mut p = Poly::new();
                p.insert(vec![], Rat::int(1));
                p.insert(vec![(c, 2)], Rat::int(-1));
                Some(p)
            }
            _ => None,
        };
        if let Some(rep) = rep {
            let mut rest = m.clone();
            let step = if e > 0 { 2 } else { -2 };
            if e == step {
                rest.remove(i);
            } else {
                rest[i].1 -= step;
            }
            let restp = reduce_mono(ar, rest, lim)?;
            return pmul(ar, &restp, &rep, lim);
        }
    }
    let mut p = Poly::new();
    p.insert(m, Rat::int(1));
    Some(p)
}

fn pmul(ar: &mut Arena, a: &Poly, b: &Poly, lim: usize) -> Option<Poly> {
    if a.len() * b.len() > lim * 4 {
        return None;
    }
    let mut r = Poly::new();
    for (m1, c1) in a {
        for (m2, c2) in b {
            let c = c1.mul(*c2)?;
            let mm = mono_mul_reduce(ar, m1, m2, lim)?;
            for (m, k) in mm {
                let kc = k.mul(c)?;
                let e = r.entry(m.clone()).or_insert(Rat::int(0));
                *e = e.add(kc)?;
                if e.n == 0 {
                    r.remove(&m);
                }
            }
        }
    }
    if r.len() > lim {
        return None;
    }
    Some(r)
}

fn inv_poly(ar: &mut Arena, b: &Poly) -> Option<Poly> {
    if b.len() == 1 {
        let (m, c) = b.iter().next().unwrap();
        let mut r = Poly::new();
        r.insert(m.iter().map(|(t, e)| (*t, -*e)).collect(), Rat::new(c.d, c.n)?);
        return Some(r);
    }
    if b.is_empty() {
        return None;
    }
    // make the leading coefficient one
    let lead = *b.iter().next().unwrap().1;
    let il = Rat::new(lead.d, lead.n)?;
    let mut nb = Poly::new();
    for (m, c) in b {
        nb.insert(m.clone(), c.mul(il)?);
    }
    let t = from_poly(ar, &nb, Sort::F64);
    let mut r = Poly::new();
    r.insert(vec![(t, -1)], il);
    Some(r)
}

pub fn to_poly(ar: &mut Arena, t: T) -> Option<Rc<Poly>> {
    to_poly_l(ar, t, LIMIT)
}

fn to_poly_l(ar: &mut Arena, t: T, lim: usize) -> Option<Rc<Poly>> {
    if let Some(p) = ar.poly_memo.get(&t) {
        return p.clone();
    }
    let r = to_poly_u(ar, t, lim).map(Rc::new);
    ar.poly_memo.insert(t, r.clone());
    r
}
fn single(t: T) -> Poly {
    let mut p = Poly::new();
    p.insert(vec![(t, 1)], Rat::int(1));
    p
}
fn to_poly_u(ar: &mut Arena, t: T, lim: usize) -> Option<Poly> {
    match ar.n(t).clone() {
        Node::F(s, b) => {
            let v = fval(s, b);
            let r = Rat::from_f64(v)?;
            let mut p = Poly::new();
            if r.n != 0 {
                p.insert(vec![], r);
            }
            Some(p)
        }
        Node::FCvt(_, a) => Some((*to_poly_l(ar, a, lim)?).clone()),
        Node::FU(Un::Neg, a) => {
            let p = to_poly_l(ar, a, lim)?;
            padd(&Poly::new(), &p, Rat::int(-1))
        }
        Node::FB(FB::Add, a, b) | Node::FB(FB::Sub, a, b) => {
            let k = if let Node::FB(FB::Add, ..) = ar.n(t) { 1 } else { -1 };
            let p = to_poly_l(ar, a, lim)?;
            let q = to_poly_l(ar, b, lim)?;
            let r = padd(&p, &q, Rat::int(k))?;
            if r.len() > lim { None } else { Some(r) }
        }
        Node::FB(FB::Mul, a, b) => {
            let p = to_poly_l(ar, a, lim)?;
            let q = to_poly_l(ar, b, lim)?;
            pmul(ar, &p, &q, lim)
        }
        Node::FB(FB::Div, a, b) => {
            let p = to_poly_l(ar, a, lim)?;
            let q = to_poly_l(ar, b, lim)?;
            let qi = inv_poly(ar, &q)?;
            pmul(ar, &p, &qi, lim)
        }
        _ => Some(single(t)),
    }
}

/// float constant term holding exactly this rational (None when not exactly representable)
fn rat_term(ar: &mut Arena, c: Rat, s: Sort) -> T {
    let v = c.n as f64 / c.d as f64;
    if c.n.unsigned_abs() < (1 << 53) && Rat::from_f64(v) == Some(c) {
        return ar.f(Sort::F64, v);
    }
    let n = int_term(ar, c.n);
    let d = int_term(ar, c.d);
    let _ = s;
    ar.raw_fb(FB::Div, n, d)
}
fn int_term(ar: &mut Arena, n: i128) -> T {
    if n.unsigned_abs() < (1u128 << 53) {
        return ar.f(Sort::F64, n as f64);
    }
    let base = 1i128 << 50;
    let q = n / base;
    let r = n % base;
    let qt = int_term(ar, q);
    let bt = ar.f(Sort::F64, base as f64);
    let m = ar.raw_fb(FB::Mul, qt, bt);
    if r == 0 {
        return m;
    }
    let rt = ar.f(Sort::F64, r as f64);
    ar.raw_fb(FB::Add, m, rt)
}

pub fn from_poly(ar: &mut Arena, p: &Poly, s: Sort) -> T {
    // canonical form lives in F64 "real" sort, converted at the end
    let mut acc: Option<T> = None;
    for (m, c) in p {
        let mut num: Option<T> = None;
        let mut den: Option<T> = None;
        for (t, e) in m {
            let base = ar.fcvt(Sort::F64, *t);
            for _ in 0..e.unsigned_abs() {
                let slot = if *e > 0 { &mut num } else { &mut den };
                *slot = Some(match *slot {
                    None => base,
                    Some(x) => ar.fbin(FB::Mul, x, base),
                });
            }
        }
        let one = *c == Rat::int(1);
        let mone = *c == Rat::int(-1);
        let mut v = match num {
            None => rat_term(ar, *c, s),
            Some(x) => {
                if one {
                    x
                } else if mone {
                    ar.fu(Un::Neg, x)
                } else {
                    let k = rat_term(ar, *c, s);
                    ar.fbin(FB::Mul, k, x)
                }
            }
        };
        if let Some(d) = den {
            v = ar.fbin(FB::Div, v, d);
        }
        acc = Some(match acc {
            None => v,
            Some(a) => ar.fbin(FB::Add, a, v),
        });
    }
    let r = acc.unwrap_or_else(|| ar.f(Sort::F64, 0.0));
    ar.fcvt(s, r)
}

/// a - b when it is a small polynomial without denominators, made to start with a positive
/// coefficient: (it was negated, the polynomial)
pub fn difference(ar: &mut Arena, a: T, b: T) -> Option<(bool, T)> {
    let p = to_poly(ar, a)?;
    let q = to_poly(ar, b)?;
    let d = padd(&p, &q, Rat::int(-1))?;
    if d.len() > 60 || d.keys().any(|m| m.iter().any(|x| x.1 < 0)) {
        return None;
    }
    let neg = d.values().next().map_or(false, |c| c.n < 0);
    let d = if neg { padd(&Poly::new(), &d, Rat::int(-1))? } else { d };
    Some((neg, from_poly(ar, &d, Sort::F64)))
}

fn vars_of(ar: &Arena, t: T, out: &mut HashSet<T>, seen: &mut HashSet<T>) {
    if !seen.insert(t) {
        return;
    }
    if let Node::Var(..) = ar.n(t) {
        out.insert(t);
    }
    for k in ar.kids(t) {
        vars_of(ar, k, out, seen);
    }
}

/// takes p apart by the powers of variables that occur nowhere else than as plain factors;
/// p is identically zero exactly when all parts are
pub fn parts(ar: &Arena, p: &Poly) -> Vec<Poly> {
    let mut inner = HashSet::new();
    let mut seen = HashSet::new();
    for m in p.keys() {
        for (t, _) in m {
            if !matches!(ar.n(*t), Node::Var(..)) {
                vars_of(ar, *t, &mut inner, &mut seen);
            }
        }
    }
    let mut g: BTreeMap<Mono, Poly> = BTreeMap::new();
    for (m, c) in p {
        let (o, i): (Mono, Mono) = m.iter().partition(|x| matches!(ar.n(x.0), Node::Var(..)) && !inner.contains(&x.0));
        g.entry(o).or_default().insert(i, *c);
    }
    g.into_values().collect()
}

/// multiplies by every sum occurring with a negative exponent; the result is zero exactly where
/// p is, given that those of the sums that are listed do not vanish
pub fn clear_denoms(ar: &mut Arena, p: &Poly, sums: &mut Vec<T>) -> Option<Poly> {
    let mut p = p.clone();
    for _ in 0..12 {
        let mut hit: Option<(T, i32)> = None;
        for m in p.keys() {
            for (t, e) in m {
                if *e < 0 && matches!(ar.n(*t), Node::FB(FB::Add, ..)) {
                    hit = Some(match hit {
                        Some((u, k)) if u == *t => (u, k.max(-*e)),
                        Some(h) => h,
                        None => (*t, -*e),
                    });
                }
            }
        }
        let (t, k) = match hit {
            Some(h) => h,
            None => return Some(p),
        };
        if !ar.syn_pos(t) && !sums.contains(&t) {
            sums.push(t);
        }
        let q = to_poly(ar, t)?;
        let mut r = Poly::new();
        for (m, c) in &p {
            let mut left = k;
            let mut rest: Mono = vec![];
            for (u, e) in m {
                if *u == t { left += *e } else { rest.push((*u, *e)) }
            }
            let mut x = Poly::new();
            x.insert(rest, *c);
            for _ in 0..left {
                x = pmul(ar, &x, &q, LIMIT)?;
            }
            r = padd(&r, &x, Rat::int(1))?;
        }
        if r.len() > 4 * LIMIT {
            return None;
        }
        p = r;
    }
    None
}
fn show(ar: &Arena, t: T) -> String {
    match ar.n(t).clone() {
        Node::Var(_, k) => format!("v{}", k),
        Node::F(s, b) => format!("{}", fval(s, b)),
        n => {
            let k: Vec<String> = ar.kids(t).into_iter().map(|x| show(ar, x)).collect();
            let d = format!("{:?}", n);
            format!("{}[{}]", d.split('T').next().unwrap_or(""), k.join(" "))
        }
    }
}
/// p is zero wherever the listed sums are not
pub fn vanishes(ar: &mut Arena, p: &Poly, sums: &mut Vec<T>) -> bool {
    for q in parts(ar, p) {
        match clear_denoms(ar, &q, sums) {
            Some(r) if r.is_empty() => {}
            x => {
                if std::env::var("POLYDBG").is_ok() {
                    eprintln!("VANISH {} -> {:?}", q.len(), x.as_ref().map(|r| r.len()));
                    let t = from_poly(ar, &q, Sort::F64);
                    eprintln!("{}", show(ar, t));
                }
                return false;
            }
        }
    }
    true
}

pub fn canon(ar: &mut Arena, t: T) -> T {
    if let Some(r) = ar.canon_memo.get(&t) {
        return *r;
    }
    let s = ar.sort(t);
    let r = match to_poly(ar, t) {
        Some(p) => from_poly(ar, &p, s),
        None => t,
    };
    ar.canon_memo.insert(t, r);
    r
}

/// t = k * prim with integer k (|k| <= 4) and prim having coprime integer-ish coefficients
/// and a positive leading coefficient.
/// summands of an exponent with small integer factors, when it is worth taking them apart
pub fn exp_parts(ar: &mut Arena, t: T) -> Option<Vec<(i32, T)>> {
    let s = ar.sort(t);
    let p = to_poly(ar, t)?;
    if p.len() < 2 {
        return None;
    }
    let small = |c: &Rat| c.d == 1 && c.n.abs() <= 4;
    let mut parts = vec![];
    let mut rest = Poly::new();
    for (m, c) in p.iter() {
        let case = m.len() == 1 && m[0].1 == 1 && matches!(ar.n(m[0].0), Node::Ite(..));
        if case && small(c) {
            parts.push((c.n as i32, m[0].0));
        } else {
            rest.insert(m.clone(), *c);
        }
    }
    // only sums of plain terms: products are kept together so that exp(p) stays one atom
    let plain = |m: &Mono| m.len() <= 1 && m.iter().all(|x| x.1 == 1);
    if rest.len() <= 6 && rest.values().all(small) && rest.keys().all(plain) {
        for (m, c) in rest.iter() {
            let q: Poly = [(m.clone(), Rat::int(1))].into_iter().collect();
            let x = from_poly(ar, &q, s);
            parts.push((c.n as i32, x));
        }
    } else if parts.is_empty() {
        return None;
    } else {
        let x = from_poly(ar, &rest, s);
        parts.push((1, x));
    }
    Some(parts)
}

pub fn split_content(ar: &mut Arena, t: T) -> Option<(i32, T)> {
    let s = ar.sort(t);
    let p = match to_poly(ar, t) {
        Some(p) => p,
        None => return Some((1, t)),
    };
    if p.is_empty() {
        return Some((1, t));
    }
    // content of numerators when all denominators are one
    let mut g: i128 = 0;
    let mut ints = true;
    for c in p.values() {
        if c.d != 1 {
            ints = false;
        }
        g = gcd(g, c.n);
    }
    let lead = p.values().next().unwrap().n;
    let mut k: i128 = if ints && g >= 2 && g <= 4 { g } else { 1 };
    if lead < 0 {
        k = -k;
    }
    let inv = Rat::new(1, k)?;
    let q = padd(&Poly::new(), &p, inv)?;
    let prim = from_poly(ar, &q, s);
    Some((k as i32, prim))
}

pub fn split_sign(ar: &mut Arena, t: T) -> Option<(bool, T)> {
    let s = ar.sort(t);
    let p = match to_poly(ar, t) {
        Some(p) => p,
        None => return Some((false, t)),
    };
    if p.is_empty() {
        return Some((false, t));
    }
    let lead = p.values().next().unwrap().n;
    let k = if lead < 0 { -1 } else { 1 };
    let q = padd(&Poly::new(), &p, Rat::int(k))?;
    Some((k < 0, from_poly(ar, &q, s)))
}
