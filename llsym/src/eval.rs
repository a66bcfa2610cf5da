//! Concrete evaluation of terms under an assignment of the input variables.
use crate::ir::sext;
use crate::term::*;
use std::collections::HashMap;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum V {
    B(bool),
    Bv(u128),
    F(f64),
}
impl V {
    pub fn b(self) -> bool {
        match self {
            V::B(b) => b,
            V::Bv(v) => v != 0,
            V::F(f) => f != 0.0,
        }
    }
    pub fn u(self) -> u128 {
        match self {
            V::B(b) => b as u128,
            V::Bv(v) => v,
            V::F(f) => f as u128,
        }
    }
    pub fn f(self) -> f64 {
        match self {
            V::F(f) => f,
            V::Bv(v) => v as f64,
            V::B(b) => b as u8 as f64,
        }
    }
}

pub type Model = HashMap<T, V>;

pub fn un(u: Un, x: f64) -> f64 {
    match u {
        Un::Id => x,
        Un::Neg => -x,
        Un::Abs => x.abs(),
        Un::Sqrt => x.sqrt(),
        Un::Exp => x.exp(),
        Un::Ln => x.ln(),
        Un::Sin => x.sin(),
        Un::Cos => x.cos(),
        Un::Tan => x.tan(),
        Un::Tanh => x.tanh(),
        Un::Cosh => x.cosh(),
        Un::Sinh => x.sinh(),
        Un::Atan => x.atan(),
        Un::Asin => x.asin(),
        Un::Acos => x.acos(),
        Un::Floor => x.floor(),
        Un::Ceil => x.ceil(),
        Un::Round => x.round(),
        Un::RoundEven => x.round_ties_even(),
        Un::Trunc => x.trunc(),
        Un::Exp2 => x.exp2(),
        Un::Log2 => x.log2(),
        Un::Log10 => x.log10(),
        Un::Ln1p => x.ln_1p(),
        Un::ExpM1 => x.exp_m1(),
        Un::Cbrt => x.cbrt(),
    }
}

pub fn eval(ar: &Arena, t: T, m: &Model, memo: &mut HashMap<T, V>) -> V {
    let mut stack = vec![(t, false)];
    while let Some((x, done)) = stack.pop() {
        if memo.contains_key(&x) {
            continue;
        }
        let ks = ar.kids(x);
        if !done {
            // short-circuit ite to avoid evaluating huge dead branches is not needed
            stack.push((x, true));
            for k in ks {
                if !memo.contains_key(&k) {
                    stack.push((k, false));
                }
            }
            continue;
        }
        let g = |k: T| memo[&k];
        let s = ar.sort(x);
        let w = s.bits();
        let rnd = |v: f64| -> V {
            if !ar.real && s == Sort::F32 { V::F(v as f32 as f64) } else { V::F(v) }
        };
        let r = match *ar.n(x) {
            Node::B(b) => V::B(b),
            Node::Bv(_, v) => V::Bv(v),
            Node::F(s, b) => V::F(fval(s, b)),
            Node::Var(s, _) => m.get(&x).cloned().unwrap_or(match s {
                Sort::Bool => V::B(false),
                Sort::Bv(_) => V::Bv(0),
                _ => V::F(0.0),
            }),
            Node::Not(a) => V::B(!g(a).b()),
            Node::And(a, b) => V::B(g(a).b() && g(b).b()),
            Node::Or(a, b) => V::B(g(a).b() || g(b).b()),
            Node::Ite(c, a, b) => if g(c).b() { g(a) } else { g(b) },
            Node::Eq(a, b) => V::B(g(a).u() == g(b).u()),
            Node::Ult(a, b) => V::B(g(a).u() < g(b).u()),
            Node::Ule(a, b) => V::B(g(a).u() <= g(b).u()),
            Node::Slt(a, b) => {
                let w = ar.sort(a).bits();
                V::B(sext(g(a).u(), w) < sext(g(b).u(), w))
            }
            Node::Sle(a, b) => {
                let w = ar.sort(a).bits();
                V::B(sext(g(a).u(), w) <= sext(g(b).u(), w))
            }
            Node::Bin(op, a, b) => V::Bv(cbin(op, w, g(a).u(), g(b).u()).unwrap_or(0)),
            Node::Ext(a, lo, w) => V::Bv((g(a).u() >> lo) & mask(w)),
            Node::Cat(h, l) => V::Bv((g(h).u() << ar.sort(l).bits()) | g(l).u()),
            Node::Zext(a, _) => V::Bv(g(a).u()),
            Node::Sext(a, w) => V::Bv(sext(g(a).u(), ar.sort(a).bits()) as u128 & mask(w)),
            Node::FB(op, a, b) => {
                let (p, q) = (g(a).f(), g(b).f());
                rnd(match op {
                    FB::Add => p + q,
                    FB::Sub => p - q,
                    FB::Mul => p * q,
                    FB::Div => p / q,
                    FB::Rem => p % q,
                    FB::Min => p.min(q),
                    FB::Max => p.max(q),
                    FB::Atan2 => p.atan2(q),
                    FB::Pow => p.powf(q),
                    FB::Hypot => p.hypot(q),
                    FB::CopySign => p.copysign(q),
                })
            }
            Node::FU(u, a) => rnd(un(u, g(a).f())),
            Node::Fma(a, b, c) => rnd(g(a).f().mul_add(g(b).f(), g(c).f())),
            Node::FLt(a, b) => V::B(g(a).f() < g(b).f()),
            Node::FLe(a, b) => V::B(g(a).f() <= g(b).f()),
            Node::FEq(a, b) => V::B(g(a).f() == g(b).f()),
            Node::FNan(a) => V::B(g(a).f().is_nan()),
            Node::FCvt(_, a) => rnd(g(a).f()),
            Node::UToF(_, a) => rnd(g(a).u() as f64),
            Node::SToF(_, a) => rnd(sext(g(a).u(), ar.sort(a).bits()) as f64),
            Node::FToU(w, a) => V::Bv((g(a).f() as u128).min(mask(w))),
            Node::FToS(w, a) => V::Bv((g(a).f() as i128) as u128 & mask(w)),
            Node::Bits(a, w) => V::Bv(if w == 32 { (g(a).f() as f32).to_bits() as u128 } else { g(a).f().to_bits() as u128 }),
            Node::FromBits(_, b) => {
                let w = ar.sort(b).bits();
                V::F(if w == 32 { f32::from_bits(g(b).u() as u32) as f64 } else { f64::from_bits(g(b).u() as u64) })
            }
        };
        memo.insert(x, r);
    }
    memo[&t]
}
