//! C01 complex arithmetic
use crate::v::*;
use crate::cx::*;
use renplex::math::cfloat::{Cf32, Cf64};

macro_rules! suite { ($m:ident, $c:ty, $f:ty) => { pub mod $m {
  use super::*;
  type C = $c;
  fn same(b: &C, x: $f, y: $f) {
    <$f as Fl>::eqt(b.x, x, 0.0, "right operand unchanged");
    <$f as Fl>::eqt(b.y, y, 0.0, "right operand unchanged");
  }
  pub fn ops() {
    let a = <C as Cx>::var();
    let b = <C as Cx>::var();
    let (ar, ai, br, bi) = (a.x, a.y, b.x, b.y);
    let s = (ar + br, ai + bi);
    let d = (ar - br, ai - bi);
    let p = (ar * br - ai * bi, ar * bi + ai * br);
    eqp(a + b, s, "add");
    eqp(a - b, d, "sub");
    eqp(a * b, p, "mul");
    eqp(&a + &b, s, "add by reference"); same(&a, ar, ai); same(&b, br, bi);
    eqp(&a - &b, d, "sub by reference"); same(&a, ar, ai); same(&b, br, bi);
    eqp(&a * &b, p, "mul by reference"); same(&a, ar, ai); same(&b, br, bi);
    let mut t = a; t += b; eqp(t, s, "add_assign"); same(&b, br, bi);
    let mut t = a; t -= b; eqp(t, d, "sub_assign"); same(&b, br, bi);
    let mut t = a; t *= b; eqp(t, p, "mul_assign"); same(&b, br, bi);
  }
  pub fn div() {
    let a = <C as Cx>::var();
    let b = <C as Cx>::var();
    let (ar, ai, br, bi) = (a.x, a.y, b.x, b.y);
    let n = br * br + bi * bi;
    assume(n > 0.0);
    let q = ((ar * br + ai * bi) / n, (ai * br - ar * bi) / n);
    eqp(a / b, q, "div");
    eqp(&a / &b, q, "div by reference"); same(&a, ar, ai); same(&b, br, bi);
    let mut t = a; t /= b; eqp(t, q, "div_assign"); same(&b, br, bi);
  }
  pub fn div0() {
    let a = <C as Cx>::var();
    let z = <C as Cx>::mk(0.0, if choose(0, 1) == 0 { 0.0 } else { -0.0 });
    check(panics(|| { let _ = std::hint::black_box(a / z); }), "div by zero panics");
    check(panics(|| { let _ = std::hint::black_box(&a / &z); }), "div by zero reference panics");
    check(panics(|| { let mut t = a; t /= z; std::hint::black_box(t); }), "div_assign by zero panics");
  }
} } }
suite!(s32, Cf32, f32);
suite!(s64, Cf64, f64);

entries! {
  h_c01_ops_f32_r => s32::ops;
  h_c01_ops_f64_r => s64::ops;
  h_c01_div_f32_r => s32::div;
  h_c01_div_f64_r => s64::div;
  h_c01_div0_f32_f => s32::div0;
  h_c01_div0_f64_f => s64::div0;
}
