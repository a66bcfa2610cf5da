//! C02 modulus, phase, conjugate, polar form; C03 ordering
use crate::v::*;
use crate::cx::*;
use renplex::math::cfloat::{Cf32, Cf64};
use renplex::math::Complex;
use std::cmp::Ordering;

macro_rules! suite { ($m:ident, $c:ty, $f:ty, $pi:expr) => { pub mod $m {
  use super::*;
  type C = $c;
  pub fn modulus() {
    let z = <C as Cx>::var();
    let n = z.norm();
    let s = z.x * z.x + z.y * z.y;
    <$f as Fl>::lec(0.0, n, "modulus is non-negative");
    <$f as Fl>::eqc(n * n, s, "modulus squared");
    <$f as Fl>::eqc(z.norm_sq(), s, "squared modulus");
    <$f as Fl>::eqt(z.re(), z.x, 0.0, "real part");
    <$f as Fl>::eqt(z.im(), z.y, 0.0, "imaginary part");
  }
  pub fn conj() {
    let z = <C as Cx>::var();
    let c = z.conj();
    <$f as Fl>::eqt(c.x, z.x, 0.0, "conjugate keeps the real part");
    <$f as Fl>::eqt(c.y, -z.y, 0.0, "conjugate negates the imaginary part");
    let s = z.x * z.x + z.y * z.y;
    eqp(z * c, (s, 0.0), "z times conjugate");
    let w = C::new(z.x, z.y);
    eqp(w, (z.x, z.y), "new");
    let u = C::unit();
    eqp(u, (1.0, 0.0), "unit");
    let i = C::iunit();
    eqp(i, (0.0, 1.0), "imaginary unit");
  }
  pub fn phase() {
    let z = <C as Cx>::var();
    assume(z.x != 0.0 || z.y != 0.0);
    let p = z.phase();
    let n2 = z.x * z.x + z.y * z.y;
    let n = n2.sqrt();
    // angle in (-pi, pi] of the point: direction and range
    <$f as Fl>::eqc(n * p.cos(), z.x, "phase direction, real part");
    <$f as Fl>::eqc(n * p.sin(), z.y, "phase direction, imaginary part");
    <$f as Fl>::lec(p, $pi, "phase at most pi");
    <$f as Fl>::lec(-$pi, p, "phase above -pi");
  }
  pub fn polar() {
    let z = <C as Cx>::var();
    assume(z.x != 0.0 || z.y != 0.0);
    let w = C::newe(z.norm(), z.phase());
    eqp(w, (z.x, z.y), "modulus and phase give z back");
  }
  pub fn polar_def() {
    let a = <$f as Fl>::var();
    let p = <$f as Fl>::var();
    let w = C::newe(a, p);
    eqp(w, (a * p.cos(), a * p.sin()), "polar construction");
  }
  /// all bit patterns, IEEE arithmetic
  pub fn order() {
    let a = <C as Cx>::var();
    let b = <C as Cx>::var();
    let (m, n) = (a.norm_sq(), b.norm_sq());
    check((a < b) == (m < n), "less-than");
    check((a > b) == (m > n), "greater-than");
    check((a <= b) == (m <= n), "less-or-equal");
    check((a >= b) == (m >= n), "greater-or-equal");
    check((b < a) == (a > b), "less-than mirrors greater-than");
    check((b <= a) == (a >= b), "or-equal forms mirror");
    check(!(a < b && b < a), "asymmetric");
    check(!(a < a), "irreflexive");
    let c = a.partial_cmp(&b);
    check((c == Some(Ordering::Less)) == (m < n), "three-way less");
    check((c == Some(Ordering::Greater)) == (m > n), "three-way greater");
    check((c == Some(Ordering::Equal)) == (m == n), "three-way equal");
    check(c.is_none() == (m.is_nan() || n.is_nan()), "NaN modulus is unordered");
  }
  /// the squared modulus that is compared is re*re + im*im in floating point, for operands on the axes
  pub fn order_axis() {
    let x = <$f as Fl>::var();
    let y = <$f as Fl>::var();
    let a = if choose(0, 1) == 0 { C { x, y: 0.0 } } else { C { x: 0.0, y: x } };
    let b = if choose(0, 1) == 0 { C { x: y, y: 0.0 } } else { C { x: 0.0, y } };
    let (m, n) = (x * x + 0.0, y * y + 0.0);
    check((a < b) == (m < n), "less-than by squared modulus");
    check((a > b) == (m > n), "greater-than by squared modulus");
    check((a <= b) == (m <= n), "less-or-equal by squared modulus");
    check((a >= b) == (m >= n), "greater-or-equal by squared modulus");
  }
  /// same order on all complex operands, real arithmetic
  pub fn order_real() {
    let a = <C as Cx>::var();
    let b = <C as Cx>::var();
    let (m, n) = (a.x * a.x + a.y * a.y, b.x * b.x + b.y * b.y);
    check((a < b) == (m < n), "less-than orders by modulus");
    check((a > b) == (m > n), "greater-than orders by modulus");
    check((a <= b) == (m <= n), "less-or-equal orders by modulus");
    check((a >= b) == (m >= n), "greater-or-equal orders by modulus");
    let c = <C as Cx>::var();
    let o = c.x * c.x + c.y * c.y;
    let _ = o;
    check(!(a < b && b < c) || a < c, "transitive");
  }
} } }
suite!(s32, Cf32, f32, std::f32::consts::PI);
suite!(s64, Cf64, f64, std::f64::consts::PI);

/// transitivity of the floating-point order on any three moduli
fn trans32() { let (a, b, c) = (f32::var(), f32::var(), f32::var()); check(!(a < b && b < c) || a < c, "order on moduli is transitive"); }
fn trans64() { let (a, b, c) = (f64::var(), f64::var(), f64::var()); check(!(a < b && b < c) || a < c, "order on moduli is transitive"); }

entries! {
  h_c02_modulus_f32_r => s32::modulus;
  h_c02_modulus_f64_r => s64::modulus;
  h_c02_conj_f32_r => s32::conj;
  h_c02_conj_f64_r => s64::conj;
  h_c02_phase_f32_r => s32::phase;
  h_c02_phase_f64_r => s64::phase;
  h_c02_polar_f32_r => s32::polar;
  h_c02_polar_f64_r => s64::polar;
  h_c02_polar_def_f32_r => s32::polar_def;
  h_c02_polar_def_f64_r => s64::polar_def;
  h_c03_order_f32_f => s32::order;
  h_c03_order_f64_f => s64::order;
  h_c03_order_axis_f32_f => s32::order_axis;
  h_c03_order_axis_f64_f => s64::order_axis;
  h_c03_order_real_f32_r => s32::order_real;
  h_c03_order_real_f64_r => s64::order_real;
  h_c03_trans_f32_f => trans32;
  h_c03_trans_f64_f => trans64;
}
