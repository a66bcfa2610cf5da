//! C16 activations, C17 their derivatives, C18 losses, C19 their derivatives
use crate::v::*;
use crate::cx::*;
use crate::nn::*;
use renplex::dataset::Dataset;
use renplex::math::cfloat::{Cf32, Cf64};
use renplex::opt::ComplexLossFunc as Loss;

/// tighter than the general margin: activations are bounded or exact
pub trait Prec { const ACT: f64; const SAT: f64; const EDGE: f64; }
impl Prec for f32 { const ACT: f64 = 1e-3; const SAT: f64 = 2e-6; const EDGE: f64 = 15.0; }
impl Prec for f64 { const ACT: f64 = 1e-8; const SAT: f64 = 1e-12; const EDGE: f64 = 30.0; }

fn k<F: Fl>(v: f64) -> F { F::k(v) }
fn nonzero<C: Cx>(z: C) { assume(z.x() != k(0.0) || z.y() != k(0.0)) }
fn same<C: Cx>(a: C, b: (C::F, C::F), l: &'static str) where C::F: Prec {
  C::F::eqt(a.x(), b.0, C::F::ACT, l);
  C::F::eqt(a.y(), b.1, C::F::ACT, l);
}

fn def_none<C: Cx>() where C::F: Prec {
  let z = C::var();
  let a = z.activate(&Act::None);
  C::F::eqt(a.x(), z.x(), 0.0, "identity");
  C::F::eqt(a.y(), z.y(), 0.0, "identity");
}
fn def_modz<C: Cx>() where C::F: Prec {
  let z = C::var();
  nonzero(z);
  let r = (z.x() * z.x() + z.y() * z.y()).sqrt_();
  same(z.activate(&Act::ModZ), (z.x() / r, z.y() / r), "z/|z|");
}
/// sigmoid on the exact range; the part under test is chosen, the other one is arbitrary
fn def_sig<C: Cx>() where C::F: Prec {
  let z = C::var();
  let first = choose(0, 1) == 0;
  let v = if first { z.x() } else { z.y() };
  let a = z.activate(&Act::RITSigmoid);
  let o = if first { a.x() } else { a.y() };
  let e: C::F = k(C::F::EDGE);
  let one: C::F = k(1.0);
  if v >= e {
    check(o >= one - k(C::F::SAT) && o <= one, "saturated sigmoid");
  } else if v <= -e {
    check(o >= k(0.0) && o <= k(C::F::SAT), "saturated sigmoid");
  } else {
    C::F::eqt(o, one / (one + (-v).exp_()), C::F::ACT, "sigmoid of the part");
  }
}
fn def_tanh<C: Cx>() where C::F: Prec {
  let z = C::var();
  same(z.activate(&Act::RITTanh), (z.x().tanh_(), z.y().tanh_()), "tanh of the parts");
}
fn pos<F: Fl>(v: F) -> F { if v > k(0.0) { v } else { k(0.0) } }
fn def_relu<C: Cx>() where C::F: Prec {
  let z = C::var();
  same(z.activate(&Act::RITReLU), (pos(z.x()), pos(z.y())), "rectifier of the parts");
}
fn def_zrelu<C: Cx>() where C::F: Prec {
  let z = C::var();
  let inside = z.x() >= k(0.0) && z.y() >= k(0.0);
  let e = if inside { (z.x(), z.y()) } else { (k(0.0), k(0.0)) };
  same(z.activate(&Act::ZReLU), e, "first quadrant passes");
}
fn def_card<C: Cx>() where C::F: Prec {
  let z = C::var();
  nonzero(z);
  let r = (z.x() * z.x() + z.y() * z.y()).sqrt_();
  let (c, s) = (z.x() / r, z.y() / r);
  let m = k::<C::F>(2.0) * (k::<C::F>(1.0) + c);
  same(z.activate(&Act::Cardioid), (m * c, m * s), "cardioid");
}
fn card_axis<C: Cx>() where C::F: Prec {
  // definition through the reported phase, including zero
  let z = C::var();
  let p = C::p(z.phase());
  let (c, s) = (p.cos_(), p.sin_());
  let m = k::<C::F>(2.0) * (k::<C::F>(1.0) + c);
  same(z.activate(&Act::Cardioid), (m * c, m * s), "cardioid of the phase");
}

/* every bit pattern except NaN */
fn notnan<C: Cx>() -> C {
  let z = C::var();
  assume(z.x() == z.x() && z.y() == z.y());
  z
}
fn rng_sig<C: Cx>() {
  let a = notnan::<C>().activate(&Act::RITSigmoid);
  for v in [a.x(), a.y()] { check(v >= k(0.0) && v <= k(1.0), "sigmoid output in [0,1]") }
}
fn rng_tanh<C: Cx>() {
  let a = notnan::<C>().activate(&Act::RITTanh);
  for v in [a.x(), a.y()] { check(v >= k(-1.0) && v <= k(1.0), "tanh output in [-1,1]") }
}
fn rng_relu<C: Cx>() {
  let z = notnan::<C>();
  let a = z.activate(&Act::RITReLU);
  for (v, o) in [(a.x(), z.x()), (a.y(), z.y())] {
    check(v >= k(0.0), "rectifier output not negative");
    check(if o > k(0.0) { v == o } else { v == k(0.0) }, "rectifier bit for bit");
  }
}
fn rng_zrelu<C: Cx>() {
  let z = notnan::<C>();
  let a = z.activate(&Act::ZReLU);
  for v in [a.x(), a.y()] { check(v >= k(0.0), "rectifier output not negative") }
  if z.x() > k(0.0) && z.y() > k(0.0) { check(a.x() == z.x() && a.y() == z.y(), "open quadrant passes") }
  if z.x() < k(0.0) || z.y() < k(0.0) { check(a.x() == k(0.0) && a.y() == k(0.0), "outside is zero") }
}
fn rng_none<C: Cx>() {
  let z = notnan::<C>();
  let a = z.activate(&Act::None);
  check(a.x() == z.x() && a.y() == z.y(), "identity");
}

fn slices<C: Cx + El>() {
  let f = act(choose(0, 6));
  let n = choose(0, 3);
  let z: Vec<C> = anyvec(n);
  for v in z.iter() { nonzero(*v) }
  let mut m = z.clone();
  C::activate_mut(&mut m, &f);
  eqvec(&m, &z.iter().map(|v| v.activate(&f)).collect::<Vec<_>>(), "slice form");
}
fn dslices<C: Cx + El>() {
  let f = act(choose(0, 6));
  let n = choose(0, 3);
  let z: Vec<C> = anyvec(n);
  for v in z.iter() { nonzero(*v) }
  let mut m = z.clone();
  C::d_activate_mut(&mut m, &f);
  eqvec(&m, &z.iter().map(|v| v.d_activate(&f)).collect::<Vec<_>>(), "slice form of the derivative");
  let mut m = z.clone();
  C::d_conj_activate_mut(&mut m, &f);
  eqvec(&m, &z.iter().map(|v| v.d_conj_activate(&f)).collect::<Vec<_>>(), "slice form of the conjugate derivative");
}

/* definitions over f64, to be differentiated; the region is fixed by earlier case splits */
pub fn spec_act(f: Act, x: f64, y: f64) -> (f64, f64) {
  let r = (x * x + y * y).sqrt();
  match f {
    Act::None => (x, y),
    Act::ModZ => (x / r, y / r),
    Act::RITSigmoid => (1.0 / (1.0 + (-x).exp()), 1.0 / (1.0 + (-y).exp())),
    Act::RITTanh => (x.tanh(), y.tanh()),
    Act::RITReLU => (if x > 0.0 { x } else { 0.0 }, if y > 0.0 { y } else { 0.0 }),
    Act::ZReLU => if x > 0.0 && y > 0.0 { (x, y) } else { (0.0, 0.0) },
    Act::Cardioid => (2.0 * (1.0 + x / r) * (x / r), 2.0 * (1.0 + x / r) * (y / r)),
  }
}
/// restricts z to where f is differentiable and spec_act is f
pub fn smooth<C: Cx>(f: Act, z: C) where C::F: Prec {
  let zero: C::F = k(0.0);
  match f {
    Act::None | Act::RITTanh => {}
    Act::ModZ | Act::Cardioid => nonzero(z),
    Act::RITReLU | Act::ZReLU => { assume(z.x() != zero); assume(z.y() != zero) }
    Act::RITSigmoid => {
      let e: C::F = k(C::F::EDGE);
      assume(z.x() < e && z.x() > -e);
      assume(z.y() < e && z.y() > -e);
    }
  }
}
/// d(re f)/dx, d(im f)/dx, d(re f)/dy, d(im f)/dy
pub fn jacobian(f: Act, x: f64, y: f64) -> [f64; 4] {
  let u = move |p: &[f64]| spec_act(f, p[0], p[1]).0;
  let v = move |p: &[f64]| spec_act(f, p[0], p[1]).1;
  [partial(&u, &[x, y], 0), partial(&v, &[x, y], 0), partial(&u, &[x, y], 1), partial(&v, &[x, y], 1)]
}
fn deriv<C: Cx>(f: Act) where C::F: Prec {
  let z = C::var();
  smooth(f, z);
  let (x, y) = (z.x().to64(), z.y().to64());
  let [ux, vx, uy, vy] = jacobian(f, x, y);
  let d = z.d_activate(&f);
  let e = z.d_conj_activate(&f);
  let t = C::F::DTOL;
  f64::eqt(d.x().to64(), 0.5 * (ux + vy), t, "real part of (d/dx - i d/dy)/2");
  f64::eqt(d.y().to64(), 0.5 * (vx - uy), t, "imaginary part of (d/dx - i d/dy)/2");
  f64::eqt(e.x().to64(), 0.5 * (ux - vy), t, "real part of (d/dx + i d/dy)/2");
  f64::eqt(e.y().to64(), 0.5 * (vx + uy), t, "imaginary part of (d/dx + i d/dy)/2");
}
macro_rules! dv { ($n:ident, $f:expr) => { fn $n<C: Cx>() where C::F: Prec { deriv::<C>($f) } } }
dv!(dv_none, Act::None);
dv!(dv_modz, Act::ModZ);
dv!(dv_sig, Act::RITSigmoid);
dv!(dv_tanh, Act::RITTanh);
dv!(dv_relu, Act::RITReLU);
dv!(dv_zrelu, Act::ZReLU);
dv!(dv_card, Act::Cardioid);
/// outside the exact range the sigmoid is flat
fn dv_sat<C: Cx>() where C::F: Prec {
  let z = C::var();
  let e: C::F = k(C::F::EDGE);
  assume(z.x() > e || z.x() < -e);
  assume(z.y() > e || z.y() < -e);
  for d in [z.d_activate(&Act::RITSigmoid), z.d_conj_activate(&Act::RITSigmoid)] {
    C::F::eqt(d.x(), k(0.0), C::F::ACT, "flat where saturated");
    C::F::eqt(d.y(), k(0.0), C::F::ACT, "flat where saturated");
  }
}
/// every bit pattern except NaN: derivatives of the bounded, part-wise activations
fn dv_range<C: Cx>() {
  let f = [Act::None, Act::RITSigmoid, Act::RITTanh, Act::RITReLU, Act::ZReLU][choose(0, 4)];
  let z = notnan::<C>();
  for d in [z.d_activate(&f), z.d_conj_activate(&f)] {
    check(d.x() >= k(-1.0) && d.x() <= k(1.0), "derivative in [-1,1]");
    check(d.y() >= k(-1.0) && d.y() <= k(1.0), "derivative in [-1,1]");
  }
}

/* losses */
fn io<C: Cx + El>(v: &[C], kind: usize) -> IOType<C> {
  match kind {
    0 => IOType::Scalar(v.to_vec()),
    1 => IOType::Matrix(vec![Matrix::from_body(v.to_vec(), [1, v.len()])]),
    _ => IOType::Matrix(v.iter().map(|e| Matrix::from_body(vec![*e], [1, 1])).collect()),
  }
}
fn sq<C: Cx>(a: C, b: C) -> C::F {
  let (u, v) = (a.x() - b.x(), a.y() - b.y());
  u * u + v * v
}
fn mse<C: Cx>(t: &[C], p: &[C]) -> C::F {
  let mut s: C::F = k(0.0);
  for i in 0..t.len() { s = s + sq(t[i], p[i]) }
  s / C::F::n(t.len())
}
fn ce<C: Cx>(t: &[C], p: &[C]) -> C::F {
  let e: Vec<C::F> = p.iter().map(|v| (v.x() * v.x() + v.y() * v.y()).exp_()).collect();
  let mut s = k(0.0);
  for v in e.iter() { s = s + *v }
  let mut l = k(0.0);
  for i in 0..t.len() { l = l - t[i].x() * (e[i] / s).ln_() }
  l
}
fn loss_mse<C: Cx + El>() {
  let n = choose(1, tier(3, 4));
  let kind = choose(0, 2);
  let (t, p): (Vec<C>, Vec<C>) = (anyvec(n), anyvec(n));
  let l = C::p(C::loss(&io(&t, kind), &io(&p, kind), &Loss::MeanSquare).unwrap());
  C::F::eqc(l, mse(&t, &p), "mean of the squared errors");
  C::F::lec(k(0.0), l, "never negative");
  let l0 = C::p(C::loss(&io(&t, kind), &io(&t, kind), &Loss::MeanSquare).unwrap());
  C::F::eqt(l0, k(0.0), 0.0, "zero when prediction and target coincide");
}
fn loss_zero<C: Cx + El>() {
  let n = choose(1, 3);
  let (t, p): (Vec<C>, Vec<C>) = (anyvec(n), anyvec(n));
  let i = choose(0, 2);
  assume(i < n);
  assume(sq(t[i], p[i]) > k(0.01));
  let l = C::p(C::loss(&io(&t, 0), &io(&p, 0), &Loss::MeanSquare).unwrap());
  check(l > k(0.0), "positive when any component differs");
}
fn loss_ce<C: Cx + El>() {
  let n = choose(1, tier(3, 4));
  let kind = choose(0, 2);
  let (t, p): (Vec<C>, Vec<C>) = (anyvec(n), anyvec(n));
  let l = C::p(C::loss(&io(&t, kind), &io(&p, kind), &Loss::NormCrossEntropy).unwrap());
  C::F::eqc(l, ce(&t, &p), "cross entropy of the softmax of the squared moduli");
}
fn loss_kind<C: Cx + El>() {
  let n = choose(1, 2);
  let (t, p): (Vec<C>, Vec<C>) = (anyvec(n), anyvec(n));
  let (a, b) = (choose(0, 2), choose(0, 2));
  let f = if choose(0, 1) == 0 { Loss::MeanSquare } else { Loss::NormCrossEntropy };
  if (a == 0) != (b == 0) {
    check(C::loss(&io(&t, a), &io(&p, b), &f).is_err(), "different kinds: loss refused");
    check(C::d_loss(&io(&t, a), &io(&p, b), &f).is_err(), "different kinds: derivative refused");
  } else {
    check(C::loss(&io(&t, a), &io(&p, b), &f).is_ok(), "same kind: loss given");
  }
}
fn loss_batch<C: Cx + El>(f: Loss, nb: usize) {
  let (i, o, b) = (choose(1, 2), choose(1, 2), choose(1, nb));
  let (l, d) = dense::<C>(i, o, Act::None);
  let mut net: CNetwork<C> = CNetwork::new();
  net.add_input(l.wrap()).unwrap();
  let mut data: Dataset<C, C> = Dataset::new();
  let mut sum: C::F = k(0.0);
  for _ in 0..b {
    let (x, t): (Vec<C>, Vec<C>) = (anyvec(i), anyvec(o));
    let p = dense_q(&d, &x);
    sum = sum + match f { Loss::MeanSquare => mse(&t, &p), _ => ce(&t, &p) };
    data.add_point((IOType::Scalar(x), IOType::Scalar(t)));
  }
  let got = C::p(net.loss(&data, &f).unwrap());
  C::F::eqc(got, sum / C::F::n(b), "average of the per-sample losses");
}
fn batch_mse<C: Cx + El>() { loss_batch::<C>(Loss::MeanSquare, 3) }
fn batch_ce<C: Cx + El>() { loss_batch::<C>(Loss::NormCrossEntropy, tier(2, 3)) }

fn d_mse<C: Cx + El>() {
  let n = choose(1, tier(3, 4));
  let kind = choose(0, 2);
  let (t, p): (Vec<C>, Vec<C>) = (anyvec(n), anyvec(n));
  let d = C::d_loss(&io(&t, kind), &io(&p, kind), &Loss::MeanSquare).unwrap();
  let e: Vec<C> = (0..n).map(|i| C::mk(p[i].x() - t[i].x(), t[i].y() - p[i].y())).collect();
  check(d.len() == n, "one derivative per component");
  eqvec(&d, &e, "conjugate of prediction minus target");
}
fn d_ce<C: Cx + El>() {
  let n = choose(1, 3);
  let kind = choose(0, 2);
  let (t, p): (Vec<C>, Vec<C>) = (anyvec(n), anyvec(n));
  let d = C::d_loss(&io(&t, kind), &io(&p, kind), &Loss::NormCrossEntropy).unwrap();
  check(d.len() == n, "one derivative per component");
  let tr: Vec<f64> = t.iter().map(|v| v.x().to64()).collect();
  let mut at = vec![];
  for v in p.iter() { at.push(v.x().to64()); at.push(v.y().to64()) }
  let f = move |q: &[f64]| {
    let mut s = 0.0;
    for i in 0..n { s += (q[2 * i] * q[2 * i] + q[2 * i + 1] * q[2 * i + 1]).exp() }
    let mut l = 0.0;
    for i in 0..n { l -= tr[i] * (q[2 * i] * q[2 * i] + q[2 * i + 1] * q[2 * i + 1] - s.ln()) }
    l
  };
  if d.len() == n {
    for i in 0..n {
      f64::eqt(d[i].x().to64(), 0.5 * partial(&f, &at, 2 * i), C::F::DTOL, "Wirtinger derivative of the cross entropy");
      f64::eqt(d[i].y().to64(), -0.5 * partial(&f, &at, 2 * i + 1), C::F::DTOL, "Wirtinger derivative of the cross entropy");
    }
  }
}

/* larger sizes */
/// one quadrant and one range per position, so that long slices do not multiply the case distinctions
fn spread<C: Cx + El>(z: &[C]) {
  let o: C::F = k(0.0);
  for (i, v) in z.iter().enumerate() {
    assume(if i % 2 == 0 { v.x() > o } else { v.x() < o });
    assume(if i / 2 % 2 == 0 { v.y() > o } else { v.y() < o });
    let far: C::F = k(1000.0);
    let near: C::F = k(8.0);
    for a in [v.x(), v.y()] { assume(if i % 5 == 4 { a > far || a < -far } else { a < near && a > -near }) }
  }
}
fn long_slices<C: Cx + El>() {
  let f = act(choose(0, 6));
  let n = [5, 9, 17][choose(0, 2)];
  let z: Vec<C> = anyvec(n);
  spread(&z);
  let mut m = z.clone();
  C::activate_mut(&mut m, &f);
  eqvec(&m, &z.iter().map(|v| v.activate(&f)).collect::<Vec<_>>(), "slice form");
}
fn long_dslices<C: Cx + El>() {
  let f = act(choose(0, 6));
  let n = [5, 9][choose(0, 1)];
  let z: Vec<C> = anyvec(n);
  spread(&z);
  let mut m = z.clone();
  C::d_activate_mut(&mut m, &f);
  eqvec(&m, &z.iter().map(|v| v.d_activate(&f)).collect::<Vec<_>>(), "slice form of the derivative");
  let mut m = z.clone();
  C::d_conj_activate_mut(&mut m, &f);
  eqvec(&m, &z.iter().map(|v| v.d_conj_activate(&f)).collect::<Vec<_>>(), "slice form of the conjugate derivative");
}
fn long_loss<C: Cx + El>() {
  let n = [4, 5, 8, 10, 17][choose(0, 4)];
  let kind = choose(0, 2);
  let (t, p): (Vec<C>, Vec<C>) = (anyvec(n), anyvec(n));
  let l = C::p(C::loss(&io(&t, kind), &io(&p, kind), &Loss::MeanSquare).unwrap());
  C::F::eqc(l, mse(&t, &p), "mean of the squared errors");
}
fn long_ce<C: Cx + El>() {
  let n = [4, 5, 10][choose(0, 2)];
  let (t, p): (Vec<C>, Vec<C>) = (anyvec(n), anyvec(n));
  let l = C::p(C::loss(&io(&t, 0), &io(&p, 0), &Loss::NormCrossEntropy).unwrap());
  C::F::eqc(l, ce(&t, &p), "cross entropy of the softmax of the squared moduli");
}
/// feature maps: several maps of several rows
fn maps_loss<C: Cx + El>() {
  let (k, r, c) = [(1, 2, 2), (2, 2, 1), (3, 1, 2), (2, 3, 3)][choose(0, 3)];
  let (t, x) = maps::<C>(k, r, c);
  let (p, y) = maps::<C>(k, r, c);
  let t: Vec<C> = t.iter().flatten().flatten().copied().collect();
  let p: Vec<C> = p.iter().flatten().flatten().copied().collect();
  let l = C::p(C::loss(&x, &y, &Loss::MeanSquare).unwrap());
  C::F::eqc(l, mse(&t, &p), "mean of the squared errors");
  let d = C::d_loss(&x, &y, &Loss::MeanSquare).unwrap();
  let e: Vec<C> = (0..t.len()).map(|i| C::mk(p[i].x() - t[i].x(), t[i].y() - p[i].y())).collect();
  eqvec(&d, &e, "conjugate of prediction minus target");
}
fn long_batch<C: Cx + El>() {
  let b = [4, 5, 8, 17][choose(0, 3)];
  let (l, d) = dense::<C>(1, 1, Act::None);
  let mut net: CNetwork<C> = CNetwork::new();
  net.add_input(l.wrap()).unwrap();
  let mut data: Dataset<C, C> = Dataset::new();
  let mut sum: C::F = k(0.0);
  for _ in 0..b {
    let (x, t): (Vec<C>, Vec<C>) = (anyvec(1), anyvec(1));
    sum = sum + mse(&t, &dense_q(&d, &x));
    data.add_point((IOType::Scalar(x), IOType::Scalar(t)));
  }
  let got = C::p(net.loss(&data, &Loss::MeanSquare).unwrap());
  C::F::eqc(got, sum / C::F::n(b), "average of the per-sample losses");
}
fn long_dloss<C: Cx + El>() {
  let n = [4, 5, 8, 10, 17][choose(0, 4)];
  let kind = choose(0, 2);
  let (t, p): (Vec<C>, Vec<C>) = (anyvec(n), anyvec(n));
  let d = C::d_loss(&io(&t, kind), &io(&p, kind), &Loss::MeanSquare).unwrap();
  let e: Vec<C> = (0..n).map(|i| C::mk(p[i].x() - t[i].x(), t[i].y() - p[i].y())).collect();
  eqvec(&d, &e, "conjugate of prediction minus target");
}

entries! {
  h_c16_none_f32_r => def_none::<Cf32>;
  h_c16_none_f64_r => def_none::<Cf64>;
  h_c16_modz_f32_r => def_modz::<Cf32>;
  h_c16_modz_f64_r => def_modz::<Cf64>;
  h_c16_sig_f32_r => def_sig::<Cf32>;
  h_c16_sig_f64_r => def_sig::<Cf64>;
  h_c16_tanh_f32_r => def_tanh::<Cf32>;
  h_c16_tanh_f64_r => def_tanh::<Cf64>;
  h_c16_relu_f32_r => def_relu::<Cf32>;
  h_c16_relu_f64_r => def_relu::<Cf64>;
  h_c16_zrelu_f32_r => def_zrelu::<Cf32>;
  h_c16_zrelu_f64_r => def_zrelu::<Cf64>;
  h_c16_card_f32_r => def_card::<Cf32>;
  h_c16_card_f64_r => def_card::<Cf64>;
  h_c16_cardphase_f32_r => card_axis::<Cf32>;
  h_c16_cardphase_f64_r => card_axis::<Cf64>;
  h_c16_rsig_f32_f => rng_sig::<Cf32>;
  h_c16_rsig_f64_f => rng_sig::<Cf64>;
  h_c16_rtanh_f32_f => rng_tanh::<Cf32>;
  h_c16_rtanh_f64_f => rng_tanh::<Cf64>;
  h_c16_rrelu_f32_f => rng_relu::<Cf32>;
  h_c16_rrelu_f64_f => rng_relu::<Cf64>;
  h_c16_rzrelu_f32_f => rng_zrelu::<Cf32>;
  h_c16_rzrelu_f64_f => rng_zrelu::<Cf64>;
  h_c16_rnone_f32_f => rng_none::<Cf32>;
  h_c16_rnone_f64_f => rng_none::<Cf64>;
  h_c16_slice_f32_r => slices::<Cf32>;
  h_c16_slice_f64_r => slices::<Cf64>;
  h_c17_none_f32_r => dv_none::<Cf32>;
  h_c17_none_f64_r => dv_none::<Cf64>;
  h_c17_modz_f32_r => dv_modz::<Cf32>;
  h_c17_modz_f64_r => dv_modz::<Cf64>;
  h_c17_sig_f32_r => dv_sig::<Cf32>;
  h_c17_sig_f64_r => dv_sig::<Cf64>;
  h_c17_sat_f32_r => dv_sat::<Cf32>;
  h_c17_sat_f64_r => dv_sat::<Cf64>;
  h_c17_tanh_f32_r => dv_tanh::<Cf32>;
  h_c17_tanh_f64_r => dv_tanh::<Cf64>;
  h_c17_relu_f32_r => dv_relu::<Cf32>;
  h_c17_relu_f64_r => dv_relu::<Cf64>;
  h_c17_zrelu_f32_r => dv_zrelu::<Cf32>;
  h_c17_zrelu_f64_r => dv_zrelu::<Cf64>;
  h_c17_card_f32_r => dv_card::<Cf32>;
  h_c17_card_f64_r => dv_card::<Cf64>;
  h_c17_range_f32_f => dv_range::<Cf32>;
  h_c17_range_f64_f => dv_range::<Cf64>;
  h_c17_slice_f32_r => dslices::<Cf32>;
  h_c17_slice_f64_r => dslices::<Cf64>;
  h_c18_mse_f32_r => loss_mse::<Cf32>;
  h_c18_mse_f64_r => loss_mse::<Cf64>;
  h_c18_zero_f32_r => loss_zero::<Cf32>;
  h_c18_zero_f64_r => loss_zero::<Cf64>;
  h_c18_ce_f32_r => loss_ce::<Cf32>;
  h_c18_ce_f64_r => loss_ce::<Cf64>;
  h_c18_kind_f32_r => loss_kind::<Cf32>;
  h_c18_kind_f64_r => loss_kind::<Cf64>;
  h_c18_bmse_f32_r => batch_mse::<Cf32>;
  h_c18_bmse_f64_r => batch_mse::<Cf64>;
  h_c18_bce_f32_r => batch_ce::<Cf32>;
  h_c18_bce_f64_r => batch_ce::<Cf64>;
  h_c19_mse_f32_r => d_mse::<Cf32>;
  h_c19_mse_f64_r => d_mse::<Cf64>;
  h_c19_ce_f32_r => d_ce::<Cf32>;
  h_c19_ce_f64_r => d_ce::<Cf64>;
  h_c16_long_f32_r => long_slices::<Cf32>;
  h_c16_long_f64_r => long_slices::<Cf64>;
  h_c17_long_f32_r => long_dslices::<Cf32>;
  h_c17_long_f64_r => long_dslices::<Cf64>;
  h_c18_long_f32_r => long_loss::<Cf32>;
  h_c18_long_f64_r => long_loss::<Cf64>;
  h_c18_longce_f32_r => long_ce::<Cf32>;
  h_c18_longce_f64_r => long_ce::<Cf64>;
  h_c18_maps_f32_r => maps_loss::<Cf32>;
  h_c18_maps_f64_r => maps_loss::<Cf64>;
  h_c18_longb_f32_r => long_batch::<Cf32>;
  h_c18_longb_f64_r => long_batch::<Cf64>;
  h_c19_long_f32_r => long_dloss::<Cf32>;
  h_c19_long_f64_r => long_dloss::<Cf64>;
  h_c19_maps_f32_r => maps_loss::<Cf32>;
  h_c19_maps_f64_r => maps_loss::<Cf64>;
}
