//! C26 random generator, C27 initialisation, C28 one-hot targets, C29 datasets, C30 image batches,
//! C31 signal data
use crate::v::*;
use crate::cx::*;
use crate::nn::*;
use renplex::dataset::Dataset;
use renplex::init::PredictModel;
use renplex::math::cfloat::{Cf32, Cf64};
use renplex::math::random::{lcgf32, lcgf64, lcgi};
use renplex::math::{Complex, Real};

/* C26 */
const P: u128 = (1 << 31) - 1;
fn step(s: u128) -> u128 { (1103515245 * (s % P) + 12345) % P }
fn draw32() {
  let s = u128_();
  let mut t = s;
  let u = lcgf32(&mut t);
  check(t == step(s), "new seed");
  check(t < P, "new seed below the modulus");
  check(u == t as f32 / 2147483648.0, "value of the draw");
  check(u >= 0.0 && u <= 1.0, "draw in the unit interval");
  let mut r = s;
  let w = lcgf32(&mut r);
  check(r == t && w == u, "determined by the seed");
}
fn draw64() {
  let s = u128_();
  let mut t = s;
  let u = lcgf64(&mut t);
  check(t == step(s), "new seed");
  check(t < P, "new seed below the modulus");
  check(u == t as f64 / 2147483648.0, "value of the draw");
  check(u >= 0.0 && u <= 1.0, "draw in the unit interval");
  let mut r = s;
  let w = lcgf64(&mut r);
  check(r == t && w == u, "determined by the seed");
}
/// the new seeds are cut into L ranges of equal width, the last one takes the remainder
fn index() {
  let s = u128_();
  let l = u128_();
  assume(l >= 1 && l <= P - 1);
  let mut t = s;
  let k = lcgi(&mut t, l) as u128;
  check(t == step(s), "new seed");
  check(k < l, "index below the limit");
  let w = P / l;
  check(k == (t / w).min(l - 1), "index is the range of the new seed");
  let mut r = s;
  check(lcgi(&mut r, l) as u128 == k && r == t, "determined by the seed");
}
fn small_index(lo: usize, hi: usize) {
  let s = u128_();
  let l = choose(lo, hi) as u128;
  let mut t = s;
  let k = lcgi(&mut t, l) as u128;
  check(t == step(s), "new seed");
  check(k < l, "index below the limit");
  let w = P / l;
  check(k * w <= t, "index is the range of the new seed");
  check(k == l - 1 || t < (k + 1) * w, "index is the range of the new seed");
}
/// real draws with a scale
fn scaled<F: Fl + Real>() {
  let s = u128_();
  let n = [0, 1, 2, 3, 5, 7, 100, 12345, 1 << 24, (1 << 24) + 1][choose(0, 9)];
  let mut t = s;
  let v = F::gen(&mut t, n);
  check(t == step(s), "new seed");
  check(v >= -F::n(n) && v <= F::n(n), "scaled draw in range");
}

/* C27 */
fn method(k: usize, n: usize) -> InitMethod {
  match k {
    0 => InitMethod::Uniform(n),
    1 => InitMethod::XavierGlorotU(n),
    2 => InitMethod::Xavier(n),
    3 => InitMethod::XavierGlorotN(n),
    _ => InitMethod::HeInit(n),
  }
}
/// bound on the squared modulus; u is the first draw after the seed
fn bound(k: usize, n: usize, u: f64) -> f64 {
  let n = n as f64;
  match k {
    0 => n * n,
    1 => 6.0 / n,
    2 => 12.0 / n,
    _ => 2.0 / n * (-2.0 * u.ln()),
  }
}
const UNITS: [usize; 6] = [1, 2, 3, 10, 785, 1 << 24];
/// finite for every seed, no component outside the bound (with the rounding of a few operations)
fn finite<C: Cx>(k: usize) {
  let s = u128_();
  let n = UNITS[choose(0, 5)];
  let mut t = s;
  let w: C = method(k, n).gen(&mut t);
  let b = match k { 0 => n as f64, 1 => (6.0 / n as f64).sqrt(), 2 => (12.0 / n as f64).sqrt(), _ => (2.0 / n as f64).sqrt() * 40.0 };
  let b = b * 1.000001;
  check(w.x().to64() <= b && w.x().to64() >= -b, "real part finite and bounded");
  check(w.y().to64() <= b && w.y().to64() >= -b, "imaginary part finite and bounded");
  check(t < P, "seed advanced");
  let mut r = s;
  let v: C = method(k, n).gen(&mut r);
  check(r == t, "same seed afterwards");
  check(v.x() == w.x() && v.y() == w.y(), "reproducible");
}
/// modulus at most the method's scale; a quarter of the units doubles the weight
fn modulus<C: Cx>(k: usize) {
  let s = u128_();
  let n = [1, 2, 3, 10][choose(0, 3)];
  let mut t = s;
  let w: C = method(k, n).gen(&mut t);
  let mut r = s;
  let u = lcgf64(&mut r);
  if k >= 3 { assume(u > 0.0) }
  let (x, y) = (w.x().to64(), w.y().to64());
  f64::eqt(0.0, 0.0, 0.0, "reached");
  let m = x * x + y * y;
  f64::lec(m, bound(k, n, u), "modulus within the method's scale");
  let mut t = s;
  let v: C = method(k, 4 * n).gen(&mut t);
  let f = if k == 0 { 0.25 } else { 2.0 };
  C::F::eqc(w.x(), C::F::k(f) * v.x(), "scales with the units");
  C::F::eqc(w.y(), C::F::k(f) * v.y(), "scales with the units");
}
fn advance<C: Cx>(k: usize, n: usize, t: &mut u128) -> C { method(k, n).gen(t) }
/// weights are successive draws, biases are zero, the seed ends after the last draw
fn dense_init<C: Cx + El>(k: usize, i: usize, o: usize) {
  let s = u128_();
  let n = i + o;
  let mut t = s;
  let l: DenseCLayer<C> = DenseCLayer::init(IOShape::Scalar(i), o, Act::None, method(k, n), &mut t).unwrap();
  let mut r = s;
  let w: Vec<C> = (0..i * o).map(|_| advance(k, n, &mut r)).collect();
  check(t == r, "seed after initialisation");
  check(l.params_len() == (i * o, o), "number of parameters");
  let z: Vec<C> = vec![C::mk(C::F::n(0), C::F::n(0)); i];
  eqscal(&l.forward(&IOType::Scalar(z.clone())).unwrap(), &vec![C::int(0); o], "zero biases");
  for c in 0..i {
    let mut e = z.clone();
    e[c] = C::int(1);
    let col: Vec<C> = (0..o).map(|q| w[q * i + c]).collect();
    eqscal(&l.forward(&IOType::Scalar(e)).unwrap(), &col, "weights are successive draws");
  }
}
fn conv_init<C: Cx + El>(k: usize, ch: usize, fl: usize, p: usize, q: usize) {
  let s = u128_();
  let n = ch + fl;
  let mut t = s;
  let l: ConvCLayer<C> = ConvCLayer::init(IOShape::Matrix(ch), fl, [p, q], Act::None, method(k, n), &mut t).unwrap();
  let mut r = s;
  let w: Vec<C> = (0..ch * fl * p * q).map(|_| advance(k, n, &mut r)).collect();
  check(t == r, "seed after initialisation");
  check(l.params_len() == (ch * fl * p * q, fl), "number of parameters");
  let unit = |a: usize, b: usize, c: usize| -> IOType<C> {
    let m = (0..ch).map(|d| {
      let mut v = vec![C::int(0); p * q];
      if d == a { v[b * q + c] = C::int(1) }
      Matrix::from_body(v, [p, q])
    }).collect();
    IOType::Matrix(m)
  };
  let none = l.forward(&unit(ch, 0, 0)).unwrap();
  eqmaps(&none, &vec![vec![vec![C::int(0)]]; fl], 1, 1, "zero biases");
  for a in 0..ch { for b in 0..p { for c in 0..q {
    let e: Vec<Vec<Vec<C>>> = (0..fl).map(|f| vec![vec![w[((f * ch + a) * p + b) * q + c]]]).collect();
    eqmaps(&l.forward(&unit(a, b, c)).unwrap(), &e, 1, 1, "weights are successive draws");
  } } }
}

/* C28 */
fn onehot<T: El>(f: fn(usize, usize) -> Option<Vec<T>>) {
  let n = choose(0, tier(6, 12));
  let k = u64_() as usize;
  let mut r = None;
  check(!panics(|| r = Some(f(n, k))), "no panic");
  match r {
    Some(Some(v)) => {
      check(k < n, "accepted only for a class that exists");
      check(v.len() == n, "length");
      for i in 0..v.len() { T::same(v[i], T::int(if i == k { 1 } else { 0 }), "one at the class, zero elsewhere") }
    }
    Some(None) => check(k >= n, "refused only for a class that does not exist"),
    None => check(false, "no panic"),
  }
}

/* C29 */
#[derive(Clone)]
enum Raw<T> { V(Vec<T>), M(Vec<Vec<Vec<T>>>, usize, usize) }
fn piece<T: El>() -> (Raw<T>, IOType<T>) {
  match choose(0, 3) {
    0 => { let v: Vec<T> = anyvec(1); (Raw::V(v.clone()), IOType::Scalar(v)) }
    1 => { let v: Vec<T> = anyvec(3); (Raw::V(v.clone()), IOType::Scalar(v)) }
    2 => { let (t, m) = maps::<T>(1, 1, 2); (Raw::M(t, 1, 2), m) }
    _ => { let (t, m) = maps::<T>(2, 2, 1); (Raw::M(t, 2, 1), m) }
  }
}
fn same<T: El>(x: &IOType<T>, e: &Raw<T>, l: &'static str) {
  match e { Raw::V(v) => eqscal(x, v, l), Raw::M(t, r, c) => eqmaps(x, t, *r, *c, l) }
}
fn paired<B: El, T: El>(max: usize) where IOType<B>: Clone {
  let n = choose(0, max);
  let mut d: Dataset<B, T> = Dataset::new();
  check(d.get_n_points() == 0, "empty at first");
  let mut e: Vec<(Raw<B>, Raw<T>)> = vec![];
  for k in 0..n {
    // the kinds vary within a history; values are arbitrary
    let (a, x) = piece::<B>();
    let (b, y) = if k == 0 { piece::<T>() } else { let v: Vec<T> = anyvec(k); (Raw::V(v.clone()), IOType::Scalar(v)) };
    d.add_point((x, y));
    e.push((a, b));
    check(d.get_n_points() == k + 1, "number of points");
  }
  for k in 0..n {
    let (x, y) = d.get_point(k);
    same(x, &e[k].0, "input of the point");
    same(y, &e[k].1, "target of the point");
  }
  check(panics(|| { d.get_point(n + u64_() as usize % 5); }), "no point beyond the last");
  let (xs, ys) = d.points_as_iter();
  check(xs.len() == n && ys.len() == n, "lengths of the iterators");
  for (k, x) in xs.enumerate() { same(x, &e[k].0, "iterated input") }
  for (k, y) in ys.enumerate() { same(y, &e[k].1, "iterated target") }
  let (xs, ys) = d.points_into_iter();
  check(xs.len() == n && ys.len() == n, "lengths of the consuming iterators");
  for (k, x) in xs.enumerate() { same(&x, &e[k].0, "consumed input") }
  for (k, y) in ys.enumerate() { same(&y, &e[k].1, "consumed target") }
}
fn accessors<T: El>() {
  let (e, mut x) = piece::<T>();
  match e {
    Raw::V(v) => {
      eqvec(x.as_slice(), &v, "slice");
      eqvec(&x.to_vec(), &v, "copied vector");
      check(x.clone().release_maps().is_err(), "a vector is not feature maps");
      match x.clone().release_vec() { Ok(w) => { check(w.len() == v.len(), "length"); eqvec(&w, &v, "released vector") } Err(_) => check(false, "a vector is released") }
      let n: T = T::any();
      let k = choose(0, v.len() - 1);
      x.as_mut()[k] = n;
      for i in 0..v.len() { T::same(x.as_slice()[i], if i == k { n } else { v[i] }, "written through the slice") }
    }
    Raw::M(t, r, c) => {
      check(panics(|| { x.as_slice(); }), "feature maps are not a slice");
      check(panics(|| { x.as_mut(); }), "feature maps are not a slice");
      check(panics(|| { x.to_vec(); }), "feature maps are not a vector");
      check(x.clone().release_vec().is_err(), "feature maps are not a vector");
      match x.release_maps() { Ok(m) => eqmaps(&IOType::Matrix(m), &t, r, c, "released maps"), Err(_) => check(false, "maps are released") }
    }
  }
}

/* C30 */
const PIX: usize = 784;
fn bytes(n: usize) -> Vec<u8> { (0..n).map(|_| u8_()).collect() }
struct Src { img: Vec<Vec<u8>>, lab: Vec<u8>, fi: std::fs::File, fl: std::fs::File }
/// files with `n` image records and `m` labels, `xi` extra image bytes
fn source(n: usize, xi: usize, m: usize) -> Src {
  let mut bi = bytes(16);
  let img: Vec<Vec<u8>> = (0..n).map(|_| bytes(PIX)).collect();
  for b in img.iter() { bi.extend_from_slice(b) }
  bi.extend(bytes(xi));
  let mut bl = bytes(8);
  let mut lab = vec![];
  for _ in 0..m { let b = u8_(); assume(b < 10); bl.push(b); lab.push(b) }
  Src { img, lab, fi: file(&bi), fl: file(&bl) }
}
fn record<T: El>(x: &IOType<T>, y: &IOType<T>, img: &[u8], lab: u8) {
  match x {
    IOType::Matrix(v) => {
      check(v.len() == 1, "one feature map");
      let s = v[0].get_shape();
      check(s[0] == 28 && s[1] == 28, "image shape");
      let b = v[0].get_body();
      check(b.len() == PIX, "number of pixels");
      for k in 0..PIX { T::same(b[k], T::sdiv(T::int(img[k] as usize), T::int(255)), "pixel") }
    }
    IOType::Scalar(_) => check(false, "images are feature maps"),
  }
  match y {
    IOType::Scalar(v) => {
      check(v.len() == 10, "number of classes");
      for k in 0..v.len() { T::same(v[k], T::int(if k == lab as usize { 1 } else { 0 }), "one-hot label") }
    }
    IOType::Matrix(_) => check(false, "labels are vectors"),
  }
}
type Load<T> = fn(&mut std::fs::File, &mut std::fs::File, usize, &mut usize) -> Dataset<T, T>;
fn batches<T: El>(load: Load<T>, n: usize, xi: usize, m: usize, b1: usize, b2: usize) {
  let mut s = source(n, xi, m);
  let have = n.min(m);
  let mut tr = 0;
  let mut at = 0;
  for b in [b1, b2] {
    let d = load(&mut s.fi, &mut s.fl, b, &mut tr);
    let e = b.min(have - at);
    check(d.get_n_points() == e, "number of points");
    for k in 0..e.min(d.get_n_points()) {
      let (x, y) = d.get_point(k);
      record(x, y, &s.img[at + k], s.lab[at + k]);
    }
    at += e;
  }
}
fn images<T: El>(load: Load<T>) {
  // image records, extra image bytes, labels, first and second batch size
  let c = [
    (2, 0, 2, 1, 1), (2, 0, 2, 3, 1), (1, 0, 2, 2, 1), (2, 0, 1, 2, 2), (0, 0, 0, 1, 1), (0, 1, 1, 1, 1),
    (1, 783, 2, 3, 1), (1, 400, 2, 1, 2), (1, 0, 0, 1, 1), (2, 0, 2, 0, 2), (2, 5, 2, 2, 1), (1, 1, 3, 1, 3),
  ];
  let (n, xi, m, b1, b2) = c[choose(0, c.len() - 1)];
  batches(load, n, xi, m, b1, b2);
}
/// files that end inside their headers
fn headers<T: El>(load: Load<T>) {
  let (a, b) = [(0, 0), (7, 8), (16, 0), (16, 3), (15, 8)][choose(0, 4)];
  let mut fi = file(&bytes(a));
  let mut fl = file(&bytes(b));
  let mut tr = 0;
  for _ in 0..2 { check(load(&mut fi, &mut fl, 2, &mut tr).get_n_points() == 0, "no point from a header") }
}
/// a call that continues an earlier one skips no header
fn resumed<T: El>(load: Load<T>) {
  let b = bytes(PIX);
  let k = u8_();
  assume(k < 10);
  let mut fi = file(&b);
  let mut fl = file(&[k]);
  let mut tr = range(1, 60006);
  let d = load(&mut fi, &mut fl, 2, &mut tr);
  check(d.get_n_points() == 1, "number of points");
  let (x, y) = d.get_point(0);
  record(x, y, &b, k);
}

/* C31 */
/// seeds up to their residue: the generator reduces them first (C26)
fn residue() -> u128 { range(0, P as usize - 1) as u128 }
/// shapes, definedness, moduli; `n` names how many waves the first points get (0: left open)
fn signal(samples: usize, batch: usize, n: [usize; 2]) {
  let (a, b) = (residue(), residue());
  signal_of(a, b, samples, batch, n)
}
/// several points: named seeds, every noise level
fn named_seeds() {
  let (a, b) = [(12345, 67890), (u128::MAX, 1 << 64)][choose(0, 1)];
  let (s, n) = [(0, 4), (1, 3)][choose(0, 1)];
  signal_of(a, b, s, n, [0, 0])
}
fn signal_of(mut a: u128, mut b: u128, samples: usize, batch: usize, n: [usize; 2]) {
  waves();
  let noise = <f32 as Fl>::var();
  for (s, n) in [(a, n[0]), (b, n[1])] {
    let mut s = s;
    if n > 0 { assume(lcgi(&mut s, 8) == n - 1) }
  }
  let (x, y) = Dataset::<Cf32, Cf32>::signal_reconstruction(samples, batch, noise, &mut a, &mut b);
  for d in [x, y] {
    check(d.get_n_points() == batch, "number of points");
    for k in 0..d.get_n_points() {
      let (i, t) = d.get_point(k);
      match (i, t) {
        (IOType::Scalar(i), IOType::Scalar(t)) => {
          check(i.len() == samples && t.len() == samples, "number of samples");
          for z in i.iter().chain(t.iter()) {
            f32::defined(z.x, "finite real part");
            f32::defined(z.y, "finite imaginary part");
          }
          for z in t { f32::lec(z.x * z.x + z.y * z.y, 1.0, "clean modulus at most 1") }
        }
        _ => check(false, "signals are vectors"),
      }
    }
  }
}
/* larger sizes */
fn long_data<T: El>() {
  let n = [5, 8, 9, 17, 33][choose(0, 4)];
  let mut d: Dataset<T, T> = Dataset::new();
  let mut e = vec![];
  for k in 0..n {
    let (a, b): (Vec<T>, Vec<T>) = (anyvec(1 + k % 2), anyvec(1));
    d.add_point((IOType::Scalar(a.clone()), IOType::Scalar(b.clone())));
    e.push((a, b));
    check(d.get_n_points() == k + 1, "number of points");
  }
  for k in 0..n {
    let (x, y) = d.get_point(k);
    eqscal(x, &e[k].0, "input of the point");
    eqscal(y, &e[k].1, "target of the point");
  }
  let (xs, ys) = d.points_as_iter();
  check(xs.len() == n && ys.len() == n, "lengths of the iterators");
  for (k, (x, y)) in xs.zip(ys).enumerate() { eqscal(x, &e[k].0, "iterated input"); eqscal(y, &e[k].1, "iterated target") }
  let (xs, ys) = d.points_into_iter();
  check(xs.len() == n && ys.len() == n, "lengths of the consuming iterators");
  for (k, (x, y)) in xs.zip(ys).enumerate() { eqscal(&x, &e[k].0, "consumed input"); eqscal(&y, &e[k].1, "consumed target") }
}
/// more records, three calls
fn more_images<T: El>(load: Load<T>) {
  let (n, xi, m, b) = [(5, 0, 5, [2, 2, 2]), (4, 100, 6, [3, 0, 3]), (6, 0, 4, [1, 2, 3])][choose(0, 2)];
  let mut s = source(n, xi, m);
  for k in 0..s.lab.len() { assume(s.lab[k] as usize == 7 * k % 10) }
  let have = n.min(m);
  let (mut tr, mut at) = (0, 0);
  for b in b {
    let d = load(&mut s.fi, &mut s.fl, b, &mut tr);
    let e = b.min(have - at);
    check(d.get_n_points() == e, "number of points");
    for k in 0..e.min(d.get_n_points()) {
      let (x, y) = d.get_point(k);
      record(x, y, &s.img[at + k], s.lab[at + k]);
    }
    at += e;
  }
}
fn many_classes<T: El>(f: fn(usize, usize) -> Option<Vec<T>>) {
  let n = [10, 17, 33, 64][choose(0, 3)];
  let k = u64_() as usize;
  match f(n, k) {
    Some(v) => {
      check(k < n, "accepted only for a class that exists");
      check(v.len() == n, "length");
      for i in 0..v.len() { T::same(v[i], T::int(if i == k { 1 } else { 0 }), "one at the class, zero elsewhere") }
    }
    None => check(k >= n, "refused only for a class that does not exist"),
  }
}

entries! {
  h_c26_real32_f => draw32;
  h_c26_real64_f => draw64;
  h_c26_index_f => index;
  h_c26_small_f => || small_index(1, 12);
  h_c26_scaled32_f => scaled::<f32>;
  h_c26_scaled64_f => scaled::<f64>;

  h_c27_uniform32_f => || finite::<Cf32>(0);
  h_c27_uniform64_f => || finite::<Cf64>(0);
  h_c27_xagu32_f => || finite::<Cf32>(1);
  h_c27_xagu64_f => || finite::<Cf64>(1);
  h_c27_xavier32_f => || finite::<Cf32>(2);
  h_c27_xavier64_f => || finite::<Cf64>(2);
  h_c27_xagn32_f => || finite::<Cf32>(3);
  h_c27_xagn64_f => || finite::<Cf64>(3);
  h_c27_he32_f => || finite::<Cf32>(4);
  h_c27_he64_f => || finite::<Cf64>(4);
  h_c27_mod32_r => || modulus::<Cf32>(choose(0, 4));
  h_c27_mod64_r => || modulus::<Cf64>(choose(0, 4));
  h_c27_dense32_r => || dense_init::<Cf32>(choose(0, 4), 2, 2);
  h_c27_dense64_r => || dense_init::<Cf64>(choose(0, 4), 3, 1);
  h_c27_conv32_r => || conv_init::<Cf32>(choose(0, 4), 1, 2, 1, 2);
  h_c27_conv64_r => || conv_init::<Cf64>(choose(0, 4), 2, 1, 2, 1);

  h_c28_f32_f => || onehot::<f32>(|n, k| <f32 as Real>::gen_pred(n, k, &PredictModel::Sparse).ok());
  h_c28_f64_f => || onehot::<f64>(|n, k| <f64 as Real>::gen_pred(n, k, &PredictModel::Sparse).ok());
  h_c28_cf32_f => || onehot::<Cf32>(|n, k| <Cf32 as Complex>::gen_pred(n, k, &PredictModel::Sparse).ok());
  h_c28_cf64_f => || onehot::<Cf64>(|n, k| <Cf64 as Complex>::gen_pred(n, k, &PredictModel::Sparse).ok());

  h_c29_c64_r => || paired::<Cf64, Cf64>(tier(3, 4));
  h_c29_f32_r => || paired::<f32, f32>(tier(3, 4));
  h_c29_mixed_r => || paired::<f64, Cf32>(2);
  h_c29_acc64_r => accessors::<Cf64>;
  h_c29_acc32_r => accessors::<f32>;

  h_c30_f32_r => || images::<f32>(Dataset::<f32, f32>::minist_as_batch);
  h_c30_f64_r => || images::<f64>(Dataset::<f64, f64>::minist_as_batch);
  h_c30_cf32_r => || images::<Cf32>(Dataset::<Cf32, Cf32>::minist_as_complex_batch);
  h_c30_cf64_r => || images::<Cf64>(Dataset::<Cf64, Cf64>::minist_as_complex_batch);
  h_c30_head32_r => || headers::<f32>(Dataset::<f32, f32>::minist_as_batch);
  h_c30_headc64_r => || headers::<Cf64>(Dataset::<Cf64, Cf64>::minist_as_complex_batch);
  h_c30_cont32_r => || resumed::<f32>(Dataset::<f32, f32>::minist_as_batch);
  h_c30_contc64_r => || resumed::<Cf64>(Dataset::<Cf64, Cf64>::minist_as_complex_batch);

  h_c31_s0_r => || { let k = choose(1, 8); signal(0, choose(0, 1), [k, choose(1, 8)]) };
  h_c31_s1_r => || { let k = choose(1, 8); signal(1, 1, [k, choose(1, 8)]) };
  h_c31_s2_r => || { let k = choose(1, 8); signal(2, 1, [k, 9 - k]) };
  h_c31_s3_r => || { let k = choose(1, 3); signal(3, 1, [k, 4 - k]) };
  h_c31_s4_r => || signal(4, 1, [1, 2]);
  h_c31_s5_rT => || signal(5, 1, [1, 1]);
  h_c31_b0_r => || { let k = [1, 8][choose(0, 1)]; signal(0, 2, [k, 3]) };
  h_c31_named_r => named_seeds;
  h_c31_b0_rT => || { let k = choose(1, 8); signal(0, 3, [k, 9 - k]) };
  h_c27_wide32_r => || dense_init::<Cf32>(choose(0, 4), 5, 3);
  h_c27_wide64_r => || dense_init::<Cf64>(choose(0, 4), 2, 7);
  h_c27_widec32_r => || conv_init::<Cf32>(choose(0, 4), 3, 3, 1, 2);
  h_c27_widec64_r => || conv_init::<Cf64>(choose(0, 4), 2, 4, 2, 2);
  h_c28_many32_f => || many_classes::<f32>(|n, k| <f32 as Real>::gen_pred(n, k, &PredictModel::Sparse).ok());
  h_c28_many64_f => || many_classes::<f64>(|n, k| <f64 as Real>::gen_pred(n, k, &PredictModel::Sparse).ok());
  h_c28_manyc32_f => || many_classes::<Cf32>(|n, k| <Cf32 as Complex>::gen_pred(n, k, &PredictModel::Sparse).ok());
  h_c28_manyc64_f => || many_classes::<Cf64>(|n, k| <Cf64 as Complex>::gen_pred(n, k, &PredictModel::Sparse).ok());
  h_c29_long64_r => long_data::<Cf64>;
  h_c29_long32_r => long_data::<f32>;
  h_c30_more32_r => || more_images::<f32>(Dataset::<f32, f32>::minist_as_batch);
  h_c30_morec64_r => || more_images::<Cf64>(Dataset::<Cf64, Cf64>::minist_as_complex_batch);
}
