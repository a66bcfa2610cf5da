//! C06 elementwise operations, C07 convolution, C08 flip and pad, C09 block reduction, C10 upsampling
use crate::v::*;
use crate::cx::*;
use renplex::math::cfloat::{Cf32, Cf64};
use renplex::math::matrix::{SliceOps, SliceToMatrix};

fn vec_ops<T: El>() {
  let n = choose(0, 4);
  let k = choose(0, 4);
  let a: Vec<T> = anyvec(n);
  let b: Vec<T> = anyvec(k);
  let s: Vec<T> = (0..n.min(k)).map(|i| T::sadd(a[i], b[i])).collect();
  let p: Vec<T> = (0..n.min(k)).map(|i| T::smul(a[i], b[i])).collect();
  let (mut x, y) = (a.clone(), b.clone());
  match x.add_slice_mut(&y) {
    Ok(()) => { check(n == k, "only equal lengths"); eqvec(&x, &s, "in-place sum"); }
    Err(_) => { check(n != k, "equal lengths are accepted"); eqvec(&x, &a, "refused operation changes nothing"); }
  }
  eqvec(&y, &b, "right operand unchanged");
  let mut x = a.clone();
  match x.mul_slice_mut(&y) {
    Ok(()) => { check(n == k, "only equal lengths"); eqvec(&x, &p, "in-place product"); }
    Err(_) => { check(n != k, "equal lengths are accepted"); eqvec(&x, &a, "refused operation changes nothing"); }
  }
  eqvec(&y, &b, "right operand unchanged");
  let x = a.clone();
  // an empty left operand adopts the right one
  match x.add_slice(&y) {
    Ok(r) => {
      check(n == k || n == 0, "only equal lengths");
      if n == k { eqvec(&r, &s, "sum"); } else { eqvec(&r, &b, "sum with an empty vector"); }
    }
    Err(_) => check(n != k && n != 0, "equal lengths are accepted"),
  }
  match x[..].mul_slice(&y) {
    Ok(r) => { check(n == k, "only equal lengths"); eqvec(&r, &p, "product"); }
    Err(_) => check(n != k, "equal lengths are accepted"),
  }
  eqvec(&x, &a, "left operand unchanged");
  eqvec(&y, &b, "right operand unchanged");
  if n == k {
    let mut d = T::int(0);
    for i in 0..n { d = T::sadd(d, p[i]) }
    T::same(x.scalar_prod(&y), d, "dot product");
  }
}
fn vec_scalar<T: El>() {
  let n = choose(0, 4);
  let a: Vec<T> = anyvec(n);
  let k = T::any();
  let mut x = a.clone();
  check(x.mul_mut_scalar(k).is_ok(), "scalar multiply succeeds");
  let p: Vec<T> = (0..n).map(|i| T::smul(a[i], k)).collect();
  eqvec(&x, &p, "scalar multiply");
  T::nonzero(k);
  let mut x = a.clone();
  check(x.div_mut_scalar(k).is_ok(), "scalar divide succeeds");
  let p: Vec<T> = (0..n).map(|i| T::sdiv(a[i], k)).collect();
  eqvec(&x, &p, "scalar divide");
}
fn tmap<T: El>(a: &[Vec<T>], f: impl Fn(usize, usize) -> T) -> Vec<Vec<T>> {
  (0..a.len()).map(|i| (0..a[i].len()).map(|j| f(i, j)).collect()).collect()
}
fn mat_add<T: El>() {
  let (r, c) = (choose(1, 4), choose(1, 4));
  let (p, q) = (choose(1, 4), choose(1, 4));
  // equal shapes, and every mismatch by one in either direction or transposed
  assume((p == r && q == c) || (p == c && q == r) || (p == r && q == c + 1) || (p == r + 1 && q == c) || (p + 1 == r && q == c) || (p == r && q + 1 == c));
  let (a, mut m) = anymat::<T>(r, c);
  let (b, k) = anymat::<T>(p, q);
  match m.add_mut(&k) {
    Ok(()) => {
      check(r == p && c == q, "only equal shapes");
      if r == p && c == q { eqmat(&m, &tmap(&a, |i, j| T::sadd(a[i][j], b[i][j])), r, c, "matrix sum") }
    }
    Err(_) => { check(r != p || c != q, "equal shapes are accepted"); eqmat(&m, &a, r, c, "refused operation changes nothing") }
  }
  eqmat(&k, &b, p, q, "right operand unchanged");
}
fn mat_scalar<T: El>() {
  let (r, c) = (choose(1, 4), choose(1, 4));
  let (a, m) = anymat::<T>(r, c);
  let k = T::any();
  let mut x = m.clone();
  check(x.add_mut_scalar(k).is_ok(), "scalar add succeeds");
  eqmat(&x, &tmap(&a, |i, j| T::sadd(a[i][j], k)), r, c, "scalar add");
  let mut x = m.clone();
  check(x.mul_mut_scalar(k).is_ok(), "scalar multiply succeeds");
  eqmat(&x, &tmap(&a, |i, j| T::smul(a[i][j], k)), r, c, "scalar multiply");
  T::nonzero(k);
  let mut x = m.clone();
  check(x.div_mut_scalar(k).is_ok(), "scalar divide succeeds");
  eqmat(&x, &tmap(&a, |i, j| T::sdiv(a[i][j], k)), r, c, "scalar divide");
}
fn mat_vec<T: El>() {
  let (r, c) = (choose(1, 4), choose(1, 4));
  let n = choose(0, 5);
  let (a, m) = anymat::<T>(r, c);
  let v: Vec<T> = anyvec(n);
  let mut e = vec![];
  if n == c {
    for i in 0..r {
      let mut s = T::int(0);
      for j in 0..c { s = T::sadd(s, T::smul(a[i][j], v[j])) }
      e.push(s);
    }
  }
  match m.mul_vec(v.clone()) {
    Ok(o) => { check(n == c, "only fitting vectors"); eqvec(&o, &e, "matrix times vector") }
    Err(_) => check(n != c, "fitting vectors are accepted"),
  }
  match m.mul_slice(&v) {
    Ok(o) => { check(n == c, "only fitting vectors"); eqvec(&o, &e, "matrix times slice") }
    Err(_) => check(n != c, "fitting vectors are accepted"),
  }
  eqmat(&m, &a, r, c, "matrix unchanged");
}
fn reshape<T: El>() {
  let (r, c) = (choose(1, 4), choose(1, 4));
  let n = choose(0, 16);
  let v: Vec<T> = anyvec(n);
  match v.to_matrix([r, c]) {
    Ok(m) => { check(n == r * c, "only fitting shapes"); eqvec(m.get_body(), &v, "reshape keeps the order"); check(m.get_shape()[0] == r && m.get_shape()[1] == c, "shape") }
    Err(_) => check(n != r * c, "fitting shapes are accepted"),
  }
}

fn conv<T: El>(mlo: usize, mhi: usize) {
  let (m, n) = (choose(mlo, mhi), choose(1, 5));
  let (p, q) = (choose(1, 4), choose(1, 4));
  let (a, x) = anymat::<T>(m, n);
  let (k, y) = anymat::<T>(p, q);
  match x.convolution(&y) {
    Ok(o) => {
      check(p <= m && q <= n, "only fitting kernels");
      if p <= m && q <= n { eqmat(&o, &xcorr(&a, m, n, &k, p, q), m - p + 1, n - q + 1, "cross-correlation") }
    }
    Err(_) => check(p > m || q > n, "fitting kernels are accepted"),
  }
  eqmat(&x, &a, m, n, "matrix unchanged");
  eqmat(&y, &k, p, q, "kernel unchanged");
}
fn conv_lo<T: El>() { conv::<T>(1, 3) }
fn conv_4<T: El>() { conv::<T>(4, 4) }
fn conv_5<T: El>() { conv::<T>(5, 5) }

fn flip<T: El>() {
  let (m, n) = (choose(1, 4), choose(1, 4));
  let (a, x) = anymat::<T>(m, n);
  let f = x.flip().unwrap();
  eqmat(&f, &tmap(&a, |i, j| a[m - 1 - i][n - 1 - j]), m, n, "flipped entry");
  let g = f.flip().unwrap();
  eqmat(&g, &a, m, n, "flipping twice is the identity");
  eqmat(&x, &a, m, n, "original unchanged");
}
fn pad<T: El>() {
  let (m, n) = (choose(1, 4), choose(1, 4));
  let (p, q) = (choose(0, 3), choose(0, 3));
  let (a, x) = anymat::<T>(m, n);
  let o = x.pad((p, q));
  let mut e = vec![];
  for i in 0..m + 2 * p {
    let mut r = vec![];
    for j in 0..n + 2 * q {
      r.push(if i >= p && i < m + p && j >= q && j < n + q { a[i - p][j - q] } else { T::int(0) });
    }
    e.push(r);
  }
  eqmat(&o, &e, m + 2 * p, n + 2 * q, "padded entry");
}

/// order- and length-sensitive reducer
fn horner<T: El>(b: &[T]) -> T {
  let mut s = T::int(1);
  for v in b { s = T::sadd(T::smul(s, T::int(3)), *v) }
  s
}
fn block<T: El>(mlo: usize, mhi: usize) {
  let (m, n) = (choose(mlo, mhi), choose(1, 6));
  let (p, q) = (choose(1, 4), choose(1, 4));
  let (a, x) = anymat::<T>(m, n);
  let fits = m % p == 0 && n % q == 0;
  match x.block_reduce(&[p, q], |b: &[T]| horner(b)) {
    Ok(o) => {
      check(fits, "only multiples of the block size");
      if fits {
        let mut e = vec![];
        for i in 0..m / p {
          let mut r = vec![];
          for j in 0..n / q {
            let mut t = vec![];
            for u in 0..p { for v in 0..q { t.push(a[i * p + u][j * q + v]) } }
            r.push(horner(&t));
          }
          e.push(r);
        }
        eqmat(&o, &e, m / p, n / q, "reduced tile");
      }
    }
    Err(_) => check(!fits, "multiples of the block size are accepted"),
  }
  eqmat(&x, &a, m, n, "matrix unchanged");
}
fn block_a<T: El>() { block::<T>(1, 3) }
fn block_b<T: El>() { block::<T>(4, 5) }
fn block_c<T: El>() { block::<T>(6, 6) }

/// input on a zero grid at the block centres, then same-shape cross-correlation with the kernel
pub fn upsampled<T: El>(a: &[Vec<T>], m: usize, n: usize, p: usize, q: usize, k: &[Vec<T>], kr: usize, kc: usize) -> Vec<Vec<T>> {
  let z = T::int(0);
  let (hr, hc) = (kr / 2, kc / 2);
  let mut g = vec![vec![z; q * n + 2 * hc]; p * m + 2 * hr];
  for i in 0..m { for j in 0..n { g[hr + i * p + (p - 1) / 2][hc + j * q + (q - 1) / 2] = a[i][j] } }
  xcorr(&g, p * m + 2 * hr, q * n + 2 * hc, k, kr, kc)
}
fn ups<T: El>(plo: usize, phi: usize) {
  let (m, n) = (choose(1, 3), choose(1, 3));
  let (p, q) = (choose(plo, phi), choose(1, 4));
  let (kr, kc) = (2 * choose(0, 2) + 1, 2 * choose(0, 2) + 1);
  let (a, x) = anymat::<T>(m, n);
  let (k, y) = anymat::<T>(kr, kc);
  match x.fractional_upsampling(&[p, q], &y) {
    Ok(o) => eqmat(&o, &upsampled(&a, m, n, p, q, &k, kr, kc), p * m, q * n, "upsampled entry"),
    Err(_) => check(false, "odd kernels are accepted"),
  }
}
fn ups1<T: El>() { ups::<T>(1, 1) }
fn ups2<T: El>() { ups::<T>(2, 2) }
fn ups3<T: El>() { ups::<T>(3, 3) }
fn ups4<T: El>() { ups::<T>(4, 4) }
fn ups_even<T: El>() {
  let (m, n) = (choose(1, 3), choose(1, 3));
  let (p, q) = (choose(1, 4), choose(1, 4));
  let (kr, kc) = (choose(1, 5), choose(1, 5));
  assume(kr % 2 == 0 || kc % 2 == 0);
  let (_, x) = anymat::<T>(m, n);
  let (_, y) = anymat::<T>(kr, kc);
  check(x.fractional_upsampling(&[p, q], &y).is_err(), "even kernels are refused");
}

/* larger sizes */
const LEN: [usize; 9] = [5, 6, 7, 8, 9, 16, 17, 33, 65];
fn long_vec<T: El>() {
  let n = LEN[choose(0, 8)];
  let a: Vec<T> = anyvec(n);
  let b: Vec<T> = anyvec(n);
  let s: Vec<T> = (0..n).map(|i| T::sadd(a[i], b[i])).collect();
  let p: Vec<T> = (0..n).map(|i| T::smul(a[i], b[i])).collect();
  let mut x = a.clone();
  check(x.add_slice_mut(&b).is_ok(), "equal lengths are accepted");
  eqvec(&x, &s, "in-place sum");
  let mut x = a.clone();
  check(x.mul_slice_mut(&b).is_ok(), "equal lengths are accepted");
  eqvec(&x, &p, "in-place product");
  match a.add_slice(&b) { Ok(r) => eqvec(&r, &s, "sum"), Err(_) => check(false, "equal lengths are accepted") }
  match a[..].mul_slice(&b) { Ok(r) => eqvec(&r, &p, "product"), Err(_) => check(false, "equal lengths are accepted") }
  let mut d = T::int(0);
  for i in 0..n { d = T::sadd(d, p[i]) }
  T::same(a.scalar_prod(&b), d, "dot product");
  let k = T::any();
  let mut x = a.clone();
  check(x.mul_mut_scalar(k).is_ok(), "scalar multiply succeeds");
  eqvec(&x, &(0..n).map(|i| T::smul(a[i], k)).collect::<Vec<_>>(), "scalar multiply");
  let mut x = a.clone();
  check(x.add_slice_mut(&b[1..]).is_err() && x.mul_slice_mut(&b[1..]).is_err(), "only equal lengths");
  check(x.add_slice(&b[1..]).is_err() && x.mul_slice(&b[1..]).is_err(), "only equal lengths");
  eqvec(&x, &a, "refused operation changes nothing");
}
const SHAPES: [(usize, usize); 8] = [(1, 9), (9, 1), (5, 17), (8, 8), (17, 3), (2, 33), (6, 5), (7, 12)];
fn long_mat<T: El>() {
  let (r, c) = SHAPES[choose(0, 7)];
  let (a, m) = anymat::<T>(r, c);
  let (b, k) = anymat::<T>(r, c);
  let mut x = m.clone();
  check(x.add_mut(&k).is_ok(), "equal shapes are accepted");
  eqmat(&x, &tmap(&a, |i, j| T::sadd(a[i][j], b[i][j])), r, c, "matrix sum");
  let s = T::any();
  let mut x = m.clone();
  check(x.add_mut_scalar(s).is_ok(), "scalar add succeeds");
  eqmat(&x, &tmap(&a, |i, j| T::sadd(a[i][j], s)), r, c, "scalar add");
  let mut x = m.clone();
  check(x.mul_mut_scalar(s).is_ok(), "scalar multiply succeeds");
  eqmat(&x, &tmap(&a, |i, j| T::smul(a[i][j], s)), r, c, "scalar multiply");
  let v: Vec<T> = anyvec(c);
  let e: Vec<T> = (0..r).map(|i| (0..c).fold(T::int(0), |t, j| T::sadd(t, T::smul(a[i][j], v[j])))).collect();
  match m.mul_vec(v.clone()) { Ok(o) => eqvec(&o, &e, "matrix times vector"), Err(_) => check(false, "fitting vectors are accepted") }
  match m.mul_slice(&v) { Ok(o) => eqvec(&o, &e, "matrix times slice"), Err(_) => check(false, "fitting vectors are accepted") }
  eqmat(&m, &a, r, c, "matrix unchanged");
  eqmat(&k, &b, r, c, "right operand unchanged");
  let (_, t) = anymat::<T>(c, r);
  let mut x = m.clone();
  check(x.add_mut(&t).is_ok() == (r == c), "only equal shapes");
}
fn long_conv<T: El>() {
  let (m, n, p, q) = [
    (6, 6, 3, 3), (7, 5, 5, 3), (8, 9, 2, 4), (3, 12, 1, 7), (12, 3, 7, 1), (8, 8, 5, 5), (10, 10, 3, 3), (6, 6, 6, 6),
    (9, 7, 1, 1), (5, 5, 5, 4), (6, 17, 2, 2), (17, 6, 2, 2),
  ][choose(0, 11)];
  let (a, x) = anymat::<T>(m, n);
  let (k, y) = anymat::<T>(p, q);
  match x.convolution(&y) {
    Ok(o) => eqmat(&o, &xcorr(&a, m, n, &k, p, q), m - p + 1, n - q + 1, "cross-correlation"),
    Err(_) => check(false, "fitting kernels are accepted"),
  }
  eqmat(&x, &a, m, n, "matrix unchanged");
  eqmat(&y, &k, p, q, "kernel unchanged");
  check(y.convolution(&x).is_ok() == (m == p && n == q), "only fitting kernels");
}
fn long_flip<T: El>() {
  let (m, n) = SHAPES[choose(0, 7)];
  let (a, x) = anymat::<T>(m, n);
  let f = x.flip().unwrap();
  eqmat(&f, &tmap(&a, |i, j| a[m - 1 - i][n - 1 - j]), m, n, "flipped entry");
}
fn long_pad<T: El>() {
  let (m, n) = SHAPES[choose(0, 7)];
  let (p, q) = [(1, 1), (4, 0), (0, 5), (2, 7), (6, 3)][choose(0, 4)];
  let (a, x) = anymat::<T>(m, n);
  let o = x.pad((p, q));
  let e: Vec<Vec<T>> = (0..m + 2 * p).map(|i| (0..n + 2 * q).map(|j| {
    if i >= p && i < m + p && j >= q && j < n + q { a[i - p][j - q] } else { T::int(0) }
  }).collect()).collect();
  eqmat(&o, &e, m + 2 * p, n + 2 * q, "padded entry");
}
fn long_block<T: El>() {
  let (m, n, p, q) = [
    (8, 8, 2, 2), (9, 12, 3, 4), (10, 10, 5, 5), (16, 4, 8, 2), (12, 5, 1, 5), (7, 7, 7, 7), (8, 12, 4, 6), (18, 2, 2, 1), (3, 21, 3, 3),
  ][choose(0, 8)];
  let (a, x) = anymat::<T>(m, n);
  match x.block_reduce(&[p, q], |b: &[T]| horner(b)) {
    Ok(o) => {
      let e: Vec<Vec<T>> = (0..m / p).map(|i| (0..n / q).map(|j| {
        let t: Vec<T> = (0..p * q).map(|u| a[i * p + u / q][j * q + u % q]).collect();
        horner(&t)
      }).collect()).collect();
      eqmat(&o, &e, m / p, n / q, "reduced tile");
    }
    Err(_) => check(false, "multiples of the block size are accepted"),
  }
  check(x.block_reduce(&[p, n + 1], |b: &[T]| horner(b)).is_err(), "only multiples of the block size");
  check(x.block_reduce(&[2 * m, q], |b: &[T]| horner(b)).is_err(), "only multiples of the block size");
}
fn long_ups<T: El>() {
  let (m, n, p, q, kr, kc) = [
    (4, 5, 2, 3, 3, 3), (5, 4, 3, 3, 5, 5), (2, 2, 5, 6, 3, 7), (6, 6, 2, 2, 1, 1), (1, 7, 4, 5, 7, 1), (7, 1, 6, 2, 1, 3), (4, 4, 1, 1, 9, 3),
  ][choose(0, 6)];
  let (a, x) = anymat::<T>(m, n);
  let (k, y) = anymat::<T>(kr, kc);
  match x.fractional_upsampling(&[p, q], &y) {
    Ok(o) => eqmat(&o, &upsampled(&a, m, n, p, q, &k, kr, kc), p * m, q * n, "upsampled entry"),
    Err(_) => check(false, "odd kernels are accepted"),
  }
}

entries! {
  h_c06_vec_f64_r => vec_ops::<f64>;
  h_c06_vec_f32_r => vec_ops::<f32>;
  h_c06_vec_c64_r => vec_ops::<Cf64>;
  h_c06_vec_c32_r => vec_ops::<Cf32>;
  h_c06_vscal_f64_r => vec_scalar::<f64>;
  h_c06_vscal_f32_r => vec_scalar::<f32>;
  h_c06_vscal_c64_r => vec_scalar::<Cf64>;
  h_c06_vscal_c32_r => vec_scalar::<Cf32>;
  h_c06_madd_f64_r => mat_add::<f64>;
  h_c06_madd_c32_r => mat_add::<Cf32>;
  h_c06_mscal_f64_r => mat_scalar::<f64>;
  h_c06_mscal_f32_r => mat_scalar::<f32>;
  h_c06_mscal_c64_r => mat_scalar::<Cf64>;
  h_c06_mscal_c32_r => mat_scalar::<Cf32>;
  h_c06_mvec_f32_r => mat_vec::<f32>;
  h_c06_mvec_f64_r => mat_vec::<f64>;
  h_c06_mvec_c64_r => mat_vec::<Cf64>;
  h_c06_mvec_c32_r => mat_vec::<Cf32>;
  h_c06_reshape_f64_r => reshape::<f64>;
  h_c07_lo_f64_r => conv_lo::<f64>;
  h_c07_4_f64_r => conv_4::<f64>;
  h_c07_5_f64_r => conv_5::<f64>;
  h_c07_lo_c32_r => conv_lo::<Cf32>;
  h_c07_4_c32_r => conv_4::<Cf32>;
  h_c07_5_c32_r => conv_5::<Cf32>;
  h_c08_flip_f64_r => flip::<f64>;
  h_c08_flip_c32_r => flip::<Cf32>;
  h_c08_pad_f64_r => pad::<f64>;
  h_c08_pad_c32_r => pad::<Cf32>;
  h_c09_a_f64_r => block_a::<f64>;
  h_c09_b_f64_r => block_b::<f64>;
  h_c09_c_f64_r => block_c::<f64>;
  h_c09_a_c64_r => block_a::<Cf64>;
  h_c09_b_c64_r => block_b::<Cf64>;
  h_c09_c_c64_r => block_c::<Cf64>;
  h_c10_1_f64_r => ups1::<f64>;
  h_c10_2_f64_r => ups2::<f64>;
  h_c10_3_f64_r => ups3::<f64>;
  h_c10_4_f64_r => ups4::<f64>;
  h_c10_even_f64_r => ups_even::<f64>;
  h_c10_2_c32_r => ups2::<Cf32>;
  h_c10_3_c32_rT => ups3::<Cf32>;
  h_c06_long_vec_f32_r => long_vec::<f32>;
  h_c06_long_vec_c64_r => long_vec::<Cf64>;
  h_c06_long_mat_f64_r => long_mat::<f64>;
  h_c06_long_mat_c32_r => long_mat::<Cf32>;
  h_c07_long_f32_r => long_conv::<f32>;
  h_c07_long_c64_r => long_conv::<Cf64>;
  h_c08_long_flip_r => long_flip::<Cf64>;
  h_c08_long_pad_r => long_pad::<f32>;
  h_c09_long_f32_r => long_block::<f32>;
  h_c09_long_c32_r => long_block::<Cf32>;
  h_c10_long_f32_r => long_ups::<f32>;
  h_c10_long_c64_r => long_ups::<Cf64>;
}
