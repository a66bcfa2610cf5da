//! Uniform view of the two complex types, through their public API only.
use crate::v::*;
use renplex::math::cfloat::{Cf32, Cf64};
use renplex::math::{BasicOperations, Complex};
use std::ops::*;

pub trait Cx: Complex + BasicOperations<Self> + Copy + PartialEq + PartialOrd + Default
  + Add<Output = Self> + Sub<Output = Self> + Mul<Output = Self> + Div<Output = Self>
  + AddAssign + SubAssign + MulAssign + DivAssign + 'static
{
  type F: Fl;
  fn mk(x: Self::F, y: Self::F) -> Self;
  fn x(&self) -> Self::F;
  fn y(&self) -> Self::F;
  fn var() -> Self { let x = Self::F::var(); let y = Self::F::var(); Self::mk(x, y) }
  fn p(v: <Self as Complex>::Precision) -> Self::F;
}
impl Cx for Cf32 {
  type F = f32;
  fn mk(x: f32, y: f32) -> Self { Cf32 { x, y } }
  fn x(&self) -> f32 { self.x }
  fn y(&self) -> f32 { self.y }
  fn p(v: f32) -> f32 { v }
}
impl Cx for Cf64 {
  type F = f64;
  fn mk(x: f64, y: f64) -> Self { Cf64 { x, y } }
  fn x(&self) -> f64 { self.x }
  fn y(&self) -> f64 { self.y }
  fn p(v: f64) -> f64 { v }
}
pub fn eqp<C: Cx>(a: C, b: (C::F, C::F), l: &'static str) {
  C::F::eqc(a.x(), b.0, l);
  C::F::eqc(a.y(), b.1, l);
}

/// Element type of a matrix: a real or a complex number, with its arithmetic spelled out here.
pub trait El: BasicOperations<Self> + Copy + Default + 'static {
  fn any() -> Self;
  fn same(a: Self, b: Self, l: &'static str);
  fn sadd(a: Self, b: Self) -> Self;
  fn smul(a: Self, b: Self) -> Self;
  fn sdiv(a: Self, b: Self) -> Self;
  fn nonzero(a: Self);
  fn int(k: usize) -> Self;
}
macro_rules! el_real { ($t:ty) => {
  impl El for $t {
    fn any() -> Self { <$t as Fl>::var() }
    fn same(a: Self, b: Self, l: &'static str) { <$t as Fl>::eqc(a, b, l) }
    fn sadd(a: Self, b: Self) -> Self { a + b }
    fn smul(a: Self, b: Self) -> Self { a * b }
    fn sdiv(a: Self, b: Self) -> Self { a / b }
    fn nonzero(a: Self) { assume(a != 0.0) }
    fn int(k: usize) -> Self { k as $t }
  }
} }
macro_rules! el_cx { ($t:ty) => {
  impl El for $t {
    fn any() -> Self { <$t as Cx>::var() }
    fn same(a: Self, b: Self, l: &'static str) { eqp(a, (b.x, b.y), l) }
    fn sadd(a: Self, b: Self) -> Self { Self::mk(a.x + b.x, a.y + b.y) }
    fn smul(a: Self, b: Self) -> Self { Self::mk(a.x * b.x - a.y * b.y, a.x * b.y + a.y * b.x) }
    fn sdiv(a: Self, b: Self) -> Self {
      let n = b.x * b.x + b.y * b.y;
      Self::mk((a.x * b.x + a.y * b.y) / n, (a.y * b.x - a.x * b.y) / n)
    }
    fn nonzero(a: Self) { assume(a.x * a.x + a.y * a.y > 0.0) }
    fn int(k: usize) -> Self { Self::mk(k as _, 0.0) }
  }
} }
el_real!(f32);
el_real!(f64);
el_cx!(Cf32);
el_cx!(Cf64);

pub use renplex::math::matrix::Matrix;

/// r x c table of fresh values and the matrix holding them
pub fn anymat<T: El>(r: usize, c: usize) -> (Vec<Vec<T>>, Matrix<T>) {
  let mut t = vec![];
  let mut b = vec![];
  for _ in 0..r {
    let mut row = vec![];
    for _ in 0..c { let v = T::any(); row.push(v); b.push(v); }
    t.push(row);
  }
  (t, Matrix::from_body(b, [r, c]))
}
pub fn anyvec<T: El>(n: usize) -> Vec<T> { (0..n).map(|_| T::any()).collect() }

/// m has exactly the elements of the table t, row by row
pub fn eqmat<T: El>(m: &Matrix<T>, t: &[Vec<T>], r: usize, c: usize, l: &'static str) {
  let s = m.get_shape();
  check(s[0] == r && s[1] == c, "shape");
  let b = m.get_body();
  check(b.len() == r * c, "element count");
  for i in 0..r { for j in 0..c { T::same(b[i * c + j], t[i][j], l) } }
}
pub fn eqvec<T: El>(v: &[T], t: &[T], l: &'static str) {
  check(v.len() == t.len(), "length");
  for i in 0..t.len() { T::same(v[i], t[i], l) }
}
/// valid cross-correlation, by definition
pub fn xcorr<T: El>(a: &[Vec<T>], m: usize, n: usize, k: &[Vec<T>], p: usize, q: usize) -> Vec<Vec<T>> {
  let mut o = vec![];
  for i in 0..m - p + 1 {
    let mut row = vec![];
    for j in 0..n - q + 1 {
      let mut s = T::int(0);
      for u in 0..p { for v in 0..q { s = T::sadd(s, T::smul(a[i + u][j + v], k[u][v])) } }
      row.push(s);
    }
    o.push(row);
  }
  o
}
