//! Verification intrinsics. The symbolic engine interprets the `v_*` symbols;
//! the native replay build provides bodies that read a recorded input vector.

extern "Rust" {
  fn v_f32() -> f32;
  fn v_f64() -> f64;
  fn v_u64() -> u64;
  fn v_u128() -> u128;
  fn v_u8() -> u8;
  fn v_range(lo: u64, hi: u64) -> u64;
  fn v_choose(lo: u64, hi: u64) -> u64;
  fn v_assume(c: bool);
  fn v_check(c: bool, p: *const u8, n: usize);
  fn v_eq32(a: f32, b: f32, tol: f64, p: *const u8, n: usize);
  fn v_eq64(a: f64, b: f64, tol: f64, p: *const u8, n: usize);
  fn v_le32(a: f32, b: f32, tol: f64, p: *const u8, n: usize);
  fn v_le64(a: f64, b: f64, tol: f64, p: *const u8, n: usize);
  fn v_def32(a: f32, p: *const u8, n: usize);
  fn v_def64(a: f64, p: *const u8, n: usize);
  fn v_tier() -> u32;
  fn v_waves() -> u32;
  fn v_native() -> u32;
  fn v_deriv(f: f64, x: f64) -> f64;
  fn v_try(f: fn(*mut u8), d: *mut u8) -> u32;
  fn v_file(p: *const u8, n: usize) -> i32;
  fn v_filepos(fd: i32) -> u64;
}

pub fn u64_() -> u64 { unsafe { v_u64() } }
pub fn u128_() -> u128 { unsafe { v_u128() } }
pub fn u8_() -> u8 { unsafe { v_u8() } }
/// symbolic integer in lo..=hi
pub fn range(lo: usize, hi: usize) -> usize { unsafe { v_range(lo as u64, hi as u64) as usize } }
/// symbolic integer in lo..=hi, case-split at once (one path per value)
pub fn choose(lo: usize, hi: usize) -> usize { unsafe { v_choose(lo as u64, hi as u64) as usize } }
pub fn assume(c: bool) { unsafe { v_assume(c) } }
pub fn check(c: bool, l: &'static str) { unsafe { v_check(c, l.as_ptr(), l.len()) } }
pub fn thorough() -> bool { unsafe { v_tier() > 0 } }
pub fn tier(q: usize, t: usize) -> usize { if thorough() { t } else { q } }
/// sums of waves are kept as one value by the engine
pub fn waves() { unsafe { v_waves(); } }
pub fn native() -> bool { unsafe { v_native() != 0 } }

pub trait Fl: Copy + PartialEq + PartialOrd + Default
  + std::ops::Add<Output = Self> + std::ops::Sub<Output = Self>
  + std::ops::Mul<Output = Self> + std::ops::Div<Output = Self> + std::ops::Neg<Output = Self>
  + std::fmt::Debug + 'static
{
  /// margin used when the exact query is not unsat; the native comparison uses 1/100 of it, relative
  const TOL: f64;
  /// margin for comparisons against a derivative (a central difference in the native run)
  const DTOL: f64;
  fn var() -> Self;
  fn eqc(a: Self, b: Self, l: &'static str);
  fn eqt(a: Self, b: Self, tol: f64, l: &'static str);
  fn lec(a: Self, b: Self, l: &'static str);
  fn defined(a: Self, l: &'static str);
  fn k(v: f64) -> Self;
  fn n(v: usize) -> Self;
  fn to64(self) -> f64;
  fn exp_(self) -> Self; fn ln_(self) -> Self; fn sqrt_(self) -> Self;
  fn sin_(self) -> Self; fn cos_(self) -> Self; fn tanh_(self) -> Self;
  fn atan2_(self, o: Self) -> Self;
}
macro_rules! fl {
  ($t:ty, $tol:expr, $dtol:expr, $var:ident, $eq:ident, $le:ident, $def:ident) => {
    impl Fl for $t {
      const TOL: f64 = $tol;
      const DTOL: f64 = $dtol;
      fn var() -> Self { unsafe { $var() } }
      fn eqc(a: Self, b: Self, l: &'static str) { unsafe { $eq(a, b, Self::TOL, l.as_ptr(), l.len()) } }
      fn eqt(a: Self, b: Self, tol: f64, l: &'static str) { unsafe { $eq(a, b, tol, l.as_ptr(), l.len()) } }
      fn lec(a: Self, b: Self, l: &'static str) { unsafe { $le(a, b, Self::TOL, l.as_ptr(), l.len()) } }
      fn defined(a: Self, l: &'static str) { unsafe { $def(a, l.as_ptr(), l.len()) } }
      fn k(v: f64) -> Self { v as $t }
      fn n(v: usize) -> Self { v as $t }
      fn to64(self) -> f64 { self as f64 }
      fn exp_(self) -> Self { self.exp() } fn ln_(self) -> Self { self.ln() } fn sqrt_(self) -> Self { self.sqrt() }
      fn sin_(self) -> Self { self.sin() } fn cos_(self) -> Self { self.cos() } fn tanh_(self) -> Self { self.tanh() }
      fn atan2_(self, o: Self) -> Self { self.atan2(o) }
    }
  };
}
fl!(f32, 0.02, 0.02, v_f32, v_eq32, v_le32, v_def32);
fl!(f64, 1e-5, 1e-3, v_f64, v_eq64, v_le64, v_def64);

/// partial derivative of f at `at` with respect to its k-th coordinate:
/// symbolic differentiation of the term inside the engine, central difference natively.
pub fn partial(f: &dyn Fn(&[f64]) -> f64, at: &[f64], k: usize) -> f64 {
  if native() {
    let h = 1e-5;
    let mut p = at.to_vec();
    p[k] = at[k] + h;
    let u = f(&p);
    p[k] = at[k] - h;
    let d = f(&p);
    (u - d) / (2.0 * h)
  } else {
    unsafe { v_deriv(f(at), at[k]) }
  }
}

/// runs f; true when it panicked
pub fn panics<F: FnMut()>(mut f: F) -> bool {
  fn tramp<F: FnMut()>(d: *mut u8) { unsafe { (*(d as *mut F))() } }
  unsafe { v_try(tramp::<F>, &mut f as *mut F as *mut u8) != 0 }
}

/// a file holding exactly these bytes
pub fn file(b: &[u8]) -> std::fs::File {
  use std::os::fd::FromRawFd;
  unsafe { std::fs::File::from_raw_fd(v_file(b.as_ptr(), b.len())) }
}
pub fn filepos(f: &std::fs::File) -> u64 {
  use std::os::fd::AsRawFd;
  unsafe { v_filepos(f.as_raw_fd()) }
}

#[macro_export]
macro_rules! entries {
  ($($name:ident => $body:expr;)*) => {
    $( #[no_mangle] pub fn $name() { $body() } )*
    pub const TABLE: &[(&str, fn())] = &[ $( (stringify!($name), $name as fn()) ),* ];
  };
}
