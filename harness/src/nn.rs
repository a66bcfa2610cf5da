//! Layers with arbitrary parameters, built through the public API: initialised with weight scale 0
//! and then moved to the chosen parameters by one adjustment.
use crate::v::*;
use crate::cx::*;
pub use renplex::act::ComplexActFunc as Act;
pub use renplex::cvnn::layer::conv::ConvCLayer;
pub use renplex::cvnn::layer::dense::DenseCLayer;
pub use renplex::cvnn::layer::flatten::Flatten;
pub use renplex::cvnn::layer::reduce::Reduce;
pub use renplex::cvnn::layer::CLayer;
pub use renplex::cvnn::network::CNetwork;
pub use renplex::init::InitMethod;
pub use renplex::input::{IOShape, IOType};

pub fn act(k: usize) -> Act {
  match k {
    0 => Act::None,
    1 => Act::ModZ,
    2 => Act::RITSigmoid,
    3 => Act::RITTanh,
    4 => Act::RITReLU,
    5 => Act::ZReLU,
    _ => Act::Cardioid,
  }
}
fn unadj<C: Cx>(g: C) -> C { C::mk(-g.x(), g.y()) }

pub struct D<C> { pub i: usize, pub o: usize, pub w: Vec<Vec<C>>, pub b: Vec<C> }
/// dense layer i -> o with fresh parameters
pub fn dense<C: Cx + El>(i: usize, o: usize, f: Act) -> (DenseCLayer<C>, D<C>) {
  let mut seed = 7u128;
  let mut l = DenseCLayer::init(IOShape::Scalar(i), o, f, InitMethod::Uniform(0), &mut seed).unwrap();
  let g: Vec<C> = anyvec(i * o);
  let h: Vec<C> = anyvec(o);
  l.neg_conj_adjustment(g.clone(), h.clone()).unwrap();
  let w = (0..o).map(|r| (0..i).map(|c| unadj(g[r * i + c])).collect()).collect();
  let b = h.iter().map(|v| unadj(*v)).collect();
  (l, D { i, o, w, b })
}
/// dense layer with these parameters
pub fn dense_from<C: Cx + El>(i: usize, o: usize, f: Act, w: &[Vec<C>], b: &[C]) -> DenseCLayer<C> {
  let mut seed = 7u128;
  let mut l = DenseCLayer::init(IOShape::Scalar(i), o, f, InitMethod::Uniform(0), &mut seed).unwrap();
  let g = w.iter().flatten().map(|v| unadj(*v)).collect();
  l.neg_conj_adjustment(g, b.iter().map(|v| unadj(*v)).collect()).unwrap();
  l
}
/// convolution layer with these kernels (per filter: channel, row, column)
pub fn conv_from<C: Cx + El>(ch: usize, fl: usize, p: usize, q: usize, f: Act, k: &[Vec<C>], b: &[C]) -> ConvCLayer<C> {
  let mut seed = 7u128;
  let mut l = ConvCLayer::init(IOShape::Matrix(ch), fl, [p, q], f, InitMethod::Uniform(0), &mut seed).unwrap();
  let g = k.iter().flatten().map(|v| unadj(*v)).collect();
  l.neg_conj_adjustment(g, b.iter().map(|v| unadj(*v)).collect()).unwrap();
  l
}
/// W x + b
pub fn dense_q<C: Cx + El>(d: &D<C>, x: &[C]) -> Vec<C> {
  (0..d.o).map(|r| {
    let mut s = d.b[r];
    for c in 0..d.i { s = C::sadd(s, C::smul(d.w[r][c], x[c])) }
    s
  }).collect()
}

/// kernels: filter, channel, row, column
pub struct K<C> { pub ch: usize, pub fl: usize, pub p: usize, pub q: usize, pub k: Vec<Vec<Vec<Vec<C>>>>, pub b: Vec<C> }
pub fn conv<C: Cx + El>(ch: usize, fl: usize, p: usize, q: usize, f: Act) -> (ConvCLayer<C>, K<C>) {
  let mut seed = 7u128;
  let mut l = ConvCLayer::init(IOShape::Matrix(ch), fl, [p, q], f, InitMethod::Uniform(0), &mut seed).unwrap();
  let g: Vec<C> = anyvec(ch * fl * p * q);
  let h: Vec<C> = anyvec(fl);
  l.neg_conj_adjustment(g.clone(), h.clone()).unwrap();
  let mut n = 0;
  let mut k = vec![];
  for _ in 0..fl {
    let mut a = vec![];
    for _ in 0..ch {
      let mut m = vec![];
      for _ in 0..p {
        let mut r = vec![];
        for _ in 0..q { r.push(unadj(g[n])); n += 1 }
        m.push(r);
      }
      a.push(m);
    }
    k.push(a);
  }
  (l, K { ch, fl, p, q, k, b: h.iter().map(|v| unadj(*v)).collect() })
}
/// per filter: sum of the filtered channels plus bias
pub fn conv_q<C: Cx + El>(s: &K<C>, x: &[Vec<Vec<C>>], m: usize, n: usize) -> Vec<Vec<Vec<C>>> {
  (0..s.fl).map(|f| {
    let mut o = vec![vec![s.b[f]; n - s.q + 1]; m - s.p + 1];
    for c in 0..s.ch {
      let t = xcorr(&x[c], m, n, &s.k[f][c], s.p, s.q);
      for i in 0..o.len() { for j in 0..o[i].len() { o[i][j] = C::sadd(o[i][j], t[i][j]) } }
    }
    o
  }).collect()
}
pub fn maps<C: El>(n: usize, r: usize, c: usize) -> (Vec<Vec<Vec<C>>>, IOType<C>) {
  let mut t = vec![];
  let mut v = vec![];
  for _ in 0..n { let (a, m) = anymat::<C>(r, c); t.push(a); v.push(m) }
  (t, IOType::Matrix(v))
}
/// x is a list of maps with exactly these entries
pub fn eqmaps<C: El>(x: &IOType<C>, t: &[Vec<Vec<C>>], r: usize, c: usize, l: &'static str) {
  match x {
    IOType::Matrix(v) => {
      check(v.len() == t.len(), "number of feature maps");
      if v.len() == t.len() { for k in 0..t.len() { eqmat(&v[k], &t[k], r, c, l) } }
    }
    IOType::Scalar(_) => check(false, "feature maps expected"),
  }
}
pub fn eqscal<C: El>(x: &IOType<C>, t: &[C], l: &'static str) {
  match x {
    IOType::Scalar(v) => { check(v.len() == t.len(), "length"); if v.len() == t.len() { eqvec(v, t, l) } }
    IOType::Matrix(_) => check(false, "vector expected"),
  }
}
/// both are the same data
pub fn eqio<C: El>(a: &IOType<C>, b: &IOType<C>, l: &'static str) {
  match (a, b) {
    (IOType::Scalar(_), IOType::Scalar(y)) => eqscal(a, y, l),
    (IOType::Matrix(x), IOType::Matrix(y)) => {
      check(x.len() == y.len(), "number of feature maps");
      if x.len() == y.len() {
        for k in 0..x.len() {
          let (s, t) = (x[k].get_shape(), y[k].get_shape());
          check(s[0] == t[0] && s[1] == t[1], "shape");
          eqvec(x[k].get_body(), y[k].get_body(), l);
        }
      }
    }
    _ => check(false, "same kind"),
  }
}
/// order- and length-sensitive pooling function
pub fn horner<C: El>(b: &[C]) -> C {
  let mut s = C::int(1);
  for v in b { s = C::sadd(C::smul(s, C::int(3)), *v) }
  s
}
pub fn pool<C: Cx + El>(n: usize, p: usize, q: usize, kernel: Matrix<C>) -> Reduce<C> {
  Reduce::init(n, [p, q], Box::new(|b: &[C]| horner(b)), kernel)
}
pub fn pooled<C: El>(a: &[Vec<C>], m: usize, n: usize, p: usize, q: usize) -> Vec<Vec<C>> {
  let mut e = vec![];
  for i in 0..m / p {
    let mut r = vec![];
    for j in 0..n / q {
      let mut t = vec![];
      for u in 0..p { for v in 0..q { t.push(a[i * p + u][j * q + v]) } }
      r.push(horner(&t));
    }
    e.push(r);
  }
  e
}
/// true when the closure neither panics nor returns Ok
pub fn refused(mut f: impl FnMut() -> bool) -> bool {
  let mut ok = false;
  let p = panics(|| ok = f());
  p || !ok
}
