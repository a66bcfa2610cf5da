//! C11 dense forward, C12 convolution forward, C13 pooling and flatten, C14 composition, C15 construction
use crate::v::*;
use crate::cx::*;
use crate::nn::*;
use renplex::math::cfloat::{Cf32, Cf64};

fn activate_all<C: Cx + El>(q: &[C], f: Act) -> Vec<C> {
  q.iter().map(|v| v.activate(&f)).collect()
}
fn nz<C: Cx>(q: &[C], f: Act) {
  if matches!(f, Act::ModZ | Act::Cardioid) {
    for v in q { assume(v.x() != C::F::k(0.0) || v.y() != C::F::k(0.0)) }
  }
}
fn dense_fwd<C: Cx + El>(f: Act, n: usize, t: usize) {
  let hi = tier(n, t);
  let (i, o) = (choose(1, hi), choose(1, hi));
  let (l, d) = dense::<C>(i, o, f);
  let x: Vec<C> = anyvec(i);
  let q = dense_q(&d, &x);
  nz(&q, f);
  let out = l.forward(&IOType::Scalar(x.clone())).unwrap();
  eqscal(&out, &activate_all(&q, f), "activation of the weighted sum plus bias");
  let w = l.wrap().foward(&IOType::Scalar(x)).unwrap();
  eqio(&w, &out, "wrapped layer gives the same output");
}
fn dense_bad<C: Cx + El>() {
  let (i, o) = (choose(1, 3), choose(1, 3));
  let (l, _) = dense::<C>(i, o, Act::None);
  let n = choose(0, 5);
  if n != i {
    let x: Vec<C> = anyvec(n);
    check(refused(|| l.forward(&IOType::Scalar(x.clone())).is_ok()), "wrong length gives no output");
  }
  let k = choose(0, 2);
  let (_, m) = maps::<C>(k, 1, i);
  check(l.forward(&m).is_err(), "feature maps are refused");
}
macro_rules! dn { ($n:ident, $k:expr, $q:expr, $t:expr) => { fn $n<C: Cx + El>() { dense_fwd::<C>(act($k), $q, $t) } } }
dn!(d_none, 0, 3, 4);
dn!(d_modz, 1, 2, 3);
dn!(d_sig, 2, 1, 2);
dn!(d_tanh, 3, 3, 4);
dn!(d_relu, 4, 2, 2);
dn!(d_zrelu, 5, 2, 3);
dn!(d_card, 6, 2, 2);

fn conv_fwd<C: Cx + El>(f: Act, chl: usize, chh: usize, flh: usize, ih: usize) {
  let (ch, fl) = (choose(chl, chh), choose(1, flh));
  let (p, q) = (choose(1, 3), choose(1, 2));
  let (m, n) = (choose(1, ih), choose(1, ih));
  assume(p <= m && q <= n);
  let (l, s) = conv::<C>(ch, fl, p, q, f);
  let (t, x) = maps::<C>(ch, m, n);
  let qv = conv_q(&s, &t, m, n);
  for a in qv.iter() { for r in a.iter() { nz(r, f) } }
  let out = l.forward(&x).unwrap();
  let e: Vec<Vec<Vec<C>>> = qv.iter().map(|a| a.iter().map(|r| activate_all(r, f)).collect()).collect();
  eqmaps(&out, &e, m - p + 1, n - q + 1, "activation of the filtered channels plus bias");
}
fn cv_none1<C: Cx + El>() { conv_fwd::<C>(Act::None, 1, 1, tier(2, 3), 4) }
fn cv_none2<C: Cx + El>() { conv_fwd::<C>(Act::None, 2, tier(2, 3), tier(2, 3), 4) }
fn cv_tanh<C: Cx + El>() { conv_fwd::<C>(Act::RITTanh, 1, 2, 2, 4) }
fn cv_card<C: Cx + El>() { small::<C>(Act::Cardioid) }
fn small<C: Cx + El>(f: Act) {
  let (ch, fl) = (choose(1, 2), 1);
  let (m, n) = (choose(1, 2), choose(1, 2));
  let (l, s) = conv::<C>(ch, fl, m, n, f);
  let (t, x) = maps::<C>(ch, m, n);
  let qv = conv_q(&s, &t, m, n);
  for a in qv.iter() { for r in a.iter() { nz(r, f) } }
  let out = l.forward(&x).unwrap();
  let e: Vec<Vec<Vec<C>>> = qv.iter().map(|a| a.iter().map(|r| activate_all(r, f)).collect()).collect();
  eqmaps(&out, &e, 1, 1, "activation of the filtered channels plus bias");
}
fn cv_relu<C: Cx + El>() { small::<C>(Act::RITReLU) }
fn cv_zrelu<C: Cx + El>() { small::<C>(Act::ZReLU) }
fn cv_modz<C: Cx + El>() { small::<C>(Act::ModZ) }
fn cv_sig<C: Cx + El>() { small::<C>(Act::RITSigmoid) }
fn conv_bad<C: Cx + El>() {
  let (ch, fl) = (choose(1, 2), choose(1, 2));
  let (p, q) = (choose(1, 2), choose(1, 2));
  let (l, _) = conv::<C>(ch, fl, p, q, Act::None);
  let k = choose(0, 3);
  if k != ch {
    let (_, x) = maps::<C>(k, 2, 2);
    check(refused(|| l.forward(&x).is_ok()), "wrong number of channels gives no output");
  }
  let x: Vec<C> = anyvec(choose(0, 4));
  check(l.forward(&IOType::Scalar(x)).is_err(), "vectors are refused");
}

fn pooling<C: Cx + El>() {
  let k = choose(1, 3);
  let (p, q) = (choose(1, 2), choose(1, 3));
  let (m, n) = (choose(1, 4), choose(1, 4));
  assume(m % p == 0 && n % q == 0);
  let (_, ker) = anymat::<C>(1, 1);
  let l = pool::<C>(k, p, q, ker);
  let (t, x) = maps::<C>(k, m, n);
  let out = l.foward(&x).unwrap();
  let e: Vec<_> = t.iter().map(|a| pooled(a, m, n, p, q)).collect();
  eqmaps(&out, &e, m / p, n / q, "map reduced block by block");
  check(l.get_input_shape() == IOShape::Matrix(k), "reported input shape");
  check(l.get_output_shape() == IOShape::Matrix(k), "reported output shape");
  check(l.params_len() == (0, 0), "no parameters");
  check(l.foward(&IOType::Scalar(anyvec::<C>(2))).is_err(), "vectors are refused");
  let w = l.wrap();
  check(w.get_input_shape() == IOShape::Matrix(k) && w.get_output_shape() == IOShape::Matrix(k), "reported shape, wrapped");
  eqio(&w.foward(&x).unwrap(), &out, "wrapped layer gives the same output");
}
fn flatten<C: Cx + El>() {
  let k = choose(1, 3);
  let (m, n) = (choose(1, 4), choose(1, 4));
  let l = Flatten::init([m, n], k);
  let (t, x) = maps::<C>(k, m, n);
  let mut e = vec![];
  for a in t.iter() { for r in a.iter() { for v in r.iter() { e.push(*v) } } }
  let out = l.foward(&x).unwrap();
  eqscal(&out, &e, "concatenated feature maps");
  check(l.get_input_shape() == IOShape::Matrix(k), "reported input shape");
  check(l.get_output_shape() == IOShape::Scalar(k * m * n), "reported output shape");
  check(l.foward(&IOType::Scalar(anyvec::<C>(2))).is_err(), "vectors are refused");
  let w = l.wrap::<C>();
  check(w.get_input_shape() == IOShape::Matrix(k) && w.get_output_shape() == IOShape::Scalar(k * m * n), "reported shape, wrapped");
  check(w.params_len() == (0, 0), "no parameters");
  eqio(&w.foward(&x).unwrap(), &out, "wrapped layer gives the same output");
}

/// a second, identical layer: the reference copy is fed by hand
fn twin_dense<C: Cx + El>(i: usize, o: usize, f: Act) -> (CLayer<C>, CLayer<C>) {
  let mk = |g: &Vec<C>, h: &Vec<C>| {
    let mut seed = 3u128;
    let mut l = DenseCLayer::init(IOShape::Scalar(i), o, f, InitMethod::Uniform(0), &mut seed).unwrap();
    l.neg_conj_adjustment(g.clone(), h.clone()).unwrap();
    l.wrap()
  };
  let g: Vec<C> = anyvec(i * o);
  let h: Vec<C> = anyvec(o);
  (mk(&g, &h), mk(&g, &h))
}
fn twin_conv<C: Cx + El>(ch: usize, fl: usize, p: usize, q: usize, f: Act) -> (CLayer<C>, CLayer<C>) {
  let mk = |g: &Vec<C>, h: &Vec<C>| {
    let mut seed = 3u128;
    let mut l = ConvCLayer::init(IOShape::Matrix(ch), fl, [p, q], f, InitMethod::Uniform(0), &mut seed).unwrap();
    l.neg_conj_adjustment(g.clone(), h.clone()).unwrap();
    l.wrap()
  };
  let g: Vec<C> = anyvec(ch * fl * p * q);
  let h: Vec<C> = anyvec(fl);
  (mk(&g, &h), mk(&g, &h))
}
fn twin_pool<C: Cx + El>(n: usize, p: usize, q: usize) -> (CLayer<C>, CLayer<C>) {
  let k = Matrix::from_body(vec![C::int(1)], [1, 1]);
  (pool::<C>(n, p, q, k.clone()).wrap(), pool::<C>(n, p, q, k).wrap())
}
fn twin_flat<C: Cx + El>(m: usize, n: usize, k: usize) -> (CLayer<C>, CLayer<C>) {
  (Flatten::init([m, n], k).wrap(), Flatten::init([m, n], k).wrap())
}
fn composition<C: Cx + El>(layers: Vec<(CLayer<C>, CLayer<C>)>, x: IOType<C>) {
  let mut net: CNetwork<C> = CNetwork::new();
  let mut refs = vec![];
  for (k, (a, b)) in layers.into_iter().enumerate() {
    let r = if k == 0 { net.add_input(a) } else { net.add(a) };
    check(r.is_ok(), "compatible layers are accepted");
    refs.push(b);
  }
  let n = refs.len();
  if n == 0 {
    check(net.forward(&x).is_err(), "empty network: prediction is an error");
    check(net.collect_acts(x.clone()).is_err(), "empty network: activations are an error");
    let i = u64_() as usize;
    check(net.intercept(x, i).is_err(), "empty network: interception is an error");
    return;
  }
  let mut acts = vec![x.clone()];
  for l in refs.iter() { let y = l.foward(acts.last().unwrap()).unwrap(); acts.push(y) }
  eqio(&net.forward(&x).unwrap(), &acts[n], "prediction is the composition");
  let got = net.collect_acts(x.clone()).unwrap();
  check(got.len() == n + 1, "one activation more than layers");
  if got.len() == n + 1 { for k in 0..n + 1 { eqio(&got[k], &acts[k], "k-th activation is the input of layer k") } }
  let i = u64_() as usize;
  match net.intercept(x, i) {
    Err(_) => check(i >= n, "interception fails only out of range"),
    Ok((a, l)) => {
      check(i < n, "interception only in range");
      if i < n {
        eqio(&a, &acts[i], "interception reports the input of the layer");
        eqio(&l.foward(&a).unwrap(), &acts[i + 1], "interception reports that layer");
        check(l.get_input_shape() == refs[i].get_input_shape() && l.get_output_shape() == refs[i].get_output_shape(), "interception reports that layer's shape");
      }
    }
  }
}
fn net_dense<C: Cx + El>() {
  let n = choose(0, 3);
  let s: Vec<usize> = (0..=n).map(|_| choose(1, 2)).collect();
  let f = [Act::None, Act::RITTanh, Act::None];
  let x = IOType::Scalar(anyvec::<C>(s[0]));
  let l = (0..n).map(|k| twin_dense::<C>(s[k], s[k + 1], f[k])).collect();
  composition(l, x);
}
fn net_mixed<C: Cx + El>() {
  match choose(0, 6) {
    0 => { let (_, x) = maps::<C>(1, 3, 3); composition(vec![twin_conv::<C>(1, 2, 2, 2, Act::RITTanh), twin_flat(2, 2, 2), twin_dense(8, 2, Act::None)], x) }
    1 => { let (_, x) = maps::<C>(2, 3, 3); composition(vec![twin_conv::<C>(2, 1, 2, 2, Act::None), twin_pool(1, 2, 2), twin_flat(1, 1, 1)], x) }
    2 => { let (_, x) = maps::<C>(2, 2, 4); composition(vec![twin_pool::<C>(2, 2, 2), twin_conv(2, 1, 1, 2, Act::None), twin_flat(1, 1, 1)], x) }
    3 => { let (_, x) = maps::<C>(2, 2, 2); composition(vec![twin_flat::<C>(2, 2, 2), twin_dense(8, 1, Act::RITTanh), twin_dense(1, 2, Act::None)], x) }
    4 => { let (_, x) = maps::<C>(1, 3, 4); composition(vec![twin_conv::<C>(1, 1, 2, 2, Act::None), twin_conv(1, 2, 1, 2, Act::None)], x) }
    5 => { let (_, x) = maps::<C>(2, 2, 2); composition(vec![twin_flat::<C>(2, 2, 2)], x) }
    _ => { let (_, x) = maps::<C>(2, 4, 2); composition(vec![twin_pool::<C>(2, 2, 1), twin_pool(2, 2, 2)], x) }
  }
}
fn net_empty<C: Cx + El>() {
  let x = if choose(0, 1) == 0 { IOType::Scalar(anyvec::<C>(choose(0, 2))) } else { maps::<C>(choose(0, 2), 2, 2).1 };
  composition::<C>(vec![], x);
}

/// (layer, input shape, output shape, parameters, initialised)
fn any_layer<C: Cx + El>(kind: usize) -> (CLayer<C>, IOShape, IOShape, usize, bool) {
  let mut seed = 5u128;
  match kind {
    0 => {
      let (i, o) = (choose(0, 3), choose(0, 3));
      let l = DenseCLayer::init(IOShape::Scalar(i), o, Act::None, InitMethod::Uniform(0), &mut seed).unwrap();
      (l.wrap(), IOShape::Scalar(i), IOShape::Scalar(o), i * o + o, o > 0)
    }
    1 => {
      let (i, o) = (choose(0, 2), choose(0, 2));
      let (p, q) = (choose(1, 2), choose(1, 2));
      let l = ConvCLayer::init(IOShape::Matrix(i), o, [p, q], Act::None, InitMethod::Uniform(0), &mut seed).unwrap();
      (l.wrap(), IOShape::Matrix(i), IOShape::Matrix(o), i * o * p * q + o, i > 0 || o > 0)
    }
    2 => {
      let i = choose(1, 2);
      let k = Matrix::from_body(vec![C::int(1)], [1, 1]);
      (pool::<C>(i, 2, 2, k).wrap(), IOShape::Matrix(i), IOShape::Matrix(i), 0, true)
    }
    _ => {
      let (i, r) = (choose(1, 2), choose(1, 2));
      (Flatten::init([r, 1], i).wrap(), IOShape::Matrix(i), IOShape::Scalar(i * r), 0, true)
    }
  }
}
fn shape_is(a: Result<IOShape, renplex::err::LayerAdditionError>, b: &Option<IOShape>, l: &'static str) {
  match (a, b) {
    (Ok(x), Some(y)) => check(x == *y, l),
    (Err(_), None) => check(true, l),
    _ => check(false, l),
  }
}
fn construct<C: Cx + El>(first: usize, n: usize) {
  let mut net: CNetwork<C> = CNetwork::new();
  let mut inp: Option<IOShape> = None;
  let mut out: Option<IOShape> = None;
  let mut par = 0;
  let mut depth = 0;
  for k in 0..n {
    let input = choose(0, 1) == 1;
    let kind = if k == 0 { first } else { choose(0, 3) };
    let (l, li, lo, lp, init) = any_layer::<C>(kind);
    let ok = if input { net.add_input(l).is_ok() } else { net.add(l).is_ok() };
    let fits = match (&out, input) {
      (None, true) => init,
      (Some(o), false) => init && *o == li,
      _ => false,
    };
    check(ok == fits, "accepts exactly the compatible initialised layers");
    if fits {
      if input { inp = Some(li) }
      out = Some(lo);
      par += lp;
      depth += 1;
    }
    shape_is(net.get_input_shape(), &inp, "network input shape");
    shape_is(net.get_output_shape(), &out, "network output shape");
    check(net.params_len() == par, "network parameter count");
    if depth == 0 {
      check(net.forward(&IOType::Scalar(vec![])).is_err(), "still empty");
    } else {
      // number of layers, seen through interception
      check(net.intercept(IOType::Scalar(vec![]), depth).is_err(), "no extra layer");
    }
  }
}
fn con_dense<C: Cx + El>() { construct::<C>(0, tier(2, 3)) }
fn con_conv<C: Cx + El>() { construct::<C>(1, tier(2, 3)) }
fn con_pool<C: Cx + El>() { construct::<C>(2, 3) }
fn con_flat<C: Cx + El>() { construct::<C>(3, 3) }
/// pooling and flatten layers of every size, followed by layers of every size
fn any_size<C: Cx + El>(kind: usize) -> (CLayer<C>, IOShape, IOShape, usize) {
  let mut seed = 5u128;
  let (i, h, w) = (u64_() as usize, u64_() as usize, u64_() as usize);
  match kind {
    0 => {
      let (i, o) = (choose(1, 6), choose(1, 2));
      let l = DenseCLayer::init(IOShape::Scalar(i), o, Act::None, InitMethod::Uniform(0), &mut seed).unwrap();
      (l.wrap(), IOShape::Scalar(i), IOShape::Scalar(o), i * o + o)
    }
    1 => (pool::<C>(i, 2, 2, Matrix::from_body(vec![C::int(1)], [1, 1])).wrap(), IOShape::Matrix(i), IOShape::Matrix(i), 0),
    _ => {
      assume(i < 1 << 10 && h < 1 << 10 && w < 1 << 10);
      (Flatten::init([h, w], i).wrap(), IOShape::Matrix(i), IOShape::Scalar(h * w * i), 0)
    }
  }
}
fn con_size<C: Cx + El>() {
  let mut net: CNetwork<C> = CNetwork::new();
  let (l, li, mut out, mut par) = any_size::<C>(choose(1, 2));
  check(net.add_input(l).is_ok(), "first layer");
  let inp = Some(li);
  for _ in 0..2 {
    let (l, li, lo, lp) = any_size::<C>(choose(0, 2));
    let fits = out == li;
    check(net.add(l).is_ok() == fits, "accepts exactly the compatible initialised layers");
    if fits { out = lo; par += lp }
    shape_is(net.get_input_shape(), &inp, "network input shape");
    match (net.get_output_shape(), &out) {
      (Ok(x), y) => check(x == *y, "network output shape"),
      _ => check(false, "network output shape"),
    }
    check(net.params_len() == par, "network parameter count");
  }
}
/// chains of three accepted layers
fn con_chain<C: Cx + El>() {
  let mut net: CNetwork<C> = CNetwork::new();
  let ch = choose(1, 2);
  let fl = choose(1, 2);
  let mut seed = 5u128;
  let c = ConvCLayer::init(IOShape::Matrix(ch), fl, [2, 1], Act::None, InitMethod::Uniform(0), &mut seed).unwrap();
  check(net.add_input(c.wrap()).is_ok(), "first layer");
  let k = choose(1, 2);
  let fit = Flatten::init([2, 2], k).wrap();
  check(net.add(fit).is_ok() == (k == fl), "second layer accepted exactly when it fits");
  if k != fl { return }
  let (i, o) = (choose(1, 9), choose(1, 2));
  let d = DenseCLayer::init(IOShape::Scalar(i), o, Act::None, InitMethod::Uniform(0), &mut seed).unwrap();
  check(net.add(d.wrap()).is_ok() == (i == 4 * fl), "third layer accepted exactly when it fits");
  let dp = if i == 4 * fl { i * o + o } else { 0 };
  check(net.params_len() == ch * fl * 2 + fl + dp, "network parameter count");
  shape_is(net.get_input_shape(), &Some(IOShape::Matrix(ch)), "network input shape");
  shape_is(net.get_output_shape(), &Some(IOShape::Scalar(if i == 4 * fl { o } else { 4 * fl })), "network output shape");
  // a matching count of the other kind does not fit
  let d = ConvCLayer::init(IOShape::Matrix(if i == 4 * fl { o } else { 4 * fl }), 1, [1, 1], Act::None, InitMethod::Uniform(0), &mut seed).unwrap();
  check(net.add(d.wrap()).is_err(), "feature-map layers do not follow vectors");
}
fn init_kind<C: Cx + El>() {
  let mut seed = 5u128;
  let n = choose(0, 3);
  check(DenseCLayer::<C>::init(IOShape::Matrix(n), 2, Act::None, InitMethod::Uniform(1), &mut seed).is_err(), "dense layers take vectors");
  check(ConvCLayer::<C>::init(IOShape::Scalar(n), 2, [1, 1], Act::None, InitMethod::Uniform(1), &mut seed).is_err(), "convolution layers take feature maps");
}

/* larger sizes */
fn wide_dense<C: Cx + El>() {
  let f = [Act::None, Act::RITTanh][choose(0, 1)];
  let (i, o) = [(5, 4), (9, 3), (17, 2), (4, 9), (33, 1), (1, 17)][choose(0, 5)];
  let (l, d) = dense::<C>(i, o, f);
  let x: Vec<C> = anyvec(i);
  let out = l.forward(&IOType::Scalar(x.clone())).unwrap();
  eqscal(&out, &activate_all(&dense_q(&d, &x), f), "activation of the weighted sum plus bias");
  check(refused(|| l.forward(&IOType::Scalar(x[1..].to_vec())).is_ok()), "wrong length gives no output");
}
fn wide_conv<C: Cx + El>() {
  let f = [Act::None, Act::RITTanh][choose(0, 1)];
  let (ch, fl, p, q, m, n) = [(3, 3, 2, 2, 4, 4), (4, 2, 3, 3, 5, 5), (1, 5, 2, 3, 6, 7), (5, 1, 1, 1, 3, 3), (1, 1, 5, 5, 8, 8), (2, 9, 1, 2, 2, 3)][choose(0, 5)];
  let (l, s) = conv::<C>(ch, fl, p, q, f);
  let (t, x) = maps::<C>(ch, m, n);
  let out = l.forward(&x).unwrap();
  let e: Vec<Vec<Vec<C>>> = conv_q(&s, &t, m, n).iter().map(|a| a.iter().map(|r| activate_all(r, f)).collect()).collect();
  eqmaps(&out, &e, m - p + 1, n - q + 1, "activation of the filtered channels plus bias");
}
fn wide_pool<C: Cx + El>() {
  let (k, p, q, a, b) = [(5, 2, 2, 3, 2), (4, 3, 3, 2, 2), (9, 1, 2, 1, 2), (1, 4, 5, 3, 3), (2, 7, 1, 1, 6)][choose(0, 4)];
  let (m, n) = (a * p, b * q);
  let l = pool::<C>(k, p, q, anymat::<C>(1, 1).1);
  let (t, x) = maps::<C>(k, m, n);
  let e: Vec<_> = t.iter().map(|a| pooled(a, m, n, p, q)).collect();
  eqmaps(&l.foward(&x).unwrap(), &e, a, b, "map reduced block by block");
  let fl = Flatten::init([m, n], k);
  let e: Vec<C> = t.iter().flatten().flatten().copied().collect();
  eqscal(&fl.foward(&x).unwrap(), &e, "concatenated feature maps");
  check(fl.get_output_shape() == IOShape::Scalar(k * m * n), "reported output shape");
}
fn deep<C: Cx + El>() {
  match choose(0, 3) {
    0 => { let x = IOType::Scalar(anyvec::<C>(2)); composition((0..5).map(|k| twin_dense::<C>(2 - k % 2, 1 + k % 2, if k % 2 == 0 { Act::RITTanh } else { Act::None })).collect(), x) }
    1 => { let x = IOType::Scalar(anyvec::<C>(1)); composition((0..8).map(|_| twin_dense::<C>(1, 1, Act::RITTanh)).collect(), x) }
    2 => {
      let (_, x) = maps::<C>(1, 5, 5);
      composition(vec![twin_conv::<C>(1, 2, 2, 2, Act::RITTanh), twin_conv(2, 1, 1, 1, Act::None), twin_pool(1, 2, 2), twin_flat(2, 2, 1), twin_dense(4, 2, Act::RITTanh), twin_dense(2, 3, Act::None)], x)
    }
    _ => { let (_, x) = maps::<C>(3, 4, 4); composition(vec![twin_pool::<C>(3, 2, 2), twin_pool(3, 1, 2), twin_conv(3, 2, 2, 1, Act::None), twin_flat(1, 1, 2)], x) }
  }
}
/// long chains of dense layers: every addition accepted exactly when it fits
fn con_long<C: Cx + El>() {
  let mut net: CNetwork<C> = CNetwork::new();
  let mut out = 3;
  let mut par = 0;
  for k in 0..6 {
    let (i, o) = (choose(2, 3), 2 + k % 2);
    let mut seed = 5u128;
    let l = DenseCLayer::init(IOShape::Scalar(i), o, Act::None, InitMethod::Uniform(0), &mut seed).unwrap();
    let ok = if k == 0 { net.add_input(l.wrap()).is_ok() } else { net.add(l.wrap()).is_ok() };
    let fits = k == 0 || i == out;
    check(ok == fits, "accepts exactly the compatible initialised layers");
    if fits { out = o; par += i * o + o }
    check(net.params_len() == par, "network parameter count");
    shape_is(net.get_output_shape(), &Some(IOShape::Scalar(out)), "network output shape");
  }
}

entries! {
  h_c11_none_f32_r => d_none::<Cf32>;
  h_c11_none_f64_r => d_none::<Cf64>;
  h_c11_modz_f32_r => d_modz::<Cf32>;
  h_c11_modz_f64_r => d_modz::<Cf64>;
  h_c11_sig_f32_r => d_sig::<Cf32>;
  h_c11_sig_f64_r => d_sig::<Cf64>;
  h_c11_tanh_f32_r => d_tanh::<Cf32>;
  h_c11_tanh_f64_r => d_tanh::<Cf64>;
  h_c11_relu_f32_r => d_relu::<Cf32>;
  h_c11_relu_f64_r => d_relu::<Cf64>;
  h_c11_zrelu_f32_r => d_zrelu::<Cf32>;
  h_c11_zrelu_f64_r => d_zrelu::<Cf64>;
  h_c11_card_f32_r => d_card::<Cf32>;
  h_c11_card_f64_r => d_card::<Cf64>;
  h_c11_bad_f32_r => dense_bad::<Cf32>;
  h_c11_bad_f64_r => dense_bad::<Cf64>;
  h_c12_none1_f32_r => cv_none1::<Cf32>;
  h_c12_none1_f64_r => cv_none1::<Cf64>;
  h_c12_none2_f32_r => cv_none2::<Cf32>;
  h_c12_none2_f64_r => cv_none2::<Cf64>;
  h_c12_tanh_f32_r => cv_tanh::<Cf32>;
  h_c12_tanh_f64_r => cv_tanh::<Cf64>;
  h_c12_modz_f32_r => cv_modz::<Cf32>;
  h_c12_card_f64_r => cv_card::<Cf64>;
  h_c12_relu_f32_r => cv_relu::<Cf32>;
  h_c12_zrelu_f64_r => cv_zrelu::<Cf64>;
  h_c12_sig_f32_r => cv_sig::<Cf32>;
  h_c12_bad_f32_r => conv_bad::<Cf32>;
  h_c12_bad_f64_r => conv_bad::<Cf64>;
  h_c13_pool_f32_r => pooling::<Cf32>;
  h_c13_pool_f64_r => pooling::<Cf64>;
  h_c13_flat_f32_r => flatten::<Cf32>;
  h_c13_flat_f64_r => flatten::<Cf64>;
  h_c14_dense_f32_r => net_dense::<Cf32>;
  h_c14_dense_f64_r => net_dense::<Cf64>;
  h_c14_mixed_f32_r => net_mixed::<Cf32>;
  h_c14_mixed_f64_r => net_mixed::<Cf64>;
  h_c14_empty_f32_r => net_empty::<Cf32>;
  h_c14_empty_f64_r => net_empty::<Cf64>;
  h_c15_dense_f32_r => con_dense::<Cf32>;
  h_c15_conv_f32_r => con_conv::<Cf32>;
  h_c15_pool_f32_r => con_pool::<Cf32>;
  h_c15_flat_f32_r => con_flat::<Cf32>;
  h_c15_size_f32_f => con_size::<Cf32>;
  h_c15_chain_f32_r => con_chain::<Cf32>;
  h_c15_chain_f64_r => con_chain::<Cf64>;
  h_c15_init_f32_r => init_kind::<Cf32>;
  h_c15_init_f64_r => init_kind::<Cf64>;
  h_c11_wide_f32_r => wide_dense::<Cf32>;
  h_c11_wide_f64_r => wide_dense::<Cf64>;
  h_c12_wide_f32_r => wide_conv::<Cf32>;
  h_c12_wide_f64_r => wide_conv::<Cf64>;
  h_c13_wide_f32_r => wide_pool::<Cf32>;
  h_c13_wide_f64_r => wide_pool::<Cf64>;
  h_c14_deep_f32_r => deep::<Cf32>;
  h_c14_deep_f64_r => deep::<Cf64>;
  h_c15_long_f32_r => con_long::<Cf32>;
  h_c15_long_f64_r => con_long::<Cf64>;
}
