//! C20 dense gradients, C21 convolution gradients, C22 pooling and flatten, C23 training step,
//! C24 parameter adjustment, C25 accuracy
use crate::v::*;
use crate::cx::*;
use crate::nn::*;
use crate::c06::upsampled;
use crate::c16::{jacobian, smooth, spec_act, Prec};
use renplex::dataset::Dataset;
use renplex::math::cfloat::{Cf32, Cf64};
use renplex::opt::ComplexLossFunc as Loss;

type P = (f64, f64);
fn wide<C: Cx>(z: C) -> P { (z.x().to64(), z.y().to64()) }
fn mul(a: P, b: P) -> P { (a.0 * b.0 - a.1 * b.1, a.0 * b.1 + a.1 * b.0) }
fn push<C: Cx>(at: &mut Vec<f64>, z: C) { at.push(z.x().to64()); at.push(z.y().to64()) }
fn get(p: &[f64], k: usize) -> P { (p[2 * k], p[2 * k + 1]) }
/// (d/dx - i d/dy)/2 with respect to the k-th complex coordinate
fn wirtinger(f: &dyn Fn(&[f64]) -> f64, at: &[f64], k: usize) -> P {
  (0.5 * partial(f, at, 2 * k), -0.5 * partial(f, at, 2 * k + 1))
}
fn eqw<C: Cx>(a: C, e: P, l: &'static str) {
  f64::eqt(a.x().to64(), e.0, C::F::DTOL, l);
  f64::eqt(a.y().to64(), e.1, C::F::DTOL, l);
}
/// the real function whose derivative with respect to the k-th output is g[k]
fn pairing(g: &[P], a: &[P]) -> f64 {
  let mut s = 0.0;
  for k in 0..g.len() { s += 2.0 * (g[k].0 * a[k].0 - g[k].1 * a[k].1) }
  s
}
fn conjs<C: Cx>(g: &[C]) -> Vec<C> { g.iter().map(|v| C::mk(v.x(), -v.y())).collect() }
fn conjugate<C: Cx + El>(a: &[C], c: &[C]) {
  check(a.len() == c.len(), "conjugate derivative length");
  for k in 0..a.len() { eqp(c[k], (a[k].x(), -a[k].y()), "conjugate derivative") }
}

/* dense: coordinates are weights (row by row), biases, inputs */
fn dense_out(f: Act, i: usize, o: usize, p: &[f64]) -> Vec<P> {
  (0..o).map(|r| {
    let mut q = get(p, i * o + r);
    for c in 0..i {
      let t = mul(get(p, r * i + c), get(p, i * o + o + c));
      q = (q.0 + t.0, q.1 + t.1);
    }
    spec_act(f, q.0, q.1)
  }).collect()
}
fn dense_grad<C: Cx + El>(f: Act, i: usize, o: usize) where C::F: Prec {
  let (l, d) = dense::<C>(i, o, f);
  let x: Vec<C> = anyvec(i);
  let g: Vec<C> = anyvec(o);
  for q in dense_q(&d, &x) { smooth(f, q) }
  let mut at = vec![];
  for r in 0..o { for c in 0..i { push(&mut at, d.w[r][c]) } }
  for v in d.b.iter().chain(x.iter()) { push(&mut at, *v) }
  let gw: Vec<P> = g.iter().map(|v| wide(*v)).collect();
  let loss = move |p: &[f64]| pairing(&gw, &dense_out(f, i, o, p));
  match l.compute_derivatives(&IOType::Scalar(x.clone()), g.clone(), conjs(&g)) {
    Ok((dw, db, da, dc)) => {
      check(dw.len() == i * o && db.len() == o && da.len() == i, "derivative lengths");
      for k in 0..i * o { eqw(dw[k], wirtinger(&loss, &at, k), "weight derivative") }
      for k in 0..o { eqw(db[k], wirtinger(&loss, &at, i * o + k), "bias derivative") }
      for k in 0..i { eqw(da[k], wirtinger(&loss, &at, i * o + o + k), "input derivative") }
      conjugate(&da, &dc);
    }
    Err(_) => check(false, "derivatives exist"),
  }
}
/// d loss / d q for a loss with derivative g at f(q)
fn through<C: Cx>(f: Act, q: C, g: C) -> P {
  let [ux, vx, uy, vy] = jacobian(f, q.x().to64(), q.y().to64());
  let g = wide(g);
  (g.0 * ux - g.1 * vx, -(g.0 * uy - g.1 * vy))
}
/// chain rule at a chosen pre-activation: the bias is whatever makes the layer reach it
fn dense_chain<C: Cx + El>(f: Act, i: usize, o: usize) where C::F: Prec {
  let w: Vec<Vec<C>> = (0..o).map(|_| anyvec(i)).collect();
  let q: Vec<C> = anyvec(o);
  let x: Vec<C> = anyvec(i);
  let g: Vec<C> = anyvec(o);
  for v in q.iter() { smooth(f, *v) }
  let b: Vec<C> = (0..o).map(|r| (0..i).fold(q[r], |a, c| sub(a, C::smul(w[r][c], x[c])))).collect();
  let l = dense_from(i, o, f, &w, &b);
  let d: Vec<P> = (0..o).map(|k| through(f, q[k], g[k])).collect();
  match l.compute_derivatives(&IOType::Scalar(x.clone()), g.clone(), conjs(&g)) {
    Ok((dw, db, da, dc)) => {
      check(dw.len() == i * o && db.len() == o && da.len() == i, "derivative lengths");
      for r in 0..o {
        for c in 0..i { eqw(dw[r * i + c], mul(d[r], wide(x[c])), "weight derivative") }
        eqw(db[r], d[r], "bias derivative");
      }
      for c in 0..i {
        let mut s = (0.0, 0.0);
        for r in 0..o { let t = mul(d[r], wide(w[r][c])); s = (s.0 + t.0, s.1 + t.1) }
        eqw(da[c], s, "input derivative");
      }
      conjugate(&da, &dc);
    }
    Err(_) => check(false, "derivatives exist"),
  }
}
fn dg_none<C: Cx + El>() where C::F: Prec { let i = choose(1, 3); let o = choose(1, 3); dense_grad::<C>(Act::None, i, o) }
fn dg_tanh<C: Cx + El>() where C::F: Prec { let i = choose(1, 3); let o = choose(1, 2); dense_grad::<C>(Act::RITTanh, i, o) }
fn dg_sig<C: Cx + El>() where C::F: Prec { let i = choose(1, 2); let o = choose(1, 2); dense_grad::<C>(Act::RITSigmoid, i, o) }
fn dg_relu<C: Cx + El>() where C::F: Prec { let i = choose(1, 3); let o = choose(1, 2); dense_grad::<C>(Act::RITReLU, i, o) }
fn dg_zrelu<C: Cx + El>() where C::F: Prec { let i = choose(1, 3); let o = choose(1, 2); dense_grad::<C>(Act::ZReLU, i, o) }
fn dg_modz<C: Cx + El>() where C::F: Prec { let i = choose(1, 2); let o = choose(1, 2); dense_chain::<C>(Act::ModZ, i, o) }
fn dg_card<C: Cx + El>() where C::F: Prec { let i = choose(1, 2); let o = choose(1, 2); dense_chain::<C>(Act::Cardioid, i, o) }

/* convolution: coordinates are kernels (filter, channel, row, column), biases, inputs (channel, row, column) */
#[derive(Clone, Copy)]
struct Dim { ch: usize, fl: usize, p: usize, q: usize, m: usize, n: usize }
fn conv_out(f: Act, d: Dim, p: &[f64]) -> Vec<P> {
  let nk = d.fl * d.ch * d.p * d.q;
  let mut out = vec![];
  for k in 0..d.fl {
    for i in 0..d.m - d.p + 1 { for j in 0..d.n - d.q + 1 {
      let mut s = get(p, nk + k);
      for c in 0..d.ch { for u in 0..d.p { for v in 0..d.q {
        let w = get(p, ((k * d.ch + c) * d.p + u) * d.q + v);
        let x = get(p, nk + d.fl + (c * d.m + i + u) * d.n + j + v);
        let t = mul(w, x);
        s = (s.0 + t.0, s.1 + t.1);
      } } }
      out.push(spec_act(f, s.0, s.1));
    } }
  }
  out
}
fn conv_grad<C: Cx + El>(f: Act, d: Dim) where C::F: Prec {
  let (l, s) = conv::<C>(d.ch, d.fl, d.p, d.q, f);
  let (t, x) = maps::<C>(d.ch, d.m, d.n);
  let no = d.fl * (d.m - d.p + 1) * (d.n - d.q + 1);
  let nk = d.fl * d.ch * d.p * d.q;
  let g: Vec<C> = anyvec(no);
  for a in conv_q(&s, &t, d.m, d.n) { for r in a { for v in r { smooth(f, v) } } }
  let mut at = vec![];
  for a in s.k.iter() { for c in a.iter() { for r in c.iter() { for v in r.iter() { push(&mut at, *v) } } } }
  for v in s.b.iter() { push(&mut at, *v) }
  for a in t.iter() { for r in a.iter() { for v in r.iter() { push(&mut at, *v) } } }
  let gw: Vec<P> = g.iter().map(|v| wide(*v)).collect();
  let loss = move |p: &[f64]| pairing(&gw, &conv_out(f, d, p));
  match l.compute_derivatives(&x, g.clone(), conjs(&g)) {
    Ok((dw, db, da, dc)) => {
      check(dw.len() == nk && db.len() == d.fl && da.len() == d.ch * d.m * d.n, "derivative lengths");
      for k in 0..nk { eqw(dw[k], wirtinger(&loss, &at, k), "kernel derivative") }
      for k in 0..d.fl { eqw(db[k], wirtinger(&loss, &at, nk + k), "bias derivative") }
      for k in 0..d.ch * d.m * d.n { eqw(da[k], wirtinger(&loss, &at, nk + d.fl + k), "input derivative") }
      conjugate(&da, &dc);
    }
    Err(_) => check(false, "derivatives exist"),
  }
}
/// one output position per filter, chain rule at a chosen pre-activation
fn conv_chain<C: Cx + El>(f: Act, ch: usize, fl: usize, p: usize, q: usize) where C::F: Prec {
  let n = ch * p * q;
  let k: Vec<Vec<C>> = (0..fl).map(|_| anyvec(n)).collect();
  let z: Vec<C> = anyvec(fl);
  let (t, x) = maps::<C>(ch, p, q);
  let x0: Vec<C> = t.iter().flatten().flatten().copied().collect();
  let g: Vec<C> = anyvec(fl);
  for v in z.iter() { smooth(f, *v) }
  let b: Vec<C> = (0..fl).map(|r| (0..n).fold(z[r], |a, c| sub(a, C::smul(k[r][c], x0[c])))).collect();
  let l = conv_from(ch, fl, p, q, f, &k, &b);
  let d: Vec<P> = (0..fl).map(|r| through(f, z[r], g[r])).collect();
  match l.compute_derivatives(&x, g.clone(), conjs(&g)) {
    Ok((dw, db, da, dc)) => {
      check(dw.len() == n * fl && db.len() == fl && da.len() == n, "derivative lengths");
      for r in 0..fl {
        for c in 0..n { eqw(dw[r * n + c], mul(d[r], wide(x0[c])), "kernel derivative") }
        eqw(db[r], d[r], "bias derivative");
      }
      for c in 0..n {
        let mut s = (0.0, 0.0);
        for r in 0..fl { let t = mul(d[r], wide(k[r][c])); s = (s.0 + t.0, s.1 + t.1) }
        eqw(da[c], s, "input derivative");
      }
      conjugate(&da, &dc);
    }
    Err(_) => check(false, "derivatives exist"),
  }
}
fn cg_none<C: Cx + El>() where C::F: Prec {
  let (ch, fl) = (choose(1, 2), choose(1, 2));
  let (p, q) = (choose(1, 2), choose(1, 3));
  let (m, n) = (choose(p, 3), choose(q, 4));
  conv_grad::<C>(Act::None, Dim { ch, fl, p, q, m, n })
}
fn cg_act<C: Cx + El>(f: Act) where C::F: Prec {
  let s = [
    Dim { ch: 1, fl: 1, p: 1, q: 2, m: 2, n: 3 },
    Dim { ch: 1, fl: 1, p: 2, q: 1, m: 3, n: 2 },
    Dim { ch: 2, fl: 2, p: 1, q: 1, m: 1, n: 2 },
    Dim { ch: 2, fl: 1, p: 2, q: 2, m: 2, n: 3 },
    Dim { ch: 1, fl: 2, p: 1, q: 3, m: 2, n: 3 },
  ];
  conv_grad::<C>(f, s[choose(0, 4)])
}
fn cg_one<C: Cx + El>(f: Act) where C::F: Prec {
  let s = [(1, 1, 1, 2), (2, 1, 1, 1), (1, 2, 2, 1), (2, 2, 1, 2)][choose(0, 3)];
  conv_chain::<C>(f, s.0, s.1, s.2, s.3)
}
fn cg_tanh<C: Cx + El>() where C::F: Prec { cg_act::<C>(Act::RITTanh) }
fn cg_sig<C: Cx + El>() where C::F: Prec { cg_act::<C>(Act::RITSigmoid) }
fn cg_relu<C: Cx + El>() where C::F: Prec { cg_act::<C>(Act::RITReLU) }
fn cg_zrelu<C: Cx + El>() where C::F: Prec { cg_act::<C>(Act::ZReLU) }
fn cg_modz<C: Cx + El>() where C::F: Prec { cg_one::<C>(Act::ModZ) }
fn cg_card<C: Cx + El>() where C::F: Prec { cg_one::<C>(Act::Cardioid) }

/* pooling: inputs are whole numbers of blocks */
fn pool_grad<C: Cx + El>() {
  let n = choose(1, 2);
  let (p, q) = (choose(1, 2), choose(1, 3));
  let (a, b) = (choose(1, 2), choose(1, 2));
  let k = 2 * choose(0, 1) + 1;
  let (kt, kernel) = anymat::<C>(k, k);
  let l = pool::<C>(n, p, q, kernel);
  let (_, x) = maps::<C>(n, a * p, b * q);
  let g: Vec<C> = anyvec(n * a * b);
  let h: Vec<C> = anyvec(n * a * b);
  match l.compute_derivatives(&x, g.clone(), h.clone()) {
    Ok((dw, db, da, dc)) => {
      check(dw.is_empty() && db.is_empty(), "no parameter derivatives");
      for (src, got) in [(&g, &da), (&h, &dc)] {
        let mut e = vec![];
        for f in 0..n {
          let t: Vec<Vec<C>> = (0..a).map(|i| (0..b).map(|j| src[(f * a + i) * b + j]).collect()).collect();
          for r in upsampled(&t, a, b, p, q, &kt, k, k) { e.extend(r) }
        }
        check(e.len() == n * a * p * b * q, "size of the input");
        eqvec(got, &e, "upsampled derivative");
      }
    }
    Err(_) => check(false, "derivatives exist"),
  }
}
/// parameters of a linear dense layer, read off its predictions
fn read_dense<C: Cx + El>(i: usize, run: &dyn Fn(&[C]) -> Vec<C>) -> (Vec<Vec<C>>, Vec<C>) {
  let zero = vec![C::int(0); i];
  let b = run(&zero);
  let mut w = vec![vec![C::int(0); i]; b.len()];
  for c in 0..i {
    let mut e = zero.clone();
    e[c] = C::int(1);
    let v = run(&e);
    for r in 0..b.len() { w[r][c] = C::mk(v[r].x() - b[r].x(), v[r].y() - b[r].y()) }
  }
  (w, b)
}
/// flatten + dense trains the dense layer as if it had been given the flattened input
fn flat_step<C: Cx + El>() {
  let (n, r, c) = (choose(1, 2), choose(1, 2), choose(1, 2));
  let (i, o) = (n * r * c, choose(1, 2));
  let (l, d) = dense::<C>(i, o, Act::None);
  let (t, x) = maps::<C>(n, r, c);
  let y: Vec<C> = anyvec(o);
  let lr = C::var();
  let flat: Vec<C> = t.iter().flatten().flatten().copied().collect();
  let mut net = CNetwork::new();
  net.add_input(Flatten::init([r, c], n).wrap()).unwrap();
  net.add(l.wrap()).unwrap();
  let mut data = Dataset::new();
  data.add_point((x.clone(), IOType::Scalar(y.clone())));
  check(net.gradient_opt(data, &Loss::MeanSquare, lr).is_ok(), "trains");
  let q = dense_q(&d, &flat);
  let e: Vec<C> = (0..o).map(|k| cj(C::smul(lr, cj(sub(q[k], y[k]))))).collect();
  let (w, b) = read_net_dense(&net, 1, &x, i);
  for k in 0..o {
    C::same(b[k], sub(d.b[k], e[k]), "bias after the step");
    for j in 0..i { C::same(w[k][j], sub(d.w[k][j], C::smul(e[k], cj(flat[j]))), "weight after the step") }
  }
  match net.intercept(x.clone(), 0) {
    Ok((_, l)) => match l.foward(&x) { Ok(v) => eqscal(&v, &flat, "flatten unchanged"), Err(_) => check(false, "flatten unchanged") },
    Err(_) => check(false, "layer 0 exists"),
  }
}
fn cj<C: Cx>(a: C) -> C { C::mk(a.x(), -a.y()) }
fn sub<C: Cx>(a: C, b: C) -> C { C::mk(a.x() - b.x(), a.y() - b.y()) }
fn run_layer<C: Cx + El>(l: &CLayer<C>, x: IOType<C>) -> IOType<C> {
  match l.foward(&x) { Ok(v) => v, Err(_) => { check(false, "layer still runs"); IOType::Scalar(vec![]) } }
}
fn vec_of<C: Cx + El>(x: IOType<C>) -> Vec<C> { match x { IOType::Scalar(v) => v, IOType::Matrix(_) => { check(false, "vector expected"); vec![] } } }
fn read_net_dense<C: Cx + El>(net: &CNetwork<C>, at: usize, x: &IOType<C>, i: usize) -> (Vec<Vec<C>>, Vec<C>) {
  let (_, l) = net.intercept(x.clone(), at).unwrap_or_else(|_| panic!());
  read_dense(i, &|v| vec_of(run_layer(l, IOType::Scalar(v.to_vec()))))
}
/// kernels [filter][channel][row][col] and biases of a linear convolution layer, read off its predictions on kernel-sized images
fn read_net_conv<C: Cx + El>(net: &CNetwork<C>, at: usize, x: &IOType<C>, d: Dim) -> (Vec<C>, Vec<C>) {
  let (_, l) = net.intercept(x.clone(), at).unwrap_or_else(|_| panic!());
  let run = |hot: Option<(usize, usize)>| -> Vec<C> {
    let img = (0..d.ch).map(|c| {
      let mut b = vec![C::int(0); d.p * d.q];
      if let Some((hc, hp)) = hot { if hc == c { b[hp] = C::int(1) } }
      Matrix::from_body(b, [d.p, d.q])
    }).collect();
    match run_layer(l, IOType::Matrix(img)) {
      IOType::Matrix(v) => v.iter().map(|m| { check(m.get_body().len() == 1, "one value"); m.get_body()[0] }).collect(),
      _ => { check(false, "feature maps expected"); vec![] }
    }
  };
  let b = run(None);
  check(b.len() == d.fl, "filter count");
  let mut k = vec![C::int(0); d.fl * d.ch * d.p * d.q];
  for c in 0..d.ch { for u in 0..d.p * d.q {
    let v = run(Some((c, u)));
    for f in 0..d.fl { k[(f * d.ch + c) * d.p * d.q + u] = sub(v[f], b[f]) }
  } }
  (k, b)
}

/* training steps against the derivative of the whole batch loss */
/// mean over the batch of the summed squared error
fn batch_loss(out: &dyn Fn(&[f64], usize) -> Vec<P>, y: &[Vec<P>], p: &[f64]) -> f64 {
  let mut s = 0.0;
  for b in 0..y.len() {
    let o = out(p, b);
    for k in 0..o.len() {
      let e = (o[k].0 - y[b][k].0, o[k].1 - y[b][k].1);
      s += e.0 * e.0 + e.1 * e.1;
    }
  }
  s / y.len() as f64
}
/// old - conj(lr * gradient)
fn stepped(loss: &dyn Fn(&[f64]) -> f64, at: &[f64], k: usize, lr: P) -> P {
  let g = mul(lr, wirtinger(loss, at, k));
  (at[2 * k] - g.0, at[2 * k + 1] + g.1)
}
fn dense_part(f: Act, i: usize, o: usize, base: usize, p: &[f64], x: &[P]) -> Vec<P> {
  (0..o).map(|r| {
    let mut q = get(p, base + i * o + r);
    for c in 0..i { let t = mul(get(p, base + r * i + c), x[c]); q = (q.0 + t.0, q.1 + t.1) }
    spec_act(f, q.0, q.1)
  }).collect()
}
fn push_dense<C: Cx>(at: &mut Vec<f64>, d: &D<C>) {
  for r in 0..d.o { for c in 0..d.i { push(at, d.w[r][c]) } }
  for v in d.b.iter() { push(at, *v) }
}
fn eq_dense<C: Cx + El>(w: &[Vec<C>], b: &[C], loss: &dyn Fn(&[f64]) -> f64, at: &[f64], base: usize, i: usize, o: usize, lr: P) {
  check(b.len() == o, "output count");
  for r in 0..o {
    for c in 0..i { eqw(w[r][c], stepped(loss, at, base + r * i + c, lr), "weight after the step") }
    eqw(b[r], stepped(loss, at, base + i * o + r, lr), "bias after the step");
  }
}
fn two_dense<C: Cx + El>(i: usize, h: usize, o: usize, nb: usize) where C::F: Prec {
  let (l1, d1) = dense::<C>(i, h, Act::None);
  let (l2, d2) = dense::<C>(h, o, Act::None);
  let x: Vec<Vec<C>> = (0..nb).map(|_| anyvec(i)).collect();
  let y: Vec<Vec<C>> = (0..nb).map(|_| anyvec(o)).collect();
  let lr = C::var();
  let mut net = CNetwork::new();
  net.add_input(l1.wrap()).unwrap();
  net.add(l2.wrap()).unwrap();
  let mut data = Dataset::new();
  for b in 0..nb { data.add_point((IOType::Scalar(x[b].clone()), IOType::Scalar(y[b].clone()))) }
  check(net.gradient_opt(data, &Loss::MeanSquare, lr).is_ok(), "trains");
  let mut at = vec![];
  push_dense(&mut at, &d1);
  push_dense(&mut at, &d2);
  let xs: Vec<Vec<P>> = x.iter().map(|v| v.iter().map(|e| wide(*e)).collect()).collect();
  let ys: Vec<Vec<P>> = y.iter().map(|v| v.iter().map(|e| wide(*e)).collect()).collect();
  let n1 = i * h + h;
  let out = move |p: &[f64], b: usize| dense_part(Act::None, h, o, n1, p, &dense_part(Act::None, i, h, 0, p, &xs[b]));
  let loss = move |p: &[f64]| batch_loss(&out, &ys, p);
  let x0 = IOType::Scalar(x[0].clone());
  let (w, b) = read_net_dense(&net, 0, &x0, i);
  eq_dense(&w, &b, &loss, &at, 0, i, h, wide(lr));
  let (w, b) = read_net_dense(&net, 1, &x0, h);
  eq_dense(&w, &b, &loss, &at, n1, h, o, wide(lr));
}
fn gd_1<C: Cx + El>() where C::F: Prec { let (i, h, o) = (choose(1, 2), choose(1, 2), choose(1, 2)); two_dense::<C>(i, h, o, 1) }
fn gd_2<C: Cx + El>() where C::F: Prec { let i = choose(1, 2); two_dense::<C>(i, 1, 1, 2) }
fn gd_3<C: Cx + El>() where C::F: Prec { two_dense::<C>(1, 1, 2, 3) }
/// hidden activations, seen through the predictions of each layer on a fresh input
fn gd_act<C: Cx + El>(f: Act) where C::F: Prec {
  let (l1, d1) = dense::<C>(1, 1, f);
  let (l2, d2) = dense::<C>(1, 1, Act::None);
  let (x, y, lr) = (C::var(), C::var(), C::var());
  let q = dense_q(&d1, &[x])[0];
  smooth(f, q);
  if let Act::RITReLU = f {
    // one quadrant at a time
    let z = C::F::k(0.0);
    if choose(0, 1) == 0 { assume(q.x() > z) } else { assume(q.x() < z) }
    if choose(0, 1) == 0 { assume(q.y() > z) } else { assume(q.y() < z) }
  }
  let mut net = CNetwork::new();
  net.add_input(l1.wrap()).unwrap();
  net.add(l2.wrap()).unwrap();
  let mut data = Dataset::new();
  let x0 = IOType::Scalar(vec![x]);
  data.add_point((x0.clone(), IOType::Scalar(vec![y])));
  check(net.gradient_opt(data, &Loss::MeanSquare, lr).is_ok(), "trains");
  let mut at = vec![];
  push_dense(&mut at, &d1);
  push_dense(&mut at, &d2);
  let xs = vec![wide(x)];
  let ys = vec![vec![wide(y)]];
  let out = move |p: &[f64], _: usize| dense_part(Act::None, 1, 1, 2, p, &dense_part(f, 1, 1, 0, p, &xs));
  let loss = move |p: &[f64]| batch_loss(&out, &ys, p);
  let (w, b) = read_net_dense(&net, 1, &x0, 1);
  eq_dense(&w, &b, &loss, &at, 2, 1, 1, wide(lr));
  // the first layer's bias through the activation at zero, its weight at one
  let (_, l) = net.intercept(x0, 0).unwrap_or_else(|_| panic!());
  let nb = stepped(&loss, &at, 1, wide(lr));
  let nw = stepped(&loss, &at, 0, wide(lr));
  let got0 = vec_of(run_layer(l, IOType::Scalar(vec![C::int(0)])));
  let got1 = vec_of(run_layer(l, IOType::Scalar(vec![C::int(1)])));
  eqw(got0[0], spec_act(f, nb.0, nb.1), "first bias after the step");
  eqw(got1[0], spec_act(f, nb.0 + nw.0, nb.1 + nw.1), "first weight after the step");
}
fn gd_relu<C: Cx + El>() where C::F: Prec { gd_act::<C>(Act::RITReLU) }
fn gd_tanh<C: Cx + El>() where C::F: Prec { gd_act::<C>(Act::RITTanh) }

fn conv_dense<C: Cx + El>(d: Dim, o: usize, nb: usize) where C::F: Prec {
  let (l1, s) = conv::<C>(d.ch, d.fl, d.p, d.q, Act::None);
  let (r, c) = (d.m - d.p + 1, d.n - d.q + 1);
  let nf = d.fl * r * c;
  let (l2, d2) = dense::<C>(nf, o, Act::None);
  let x: Vec<_> = (0..nb).map(|_| maps::<C>(d.ch, d.m, d.n)).collect();
  let y: Vec<Vec<C>> = (0..nb).map(|_| anyvec(o)).collect();
  let lr = C::var();
  let mut net = CNetwork::new();
  net.add_input(l1.wrap()).unwrap();
  net.add(Flatten::init([r, c], d.fl).wrap()).unwrap();
  net.add(l2.wrap()).unwrap();
  let mut data = Dataset::new();
  for b in 0..nb { data.add_point((x[b].1.clone(), IOType::Scalar(y[b].clone()))) }
  check(net.gradient_opt(data, &Loss::MeanSquare, lr).is_ok(), "trains");
  let mut at = vec![];
  for a in s.k.iter() { for e in a.iter() { for r in e.iter() { for v in r.iter() { push(&mut at, *v) } } } }
  for v in s.b.iter() { push(&mut at, *v) }
  push_dense(&mut at, &d2);
  let nk = d.fl * d.ch * d.p * d.q;
  let xs: Vec<Vec<f64>> = x.iter().map(|v| { let mut t = vec![]; for e in v.0.iter().flatten().flatten() { push(&mut t, *e) } t }).collect();
  let ys: Vec<Vec<P>> = y.iter().map(|v| v.iter().map(|e| wide(*e)).collect()).collect();
  let out = move |p: &[f64], b: usize| {
    let mut t = p[..2 * (nk + d.fl)].to_vec();
    t.extend_from_slice(&xs[b]);
    dense_part(Act::None, nf, o, nk + d.fl, p, &conv_out(Act::None, d, &t))
  };
  let loss = move |p: &[f64]| batch_loss(&out, &ys, p);
  let (k, b) = read_net_conv(&net, 0, &x[0].1, d);
  for u in 0..nk { eqw(k[u], stepped(&loss, &at, u, wide(lr)), "kernel after the step") }
  for u in 0..d.fl { eqw(b[u], stepped(&loss, &at, nk + u, wide(lr)), "filter bias after the step") }
  let (w, b) = read_net_dense(&net, 2, &x[0].1, nf);
  eq_dense(&w, &b, &loss, &at, nk + d.fl, nf, o, wide(lr));
}
fn gc_1<C: Cx + El>() where C::F: Prec {
  let s = [
    Dim { ch: 1, fl: 1, p: 1, q: 2, m: 1, n: 3 },
    Dim { ch: 1, fl: 1, p: 2, q: 1, m: 3, n: 1 },
    Dim { ch: 1, fl: 2, p: 1, q: 1, m: 1, n: 2 },
    Dim { ch: 2, fl: 1, p: 1, q: 2, m: 1, n: 2 },
  ];
  conv_dense::<C>(s[choose(0, 3)], 1, 1)
}
fn gc_2<C: Cx + El>() where C::F: Prec { conv_dense::<C>(Dim { ch: 1, fl: 1, p: 1, q: 1, m: 1, n: 2 }, 1, 2) }

/* the same with the chain rule spelled out: pooling hands derivatives back by upsampling; any loss */
fn chain<C: Cx + El>(lossf: Loss, pooling: bool) {
  let d = Dim { ch: 1, fl: choose(1, 2), p: 1, q: 1, m: 1, n: 2 };
  let o = choose(1, 2);
  let (l1, s) = conv::<C>(1, d.fl, 1, 1, Act::None);
  let nf = if pooling { d.fl } else { 2 * d.fl };
  let (l2, d2) = dense::<C>(nf, o, Act::None);
  let (kt, kernel) = anymat::<C>(1, 1);
  let (t, x) = maps::<C>(1, 1, 2);
  let y: Vec<C> = anyvec(o);
  let lr = C::var();
  let mut net = CNetwork::new();
  net.add_input(l1.wrap()).unwrap();
  if pooling { net.add(pool::<C>(d.fl, 1, 2, kernel).wrap()).unwrap() }
  net.add(Flatten::init([1, nf / d.fl], d.fl).wrap()).unwrap();
  net.add(l2.wrap()).unwrap();
  let mut data = Dataset::new();
  data.add_point((x.clone(), IOType::Scalar(y.clone())));
  // forward
  let mut feat: Vec<C> = vec![];
  for f in 0..d.fl {
    let v: Vec<C> = (0..2).map(|j| C::sadd(C::smul(s.k[f][0][0][0], t[0][0][j]), s.b[f])).collect();
    if pooling { feat.push(horner(&v)) } else { feat.extend(v) }
  }
  let q = dense_q(&d2, &feat);
  let g = C::d_loss(&IOType::Scalar(y.clone()), &IOType::Scalar(q.clone()), &lossf).unwrap_or_else(|_| panic!());
  check(net.gradient_opt(data, &lossf, lr).is_ok(), "trains");
  let upd = |p: C, g: C| sub(p, cj(C::smul(lr, g)));
  let (w, b) = read_net_dense(&net, if pooling { 3 } else { 2 }, &x, nf);
  for k in 0..o {
    C::same(b[k], upd(d2.b[k], g[k]), "bias after the step");
    for j in 0..nf { C::same(w[k][j], upd(d2.w[k][j], C::smul(g[k], feat[j])), "weight after the step") }
  }
  let df: Vec<C> = (0..nf).map(|j| (0..o).fold(C::int(0), |a, k| C::sadd(a, C::smul(d2.w[k][j], g[k])))).collect();
  let (k, b) = read_net_conv(&net, 0, &x, d);
  for f in 0..d.fl {
    let dq: Vec<C> = if pooling { upsampled(&[vec![df[f]]], 1, 1, 1, 2, &kt, 1, 1)[0].clone() } else { df[2 * f..2 * f + 2].to_vec() };
    C::same(b[f], upd(s.b[f], C::sadd(dq[0], dq[1])), "filter bias after the step");
    C::same(k[f], upd(s.k[f][0][0][0], C::sadd(C::smul(dq[0], t[0][0][0]), C::smul(dq[1], t[0][0][1]))), "kernel after the step");
  }
}
fn gp_mse<C: Cx + El>() { chain::<C>(Loss::MeanSquare, true) }
/// the loss chosen by the caller is the one that is descended
fn gp_ce<C: Cx + El>() {
  let (l1, d1) = dense::<C>(1, 1, Act::None);
  let (l2, d2) = dense::<C>(1, 2, Act::None);
  let (x, lr) = (C::var(), C::var());
  let y: Vec<C> = anyvec(2);
  let mut net = CNetwork::new();
  net.add_input(l1.wrap()).unwrap();
  net.add(l2.wrap()).unwrap();
  let h = dense_q(&d1, &[x]);
  let q = dense_q(&d2, &h);
  let g = C::d_loss(&IOType::Scalar(y.clone()), &IOType::Scalar(q), &Loss::NormCrossEntropy).unwrap_or_else(|_| panic!());
  let mut data = Dataset::new();
  let x0 = IOType::Scalar(vec![x]);
  data.add_point((x0.clone(), IOType::Scalar(y)));
  check(net.gradient_opt(data, &Loss::NormCrossEntropy, lr).is_ok(), "trains");
  let upd = |p: C, g: C| sub(p, cj(C::smul(lr, g)));
  let (w, b) = read_net_dense(&net, 1, &x0, 1);
  for k in 0..2 {
    C::same(b[k], upd(d2.b[k], g[k]), "bias after the step");
    C::same(w[k][0], upd(d2.w[k][0], C::smul(g[k], h[0])), "weight after the step");
  }
  let dq = C::sadd(C::smul(d2.w[0][0], g[0]), C::smul(d2.w[1][0], g[1]));
  let (w, b) = read_net_dense(&net, 0, &x0, 1);
  C::same(b[0], upd(d1.b[0], dq), "first bias after the step");
  C::same(w[0][0], upd(d1.w[0][0], C::smul(dq, x)), "first weight after the step");
}
fn zero_lr<C: Cx + El>() {
  let f = [Act::None, Act::RITReLU, Act::RITTanh][choose(0, 2)];
  let nb = choose(1, 2);
  let (l1, _) = dense::<C>(2, 1, f);
  let (l2, _) = dense::<C>(1, 2, f);
  let mut net = CNetwork::new();
  net.add_input(l1.wrap()).unwrap();
  net.add(l2.wrap()).unwrap();
  let z = IOType::Scalar(anyvec::<C>(2));
  let before = net.forward(&z).unwrap_or_else(|_| panic!());
  let mut data = Dataset::new();
  for _ in 0..nb { data.add_point((IOType::Scalar(anyvec::<C>(2)), IOType::Scalar(anyvec::<C>(2)))) }
  check(net.gradient_opt(data, &Loss::MeanSquare, C::int(0)).is_ok(), "trains");
  eqio(&net.forward(&z).unwrap_or_else(|_| panic!()), &before, "prediction unchanged");
  check(net.params_len() == 7, "parameter count");
}
fn too_few<C: Cx + El>() {
  let one = choose(0, 2);
  let mut net: CNetwork<C> = CNetwork::new();
  let mut x = IOType::Scalar(anyvec::<C>(2));
  let mut y = anyvec::<C>(2);
  if one == 1 { let (l, _) = dense::<C>(2, 2, Act::None); net.add_input(l.wrap()).unwrap() }
  if one == 2 {
    let (l, _) = conv::<C>(1, 1, 1, 2, Act::None);
    net.add_input(l.wrap()).unwrap();
    x = maps::<C>(1, 1, 2).1;
    y = anyvec::<C>(1);
  }
  let before = if one > 0 { net.forward(&x).ok() } else { None };
  let mut data = Dataset::new();
  data.add_point((x.clone(), IOType::Scalar(y)));
  check(net.gradient_opt(data, &Loss::MeanSquare, C::var()).is_err(), "fewer than two layers are refused");
  if let Some(b) = before { eqio(&net.forward(&x).unwrap_or_else(|_| panic!()), &b, "prediction unchanged") }
}

/* adjustment */
fn adj_dense<C: Cx + El>() {
  let (i, o) = (choose(1, 3), choose(1, 3));
  let (mut l, d) = dense::<C>(i, o, Act::None);
  let (w, b) = l.params_len();
  check(w == i * o && b == o, "reported parameter counts");
  let (nw, nb) = (choose(0, i * o + 1), choose(0, o + 1));
  let g: Vec<C> = anyvec(nw);
  let h: Vec<C> = anyvec(nb);
  let fits = nw == i * o && nb == o;
  let r = l.neg_conj_adjustment(g.clone(), h.clone());
  check(r.is_ok() == fits, "accepted exactly when the lengths fit");
  let (rw, rb) = read_dense(i, &|v| vec_of(l.forward(&IOType::Scalar(v.to_vec())).unwrap_or_else(|_| panic!())));
  for r in 0..o {
    C::same(rb[r], if fits { sub(d.b[r], cj(h[r])) } else { d.b[r] }, "bias after adjustment");
    for c in 0..i { C::same(rw[r][c], if fits { sub(d.w[r][c], cj(g[r * i + c])) } else { d.w[r][c] }, "weight after adjustment") }
  }
}
fn adj_conv<C: Cx + El>() {
  let d = Dim { ch: choose(1, 2), fl: choose(1, 2), p: choose(1, 2), q: choose(1, 2), m: 0, n: 0 };
  let n = d.ch * d.fl * d.p * d.q;
  let (l, s) = conv::<C>(d.ch, d.fl, d.p, d.q, Act::None);
  let mut l = l.wrap();
  let (w, b) = l.params_len();
  check(w == n && b == d.fl, "reported parameter counts");
  let (nw, nb) = (choose(0, n + 1), choose(0, d.fl + 1));
  // all lengths near the right one, and the short ones
  assume(nw + 2 > n || nw < 2);
  let g: Vec<C> = anyvec(nw);
  let h: Vec<C> = anyvec(nb);
  let fits = nw == n && nb == d.fl;
  let r = l.neg_conj_adjustment(g.clone(), h.clone());
  check(r.is_ok() == fits, "accepted exactly when the lengths fit");
  let mut net = CNetwork::new();
  net.add_input(l).unwrap();
  let x = maps::<C>(d.ch, d.p, d.q).1;
  let (k, b) = read_net_conv(&net, 0, &x, d);
  for f in 0..d.fl { C::same(b[f], if fits { sub(s.b[f], cj(h[f])) } else { s.b[f] }, "bias after adjustment") }
  for u in 0..n {
    let old = s.k[u / (d.ch * d.p * d.q)][u / (d.p * d.q) % d.ch][u / d.q % d.p][u % d.q];
    C::same(k[u], if fits { sub(old, cj(g[u])) } else { old }, "kernel after adjustment");
  }
}
/// whole layers through the common interface
fn adj_wrap<C: Cx + El>() {
  let (l, d) = dense::<C>(2, 1, Act::None);
  let mut l = l.wrap();
  let g: Vec<C> = anyvec(2);
  let h: Vec<C> = anyvec(1);
  let (w, b) = l.params_len();
  check(w == 2 && b == 1, "reported parameter counts");
  check(l.neg_conj_adjustment(g.clone(), h.clone()).is_ok(), "accepted");
  let x: Vec<C> = anyvec(2);
  let mut e = sub(d.b[0], cj(h[0]));
  for c in 0..2 { e = C::sadd(e, C::smul(sub(d.w[0][c], cj(g[c])), x[c])) }
  eqscal(&run_layer(&l, IOType::Scalar(x)), &[e], "prediction after adjustment");
  let mut p = pool::<C>(1, 1, 1, anymat::<C>(1, 1).1).wrap();
  let (w, b) = p.params_len();
  check(w == 0 && b == 0, "pooling has no parameters");
  check(p.neg_conj_adjustment(vec![], vec![]).is_ok(), "nothing to adjust");
}

/* accuracy: a flatten network predicts exactly its input */
fn sq<C: Cx>(z: C) -> C::F { z.x() * z.x() + z.y() * z.y() }
/// position k holds the first largest modulus
fn first_max<C: Cx>(v: &[C], k: usize) -> bool {
  let mut r = true;
  for j in 0..v.len() {
    let s = if j < k { sq(v[j]) < sq(v[k]) } else { sq(v[j]) <= sq(v[k]) };
    r = r & s;
  }
  r
}
fn accuracy<C: Cx + El>(nb: usize, n: usize) {
  let mut net: CNetwork<C> = CNetwork::new();
  net.add_input(Flatten::init([1, n], 1).wrap()).unwrap();
  let mut data = Dataset::new();
  let mut hits = 0;
  for _ in 0..nb {
    let x: Vec<C> = anyvec(n);
    let y: Vec<C> = anyvec(n);
    let (a, b) = (choose(0, n - 1), choose(0, n - 1));
    assume(first_max(&x, a));
    assume(first_max(&y, b));
    if a == b { hits += 1 }
    data.add_point((IOType::Matrix(vec![Matrix::from_body(x, [1, n])]), IOType::Scalar(y)));
  }
  let acc = C::p(net.max_pred_test(&data));
  C::F::eqt(acc, C::F::n(hits) / C::F::n(nb), 1e-4, "fraction of coinciding positions");
  check(acc >= C::F::k(0.0) && acc <= C::F::k(1.0), "accuracy in [0,1]");
}
fn acc_1<C: Cx + El>() { let n = choose(1, 3); accuracy::<C>(1, n) }
fn acc_2<C: Cx + El>() { let n = choose(1, 2); accuracy::<C>(2, n) }
fn acc_3<C: Cx + El>() { accuracy::<C>(3, 2) }

/* larger sizes */
fn dg_wide<C: Cx + El>() where C::F: Prec {
  let (i, o) = [(9, 2), (2, 9), (5, 5), (1, 17), (17, 1)][choose(0, 4)];
  dense_grad::<C>(Act::None, i, o)
}
fn dg_wide_tanh<C: Cx + El>() where C::F: Prec {
  let (i, o) = [(5, 2), (2, 5), (9, 1)][choose(0, 2)];
  dense_grad::<C>(Act::RITTanh, i, o)
}
fn cg_wide<C: Cx + El>() where C::F: Prec {
  let d = [
    Dim { ch: 3, fl: 2, p: 2, q: 2, m: 4, n: 4 },
    Dim { ch: 2, fl: 3, p: 3, q: 3, m: 4, n: 5 },
    Dim { ch: 1, fl: 1, p: 3, q: 2, m: 6, n: 5 },
    Dim { ch: 1, fl: 5, p: 1, q: 2, m: 2, n: 3 },
    Dim { ch: 1, fl: 1, p: 5, q: 5, m: 6, n: 6 },
    Dim { ch: 1, fl: 1, p: 1, q: 4, m: 3, n: 7 },
  ][choose(0, 5)];
  conv_grad::<C>(Act::None, d)
}
fn pool_wide<C: Cx + El>() {
  let (n, p, q, a, b, kr, kc) = [(3, 2, 2, 2, 2, 3, 3), (1, 3, 3, 3, 2, 5, 5), (4, 1, 2, 1, 3, 1, 3), (2, 4, 4, 2, 1, 3, 1), (1, 2, 5, 4, 3, 3, 5)][choose(0, 4)];
  let (kt, kernel) = anymat::<C>(kr, kc);
  let l = pool::<C>(n, p, q, kernel).wrap();
  let (_, x) = maps::<C>(n, a * p, b * q);
  let g: Vec<C> = anyvec(n * a * b);
  let h: Vec<C> = anyvec(n * a * b);
  match l.compute_derivatives(&x, g.clone(), h.clone()) {
    Ok((dw, db, da, dc)) => {
      check(dw.is_empty() && db.is_empty(), "no parameter derivatives");
      for (src, got) in [(&g, &da), (&h, &dc)] {
        let mut e = vec![];
        for f in 0..n {
          let t: Vec<Vec<C>> = (0..a).map(|i| (0..b).map(|j| src[(f * a + i) * b + j]).collect()).collect();
          for r in upsampled(&t, a, b, p, q, &kt, kr, kc) { e.extend(r) }
        }
        eqvec(got, &e, "upsampled derivative");
      }
    }
    Err(_) => check(false, "derivatives exist"),
  }
}
/// larger batches: mean over all samples
fn gd_batch<C: Cx + El>() where C::F: Prec { let nb = [4, 5][choose(0, 1)]; two_dense::<C>(1, 1, 1, nb) }
fn gd_size<C: Cx + El>() where C::F: Prec { let (i, h, o) = [(3, 2, 2), (2, 3, 1), (1, 2, 4), (5, 1, 1)][choose(0, 3)]; two_dense::<C>(i, h, o, 1) }
/// chains of linear layers with one unit each
fn gd_deep<C: Cx + El>() {
  let n = choose(3, 4);
  let mut net: CNetwork<C> = CNetwork::new();
  let mut w = vec![];
  let mut b = vec![];
  for k in 0..n {
    let (l, d) = dense::<C>(1, 1, Act::None);
    if k == 0 { net.add_input(l.wrap()).unwrap() } else { net.add(l.wrap()).unwrap() }
    w.push(d.w[0][0]);
    b.push(d.b[0]);
  }
  let (x, y, lr) = (C::var(), C::var(), C::var());
  let mut a = vec![x];
  for k in 0..n { a.push(C::sadd(C::smul(w[k], a[k]), b[k])) }
  let mut data = Dataset::new();
  let x0 = IOType::Scalar(vec![x]);
  data.add_point((x0.clone(), IOType::Scalar(vec![y])));
  check(net.gradient_opt(data, &Loss::MeanSquare, lr).is_ok(), "trains");
  let mut g = cj(sub(a[n], y));
  for k in (0..n).rev() {
    let (nw, nb) = read_net_dense(&net, k, &x0, 1);
    C::same(nb[0], sub(b[k], cj(C::smul(lr, g))), "bias after the step");
    C::same(nw[0][0], sub(w[k], cj(C::smul(lr, C::smul(g, a[k])))), "weight after the step");
    g = C::smul(g, w[k]);
  }
}
fn adj_wide<C: Cx + El>() {
  let (i, o) = [(9, 2), (2, 9), (5, 5), (17, 1)][choose(0, 3)];
  let (mut l, d) = dense::<C>(i, o, Act::None);
  check(l.params_len() == (i * o, o), "reported parameter counts");
  let g: Vec<C> = anyvec(i * o);
  let h: Vec<C> = anyvec(o);
  check(l.neg_conj_adjustment(g.clone(), h.clone()).is_ok(), "accepted exactly when the lengths fit");
  check(l.neg_conj_adjustment(g[1..].to_vec(), h.clone()).is_err(), "accepted exactly when the lengths fit");
  check(l.neg_conj_adjustment(g.clone(), h[1..].to_vec()).is_err(), "accepted exactly when the lengths fit");
  check(l.neg_conj_adjustment(h.clone(), g.clone()).is_err() || o == i * o, "accepted exactly when the lengths fit");
  let (rw, rb) = read_dense(i, &|v| vec_of(l.forward(&IOType::Scalar(v.to_vec())).unwrap_or_else(|_| panic!())));
  for r in 0..o {
    C::same(rb[r], sub(d.b[r], cj(h[r])), "bias after adjustment");
    for c in 0..i { C::same(rw[r][c], sub(d.w[r][c], cj(g[r * i + c])), "weight after adjustment") }
  }
}
fn adj_wide_conv<C: Cx + El>() {
  let (ch, fl, p, q) = [(3, 4, 1, 2), (2, 3, 2, 3), (1, 9, 1, 1), (1, 1, 5, 5), (5, 1, 1, 2)][choose(0, 4)];
  let d = Dim { ch, fl, p, q, m: 0, n: 0 };
  let n = ch * fl * p * q;
  let (l, s) = conv::<C>(ch, fl, p, q, Act::None);
  let mut l = l.wrap();
  check(l.params_len() == (n, fl), "reported parameter counts");
  let g: Vec<C> = anyvec(n);
  let h: Vec<C> = anyvec(fl);
  check(l.neg_conj_adjustment(g.clone(), h.clone()).is_ok(), "accepted exactly when the lengths fit");
  check(l.neg_conj_adjustment(g[1..].to_vec(), h.clone()).is_err(), "accepted exactly when the lengths fit");
  check(l.neg_conj_adjustment(g.clone(), h[1..].to_vec()).is_err(), "accepted exactly when the lengths fit");
  let mut net = CNetwork::new();
  net.add_input(l).unwrap();
  let x = maps::<C>(ch, p, q).1;
  let (k, b) = read_net_conv(&net, 0, &x, d);
  for f in 0..fl { C::same(b[f], sub(s.b[f], cj(h[f])), "bias after adjustment") }
  for u in 0..n {
    let old = s.k[u / (ch * p * q)][u / (p * q) % ch][u / q % p][u % q];
    C::same(k[u], sub(old, cj(g[u])), "kernel after adjustment");
  }
}
/// ten outputs; the largest entries are placed, the others lie on the axes
fn acc_wide<C: Cx + El>() {
  let n = [5, 10][choose(0, 1)];
  let nb = choose(1, 2);
  let mut net: CNetwork<C> = CNetwork::new();
  net.add_input(Flatten::init([1, n], 1).wrap()).unwrap();
  let mut data = Dataset::new();
  let mut hits = 0;
  for _ in 0..nb {
    let (a, b) = (choose(0, 2) * (n - 1) / 2, choose(0, 2) * (n - 1) / 2);
    let up = choose(0, 1) == 0;
    let mk = |k: usize| -> Vec<C> {
      let v: Vec<C::F> = (0..n).map(|_| C::F::var()).collect();
      let z = C::F::k(0.0);
      for j in 0..n { assume(v[j] > z) }
      // before the largest entry ascending or descending, after it descending
      for j in 1..k { assume(if up { v[j - 1] < v[j] } else { v[j] <= v[j - 1] }) }
      if k > 0 { assume(v[0] < v[k] && v[k - 1] < v[k]) }
      for j in k + 1..n { assume(v[j] <= v[j - 1]) }
      (0..n).map(|j| match j % 4 { 0 => C::mk(v[j], z), 1 => C::mk(z, -v[j]), 2 => C::mk(-v[j], z), _ => C::mk(z, v[j]) }).collect()
    };
    let (x, y) = (mk(a), mk(b));
    if a == b { hits += 1 }
    data.add_point((IOType::Matrix(vec![Matrix::from_body(x, [1, n])]), IOType::Scalar(y)));
  }
  let acc = C::p(net.max_pred_test(&data));
  C::F::eqt(acc, C::F::n(hits) / C::F::n(nb), 1e-4, "fraction of coinciding positions");
}
/// larger batches of two outputs, real and positive
fn acc_batch<C: Cx + El>() {
  let nb = [4, 5, 7][choose(0, 2)];
  let mut net: CNetwork<C> = CNetwork::new();
  net.add_input(Flatten::init([1, 2], 1).wrap()).unwrap();
  let mut data = Dataset::new();
  let mut hits = 0;
  for s in 0..nb {
    let z = C::F::k(0.0);
    let (u, v) = (C::F::var(), C::F::var());
    assume(u > z && v > z);
    let first = choose(0, 1) == 0;
    if first { assume(u >= v) } else { assume(u < v) }
    if first == (s % 3 == 0) { hits += 1 }
    let y = if s % 3 == 0 { vec![C::int(1), C::int(0)] } else { vec![C::int(0), C::int(1)] };
    data.add_point((IOType::Matrix(vec![Matrix::from_body(vec![C::mk(u, z), C::mk(z, v)], [1, 2])]), IOType::Scalar(y)));
  }
  let acc = C::p(net.max_pred_test(&data));
  C::F::eqt(acc, C::F::n(hits) / C::F::n(nb), 1e-4, "fraction of coinciding positions");
}

entries! {
  h_c20_none_c64_r => dg_none::<Cf64>;
  h_c20_none_c32_r => dg_none::<Cf32>;
  h_c20_tanh_c64_r => dg_tanh::<Cf64>;
  h_c20_tanh_c32_r => dg_tanh::<Cf32>;
  h_c20_sig_c64_r => dg_sig::<Cf64>;
  h_c20_sig_c32_r => dg_sig::<Cf32>;
  h_c20_relu_c64_r => dg_relu::<Cf64>;
  h_c20_relu_c32_r => dg_relu::<Cf32>;
  h_c20_zrelu_c64_r => dg_zrelu::<Cf64>;
  h_c20_zrelu_c32_r => dg_zrelu::<Cf32>;
  h_c20_modz_c64_r => dg_modz::<Cf64>;
  h_c20_modz_c32_r => dg_modz::<Cf32>;
  h_c20_card_c64_r => dg_card::<Cf64>;
  h_c20_card_c32_r => dg_card::<Cf32>;
  h_c21_none_c64_r => cg_none::<Cf64>;
  h_c21_none_c32_r => cg_none::<Cf32>;
  h_c21_tanh_c64_r => cg_tanh::<Cf64>;
  h_c21_tanh_c32_r => cg_tanh::<Cf32>;
  h_c21_sig_c64_r => cg_sig::<Cf64>;
  h_c21_sig_c32_r => cg_sig::<Cf32>;
  h_c21_relu_c64_r => cg_relu::<Cf64>;
  h_c21_relu_c32_r => cg_relu::<Cf32>;
  h_c21_zrelu_c64_r => cg_zrelu::<Cf64>;
  h_c21_zrelu_c32_r => cg_zrelu::<Cf32>;
  h_c21_modz_c64_r => cg_modz::<Cf64>;
  h_c21_modz_c32_r => cg_modz::<Cf32>;
  h_c21_card_c64_r => cg_card::<Cf64>;
  h_c21_card_c32_r => cg_card::<Cf32>;
  h_c22_pool_c64_r => pool_grad::<Cf64>;
  h_c22_pool_c32_r => pool_grad::<Cf32>;
  h_c22_flat_c64_r => flat_step::<Cf64>;
  h_c22_flat_c32_r => flat_step::<Cf32>;
  h_c23_dense1_c64_r => gd_1::<Cf64>;
  h_c23_dense1_c32_r => gd_1::<Cf32>;
  h_c23_dense2_c64_r => gd_2::<Cf64>;
  h_c23_dense2_c32_r => gd_2::<Cf32>;
  h_c23_dense3_c64_r => gd_3::<Cf64>;
  h_c23_dense3_c32_r => gd_3::<Cf32>;
  h_c23_relu_c64_r => gd_relu::<Cf64>;
  h_c23_relu_c32_r => gd_relu::<Cf32>;
  h_c23_tanh_c64_r => gd_tanh::<Cf64>;
  h_c23_tanh_c32_r => gd_tanh::<Cf32>;
  h_c23_conv1_c64_r => gc_1::<Cf64>;
  h_c23_conv1_c32_r => gc_1::<Cf32>;
  h_c23_conv2_c64_r => gc_2::<Cf64>;
  h_c23_conv2_c32_r => gc_2::<Cf32>;
  h_c23_pool_c64_r => gp_mse::<Cf64>;
  h_c23_pool_c32_r => gp_mse::<Cf32>;
  h_c23_ce_c64_r => gp_ce::<Cf64>;
  h_c23_ce_c32_r => gp_ce::<Cf32>;
  h_c23_zero_c64_r => zero_lr::<Cf64>;
  h_c23_zero_c32_r => zero_lr::<Cf32>;
  h_c23_few_c64_r => too_few::<Cf64>;
  h_c23_few_c32_r => too_few::<Cf32>;
  h_c24_dense_c64_r => adj_dense::<Cf64>;
  h_c24_dense_c32_r => adj_dense::<Cf32>;
  h_c24_conv_c64_r => adj_conv::<Cf64>;
  h_c24_conv_c32_r => adj_conv::<Cf32>;
  h_c24_wrap_c64_r => adj_wrap::<Cf64>;
  h_c24_wrap_c32_r => adj_wrap::<Cf32>;
  h_c25_one_c64_r => acc_1::<Cf64>;
  h_c25_one_c32_r => acc_1::<Cf32>;
  h_c25_two_c64_r => acc_2::<Cf64>;
  h_c25_two_c32_r => acc_2::<Cf32>;
  h_c25_three_c64_r => acc_3::<Cf64>;
  h_c25_three_c32_r => acc_3::<Cf32>;
  h_c20_wide_c64_r => dg_wide::<Cf64>;
  h_c20_wide_c32_r => dg_wide::<Cf32>;
  h_c20_widet_c64_r => dg_wide_tanh::<Cf64>;
  h_c20_widet_c32_r => dg_wide_tanh::<Cf32>;
  h_c21_wide_c64_r => cg_wide::<Cf64>;
  h_c21_wide_c32_r => cg_wide::<Cf32>;
  h_c22_wide_c64_r => pool_wide::<Cf64>;
  h_c22_wide_c32_r => pool_wide::<Cf32>;
  h_c23_batch_c64_r => gd_batch::<Cf64>;
  h_c23_batch_c32_r => gd_batch::<Cf32>;
  h_c23_size_c64_r => gd_size::<Cf64>;
  h_c23_size_c32_r => gd_size::<Cf32>;
  h_c23_deep_c64_r => gd_deep::<Cf64>;
  h_c23_deep_c32_r => gd_deep::<Cf32>;
  h_c24_wide_c64_r => adj_wide::<Cf64>;
  h_c24_wide_c32_r => adj_wide::<Cf32>;
  h_c24_widec_c64_r => adj_wide_conv::<Cf64>;
  h_c24_widec_c32_r => adj_wide_conv::<Cf32>;
  h_c25_wide_c64_r => acc_wide::<Cf64>;
  h_c25_wide_c32_r => acc_wide::<Cf32>;
  h_c25_batch_c64_r => acc_batch::<Cf64>;
  h_c25_batch_c32_r => acc_batch::<Cf32>;
}
