//! Native replay: `replay FILE`. FILE holds cases:
//!   case <entry> <tier>
//!   <kind> <hex>        (one line per input)
//!   end
//! and for every case the outcome of each check is printed. A line
//!   rand <entry> <tier> <seed> <count> <ms>
//! runs the entry on drawn inputs instead and prints the first inputs that break a check.
use std::cell::RefCell;

thread_local! {
  static IN: RefCell<(Vec<(String, u128)>, usize)> = RefCell::new((vec![], 0));
  static TIER: RefCell<u32> = RefCell::new(0);
  static BAD: RefCell<bool> = RefCell::new(false);
  static FILES: RefCell<Vec<std::path::PathBuf>> = RefCell::new(vec![]);
}
thread_local! {
  /// drawn inputs: generator state, recorded values, number of failed checks
  static RND: RefCell<Option<(u64, Vec<(&'static str, u128)>, usize)>> = RefCell::new(None);
}
struct AssumeFail;

fn bits(r: &mut u64) -> u64 {
  *r = r.wrapping_add(0x9e3779b97f4a7c15);
  let mut z = *r;
  z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
  z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
  z ^ (z >> 31)
}
fn drawn(kind: &'static str, lo: u64, hi: u64) -> Option<u128> {
  RND.with(|q| {
    let mut q = q.borrow_mut();
    let (r, rec, _) = q.as_mut()?;
    let a = bits(r);
    let x = (bits(r) >> 11) as f64 / (1u64 << 53) as f64;
    let x = 4.0 * x - 2.0;
    let v = match kind {
      "f32" => (x as f32).to_bits() as u128,
      "f64" => x.to_bits() as u128,
      "u8" => (a % 256) as u128,
      "u128" => match a % 4 { 0 => a as u128 % 1000, 1 => a as u128, _ => (a as u128) << 64 | bits(r) as u128 },
      _ if hi - lo < 1 << 40 => lo as u128 + (a % (hi - lo + 1)) as u128,
      _ => match a % 4 { 0 | 1 => (a >> 8) as u128 % 12, 2 => u64::MAX as u128 - (a >> 8) as u128 % 3, _ => bits(r) as u128 },
    };
    rec.push((kind, v));
    Some(v)
  })
}
fn say(ok: bool, l: impl FnOnce() -> String) {
  let quiet = RND.with(|q| match q.borrow_mut().as_mut() { Some(q) => { if !ok { q.2 += 1 } true } None => false });
  if !quiet { println!("{} {}", if ok { "ok" } else { "FAIL" }, l()) }
}
fn obs(a: f64, b: f64) { if RND.with(|q| q.borrow().is_none()) { println!("OBS {:e} {:e}", a, b) } }

fn next(kind: &'static str) -> u128 {
  if let Some(v) = drawn(kind, 0, u64::MAX) { return v }
  IN.with(|i| {
    let mut i = i.borrow_mut();
    let k = i.1;
    i.1 += 1;
    match i.0.get(k) {
      Some((kk, v)) if kk == kind => *v,
      Some((kk, _)) => { println!("DESYNC want {} have {}", kind, kk); std::panic::panic_any(AssumeFail) }
      // inputs created after the recorded violation point
      None => match kind { "f32" => 0.5f32.to_bits() as u128, "f64" => 0.5f64.to_bits() as u128, _ => u128::MAX },
    }
  })
}
fn label(p: *const u8, n: usize) -> String {
  unsafe { String::from_utf8_lossy(std::slice::from_raw_parts(p, n)).to_string() }
}
#[no_mangle] fn v_f32() -> f32 { f32::from_bits(next("f32") as u32) }
#[no_mangle] fn v_f64() -> f64 { f64::from_bits(next("f64") as u64) }
#[no_mangle] fn v_u64() -> u64 { next("u64") as u64 }
#[no_mangle] fn v_u128() -> u128 { next("u128") }
#[no_mangle] fn v_u8() -> u8 { next("u8") as u8 }
#[no_mangle] fn v_range(lo: u64, hi: u64) -> u64 {
  if let Some(v) = drawn("u64", lo, hi) { return v as u64 }
  let v = next("u64");
  if v == u128::MAX { return lo }
  let v = v as u64;
  if v < lo || v > hi { println!("ASSUME-FAIL range"); std::panic::panic_any(AssumeFail) }
  v
}
#[no_mangle] fn v_choose(lo: u64, hi: u64) -> u64 { v_range(lo, hi) }
#[no_mangle] fn v_assume(c: bool) { if !c { if RND.with(|q| q.borrow().is_none()) { println!("ASSUME-FAIL") } std::panic::panic_any(AssumeFail) } }
#[no_mangle] fn v_check(c: bool, p: *const u8, n: usize) {
  say(c, || label(p, n));
}
/// drawn inputs get the full margin: only gross deviations count
fn rel(tol: f64) -> f64 { if RND.with(|q| q.borrow().is_some()) { tol } else { tol / 100.0 } }
fn close(a: f64, b: f64, rel: f64) -> bool {
  if a.is_nan() && b.is_nan() { return true }
  if a == b { return true }
  (a - b).abs() <= rel * (1.0 + a.abs() + b.abs())
}
#[no_mangle] fn v_eq32(a: f32, b: f32, tol: f64, p: *const u8, n: usize) {
  let r = if tol == 0.0 { a == b || (a.is_nan() && b.is_nan()) } else { close(a as f64, b as f64, rel(tol)) };
  obs(a as f64, b as f64);
  say(r, || format!("{} [{:e} vs {:e}]", label(p, n), a, b));
}
#[no_mangle] fn v_eq64(a: f64, b: f64, tol: f64, p: *const u8, n: usize) {
  let r = if tol == 0.0 { a == b || (a.is_nan() && b.is_nan()) } else { close(a, b, rel(tol)) };
  obs(a as f64, b as f64);
  say(r, || format!("{} [{:e} vs {:e}]", label(p, n), a, b));
}
fn le(a: f64, b: f64, rel: f64) -> bool { a <= b + rel * (1.0 + a.abs() + b.abs()) }
#[no_mangle] fn v_le32(a: f32, b: f32, tol: f64, p: *const u8, n: usize) {
  let r = if tol == 0.0 { a <= b } else { le(a as f64, b as f64, rel(tol)) };
  obs(a as f64, b as f64);
  say(r, || format!("{} [{:e} <= {:e}]", label(p, n), a, b));
}
#[no_mangle] fn v_le64(a: f64, b: f64, tol: f64, p: *const u8, n: usize) {
  let r = if tol == 0.0 { a <= b } else { le(a, b, rel(tol)) };
  obs(a as f64, b as f64);
  say(r, || format!("{} [{:e} <= {:e}]", label(p, n), a, b));
}
#[no_mangle] fn v_def32(a: f32, p: *const u8, n: usize) { say(a.is_finite(), || format!("{} [{:e}]", label(p, n), a)); }
#[no_mangle] fn v_def64(a: f64, p: *const u8, n: usize) { say(a.is_finite(), || format!("{} [{:e}]", label(p, n), a)); }
#[no_mangle] fn v_tier() -> u32 { TIER.with(|t| *t.borrow()) }
#[no_mangle] fn v_waves() -> u32 { 0 }
#[no_mangle] fn v_native() -> u32 { 1 }
#[no_mangle] fn v_deriv(_f: f64, _x: f64) -> f64 { unreachable!() }
#[no_mangle] fn v_try(f: fn(*mut u8), d: *mut u8) -> u32 {
  let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(d)));
  match r {
    Ok(()) => 0,
    Err(e) => { if e.is::<AssumeFail>() { std::panic::resume_unwind(e) } 1 }
  }
}
#[no_mangle] fn v_file(p: *const u8, n: usize) -> i32 {
  use std::os::fd::IntoRawFd;
  let dir = std::env::temp_dir();
  let name = dir.join(format!("llsym-replay-{}-{}", std::process::id(), FILES.with(|f| f.borrow().len())));
  std::fs::write(&name, unsafe { std::slice::from_raw_parts(p, n) }).unwrap();
  let f = std::fs::File::open(&name).unwrap();
  std::fs::remove_file(&name).unwrap();
  FILES.with(|v| v.borrow_mut().push(name));
  f.into_raw_fd()
}
#[no_mangle] fn v_filepos(fd: i32) -> u64 {
  use std::io::Seek;
  use std::os::fd::FromRawFd;
  let mut f = std::mem::ManuallyDrop::new(unsafe { std::fs::File::from_raw_fd(fd) });
  f.stream_position().unwrap()
}

fn main() {
  std::panic::set_hook(Box::new(|i| {
    if i.payload().is::<AssumeFail>() { return }
    if RND.with(|q| q.borrow().is_some()) { return }
    println!("PANIC {}", i.to_string().replace('\n', " "));
  }));
  let f = std::env::args().nth(1).unwrap();
  let text = std::fs::read_to_string(f).unwrap();
  let mut name = String::new();
  let mut cur: Vec<(String, u128)> = vec![];
  for l in text.lines() {
    let w: Vec<&str> = l.split_whitespace().collect();
    if w.is_empty() { continue }
    match w[0] {
      "case" => {
        name = w[1].to_string();
        TIER.with(|t| *t.borrow_mut() = w[2].parse().unwrap());
        cur = vec![];
      }
      "rand" => {
        let Some(f) = harness::all().into_iter().find(|(n, _)| *n == w[1]).map(|x| x.1) else { continue };
        TIER.with(|t| *t.borrow_mut() = w[2].parse().unwrap());
        let (seed, count, ms): (u64, u64, u128) = (w[3].parse().unwrap(), w[4].parse().unwrap(), w[5].parse().unwrap());
        let t0 = std::time::Instant::now();
        let (mut runs, mut used, mut hits) = (0, 0, 0);
        for k in 0..count {
          if t0.elapsed().as_millis() > ms { break }
          RND.with(|q| *q.borrow_mut() = Some((seed.wrapping_mul(1_000_003).wrapping_add(k << 20), vec![], 0)));
          let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f()));
          let (_, rec, fails) = RND.with(|q| q.borrow_mut().take()).unwrap();
          runs += 1;
          let hit = match r { Ok(()) => { used += 1; fails > 0 } Err(e) => fails > 0 || !e.is::<AssumeFail>() };
          // isolated hits may be a discontinuity met by accident
          hits += hit as u32;
          if hit && hits == 3 {
            println!("HIT {}", w[1]);
            for (k, v) in rec { println!("{} {:x}", k, v) }
            println!("ENDHIT");
            break;
          }
        }
        println!("RAN {} {} {}", w[1], runs, used);
      }
      "end" => {
        println!("CASE {}", name);
        let f = harness::all().into_iter().find(|(n, _)| *n == name).map(|x| x.1);
        match f {
          None => println!("NOENTRY"),
          Some(f) => {
            IN.with(|i| *i.borrow_mut() = (cur.clone(), 0));
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f()));
            match r {
              Ok(()) => println!("DONE"),
              Err(e) => if e.is::<AssumeFail>() { println!("ASSUMED") } else { println!("PANICKED") }
            }
          }
        }
      }
      k => cur.push((k.to_string(), u128::from_str_radix(w[1], 16).unwrap())),
    }
  }
}
