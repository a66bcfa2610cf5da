//! C04 edit histories, C05 indexed access
use crate::v::*;
use crate::cx::Matrix;

/// reference model: rows of equal length, a capacity
struct M { rows: Vec<Vec<u64>>, cols: usize, cap: [usize; 2] }

fn agree(m: &Matrix<u64>, s: &M, l: &'static str) {
  let sh = m.get_shape();
  check(sh[0] == s.rows.len() && sh[1] == s.cols, "shape");
  let b = m.get_body();
  check(b.len() == s.rows.len() * s.cols, "element count");
  let mut k = 0;
  for r in s.rows.iter() { for v in r.iter() { check(b[k] == *v, l); k += 1; } }
}
fn vals(n: usize) -> Vec<u64> { (0..n).map(|_| u64_()).collect() }

fn start(r: usize, c: usize, body: bool) -> (Matrix<u64>, M) {
  if body {
    let mut rows = vec![];
    let mut b = vec![];
    for _ in 0..r { let v = vals(c); b.extend_from_slice(&v); rows.push(v) }
    let m = Matrix::from_body(b, [r, c]);
    (m, M { rows, cols: c, cap: [r, c] })
  } else {
    (Matrix::with_capacity([r, c]), M { rows: vec![], cols: 0, cap: [r, c] })
  }
}

/// one edit of kind op; the result must be either the edit or an untouched matrix
fn edit(m: &mut Matrix<u64>, s: &mut M, op: usize, maxlen: usize) {
  let cap = [m.get_capacity()[0], m.get_capacity()[1]];
  let (nr, nc) = (s.rows.len(), s.cols);
  match op {
    0 | 1 => {
      let len = choose(0, maxlen);
      let v = vals(len);
      let mut w = v.clone();
      let ok = if op == 0 { m.add_row(w).is_ok() } else {
        let r = m.add_mut_row(&mut w).is_ok();
        if r { check(w.is_empty(), "the drained row is empty after the append") }
        else { check(w == v, "a refused row is left alone") }
        r
      };
      if ok {
        check(nr == 0 && nc == 0 || len == nc, "no mixed row lengths");
        check(nr + 1 <= cap[0] && len <= cap[1], "append stays within the capacity");
        s.cols = len;
        s.rows.push(v);
        agree(m, s, "appended row is last, others unchanged");
      } else {
        // a fitting row must be taken
        check(!((nr == 0 && nc == 0 || len == nc) && len > 0 && nr + 1 <= cap[0] && len <= cap[1]), "a fitting row is accepted");
        agree(m, s, "refused append changes nothing");
      }
    }
    2 => {
      let len = choose(0, maxlen);
      let v = vals(len);
      let mut w = v.clone();
      let ok = m.add_col(&mut w).is_ok();
      if ok {
        check(nr == 0 && nc == 0 || len == nr, "no mixed column lengths");
        check(nc + 1 <= cap[1] && len <= cap[0], "append stays within the capacity");
        if nr == 0 && nc == 0 { for _ in 0..len { s.rows.push(vec![]) } }
        for i in 0..len { s.rows[i].push(v[i]) }
        s.cols += 1;
        agree(m, s, "appended column is last, others unchanged");
      } else {
        // (the first edit of an empty matrix must be a row)
        check(!(nr > 0 && len == nr && nc + 1 <= cap[1]), "a fitting column is accepted");
        check(w == v, "a refused column is left alone");
        agree(m, s, "refused append changes nothing");
      }
    }
    _ => {
      let i = u64_() as usize;
      match m.del_row(i) {
        Ok(r) => {
          check(i < nr, "only an existing row is deleted");
          if i < nr {
            let old = s.rows.remove(i);
            check(r.len() == old.len(), "deleted row length");
            if r.len() == old.len() { for k in 0..old.len() { check(r[k] == old[k], "deletion returns the chosen row") } }
            if s.rows.is_empty() && m.get_shape()[1] == 0 { s.cols = 0 }
            agree(m, s, "other rows keep value and order");
          }
        }
        Err(_) => {
          check(!(i < nr && nc > 0), "an existing row can be deleted");
          agree(m, s, "refused deletion changes nothing");
        }
      }
    }
  }
  s.cap = [m.get_capacity()[0], m.get_capacity()[1]];
  check(m.get_shape()[0] <= s.cap[0] && m.get_shape()[1] <= s.cap[1] || s.rows.is_empty(), "shape within capacity");
}
fn history(first: usize, n: usize, body: bool) {
  let r = choose(if body { 1 } else { 0 }, 3);
  let c = choose(if body { 1 } else { 0 }, 3);
  let (mut m, mut s) = start(r, c, body);
  edit(&mut m, &mut s, first, 4);
  for _ in 1..n { let op = choose(0, 3); edit(&mut m, &mut s, op, 3) }
}
fn cap_row() { history(0, 3, false) }
fn cap_mut() { history(1, 3, false) }
fn cap_col() { history(2, 3, false) }
fn cap_del() { history(3, 2, false) }
fn body_row() { history(0, 2, true) }
fn body_mut() { history(1, 2, true) }
fn body_col() { history(2, 2, true) }
fn body_del() { history(3, 3, true) }
/// longer histories of fitting edits only: rows, columns and deletions on a 3x3 capacity
fn fitting(n: usize) {
  let mut m: Matrix<u64> = Matrix::with_capacity([3, 3]);
  let mut s = M { rows: vec![], cols: 0, cap: [3, 3] };
  for _ in 0..n {
    let op = choose(0, 3);
    edit(&mut m, &mut s, op, 3);
  }
}
fn cap_all4() { fitting(4) }

fn mat(r: usize, c: usize) -> (Vec<Vec<u64>>, Matrix<u64>) {
  let mut rows = vec![];
  let mut b = vec![];
  for _ in 0..r { let v = vals(c); b.extend_from_slice(&v); rows.push(v) }
  (rows, Matrix::from_body(b, [r, c]))
}
fn whole(m: &Matrix<u64>, t: &[Vec<u64>], l: &'static str) {
  let mut k = 0;
  let b = m.get_body();
  for r in t { for v in r { check(b[k] == *v, l); k += 1 } }
  check(b.len() == k, "element count");
}
fn elm() {
  let (r, c) = (choose(1, 4), choose(1, 4));
  let (t, m) = mat(r, c);
  let (i, j) = (u64_() as usize, u64_() as usize);
  match m.elm(i, j) {
    Ok(v) => { check(i < r && j < c, "elm only in range"); if i < r && j < c { check(*v == t[i][j], "elm value") } }
    Err(_) => check(i >= r || j >= c, "elm refuses only out of range"),
  }
}
fn elm_mut() {
  let (r, c) = (choose(1, 4), choose(1, 4));
  let (mut t, mut m) = mat(r, c);
  let (i, j) = (u64_() as usize, u64_() as usize);
  let w = u64_();
  match m.elm_mut(i, j) {
    Ok(v) => { check(i < r && j < c, "elm_mut only in range"); if i < r && j < c { check(*v == t[i][j], "elm_mut value"); *v = w; t[i][j] = w; } }
    Err(_) => check(i >= r || j >= c, "elm_mut refuses only out of range"),
  }
  whole(&m, &t, "writing changes only that position");
}
fn row() {
  let (r, c) = (choose(1, 4), choose(1, 4));
  let (mut t, mut m) = mat(r, c);
  let i = u64_() as usize;
  match m.row(i) {
    Ok(v) => { check(i < r, "row only in range"); if i < r { check(v.len() == c, "row length"); for k in 0..c { check(v[k] == t[i][k], "row value") } } }
    Err(_) => check(i >= r, "row refuses only out of range"),
  }
  let w = u64_();
  let k = choose(0, c - 1);
  match m.row_as_mut(i) {
    Ok(v) => { check(i < r, "row_as_mut only in range"); if i < r { check(v.len() == c, "row length"); for k in 0..c { check(v[k] == t[i][k], "row_as_mut value") } v[k] = w; t[i][k] = w; } }
    Err(_) => check(i >= r, "row_as_mut refuses only out of range"),
  }
  whole(&m, &t, "writing changes only that position");
}
fn into_slice() {
  let (r, c) = (choose(1, 4), choose(1, 4));
  let (t, m) = mat(r, c);
  let i = u64_() as usize;
  let n = choose(0, 5);
  let d0 = vals(n);
  let mut d = d0.clone();
  match m.row_into_slice(i, &mut d) {
    Ok(()) => { check(i < r && n == c, "row copy only in range and of fitting length"); if i < r && n == c { for k in 0..c { check(d[k] == t[i][k], "row copy value") } } }
    Err(_) => { check(i >= r || n != c, "row copy refuses only bad requests"); check(d == d0, "refused copy leaves the destination") }
  }
  let mut d = d0.clone();
  match m.col_into_slice(i, &mut d) {
    Ok(()) => { check(i < c && n == r, "column copy only in range and of fitting length"); if i < c && n == r { for k in 0..r { check(d[k] == t[k][i], "column copy value") } } }
    Err(_) => { check(i >= c || n != r, "column copy refuses only bad requests"); check(d == d0, "refused copy leaves the destination") }
  }
  match m.copy_col_into_vec(i) {
    Ok(v) => { check(i < c, "column vector only in range"); if i < c { check(v.len() == r, "column length"); for k in 0..r { check(v[k] == t[k][i], "column value") } } }
    Err(_) => check(i >= c, "column vector refuses only out of range"),
  }
  whole(&m, &t, "reading changes nothing");
}
fn iters() {
  let (r, c) = (choose(1, 4), choose(1, 4));
  let (mut t, mut m) = mat(r, c);
  let mut k = 0;
  for row in m.rows_as_iter() {
    check(row.len() == c, "row length");
    if row.len() == c { for j in 0..c { check(row[j] == t[k][j], "row iteration value") } }
    k += 1;
  }
  check(k == r, "row iteration count");
  let (i, j) = (choose(0, r - 1), choose(0, c - 1));
  let w = u64_();
  let mut k = 0;
  for row in m.rows_as_iter_mut() {
    if k == i { row[j] = w }
    k += 1;
  }
  t[i][j] = w;
  check(k == r, "mutable row iteration count");
  whole(&m, &t, "writing changes only that position");
  let n = choose(1, r);
  let s = choose(0, r - n);
  let mut k = 0;
  for row in m.get_slider(s, n) {
    check(row.len() == c, "row length");
    if row.len() == c { for j in 0..c { check(row[j] == t[s + k][j], "slider value") } }
    k += 1;
  }
  check(k == n, "slider rows");
  let b = m.export_body();
  let mut k = 0;
  for row in t.iter() { for v in row.iter() { check(b[k] == *v, "exported body"); k += 1 } }
  check(b.len() == k, "element count");
}

/// larger matrices: filled row by row, one column, two deletions at any index
fn grow() {
  let (r, c) = [(5, 1), (9, 3), (12, 2), (4, 9), (6, 5)][choose(0, 4)];
  let mut m: Matrix<u64> = Matrix::with_capacity([r, c + 1]);
  let mut s = M { rows: vec![], cols: 0, cap: [r, c + 1] };
  for k in 0..r {
    let v = vals(c);
    let mut w = v.clone();
    let ok = if k % 2 == 0 { m.add_row(w).is_ok() } else { m.add_mut_row(&mut w).is_ok() };
    check(ok, "a fitting row is accepted");
    s.rows.push(v);
  }
  s.cols = c;
  agree(&m, &s, "appended row is last, others unchanged");
  check(m.add_row(vals(c)).is_err(), "append stays within the capacity");
  agree(&m, &s, "refused append changes nothing");
  let v = vals(r);
  check(m.add_col(&mut v.clone()).is_ok(), "a fitting column is accepted");
  for i in 0..r { s.rows[i].push(v[i]) }
  s.cols = c + 1;
  agree(&m, &s, "appended column is last, others unchanged");
  check(m.add_col(&mut vals(r)).is_err(), "append stays within the capacity");
  agree(&m, &s, "refused append changes nothing");
  edit(&mut m, &mut s, 3, 0);
  edit(&mut m, &mut s, 3, 0);
}
/// giving memory back keeps shape and contents and leaves no room
fn shrunk() {
  let (r, c) = (choose(0, 3), choose(1, 3));
  let mut m: Matrix<u64> = Matrix::with_capacity([4, 4]);
  let mut s = M { rows: vec![], cols: 0, cap: [4, 4] };
  for _ in 0..r { let v = vals(c); check(m.add_row(v.clone()).is_ok(), "a fitting row is accepted"); s.rows.push(v); s.cols = c }
  m.dealloc();
  agree(&m, &s, "contents kept");
  let op = choose(0, 3);
  edit(&mut m, &mut s, op, 4);
}
/// a matrix made without capacity is empty and stays within it
fn fresh() {
  let mut m: Matrix<u64> = Matrix::new();
  let mut s = M { rows: vec![], cols: 0, cap: [0, 0] };
  check(m.is_empty(), "a new matrix is empty");
  agree(&m, &s, "a new matrix has no elements");
  for _ in 0..2 { let op = choose(0, 3); edit(&mut m, &mut s, op, 2) }
}
/// writing through the whole body reaches exactly the written position
fn body_write() {
  let (r, c) = (choose(1, 3), choose(1, 3));
  let (mut t, mut m) = mat(r, c);
  let (i, w) = (choose(0, r * c - 1), u64_());
  check(m.get_body_as_mut().len() == r * c, "body length");
  m.get_body_as_mut()[i] = w;
  t[i / c][i % c] = w;
  for a in 0..r { for b in 0..c { check(*m.elm(a, b).unwrap() == t[a][b], "only the written position changes") } }
  check(!m.is_empty(), "a matrix with elements is not empty");
}
const SH: [(usize, usize); 5] = [(1, 17), (17, 1), (9, 7), (5, 12), (8, 8)];
fn big_elm() {
  let (r, c) = SH[choose(0, 4)];
  let (mut t, mut m) = mat(r, c);
  let (i, j) = (u64_() as usize, u64_() as usize);
  match m.elm(i, j) {
    Ok(v) => { check(i < r && j < c, "elm only in range"); if i < r && j < c { check(*v == t[i][j], "elm value") } }
    Err(_) => check(i >= r || j >= c, "elm refuses only out of range"),
  }
  let w = u64_();
  match m.elm_mut(i, j) {
    Ok(v) => { check(i < r && j < c, "elm_mut only in range"); if i < r && j < c { check(*v == t[i][j], "elm_mut value"); *v = w; t[i][j] = w; } }
    Err(_) => check(i >= r || j >= c, "elm_mut refuses only out of range"),
  }
  whole(&m, &t, "writing changes only that position");
}
fn big_rows() {
  let (r, c) = SH[choose(0, 4)];
  let (t, mut m) = mat(r, c);
  let i = u64_() as usize;
  match m.row(i) {
    Ok(v) => { check(i < r, "row only in range"); if i < r { check(v.len() == c, "row length"); for k in 0..c { check(v[k] == t[i][k], "row value") } } }
    Err(_) => check(i >= r, "row refuses only out of range"),
  }
  match m.row_as_mut(i) {
    Ok(v) => { check(i < r, "row_as_mut only in range"); if i < r { check(v.len() == c, "row length"); for k in 0..c { check(v[k] == t[i][k], "row_as_mut value") } } }
    Err(_) => check(i >= r, "row_as_mut refuses only out of range"),
  }
  let mut d = vals(c);
  match m.row_into_slice(i, &mut d) {
    Ok(()) => { check(i < r, "row copy only in range and of fitting length"); if i < r { for k in 0..c { check(d[k] == t[i][k], "row copy value") } } }
    Err(_) => check(i >= r, "row copy refuses only bad requests"),
  }
  let mut d = vals(r);
  match m.col_into_slice(i, &mut d) {
    Ok(()) => { check(i < c, "column copy only in range and of fitting length"); if i < c { for k in 0..r { check(d[k] == t[k][i], "column copy value") } } }
    Err(_) => check(i >= c, "column copy refuses only bad requests"),
  }
  match m.copy_col_into_vec(i) {
    Ok(v) => { check(i < c, "column vector only in range"); if i < c { check(v.len() == r, "column length"); for k in 0..r { check(v[k] == t[k][i], "column value") } } }
    Err(_) => check(i >= c, "column vector refuses only out of range"),
  }
  let mut k = 0;
  for row in m.rows_as_iter() {
    check(row.len() == c, "row length");
    if row.len() == c { for j in 0..c { check(row[j] == t[k][j], "row iteration value") } }
    k += 1;
  }
  check(k == r, "row iteration count");
  let mut k = 0;
  for v in m.body_into_iter() { check(v == t[k / c][k % c], "body iteration value"); k += 1 }
  check(k == r * c, "body iteration count");
}

entries! {
  h_c04_cap_row_f => cap_row;
  h_c04_cap_mut_f => cap_mut;
  h_c04_cap_col_f => cap_col;
  h_c04_cap_del_f => cap_del;
  h_c04_body_row_f => body_row;
  h_c04_body_mut_f => body_mut;
  h_c04_body_col_f => body_col;
  h_c04_body_del_f => body_del;
  h_c04_cap_all4_fT => cap_all4;
  h_c05_elm_f => elm;
  h_c05_elm_mut_f => elm_mut;
  h_c05_row_f => row;
  h_c05_into_slice_f => into_slice;
  h_c05_iters_f => iters;
  h_c04_grow_f => grow;
  h_c04_shrunk_f => shrunk;
  h_c04_fresh_f => fresh;
  h_c05_body_write_f => body_write;
  h_c05_big_elm_f => big_elm;
  h_c05_big_rows_f => big_rows;
}
