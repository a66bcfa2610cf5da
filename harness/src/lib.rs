#[macro_use]
pub mod v;
pub mod cx;
pub mod nn;
pub mod c01;
pub mod c02;
pub mod c04;
pub mod c06;
pub mod c11;
pub mod c16;
pub mod c20;
pub mod c26;

pub fn all() -> Vec<(&'static str, fn())> {
  let mut v: Vec<(&'static str, fn())> = vec![];
  for t in [c01::TABLE, c02::TABLE, c04::TABLE, c06::TABLE, c11::TABLE, c16::TABLE, c20::TABLE, c26::TABLE] { v.extend_from_slice(t) }
  v
}
