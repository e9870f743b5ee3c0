//! `from_slice`: objects and methods.

use std::collections::BTreeMap;

use nrbf::RemotingMessage;
use serde::{Deserialize, de::IgnoredAny};

use super::{
  msg::Msg,
  sym,
  sym::{choose, cover},
  t_base::{same, setup, setup_names},
};

#[derive(Deserialize, Default, PartialEq)]
pub struct Rec<'a> {
  a: u8,
  b: Option<u16>,
  #[serde(borrow, rename = "C")]
  c: &'a str,
  #[serde(default)]
  d: i32,
}
#[derive(Deserialize)]
pub struct S {
  a: u8,
  bb: Option<u8>,
}
#[derive(Deserialize)]
pub struct Inner<'a> {
  v: u8,
  #[serde(borrow)]
  s: Option<&'a str>,
}
#[derive(Deserialize)]
pub struct Outer<'a> {
  #[serde(borrow)]
  first: Inner<'a>,
  #[serde(borrow)]
  second: Option<Inner<'a>>,
  #[serde(borrow)]
  list: Vec<Option<Inner<'a>>>,
  grid: Vec<Vec<u8>>,
}
#[derive(Deserialize)]
pub struct Field {
  #[allow(dead_code)]
  x: i32,
}
super::read::targets! {
  U8: u8, I32: i32, UNIT: (), STR: &'a str, VEC: Vec<u8>, VEC_I32: Vec<i32>, REC: Rec<'a>, S: S,
  OUTER: Outer<'a>, FIELD: Field, MAP: BTreeMap<&'a str, u8>, IGNORED: IgnoredAny,
}


/// Structs: members in any order, with members missing, null, or of no field.
pub fn object() {
  setup();
  let xa = sym::bytes::<1>();
  let xb = sym::bytes::<2>();
  let xc = sym::u8() & 0x7f;
  let xd = sym::bytes::<4>();
  let order = [[0usize, 1, 2, 3, 4], [4, 3, 2, 1, 0], [2, 4, 0, 3, 1]][choose(3)];
  // 0..4: this one is missing; 5..8: it is null; 9: all there
  let odd = choose(10);
  let present = |f: usize| f != odd;
  let null = |f: usize| f + 5 == odd;
  let mut m = Msg::new(1);
  let nested = choose(3);
  if nested == 1 {
    m.array(16, 1, 1);
  } else if nested == 2 {
    m.class(2, 1, "O", &["x"]).reference(2);
  }
  let id = if nested == 0 { 1 } else { 2 };
  let names = ["a", "b", "C", "d", "other"];
  let n = order.iter().filter(|f| present(**f)).count();
  let lib = choose(2) == 1;
  if lib && nested == 0 {
    m.library(9, "L");
  }
  let lib = lib && nested == 0;
  m.u8(if lib { 3 } else { 2 }).i32(id).str("N.Rec").i32(n as i32);
  for f in order {
    if present(f) {
      m.str(names[f]);
    }
  }
  if lib {
    m.i32(9);
  }
  for f in order {
    if !present(f) {
      continue;
    }
    if null(f) {
      m.u8(10);
      continue;
    }
    match f {
      0 => m.u8(8).u8(2).raw(&xa),
      1 => m.u8(8).u8(14).raw(&xb),
      2 => m.u8(6).i32(30).u8(1).u8(xc),
      3 => m.u8(8).u8(8).raw(&xd),
      _ => m.class(2, 31, "Q", &["z"]).class_with_id(32, 31).u8(8).u8(6).bytes(8, 0x12),
    };
  }
  m.end();
  let b = &m.b[..];
  let k = [5, 2, 0][nested];
  let got = read::<Rec>(k, b);
  let want = !(matches!(odd, 0 | 2 | 5 | 7 | 8));
  sym::check(got.is_some() == want, "an object as a struct");
  if let Some(g) = got {
    cover("struct");
    sym::check(g.a == xa[0], "the first member");
    sym::check(g.b == if present(1) && !null(1) { Some(u16::from_le_bytes(xb)) } else { None }, "an optional member");
    sym::check(g.c.as_bytes() == [xc], "the third member");
    sym::check(g.d == if present(3) { i32::from_le_bytes(xd) } else { 0 }, "a member with a default");
  }
  let o = read_option::<Rec>(k, b);
  sym::check(o.is_some() == want, "an object as an optional struct");
  sym::check(!matches!(o, Some(None)), "an object is read as None");
  sym::check(read::<u8>(k, b).is_none(), "an object is read as an integer");
  sym::check(read::<Vec<u8>>(k, b).is_none(), "an object is read as an array");
  sym::out(want as u64);
}
/// Members by unconstrained names.
pub fn object_names() {
  setup_names();
  let n = sym::bytes::<3>();
  for c in n {
    sym::assume(c < 0x80);
  }
  let v = sym::bytes::<2>();
  let mut m = Msg::new(1);
  m.u8(4).i32(1).str("N").i32(2).u8(1).u8(n[0]).u8(2).u8(n[1]).u8(n[2]).raw(&[0, 0, 2, 2]).raw(&v).end();
  let got = de::<S>(&m.b);
  let a = n[0] == b'a';
  let bb = (n[1] == b'b') & (n[2] == b'b');
  sym::check(got.is_some() == a, "a struct without its member");
  if let Some(g) = got {
    cover("struct");
    sym::check((g.a == v[0]) & (g.bb == if bb { Some(v[1]) } else { None }), "the members of a struct");
  }
  let map = de::<BTreeMap<&str, u8>>(&m.b);
  sym::check(map.is_some_and(|x| x.len() == 2 && x.iter().all(|(k, w)| *w == v[k.len() - 1] && k.as_bytes() == &n[k.len() - 1..2 * k.len() - 1])), "an object as a map");
}
/// Objects as maps and nested structs.
pub fn object_nested() {
  setup();
  let x = sym::bytes::<8>();
  let c = sym::u8() & 0x7f;
  let k = choose(4);
  let mut m = Msg::new(1);
  m.class(2, 1, "O", &["grid", "list", "second", "first"]);
  m.reference(2).reference(3);
  if k & 1 == 0 {
    m.u8(10);
  } else {
    m.reference(4);
  }
  m.class(2, 5, "I", &["v", "s"]).u8(8).u8(2).u8(x[0]).u8(10);
  m.array(16, 3, 3);
  if k & 2 == 0 {
    m.u8(13).u8(2);
  } else {
    m.u8(10).class_with_id(6, 5).u8(8).u8(2).u8(x[1]).reference(7);
  }
  m.class_with_id(8, 5).u8(8).u8(2).u8(x[2]).u8(10);
  m.binary_array(2, 2, &[2, 2]).u8(0).u8(2).raw(&x[4..8]);
  m.class_with_id(4, 5).u8(8).u8(2).u8(x[3]).reference(7);
  m.u8(6).i32(7).u8(1).u8(c);
  m.end();
  if k == 3 {
    // two references to one string
    cover("shared string");
  }
  let o = de::<Outer>(&m.b);
  let Some(o) = o else {
    sym::fail("nested objects");
    return;
  };
  cover("read");
  sym::check((o.first.v == x[0]) & o.first.s.is_none(), "an object in an object");
  sym::check(o.second.is_some() == (k & 1 == 1), "an optional object");
  if let Some(s) = o.second {
    sym::check((s.v == x[3]) & s.s.is_some_and(|s| s.as_bytes() == [c]), "a referenced object");
  }
  sym::check(o.list.len() == 3 && o.list[0].is_none() && o.list[1].is_some() == (k & 2 == 2), "an array of optional objects");
  if let Some(Some(s)) = o.list.get(1) {
    sym::check((s.v == x[1]) & s.s.is_some_and(|s| s.as_bytes() == [c]), "an object in an array");
  }
  if let Some(Some(s)) = o.list.get(2) {
    sym::check((s.v == x[2]) & s.s.is_none(), "the last object in an array");
  } else {
    sym::fail("the last object in an array");
  }
  sym::check(o.grid.len() == 2 && same(&o.grid[0], &x[4..6]) && same(&o.grid[1], &x[6..8]), "a rectangular array");
}

// ------------------------------------------------------------------ errors

/// Methods are not values.
pub fn methods() {
  setup();
  let mut m = Msg::new(0);
  match choose(4) {
    0 => m.u8(21).i32(0x12).u8(18).any_str::<1>().u8(18).str("T").i32(1).u8(8).any::<4>(),
    1 => m.u8(22).i32(0x811).u8(8).any::<4>(),
    2 => {
      m.b[1] = 1;
      m.u8(21).i32(0x14).u8(18).str("f").u8(18).str("T").array(16, 1, 1).u8(8).u8(8).any::<4>()
    },
    _ => {
      m.b[1] = 1;
      m.u8(22).i32(0x14).array(16, 1, 1).u8(8).u8(8).any::<4>()
    },
  };
  m.end();
  let b = &m.b[..];
  sym::check(RemotingMessage::parse(b).is_ok(), "a valid message is rejected");
  sym::check(de::<i32>(b).is_none(), "a method is read as an integer");
  sym::check(read_option::<i32>(5, b).is_none(), "a method is read as an option");
  sym::check(de::<()>(b).is_none(), "a method is read as a unit");
  sym::check(de::<Vec<i32>>(b).is_none(), "a method is read as an array");
  sym::check(de::<Field>(b).is_none(), "a method is read as a struct");
  sym::check(de::<BTreeMap<&str, u8>>(b).is_none(), "a method is read as a map");
  sym::check(de::<IgnoredAny>(b).is_none(), "a method is read as an ignored value");
  sym::check(de::<&str>(b).is_none(), "a method is read as a string");
}
