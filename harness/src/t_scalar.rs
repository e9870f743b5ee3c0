//! `from_slice`: scalars.

use std::collections::BTreeMap;

use serde::Deserialize;

use super::{
  msg::Msg,
  spec, sym,
  sym::{choose, cover},
  t_base::setup,
};

/// The member of a boxed value.
#[derive(Deserialize)]
pub struct M {
  m_value: i128,
}
super::read::targets! {
  I8: i8, U8: u8, I16: i16, U16: u16, I32: i32, U32: u32, I64: i64, U64: u64, I128: i128,
  BOOL: bool, CHAR: char, F32: f32, F64: f64, UNIT: (), STRING: String, STR: &'a str,
  VEC: Vec<u8>, M: M, MAP: BTreeMap<&'a str, i128>,
}

// ------------------------------------------------------------------ scalars

const INTS: [u8; 8] = [2, 10, 7, 14, 8, 15, 9, 16];

fn size(t: u8) -> usize {
  match t {
    1 | 2 | 10 => 1,
    7 | 14 => 2,
    8 | 11 | 15 => 4,
    _ => 8,
  }
}
fn class_of(t: u8) -> &'static str {
  match t {
    1 => "System.Boolean",
    2 => "System.Byte",
    3 => "System.Char",
    6 => "System.Double",
    7 => "System.Int16",
    8 => "System.Int32",
    9 => "System.Int64",
    10 => "System.SByte",
    11 => "System.Single",
    14 => "System.UInt16",
    15 => "System.UInt32",
    _ => "System.UInt64",
  }
}
/// The integer of type `t` with the low bytes of `x`.
fn int(t: u8, x: u64) -> i128 {
  match t {
    2 => x as u8 as i128,
    10 => x as u8 as i8 as i128,
    7 => x as u16 as i16 as i128,
    14 => x as u16 as i128,
    8 => x as u32 as i32 as i128,
    15 => x as u32 as i128,
    16 => x as i128,
    _ => x as i64 as i128,
  }
}

const PLACES: u8 = 8;
/// A message with `content` of primitive type `t` somewhere, and how to read it.
fn place(k: usize, t: u8, content: &[u8]) -> Msg {
  let mut m = Msg::new(1);
  match k {
    0 => m.typed_class(4, 1, "A", &["x"], &[0], &[t]).raw(content),
    1 => m.class(2, 1, "A", &["x"]).u8(8).u8(t).raw(content),
    2 => m.array(15, 1, 1).u8(t).raw(content),
    3 => m.array(16, 1, 1).u8(8).u8(t).raw(content),
    4 => m.binary_array(1, 2, &[1, 1]).u8(0).u8(t).raw(content),
    5 => m.typed_class(4, 1, class_of(t), &["m_value"], &[0], &[t]).raw(content),
    6 => m.class(2, 1, "A", &["x"]).reference(2).typed_class(4, 2, class_of(t), &["m_value"], &[0], &[t]).raw(content),
    _ => m.array(16, 1, 1).class(2, 2, class_of(t), &["m_value"]).u8(8).u8(t).raw(content),
  };
  m.end();
  m
}
fn check_int(got: Option<i128>, v: i128, min: i128, max: i128) {
  if (v >= min) & (v <= max) {
    cover("fits");
    sym::check(got == Some(v), "an integer that fits the type is not read as that integer");
  } else {
    cover("does not fit");
    sym::check(got.is_none(), "an integer that does not fit the type is read");
  }
  sym::out(got.unwrap_or(0) as u64);
}
/// Every integer type, in every place one can stand, as every integer type of Rust.
#[inline(never)]
fn int_types(from: usize, to: usize) {
  setup();
  let k = from + choose((to - from) as u8);
  let t = INTS[choose(8)];
  let bytes = sym::bytes::<8>();
  let v = int(t, u64::from_le_bytes(bytes));
  let m = place(k, t, &bytes[..size(t)]);
  let b = &m.b[..];
  macro_rules! go {
    ($t:ty) => {
      check_int(read::<$t>(k, b).map(|x| x as i128), v, <$t>::MIN as i128, <$t>::MAX as i128)
    };
  }
  match choose(11) {
    0 => go!(i8),
    1 => go!(u8),
    2 => go!(i16),
    3 => go!(u16),
    4 => go!(i32),
    5 => go!(u32),
    6 => go!(i64),
    7 => go!(u64),
    8 => go!(i128),
    9 => sym::check(read_opt::<i64>(k, b).map(|x| x as i128) == i64::try_from(v).ok().map(|x| x as i128), "an optional integer"),
    _ => {
      sym::check(read::<bool>(k, b).is_none(), "an integer is read as a bool");
      sym::check(read::<String>(k, b).is_none(), "an integer is read as a string");
      sym::check(read::<()>(k, b).is_none(), "an integer is read as a unit");
      sym::check(read::<char>(k, b).is_none(), "an integer is read as a character");
      sym::check(read::<Vec<u8>>(k, b).is_none(), "an integer is read as an array");
    },
  }
}
/// An integer of every width in a member, read as every integer type.
pub fn int_member() {
  int_types(0, 2)
}
/// Integers of every width in an array, read as a vector of every integer type.
pub fn int_array() {
  int_types(2, 5)
}
/// A boxed integer of every width at the root, in a member and in an array, read as every integer type.
pub fn int_boxed() {
  int_types(5, 8)
}
/// Booleans, characters and floating point numbers.
pub fn other_types() {
  setup();
  let k = choose(PLACES);
  let bytes = sym::bytes::<8>();
  match choose(5) {
    0 => {
      let m = place(k, 1, &bytes[..1]);
      let want = match bytes[0] {
        0 => Some(false),
        1 => Some(true),
        _ => None,
      };
      sym::check(read::<bool>(k, &m.b) == want, "a boolean");
      sym::check(read_opt::<bool>(k, &m.b) == want, "an optional boolean");
      sym::check(read::<u8>(k, &m.b).is_none(), "a boolean is read as an integer");
    },
    1 => {
      let m = place(k, 11, &bytes[..4]);
      let got = read::<f32>(k, &m.b).map(f32::to_bits);
      sym::check(got == Some(u32::from_le_bytes([bytes[0], bytes[1], bytes[2], bytes[3]])), "a Single");
      sym::check(read::<i64>(k, &m.b).is_none(), "a Single is read as an integer");
    },
    2 => {
      let m = place(k, 6, &bytes);
      let got = read::<f64>(k, &m.b).map(f64::to_bits);
      sym::check(got == Some(u64::from_le_bytes(bytes)), "a Double");
      sym::check(read::<u64>(k, &m.b).is_none(), "a Double is read as an integer");
    },
    3 => {
      // a character of each length
      let n = 1 + choose(4);
      sym::assume(match n {
        1 => bytes[0] < 0x80,
        2 => (bytes[0] >= 0xc2) & (bytes[0] < 0xe0),
        3 => (bytes[0] >= 0xe0) & (bytes[0] < 0xf0),
        _ => (bytes[0] >= 0xf0) & (bytes[0] < 0xf5),
      });
      let m = place(k, 3, &bytes[..n]);
      let want = core::str::from_utf8(&bytes[..n]).ok().and_then(|s| s.chars().next());
      let got = read::<char>(k, &m.b);
      sym::check(got == want, "a character");
      sym::check(read::<u32>(k, &m.b).is_none(), "a character is read as an integer");
    },
    _ => {
      // TimeSpan and DateTime have no boxed form
      let t = [12u8, 13][choose(2)];
      let k = choose(5);
      let m = place(k, t, &bytes);
      let v = i64::from_le_bytes(bytes);
      sym::check(read::<i64>(k, &m.b) == Some(v), "a DateTime or TimeSpan");
      sym::check(read_opt::<i64>(k, &m.b) == Some(v), "an optional DateTime or TimeSpan");
      sym::check(read::<u32>(k, &m.b) == u32::try_from(v).ok(), "a DateTime or TimeSpan as a narrower integer");
    },
  }
}
/// A class with the name of a primitive type which is not one of its boxed values.
pub fn boxed_bad() {
  setup();
  let t = INTS[choose(8)];
  let bytes = sym::bytes::<8>();
  let v = int(t, u64::from_le_bytes(bytes));
  let mut m = Msg::new(1);
  let c = class_of(t);
  let k = choose(8);
  match k {
    0 => m.typed_class(4, 1, c, &["m_walue"], &[0], &[t]).raw(&bytes[..size(t)]),
    1 => m.typed_class(4, 1, c, &["m_value", "x"], &[0, 0], &[t, t]).raw(&bytes[..size(t)]).raw(&bytes[..size(t)]),
    2 => m.typed_class(4, 1, c, &[], &[], &[]),
    3 => m.class(2, 1, c, &["m_value"]).u8(10),
    4 => m.class(2, 1, c, &["m_value"]).u8(8).u8(1).u8(1),
    5 => m.class(2, 1, c, &["m_value"]).string(2, "1"),
    // a class of a library, with the same name
    6 => m.library(9, "L").class(3, 1, c, &["m_value"]).i32(9).u8(8).u8(t).raw(&bytes[..size(t)]),
    _ => {
      // a value of another type: it may be refused, but not be another value
      let t2 = INTS[choose(8)];
      let x = sym::bytes::<8>();
      m.class(2, 1, c, &["m_value"]).u8(8).u8(t2).raw(&x[..size(t2)]).end();
      let w = int(t2, u64::from_le_bytes(x));
      let got = de::<i128>(&m.b);
      sym::check(got.is_none() | (got == Some(w)), "a boxed value is read as another value");
      cover("other type");
      return;
    },
  };
  m.end();
  let got = de::<i128>(&m.b);
  sym::check(got.is_none(), "an object that is no boxed value is read as one");
  if k == 6 {
    // it is still an object
    sym::check(read::<i128>(5, &m.b).is_none(), "a class of a library is read as a boxed value");
    sym::check(de::<M>(&m.b).map(|m| m.m_value) == Some(v), "the member of a class of a library");
    let map = de::<BTreeMap<&str, i128>>(&m.b);
    sym::check(map.is_some_and(|x| x.len() == 1 && x.get("m_value") == Some(&v)), "a class of a library as a map");
    cover("library");
  }
}
/// A boxed value is also an object with one member.
pub fn boxed_struct() {
  setup();
  let t = INTS[choose(8)];
  let bytes = sym::bytes::<8>();
  let v = int(t, u64::from_le_bytes(bytes));
  let m = place(5, t, &bytes[..size(t)]);
  sym::check(de::<M>(&m.b).map(|m| m.m_value) == Some(v), "the member of a boxed value");
  sym::check(read_option::<i128>(5, &m.b) == Some(Some(v)), "an optional boxed value");
  sym::check(read_opt::<M>(5, &m.b).map(|m| m.m_value) == Some(v), "an optional object");
}

// ------------------------------------------------------------------ strings

/// The strings of a message are not copied.
pub fn borrowed() {
  setup();
  let k = choose(5);
  let mut m = Msg::new(1);
  let at;
  match k {
    0 => {
      m.u8(6).i32(1);
      at = m.b.len() + 1;
      m.any_str::<3>();
    },
    1 => {
      m.array(17, 1, 1).u8(6).i32(2);
      at = m.b.len() + 1;
      m.any_str::<3>();
    },
    2 => {
      m.typed_class(4, 1, "A", &["x"], &[1], &[]).u8(6).i32(2);
      at = m.b.len() + 1;
      m.any_str::<3>();
    },
    3 => {
      m.class(2, 1, "A", &["x"]).reference(2).u8(6).i32(2);
      at = m.b.len() + 1;
      m.any_str::<3>();
    },
    _ => {
      // UTF-8
      m.array(16, 1, 1).u8(6).i32(2);
      at = m.b.len() + 1;
      m.u8(4).any::<4>();
    },
  }
  m.end();
  let n = if k == 4 { 4 } else { 3 };
  let k = [5, 2, 0, 0, 2][k];
  let b = &m.b[..];
  let want = core::str::from_utf8(&b[at..at + n]).ok();
  let got = read::<&str>(k, b);
  match want {
    Some(w) => {
      cover("valid");
      sym::check(got.is_some_and(|g| g.len() == n && g.as_ptr() == w.as_ptr()), "a borrowed string is not the one in the message");
      sym::check(read::<String>(k, b).is_some_and(|s| spec::same(s.as_bytes(), w.as_bytes())), "a string");
      sym::check(read_opt::<&str>(k, b).is_some_and(|g| g.as_ptr() == w.as_ptr()), "an optional string");
      sym::check(read::<i32>(k, b).is_none(), "a string is read as an integer");
    },
    None => {
      cover("malformed");
      sym::check(got.is_none(), "invalid UTF-8 is read as a string");
    },
  }
}

// ------------------------------------------------------------------ decimals

/// Decimal numbers of `N` characters.
pub fn decimal<const N: usize>() {
  sym::stub(sym::UTF8);
  sym::limit(1 << 20);
  let s = sym::bytes::<N>();
  // the text as a number with `scale` digits after the point
  let mut i = 0;
  let mut neg = false;
  let mut v = 0u64;
  let mut scale = 0;
  let mut digits = 0;
  let mut point = false;
  let mut plain = true;
  let mut sane = true;
  while i < N {
    let c = s[i];
    if c.is_ascii_digit() {
      v = v * 10 + (c - b'0') as u64;
      digits += 1;
      if point {
        scale += 1;
      }
    } else if c == b'-' && i == 0 {
      neg = true;
    } else if c == b'.' && !point {
      if digits == 0 || i == N - 1 {
        plain = false;
      }
      point = true;
    } else {
      plain = false;
      sane &= (c == b'+') | (c == b'_') | (c == b'e') | (c == b'E');
      break;
    }
    i += 1;
  }
  plain &= digits > 0;
  let mut m = Msg::new(1);
  m.class(2, 1, "A", &["x"]).u8(8).u8(5).u8(N as u8).raw(&s).end();
  let got = read::<String>(0, &m.b);
  if !sane {
    cover("malformed");
    sym::check(got.is_none(), "a text that is no decimal number is read");
    return;
  }
  if !plain {
    sym::out(got.is_some() as u64);
    return;
  }
  cover("valid");
  let Some(g) = got else {
    sym::fail("a decimal number is rejected");
    return;
  };
  // the number in the text it is read as
  let g = g.as_bytes();
  let mut k = 0;
  let mut gneg = false;
  let mut w = 0u64;
  let mut gscale = 0;
  let mut gpoint = false;
  let mut ok = !g.is_empty();
  while k < g.len() {
    let c = g[k];
    if c.is_ascii_digit() {
      w = w * 10 + (c - b'0') as u64;
      if gpoint {
        gscale += 1;
      }
    } else if c == b'-' && k == 0 {
      gneg = true;
    } else if c == b'.' && !gpoint {
      gpoint = true;
    } else {
      ok = false;
    }
    k += 1;
  }
  while gscale < scale {
    w *= 10;
    gscale += 1;
  }
  while scale < gscale {
    v *= 10;
    scale += 1;
  }
  ok &= (w == v) & ((gneg == neg) | (v == 0));
  sym::check(ok, "a decimal number is read as another one");
}

