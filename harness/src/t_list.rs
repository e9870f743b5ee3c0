//! `from_slice`: arrays and lists.

use serde::Deserialize;

use super::{
  msg::Msg,
  sym,
  sym::{choose, cover},
  t_base::{same, setup},
};

#[derive(Deserialize)]
pub struct Field<T> {
  x: T,
}
/// The members of a List.
#[derive(Deserialize)]
pub struct L {
  _items: Vec<u8>,
  _size: i32,
  _version: i32,
}
#[derive(Deserialize)]
pub struct Items {
  _items: Vec<u8>,
}
super::read::targets! {
  U8: u8, VEC: Vec<u8>, VEC_I64: Vec<i64>, VEC_BOOL: Vec<bool>, VEC_STRING: Vec<String>,
  ARRAY3: [u8; 3], ARRAY2: [u8; 2], TUPLE1: (u8,), TUPLE2: (u8, u16), TUPLE3: (u8, i32, u8),
  FIELD: Field<u8>, VEC_FIELD: Vec<Field<u8>>, VEC_VEC: Vec<Vec<u8>>,
  VEC_OPT: Vec<Option<&'a str>>, VEC_STR: Vec<&'a str>, L: L, ITEMS: Items,
}


/// Arrays as vectors, arrays and tuples: every length.
pub fn seq() {
  setup();
  let n = choose(5);
  let x = sym::bytes::<5>();
  let mut m = Msg::new(1);
  let kind = choose(4);
  match kind {
    0 => m.array(15, 1, n as i32).u8(2).raw(&x[..n]),
    1 => m.binary_array(1, 0, &[n as i32]).u8(0).u8(2).raw(&x[..n]),
    2 => {
      m.array(16, 1, n as i32);
      for i in 0..n {
        m.u8(8).u8(2).raw(&x[i..i + 1]);
      }
      &mut m
    },
    _ => m.class(2, 1, "A", &["x"]).reference(2).array(15, 2, n as i32).u8(2).raw(&x[..n]),
  };
  m.end();
  let k = if kind == 3 { 0 } else { 5 };
  let b = &m.b[..];
  sym::check(read::<Vec<u8>>(k, b).is_some_and(|v| same(&v, &x[..n])), "an array as a vector");
  sym::check(read::<Vec<i64>>(k, b).is_some_and(|v| v.len() == n && (0..n).all(|i| v[i] == x[i] as i64)), "an array as a vector of wider integers");
  sym::check(read_opt::<Vec<u8>>(k, b).is_some_and(|v| same(&v, &x[..n])), "an array as an optional vector");
  let r = read::<[u8; 3]>(k, b);
  sym::check(r.is_some() == (n == 3), "an array is read as one of another length");
  if let Some(r) = r {
    sym::check(same(&r, &x[..3]), "an array");
  }
  let r = read::<(u8, u16)>(k, b);
  sym::check(r.is_some() == (n == 2), "an array is read as a tuple of another length");
  if let Some(r) = r {
    sym::check(r == (x[0], x[1] as u16), "an array as a tuple");
  }
  let r = read::<(u8,)>(k, b);
  sym::check(r.is_some() == (n == 1), "an array is read as a tuple of another length");
  sym::check(read::<u8>(k, b).is_none(), "an array is read as an integer");
  sym::check(read::<Field<u8>>(k, b).is_none() | (n == 1), "an array is read as an object");
  sym::check(read::<Vec<bool>>(k, b).is_none() | (n == 0), "an array of integers is read as one of booleans");
}
/// Arrays with null objects.
pub fn seq_nulls() {
  setup();
  let x = sym::bytes::<2>();
  let a = choose(3);
  let mut m = Msg::new(1);
  let k = choose(2);
  m.array(if k == 0 { 17 } else { 16 }, 1, 2 + a as i32);
  let items = |m: &mut Msg| {
    m.u8(6).i32(2).u8(1).u8(x[0] & 0x7f);
    match a {
      0 => {},
      1 => {
        m.u8(10);
      },
      _ => {
        m.u8(13).u8(2);
      },
    }
    m.u8(6).i32(3).u8(1).u8(x[1] & 0x7f);
  };
  items(&mut m);
  m.end();
  let b = &m.b[..];
  let r = de::<Vec<Option<&str>>>(b);
  sym::check(
    r.is_some_and(|r| {
      r.len() == a + 2
        && r[0].is_some_and(|s| s.as_bytes() == [x[0] & 0x7f])
        && r[a + 1].is_some_and(|s| s.as_bytes() == [x[1] & 0x7f])
        && (0..a).all(|i| r[1 + i].is_none())
    }),
    "an array with null objects",
  );
  sym::check(de::<Vec<&str>>(b).is_some() == (a == 0), "null objects are read as strings");
}
/// `List<T>`: every size, several capacities.
pub fn list() {
  setup();
  let cap = choose(5);
  let x = sym::bytes::<5>();
  let size = sym::i32();
  let version = sym::i32();
  let mut m = Msg::new(1);
  let kind = choose(4);
  let name = [
    "System.Collections.Generic.List`1[[System.Byte, mscorlib]]",
    "System.Collections.Generic.List`1",
    "System.Collections.Generic.List",
  ][choose(3)];
  if kind == 3 {
    m.class(2, 1, "A", &["x"]);
  }
  let id = if kind == 3 { 5 } else { 1 };
  if kind == 1 {
    // members in another order
    m.class(2, id, name, &["_version", "_size", "_items"]);
    m.typed_i32(version).typed_i32(size).reference(2);
  } else {
    m.typed_class(4, id, name, &["_items", "_size", "_version"], &[7, 0, 0], &[2, 8, 8]);
    m.reference(2).i32(size).i32(version);
  }
  match kind {
    2 => {
      m.array(16, 2, cap as i32);
      for i in 0..cap {
        m.u8(8).u8(2).raw(&x[i..i + 1]);
      }
    },
    _ => {
      m.array(15, 2, cap as i32).u8(2).raw(&x[..cap]);
    },
  }
  m.end();
  let k = if kind == 3 { 0 } else { 5 };
  let b = &m.b[..];
  let got = read::<Vec<u8>>(k, b);
  if (size < 0) | (size > cap as i32) {
    cover("bad size");
    sym::check(got.is_none(), "a List with a size above its capacity is read");
    sym::check(read::<[u8; 2]>(k, b).is_none(), "a List with a size above its capacity is read");
    sym::check(read_option::<Vec<u8>>(k, b).is_none(), "a List with a size above its capacity is read");
  } else {
    let n = sym::conc(size as u64) as usize;
    cover("good size");
    sym::check(got.is_some_and(|v| same(&v, &x[..n])), "the elements of a List");
    sym::check(read_opt::<Vec<u8>>(k, b).is_some_and(|v| same(&v, &x[..n])), "the elements of an optional List");
    let r = read::<[u8; 2]>(k, b);
    sym::check(r.is_some() == (n == 2), "a List is read as an array of another length");
    if let Some(r) = r {
      sym::check(same(&r, &x[..2]), "a List as an array");
    }
    let r = read::<(u8, i32, u8)>(k, b);
    sym::check(r.is_some() == (n == 3), "a List is read as a tuple of another length");
    if let Some(r) = r {
      sym::check(r == (x[0], x[1] as i32, x[2]), "a List as a tuple");
    }
    sym::check(read::<Vec<String>>(k, b).is_none() | (n == 0), "a List of integers is read as one of strings");
  }
  // A List is also an object.
  let l = read::<L>(k, b);
  sym::check(
    l.is_some_and(|l| same(&l._items, &x[..cap]) & (l._size == size) & (l._version == version)),
    "the members of a List",
  );
}
/// Lists of strings, objects and lists.
pub fn list_of() {
  setup();
  const L: &str = "System.Collections.Generic.List`1[[T]]";
  let x = sym::bytes::<3>();
  let size = sym::i32();
  let mut m = Msg::new(1);
  m.typed_class(4, 1, L, &["_items", "_size", "_version"], &[5, 0, 0], &[8, 8]).reference(2).i32(size).i32(0);
  let k = choose(3);
  match k {
    0 => {
      m.array(17, 2, 4);
      m.u8(6).i32(3).u8(1).u8(x[0] & 0x7f).u8(6).i32(4).u8(1).u8(x[1] & 0x7f).u8(13).u8(2);
    },
    1 => {
      m.array(16, 2, 4);
      m.class(2, 3, "A", &["x"]).u8(8).u8(2).u8(x[0]).class_with_id(4, 3).u8(8).u8(2).u8(x[1]).u8(13).u8(2);
    },
    _ => {
      m.array(16, 2, 4).reference(3).reference(4).u8(13).u8(2);
      m.class_with_id(3, 1).reference(5).i32(1).i32(7);
      m.array(15, 5, 2).u8(2).u8(x[0]).u8(x[2]);
      m.class_with_id(4, 1).reference(6).i32(2).i32(7);
      m.array(15, 6, 2).u8(2).u8(x[1]).u8(x[2]);
    },
  }
  m.end();
  let b = &m.b[..];
  let ok = (size >= 0) & (size <= 4);
  match k {
    0 => {
      let r = de::<Vec<Option<&str>>>(b);
      sym::check(r.is_some() == ok, "a List of optional strings");
      if let Some(r) = r {
        sym::check(r.len() == size as usize, "the size of a List of strings");
        for (i, s) in r.iter().enumerate() {
          sym::check(if i < 2 { s.is_some_and(|s| s.as_bytes() == [x[i] & 0x7f]) } else { s.is_none() }, "a string in a List");
        }
      }
      let r = de::<Vec<&str>>(b);
      sym::check(r.is_some() == (ok & (size <= 2)), "a List of strings");
    },
    1 => {
      let r = de::<Vec<Field<u8>>>(b);
      sym::check(r.is_some() == (ok & (size <= 2)), "a List of objects");
      if let Some(r) = r {
        for (i, s) in r.iter().enumerate() {
          sym::check(s.x == x[i], "an object in a List");
        }
      }
    },
    _ => {
      let r = de::<Vec<Vec<u8>>>(b);
      sym::check(r.is_some() == (ok & (size <= 2)), "a List of Lists");
      if let Some(r) = r {
        for (i, s) in r.iter().enumerate() {
          sym::check(same(s, &[x[i], x[2]][..i + 1]), "a List in a List");
        }
      }
    },
  }
  sym::out(ok as u64);
}
/// Objects with the name of a List that are none.
pub fn list_bad() {
  setup();
  const L: &str = "System.Collections.Generic.List`1[[T]]";
  let x = sym::u8();
  let mut m = Msg::new(1);
  let k = choose(8);
  match k {
    0 => m.class(2, 1, L, &["_items", "_size"]).reference(2).typed_i32(1),
    1 => m.class(2, 1, L, &["_items", "_size", "_version", "q"]).reference(2).typed_i32(1).typed_i32(1).u8(10),
    2 => m.class(2, 1, L, &["_items", "_size", "_version"]).u8(10).typed_i32(0).typed_i32(1),
    3 => m.class(2, 1, L, &["_items", "_size", "_version"]).reference(2).u8(8).u8(2).u8(1).typed_i32(1),
    4 => m.class(2, 1, L, &["_items", "size", "_version"]).reference(2).typed_i32(1).typed_i32(1),
    5 => m.class(2, 1, L, &["_items", "_size", "_version"]).typed_i32(1).typed_i32(0).typed_i32(1),
    6 => m.class(2, 1, "System.Collections.Generic.Last`1[[T]]", &["_items", "_size", "_version"]).reference(2).typed_i32(1).typed_i32(1),
    // a class of a library
    _ => m.library(9, "L").class(3, 1, L, &["_items", "_size", "_version"]).i32(9).reference(2).typed_i32(1).typed_i32(1),
  };
  m.array(15, 2, 1).u8(2).u8(x).end();
  sym::check(de::<Vec<u8>>(&m.b).is_none(), "an object that is no List is read as one");
  if k == 7 {
    sym::check(de::<Items>(&m.b).is_some_and(|m| same(&m._items, &[x])), "the members of a class of a library");
    cover("library");
  }
}

