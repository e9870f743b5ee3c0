//! Messages with a fixed frame and unconstrained content, for each part of the format.

use std::sync::atomic::Ordering::Relaxed;

use super::{
  msg::{Msg, PRIMS},
  spec,
  spec::compare,
  sym,
  sym::choose,
  t_base::{setup, setup_names},
};

// ------------------------------------------------------------------ header, framing, root

/// Every byte of the header.
pub fn header() {
  setup();
  let mut m = Msg::empty();
  m.any::<17>().string(1, "ab").end();
  compare(&m.b);
}
/// Messages of at most 18 bytes.
pub fn header_short() {
  setup();
  let b = sym::bytes::<18>();
  let n = choose(19);
  compare(&b[..n]);
}

/// Some valid message with many kinds of records.
fn sample(k: usize) -> Msg {
  let mut m = Msg::new(1);
  match k {
    0 => {
      m.library(2, "lib");
      m.typed_class(5, 1, "A", &["i", "s", "c", "n"], &[0, 1, 4, 2], &[8, 1, b'B', 2, 0, 0, 0]).i32(2);
      m.i32(77).string(3, "xy").class(3, 4, "B", &["m"]).i32(2).typed_i32(5).u8(10);
    },
    1 => {
      m.array(16, 1, 4).reference(2).u8(13).u8(2).reference(3);
      m.array(17, 2, 2).string(4, "q").reference(4);
      m.array(15, 3, 3).u8(2).raw(&[7, 8, 9]);
    },
    2 => {
      m.binary_array(1, 2, &[2, 2]).u8(0).u8(7).raw(&[1, 0, 2, 0, 3, 0, 4, 0]);
    },
    3 => {
      m.u8(21).i32(0x22).u8(18).str("f").u8(18).str("T").u8(18).str("c");
      m.i32(2).u8(8).i32(3).u8(18).str("z");
      m.array(16, 1, 0);
    },
    _ => {
      m.u8(22).i32(0x0814).u8(1).u8(1).array(16, 1, 1).reference(2);
      m.class(2, 2, "S", &["a"]).class_with_id(-3, 2).u8(14).i32(1);
    },
  }
  m.end();
  m
}
/// Every prefix of a message, and the message with a byte appended.
pub fn truncated() {
  setup();
  let mut m = sample(choose(5));
  m.any::<1>();
  let n = sym::u8() as usize;
  let l = m.b.len();
  sym::assume(n <= l);
  let n = sym::conc(n as u64) as usize;
  compare(&m.b[..n]);
}
/// One byte of a message is replaced.
pub fn mutated() {
  setup_names();
  let k = choose(5);
  let mut m = sample(k);
  let x = sym::u8();
  let n = sym::u8() as usize;
  let l = m.b.len();
  sym::assume((n < l) & (n >= 17));
  let n = sym::conc(n as u64) as usize;
  m.b[n] = x;
  compare(&m.b);
}

/// The root is any of the objects, or none.
pub fn root() {
  setup();
  let mut m = Msg::empty();
  m.u8(0).any_id().i32(-1).i32(1).i32(0);
  m.u8(6).any_id().any_str::<1>();
  m.u8(2).any_id().str("A").i32(1).str("x").typed_i32(9);
  m.u8(16).any_id().i32(1).typed_i32(3);
  m.u8(15).any_id().i32(2).u8(2).any::<2>();
  m.end();
  compare(&m.b);
}
/// Records no one refers to, before and after the root.
pub fn unused() {
  setup();
  let mut m = Msg::new(1);
  let k = choose(4);
  for i in 0..2 {
    match k {
      0 => m.string(10 + i, "q"),
      1 => m.class(2, 10 + i, "U", &["m"]).string(20 + i, "in"),
      2 => m.array(16, 10 + i, 2).u8(13).u8(2),
      _ => m.array(16, 10 + i, 1).reference(11 - i),
    };
    if i == 0 {
      m.class(2, 1, "A", &["x", "y"]).u8(8).coded(8).reference(30);
      m.u8(6).i32(30).any_str::<2>();
    }
  }
  m.end();
  compare(&m.b);
}

// ------------------------------------------------------------------ primitives

/// A primitive of every type in every place one can stand.
pub fn prim() {
  setup();
  let place = choose(8);
  let t = PRIMS[choose(PRIMS.len() as u8)];
  let mut m = Msg::new(1);
  match place {
    0 => m.class(2, 1, "A", &["x"]).u8(8).u8(t).prim(t),
    1 => m.typed_class(4, 1, "A", &["x", "y"], &[0, 0], &[t, 2]).prim(t).any::<1>(),
    2 => m.array(15, 1, 2).u8(t).prim(t).prim(t),
    3 => m.binary_array(1, 0, &[2]).u8(0).u8(t).prim(t).prim_fixed(t),
    4 => m.array(16, 1, 1).u8(8).u8(t).prim(t),
    5 => {
      m.b[1] = 0;
      m.u8(21).i32(0x12).u8(18).str("f").u8(18).str("T").i32(1).coded(t)
    },
    6 => {
      m.b[1] = 0;
      m.u8(22).i32(0x811).coded(t)
    },
    _ => m.binary_array(1, 2, &[1, 2]).u8(0).u8(t).prim_fixed(t).prim(t),
  };
  m.end();
  compare(&m.b);
}
/// Any type code with any content.
pub fn prim_raw() {
  setup();
  let place = choose(6);
  let mut m = Msg::new(1);
  match place {
    0 => m.array(16, 1, 1).u8(8).any::<6>(),
    1 => m.typed_class(4, 1, "A", &["x"], &[0], &[]).any::<6>(),
    2 => m.array(15, 1, 1).any::<6>(),
    3 => m.binary_array(1, 0, &[1]).u8(0).any::<6>(),
    4 => {
      m.b[1] = 0;
      m.u8(21).i32(0x12).u8(18).str("f").u8(18).str("T").i32(1).any::<6>()
    },
    _ => {
      m.b[1] = 0;
      m.u8(22).i32(0x811).any::<6>()
    },
  };
  m.end();
  compare(&m.b);
}
/// Arrays of primitives with more elements.
pub fn prim_many() {
  setup();
  let t = [1u8, 2, 7, 8, 9, 12, 6][choose(7)];
  let mut m = Msg::new(1);
  let place = choose(3);
  match place {
    0 => m.array(15, 1, 300).u8(t),
    1 => m.binary_array(1, 0, &[300]).u8(0).u8(t),
    _ => m.binary_array(1, 2, &[3, 100]).u8(0).u8(t),
  };
  for i in 0..300 {
    if t == 1 {
      m.u8(i as u8 & 1);
    } else if i == 7 || i == 255 || i == 256 || i == 299 {
      m.prim(t);
    } else {
      m.bytes(spec::prim_size(t), i as u8);
    }
  }
  m.end();
  compare(&m.b);
}

// ------------------------------------------------------------------ strings

/// Every encoding of the length of a string.
pub fn str_len() {
  setup();
  let mut m = Msg::new(1);
  m.u8(6).i32(1);
  match choose(5) {
    0 => m.any::<1>(),
    1 => m.any::<2>(),
    2 => m.any::<3>(),
    3 => m.any::<4>(),
    _ => m.any::<5>(),
  };
  m.bytes(140, b'a').end();
  compare(&m.b);
}
const LENGTHS: [usize; 14] = [0, 1, 2, 63, 64, 127, 128, 129, 255, 256, 300, 16383, 16384, 16385];
/// Strings at the lengths where the encoding of the length changes.
pub fn str_long() {
  setup();
  let n = LENGTHS[choose(LENGTHS.len() as u8)];
  let mut m = Msg::new(1);
  let place = choose(3);
  match place {
    0 => m.u8(6).i32(1),
    1 => m.u8(2).i32(1),
    _ => m.array(17, 1, 1).u8(6).i32(2),
  };
  let mut l = n;
  while l >= 0x80 {
    m.u8(l as u8 | 0x80);
    l >>= 7;
  }
  m.u8(l as u8);
  let at = m.b.len();
  m.bytes(n, b'x');
  for (k, c) in [(0, 0usize), (1, 1), (2, n.wrapping_sub(1))] {
    if c < n && (k == 0 || n > 2) {
      m.b[at + c] = sym::u8();
    }
  }
  if place == 1 {
    m.i32(0);
  }
  m.end();
  compare(&m.b);
}
/// A string longer than three bytes of length can say.
pub fn str_huge() {
  setup();
  sym::limit(64 << 20);
  let n = [2097151usize, 2097152][choose(2)];
  let mut m = Msg::new(1);
  m.b.reserve(n + 16);
  m.u8(6).i32(1);
  let mut l = n;
  while l >= 0x80 {
    m.u8(l as u8 | 0x80);
    l >>= 7;
  }
  m.u8(l as u8);
  let at = m.b.len();
  m.bytes(n, b'x');
  m.b[at + n - 1] = sym::u8();
  m.end();
  compare(&m.b);
}
/// The content of a string in every place one can stand.
pub fn str_utf8() {
  setup_names();
  let place = choose(9);
  let mut m = Msg::new(1);
  match place {
    0 => m.u8(6).i32(1).u8(5).any::<5>(),
    1 => m.u8(2).i32(1).u8(4).any::<4>().i32(0),
    2 => m.u8(2).i32(1).str("A").i32(1).u8(3).any::<3>().typed_i32(1),
    3 => m.u8(12).i32(2).u8(4).any::<4>().class(3, 1, "A", &[]).i32(2),
    4 => m.array(17, 1, 1).u8(6).i32(2).u8(4).any::<4>(),
    5 => m.typed_class(4, 1, "A", &["x"], &[1], &[]).u8(6).i32(2).u8(4).any::<4>(),
    6 => {
      m.b[1] = 0;
      m.u8(21).i32(0x21).u8(18).u8(3).any::<3>().u8(18).u8(2).any::<2>().u8(18).u8(2).any::<2>()
    },
    7 => {
      m.b[1] = 0;
      m.u8(22).i32(0x812).u8(18).u8(3).any::<3>().i32(1).u8(18).u8(2).any::<2>()
    },
    _ => {
      // a declared type name which the member does not need
      m.typed_class(4, 1, "A", &["x"], &[3], &[4]).any::<4>().u8(10)
    },
  };
  m.end();
  compare(&m.b);
}

// ------------------------------------------------------------------ classes

const NAMES: [&[&str]; 4] = [&[], &["x"], &["x", "y"], &["x", "y", "_z"]];

/// The four kinds of class records with 0 to 3 members.
pub fn class() {
  setup();
  let mut m = Msg::new(1);
  m.library(7, "first").array(16, 90, 0).library(8, "second");
  let tag = 2 + choose(4) as u8;
  let names = NAMES[choose(4)];
  let inline = choose(3);
  match inline {
    0 => {},
    1 => {
      m.array(16, 1, 3).typed_i32(1);
    },
    _ => {
      m.class(2, 1, "Outer", &["a", "b", "c"]).typed_i32(1);
    },
  }
  m.u8(tag).i32(if inline == 0 { 1 } else { 2 }).any_str::<2>().i32(names.len() as i32);
  for n in names {
    m.str(n);
  }
  let types: &[u8] = &[0, 2, 1];
  if tag >= 4 {
    m.raw(&types[..names.len()]);
    if !names.is_empty() {
      m.u8(14);
    }
  }
  if tag & 1 == 1 {
    m.any_id();
  }
  for k in 0..names.len() {
    match (k, tag >= 4) {
      (0, true) => m.any::<2>(),
      (0, false) => m.u8(8).u8(14).any::<2>(),
      (1, _) => m.u8(8).u8(2).any::<1>(),
      _ => m.u8(6).i32(50).any_str::<1>(),
    };
  }
  if inline > 0 {
    m.typed_i32(2);
  }
  m.end();
  compare(&m.b);
}
/// Member names.
pub fn class_names() {
  setup_names();
  let mut m = Msg::new(1);
  let tag = [2u8, 4][choose(2)];
  m.u8(tag).i32(1).str("A").i32(3).any_str::<1>().any_str::<2>().any_str::<1>();
  if tag == 4 {
    m.raw(&[0, 0, 0, 2, 2, 2]).any::<3>();
  } else {
    m.u8(8).u8(2).any::<1>().u8(8).u8(2).any::<1>().u8(10);
  }
  m.end();
  compare(&m.b);
}
/// A class record with unconstrained content.
pub fn class_raw<const N: usize>() {
  setup_names();
  let mut m = Msg::new(1);
  m.library(1, "L");
  let tag = 2 + choose(4) as u8;
  m.u8(tag).i32(1).str("A").any::<N>();
  compare(&m.b);
}
/// A class record with two members, and unconstrained types and values.
pub fn class_types_raw() {
  setup();
  let mut m = Msg::new(1);
  m.library(1, "L");
  let tag = 4 + choose(2) as u8;
  m.class(tag, 1, "A", &["x", "y"]);
  if tag == 4 {
    m.any::<8>();
  } else {
    m.any::<2>().any::<2>().i32(1).any::<4>();
  }
  m.end();
  compare(&m.b);
}
/// Inline objects nested in each other.
pub fn class_nested() {
  setup();
  let mut m = Msg::new(1);
  m.class(2, 1, "A", &["x", "y"]);
  m.class(2, 2, "B", &["p", "q"]);
  m.class(2, 3, "C", &["r"]).u8(8).u8(2).any::<1>();
  m.class_with_id(4, [2, 3, 1][choose(3)]);
  m.any::<7>();
  m.end();
  compare(&m.b);
}
/// Objects nested as deeply as is allowed.
pub fn class_deep() {
  setup();
  let mut m = Msg::new(1);
  let n = [1, 30, 63, 64][choose(4)];
  for i in 0..n {
    m.class(2, i + 1, "A", &["x"]);
  }
  m.u8(8).u8(2).any::<1>();
  m.end();
  compare(&m.b);
}

/// Instances of classes that are defined elsewhere: every id of the object and of its class.
pub fn with_id() {
  setup();
  let mut m = Msg::new(1);
  m.library(9, "L");
  m.array(16, 1, 3);
  let k = choose(4);
  match k {
    0 => m.class(2, 2, "A", &["x"]).u8(8).u8(2).any::<1>(),
    1 => m.class(3, 2, "A", &["x"]).i32(9).u8(8).u8(2).any::<1>(),
    2 => m.typed_class(4, 2, "A", &["x"], &[0], &[2]).any::<1>(),
    _ => m.typed_class(5, 2, "A", &["x"], &[2], &[]).i32(9).u8(8).u8(2).any::<1>(),
  };
  m.u8(1).any_id().any_id();
  if k == 2 {
    m.any::<1>();
  } else {
    m.u8(8).u8(2).any::<1>();
  }
  m.typed_i32(4);
  m.end();
  compare(&m.b);
}
/// Several classes, and an instance of any one of them.
pub fn with_id_pick() {
  setup();
  let mut m = Msg::new(1);
  m.library(9, "L");
  m.array(16, 1, 4);
  m.reference(4).reference(5).u8(13).u8(1);
  let top = choose(2);
  if top == 0 {
    m.u8(10);
  } else {
    m.u8(1).i32(6).any_id().u8(8).u8(2).any::<1>();
  }
  m.typed_class(4, 4, "A", &["x"], &[0], &[14]).any::<2>();
  m.class(3, 5, "B", &["y"]).i32(9).u8(8).u8(2).any::<1>();
  if top == 0 {
    m.u8(1).any_id().any_id().any::<3>();
  }
  m.end();
  compare(&m.b);
}
/// A class whose members are instances of the class itself.
pub fn with_id_self() {
  setup();
  let mut m = Msg::new(1);
  m.library(9, "L");
  let k = choose(3);
  match k {
    0 => m.class(2, 1, "A", &["x", "y"]),
    1 => m.typed_class(5, 1, "A", &["x", "y"], &[4, 2], &[1, b'A', 9, 0, 0, 0]).i32(9),
    _ => m.typed_class(4, 1, "A", &["x", "y"], &[3, 2], &[1, b'A']),
  };
  m.u8(1).i32(-5).any_id();
  m.u8(10).u8(8).u8(2).any::<1>();
  m.class_with_id(-6, 1).u8(10).any::<1>();
  m.end();
  compare(&m.b);
}

// ------------------------------------------------------------------ arrays

/// The length and the content of the three kinds of single arrays.
pub fn array_raw<const N: usize>() {
  setup();
  spec::MAX_RUN.store(5, Relaxed);
  let mut m = Msg::new(1);
  let tag = 15 + choose(3) as u8;
  m.u8(tag).i32(1).any::<4>();
  if tag == 15 {
    m.u8([1u8, 2, 7, 8, 17, 18][choose(6)]);
  }
  m.any::<N>();
  m.end();
  compare(&m.b);
}
/// Arrays whose elements are all kinds of records.
pub fn array_object() {
  setup();
  let mut m = Msg::new(1);
  m.array(16, 1, 7);
  m.u8(8).u8(14).any::<2>();
  m.u8(6).i32(2).any_str::<2>();
  m.u8(10);
  m.class(2, 3, "A", &["x"]).u8(8).u8(2).any::<1>();
  m.reference(2);
  m.class_with_id(4, 3).u8(10);
  m.reference(5);
  m.array(15, 5, 2).u8(2).any::<2>();
  m.end();
  compare(&m.b);
}
/// An array with unconstrained elements.
pub fn array_tail<const N: usize>() {
  setup();
  spec::MAX_RUN.store(5, Relaxed);
  let mut m = Msg::new(1);
  let tag = [16u8, 17][choose(2)];
  m.array(tag, 1, 2).any::<N>();
  m.end();
  compare(&m.b);
}

/// Runs of null objects: every length of the run and of the array.
pub fn nulls() {
  setup();
  spec::MAX_RUN.store(300, Relaxed);
  let mut m = Msg::new(1);
  let k = choose(4);
  let n = [0, 1, 2, 5, 254, 255, 256, 257][choose(8)];
  match k {
    0 => m.array(16, 1, n),
    1 => m.array(17, 1, n),
    2 => m.binary_array(1, 0, &[n]).u8(2),
    _ => m.binary_array(1, 0, &[n]).u8(1),
  };
  match choose(3) {
    0 => m.u8(10),
    1 => m.u8(13).any::<1>(),
    _ => m.u8(14).any::<4>(),
  };
  m.end();
  compare(&m.b);
}
/// Several runs and elements between them.
pub fn nulls_mixed() {
  setup();
  let mut m = Msg::new(1);
  let k = choose(4);
  match k {
    0 => m.array(16, 1, 6),
    1 => m.array(17, 1, 6),
    2 => m.binary_array(1, 2, &[2, 3]).u8(2),
    _ => m.binary_array(1, 1, &[6]).u8(1),
  };
  m.u8(13).any::<1>();
  m.string(2, "s");
  m.u8(14).any::<1>().raw(&[0, 0, 0]);
  match choose(4) {
    0 => m.string(3, "t"),
    1 => m.u8(10),
    2 => m.u8(13).any::<1>(),
    _ => m.string(3, "t").u8(10),
  };
  m.end();
  compare(&m.b);
}
/// A run of nulls where a member of a class stands.
pub fn nulls_member() {
  setup();
  let mut m = Msg::new(1);
  m.library(9, "L");
  match choose(6) {
    0 => m.class(2, 1, "A", &["x", "y", "z"]),
    1 => m.class(3, 1, "A", &["x", "y", "z"]).i32(9),
    2 => m.typed_class(4, 1, "A", &["x", "y", "z"], &[2, 2, 2], &[]),
    3 => m.typed_class(5, 1, "A", &["x", "y", "z"], &[1, 1, 1], &[]).i32(9),
    4 => m.typed_class(4, 1, "A", &["x", "y", "z"], &[5, 6, 7], &[8]),
    _ => {
      m.typed_class(4, 1, "A", &["x", "y", "z"], &[3, 4, 4], &[1, b'S', 1, b'C', 9, 0, 0, 0, 1, b'C', 9, 0, 0, 0])
    },
  };
  for _ in 0..2 {
    match choose(3) {
      0 => m.u8(10),
      1 => m.u8(13).any::<1>(),
      _ => m.u8(14).any::<4>(),
    };
  }
  match choose(2) {
    0 => m.u8(10),
    _ => &mut m,
  };
  m.end();
  compare(&m.b);
}

/// Arrays with one or more dimensions: kinds, ranks, bounds and lengths.
pub fn binary_array_raw<const N: usize>() {
  setup();
  spec::MAX_RUN.store(5, Relaxed);
  let mut m = Msg::new(1);
  let t = choose(2);
  match choose(3) {
    0 => m.u8(7).i32(1).any::<1>().i32(1).any::<1>().raw(&[0, 0, 0]).any::<2>(),
    1 => m.u8(7).i32(1).any::<1>().i32(2).any::<1>().raw(&[0, 0, 0]).i32(2).any::<2>(),
    _ => m.u8(7).i32(1).u8(2).any::<4>().i32(2).i32(1),
  };
  match t {
    0 => m.u8(0).u8(2).any::<N>(),
    _ => m.u8(2).any::<N>(),
  };
  m.end();
  compare(&m.b);
}
const SHAPES: [&[i32]; 14] = [
  &[1],
  &[4],
  &[1, 1],
  &[1, 4],
  &[4, 1],
  &[2, 3],
  &[3, 2],
  &[2, 2, 2],
  &[1, 2, 3],
  &[3, 1, 2],
  &[2, 3, 1],
  &[2, 1, 2, 2],
  &[1, 1, 1, 1, 2],
  &[3, 4],
];
/// Rectangular arrays of several shapes, with and without lower bounds.
pub fn shape() {
  setup();
  let mut m = Msg::new(1);
  let dims = SHAPES[choose(SHAPES.len() as u8)];
  let kind = choose(6) as u8;
  sym::assume(dims.len() == 1 || kind == 2 || kind == 5);
  m.binary_array(1, kind, dims);
  if kind >= 3 {
    for _ in dims {
      m.any::<4>();
    }
  }
  let n: i32 = dims.iter().product();
  let t = choose(4);
  match t {
    0 => m.raw(&[0, 2]),
    1 => m.raw(&[0, 8]),
    2 => m.u8(2),
    _ => m.u8(1),
  };
  for i in 0..n {
    match t {
      0 => m.any::<1>(),
      1 => m.any::<4>(),
      2 if i & 1 == 0 => m.u8(8).u8(2).any::<1>(),
      2 => m.u8(10),
      _ => m.u8(6).i32(10 + i).any_str::<1>(),
    };
  }
  m.end();
  compare(&m.b);
}
/// Jagged arrays: the elements are references to arrays.
pub fn jagged() {
  setup();
  let mut m = Msg::new(1);
  let kind = [1u8, 4, 0, 2][choose(4)];
  let n = 1 + choose(3) as i32;
  if kind == 2 {
    m.binary_array(1, kind, &[n, 1]);
  } else {
    m.binary_array(1, kind, &[n]);
  }
  if kind == 4 {
    m.any::<4>();
  }
  match choose(3) {
    0 => m.raw(&[7, 2]),
    1 => m.raw(&[5]),
    _ => m.raw(&[2]),
  };
  let gap = choose(4) as i32;
  for i in 0..n {
    if i == gap {
      m.u8(10);
    } else {
      m.reference(10 + i);
    }
  }
  for i in 0..n {
    if i != gap {
      m.array(15, 10 + i, i).u8(2);
      for _ in 0..i {
        m.any::<1>();
      }
    }
  }
  m.end();
  compare(&m.b);
}

// ------------------------------------------------------------------ references

/// Two references and three definitions, with any ids.
pub fn refs_ids() {
  setup();
  let mut m = Msg::new(1);
  let tag = [16u8, 17][choose(2)];
  let before = choose(2);
  if before == 1 {
    m.u8(6).any_id().str("a");
  }
  m.array(tag, 1, 2).u8(9).any_id().u8(9).any_id();
  if before == 0 {
    m.u8(6).any_id().str("a");
  }
  m.u8(6).any_id().str("b");
  m.end();
  compare(&m.b);
}
/// References from members of every kind of class, to every kind of record.
pub fn refs_class() {
  setup();
  let mut m = Msg::new(1);
  m.library(9, "L");
  match choose(4) {
    0 => m.class(2, 1, "A", &["x", "y"]),
    1 => m.class(3, 1, "A", &["x", "y"]).i32(9),
    2 => m.typed_class(4, 1, "A", &["x", "y"], &[2, 2], &[]),
    _ => m.typed_class(5, 1, "A", &["x", "y"], &[2, 4], &[1, b'B', 9, 0, 0, 0]).i32(9),
  };
  m.u8(9).any::<1>().raw(&[0, 0, 0]).u8(9).any::<1>().raw(&[0, 0, 0]);
  m.u8(6).i32(2).any_str::<1>();
  m.class(3, 3, "B", &["k"]).i32(9).u8(9).any::<1>().raw(&[0, 0, 0]);
  m.array(15, 4, 1).u8(2).any::<1>();
  m.binary_array(5, 2, &[1, 1]).u8(0).u8(2).any::<1>();
  m.end();
  compare(&m.b);
}
/// A tree of five objects in every order of the definitions.
pub fn refs_order() {
  setup();
  let mut m = Msg::new(1);
  let root_at = choose(3);
  let root = |m: &mut Msg| {
    m.class(2, 1, "R", &["a", "b", "c"]).reference(2).u8(8).u8(2).any::<1>().reference(3);
  };
  if root_at == 0 {
    root(&mut m);
  }
  let ids = sym::bytes::<4>();
  for i in 0..4 {
    if root_at == i {
      if i > 0 {
        root(&mut m);
      }
    }
    sym::assume((ids[i] >= 2) & (ids[i] <= 5));
    let id = sym::conc(ids[i] as u64) as i32;
    match id {
      2 => m.class(2, 2, "N", &["v", "w"]).reference(4).u8(8).u8(2).any::<1>(),
      3 => m.array(16, 3, 2).u8(10).reference(5),
      4 => m.u8(6).i32(4).any_str::<1>(),
      _ => m.array(17, 5, 1).reference(4),
    };
  }
  m.end();
  compare(&m.b);
}
/// Objects nested in arrays and objects, each with references to what follows.
pub fn refs_nested() {
  setup();
  let mut m = Msg::new(1);
  match choose(3) {
    0 => m.array(16, 1, 3),
    1 => m.class(2, 1, "R", &["a", "b", "c"]),
    _ => m.binary_array(1, 2, &[3, 1]).u8(2),
  };
  m.class(2, 2, "A", &["x", "y"]).reference(20).u8(8).u8(2).any::<1>();
  m.class_with_id(3, 2).u8(9).any::<1>().raw(&[0, 0, 0]).u8(8).u8(2).any::<1>();
  m.class(2, 4, "B", &["z"]).class_with_id(5, 2).u8(9).any::<1>().raw(&[0, 0, 0]).u8(10);
  match choose(2) {
    0 => m.string(20, "s").array(15, 21, 1).u8(2).any::<1>().class(2, 22, "C", &[]),
    _ => m.class(2, 22, "C", &["s"]).reference(20).array(15, 21, 1).u8(2).any::<1>().string(20, "s"),
  };
  m.end();
  compare(&m.b);
}
/// References to strings that stand inside other records.
pub fn refs_inline_string() {
  setup();
  let mut m = Msg::new(1);
  let k = choose(4);
  match k {
    0 => m.array(16, 1, 3),
    1 => m.array(17, 1, 3),
    2 => m.class(2, 1, "A", &["x", "y", "z"]),
    _ => m.typed_class(4, 1, "A", &["x", "y", "z"], &[1, 1, 1], &[]),
  };
  match choose(3) {
    0 => m.u8(6).any_id().any_str::<1>().u8(9).any_id().u8(10),
    1 => m.u8(9).any_id().u8(6).any_id().any_str::<1>().u8(9).any_id(),
    _ => m.u8(6).any_id().any_str::<1>().u8(6).any_id().any_str::<1>().u8(9).any_id(),
  };
  m.end();
  compare(&m.b);
}
/// References in the items of a call array and below them.
pub fn refs_call() {
  setup();
  let mut m = Msg::new(1);
  let flags = [0x14, 0x18][choose(2)];
  if choose(2) == 0 {
    m.u8(21).i32(flags).u8(18).str("f").u8(18).str("T");
  } else {
    m.u8(22).i32(flags);
  }
  m.array(16, 1, 2).u8(9).any::<1>().raw(&[0, 0, 0]).u8(9).any::<1>().raw(&[0, 0, 0]);
  m.array(16, 2, 2).u8(9).any::<1>().raw(&[0, 0, 0]).u8(8).u8(2).any::<1>();
  m.u8(6).i32(3).any_str::<1>();
  m.class(2, 4, "A", &["k"]).reference(3);
  m.end();
  compare(&m.b);
}
/// Longer chains of objects, in the order they refer to each other and in the opposite one.
pub fn refs_chain() {
  setup();
  let mut m = Msg::new(1);
  let n = 12;
  let back = choose(2);
  let odd = 2 + choose(n - 2) as i32;
  for i in 0..n as i32 {
    let id = if back == 0 { i + 1 } else { n as i32 - i };
    if id == odd {
      m.array(16, id, 2).reference(id + 1).u8(8).u8(2).any::<1>();
    } else {
      m.class(2, id, "A", &["n"]).reference(id + 1);
    }
  }
  m.u8(6).any_id().any_str::<1>();
  m.end();
  compare(&m.b);
}

// ------------------------------------------------------------------ ids

/// The ids of all records of a message.
pub fn ids() {
  setup();
  let mut m = Msg::new(1);
  match choose(5) {
    0 => {
      m.array(16, 1, 2).u8(2).any_id().str("A").i32(0).u8(1).any_id().any_id();
    },
    1 => {
      m.array(16, 1, 2).u8(6).any_id().str("A").u8(2).any_id().str("A").i32(0);
    },
    2 => {
      m.u8(16).any_id().i32(0).u8(17).any_id().i32(0).u8(15).any_id().i32(0).u8(2);
      m.u8(7).any_id().u8(0).i32(1).i32(0).u8(1);
    },
    3 => {
      m.u8(2).any_id().str("A").i32(0).u8(6).any_id().str("A").u8(16).any_id().i32(0);
    },
    _ => {
      m.u8(4).any_id().str("A").i32(1).str("x").u8(1).u8(6).any_id().str("s");
      m.u8(1).any_id().any_id().u8(10);
    },
  };
  m.end();
  compare(&m.b);
}
/// The lengths and counts.
pub fn counts() {
  setup();
  let mut m = Msg::new(1);
  match choose(4) {
    0 => m.u8(2).i32(1).str("A").any::<4>().any::<2>(),
    1 => m.u8(5).i32(1).str("A").any::<4>().any::<2>(),
    2 => m.u8(15).i32(1).any::<4>().u8(8).any::<4>(),
    _ => {
      m.b[1] = 0;
      m.u8(21).i32(0x12).u8(18).str("f").u8(18).str("T").any::<4>().u8(2).any::<1>()
    },
  };
  m.end();
  compare(&m.b);
}
/// The rank of an array.
pub fn counts_rank() {
  setup();
  let mut m = Msg::new(1);
  m.u8(7).i32(1).u8(2).any::<4>().any::<4>().u8(0).u8(2).any::<1>().end();
  compare(&m.b);
}
/// One of the lengths of an array with two dimensions.
pub fn counts_dims() {
  setup();
  let mut m = Msg::new(1);
  match choose(3) {
    0 => m.u8(7).i32(1).u8(2).i32(2).any::<4>().i32(2).u8(0).u8(2).any::<2>(),
    1 => m.u8(7).i32(1).u8(0).i32(1).any::<4>().u8(0).u8(2).any::<3>(),
    _ => m.u8(7).i32(1).u8(2).i32(2).i32(3).any::<4>().u8(0).u8(2).any::<3>(),
  };
  m.end();
  compare(&m.b);
}
/// Lengths whose product does not fit into 64 bits.
pub fn counts_huge() {
  setup();
  let mut m = Msg::new(1);
  m.u8(7).i32(1).u8(2).i32(3).any::<4>().i32(i32::MAX).i32(i32::MAX).u8(0).u8(2).any::<3>();
  m.end();
  compare(&m.b);
}

// ------------------------------------------------------------------ libraries

/// Libraries and the classes that name them, with any ids.
pub fn libs() {
  setup();
  let mut m = Msg::new(1);
  m.u8(12).any_id().str("one").array(16, 50, 0).u8(12).any_id().str("two");
  let tag = [3u8, 5][choose(2)];
  m.class(tag, 1, "A", &["x"]);
  if tag == 5 {
    m.raw(&[0, 2]);
  }
  m.any_id();
  if tag == 5 {
    m.any::<1>();
  } else {
    m.u8(8).u8(2).any::<1>();
  }
  m.end();
  compare(&m.b);
}
/// A library before every kind of record.
pub fn libs_place() {
  setup();
  let mut m = Msg::new(1);
  let second = choose(2) == 1;
  match choose(9) {
    0 => m.u8(12).any_id().str("L").array(16, 1, 1).typed_i32(1),
    1 => m.u8(12).any_id().str("L").array(17, 1, 0),
    2 => m.u8(12).any_id().str("L").array(15, 1, 1).u8(2).any::<1>(),
    3 => m.u8(12).any_id().str("L").binary_array(1, 0, &[1]).u8(0).u8(2).any::<1>(),
    4 => m.array(16, 1, 2).u8(12).any_id().str("L").class(3, 2, "A", &[]).i32(3).typed_i32(5),
    5 => m.class(2, 1, "A", &["x", "y"]).u8(12).any_id().str("L").typed_i32(1).u8(10),
    6 => m.class(2, 1, "A", &["x", "y"]).u8(12).any_id().str("L").u8(10).u8(12).any_id().str("K").string(7, "s"),
    7 => m.typed_class(4, 1, "A", &["x", "y"], &[2, 0], &[2]).u8(12).any_id().str("L").u8(10).any::<1>(),
    _ => m.u8(12).any_id().str("L").class(2, 1, "A", &["x"]).u8(10),
  };
  if second {
    m.u8(12).any_id().str("M").array(16, 60, 0);
  }
  m.end();
  compare(&m.b);
}
/// A library before a method call, its call array, and what follows.
pub fn libs_call() {
  setup();
  let mut m = Msg::new(1);
  m.u8(12).any_id().str("L");
  if choose(2) == 0 {
    m.u8(21).i32(0x14).u8(18).str("f").u8(18).str("T");
  } else {
    m.u8(22).i32(0x214);
  }
  m.u8(12).any_id().str("M").array(16, 1, 1);
  m.u8(12).any_id().str("N").class(3, 2, "A", &["x"]).any_id().u8(10);
  m.end();
  compare(&m.b);
}
/// A declared class with its library; the member's class may name another one.
pub fn libs_typed() {
  setup();
  let mut m = Msg::new(1);
  m.library(2, "L").array(16, 90, 0).library(3, ["M", "L"][choose(2)]);
  m.u8(5).i32(1).str("A").i32(1).str("x").u8(4).any_str::<1>().any_id().i32(3);
  match choose(4) {
    0 => m.u8(3).i32(4).any_str::<1>().i32(0).any_id(),
    1 => m.u8(2).i32(4).any_str::<1>().i32(0),
    2 => m.reference(5),
    _ => m.u8(10),
  };
  m.class(3, 5, "B", &[]).i32(2);
  m.end();
  compare(&m.b);
}

// ------------------------------------------------------------------ methods

/// All message flags.
pub fn flags() {
  setup();
  let mut m = Msg::new(0);
  let k = choose(4);
  match k {
    0 => m.u8(21).any::<4>().u8(18).str("f").u8(18).str("T"),
    1 => m.u8(21).any::<4>().u8(18).str("f").u8(18).str("T").u8(18).str("c").i32(1).u8(2).any::<1>(),
    2 => m.u8(22).any::<4>(),
    _ => m.u8(22).any::<4>().u8(2).any::<1>().u8(18).str("c").i32(1).u8(2).any::<1>(),
  };
  m.end();
  compare(&m.b);
}
/// All message flags, with a call array.
pub fn flags_array() {
  setup();
  let mut m = Msg::new(1);
  let k = choose(2);
  match k {
    0 => m.u8(21).any::<4>().u8(18).str("f").u8(18).str("T"),
    _ => m.u8(22).any::<4>(),
  };
  m.array(16, 1, 2).reference(2).u8(8).u8(2).any::<1>();
  m.array(16, 2, 1).u8(8).u8(14).any::<2>();
  m.end();
  compare(&m.b);
}
/// Calls with inline values.
pub fn call() {
  setup();
  let mut m = Msg::new(0);
  let ctx = choose(3);
  let args = choose(5);
  let ret = choose(6);
  let flags = [0x10, 0x20, 0x40][ctx] | if args == 4 { 1 } else { 2 };
  if ret == 5 {
    m.u8(21).i32(flags).u8(18).any_str::<2>().u8(18).any_str::<2>();
  } else {
    m.u8(22).i32(flags | [0x200, 0x400, 0x800, 0x800, 0x1000][ret]);
    if ret == 2 {
      m.coded(18);
    } else if ret == 3 {
      m.coded([2, 17, 8][choose(3)]);
    }
  }
  if ctx == 1 {
    m.u8(18).any_str::<1>();
  }
  if args < 4 {
    m.i32(args as i32);
    for k in 0..args {
      m.coded([18, 14, 17][k]);
    }
  }
  m.end();
  compare(&m.b);
}
/// A method record with unconstrained content.
pub fn call_raw<const N: usize>() {
  setup();
  let mut m = Msg::new(choose(2) as i32);
  match choose(5) {
    0 => m.u8(21).i32(0x12).u8(18).str("f").any::<N>(),
    1 => m.u8(21).i32(0x21).any::<N>(),
    2 => m.u8(22).i32(0x811).any::<N>(),
    3 => m.u8(22).i32(0x22).any::<N>(),
    _ => m.u8(22).i32(0x14).any::<N>(),
  };
  m.end();
  compare(&m.b);
}
/// The call array: its id, its items, and the records around the method.
pub fn call_array() {
  setup();
  let mut m = Msg::empty();
  m.u8(0).any_id().i32(-1).i32(1).i32(0);
  if choose(2) == 1 {
    m.string(30, "before");
  }
  let flags = [0x14, 0x18, 0x11][choose(3)];
  if choose(2) == 0 {
    m.u8(21).i32(flags).u8(18).str("f").u8(18).str("T");
  } else {
    m.u8(22).i32(flags);
  }
  if choose(2) == 1 {
    m.library(4, "L");
  }
  match choose(4) {
    0 => m.u8(16).any_id().i32(2).reference(31).u8(10),
    1 => m.u8(16).any_id().i32(0),
    2 => m.u8(16).any_id().i32(1).u8(8).u8(2).any::<1>(),
    _ => &mut m,
  };
  m.array(15, 31, 2).u8(2).any::<2>();
  m.end();
  compare(&m.b);
}
/// Two methods in a message.
pub fn call_twice() {
  setup();
  let mut m = Msg::new(0);
  m.any::<1>().i32(0x11);
  m.u8(18).str("f").u8(18).str("T");
  match choose(3) {
    0 => m.u8(21).i32(0x11).u8(18).str("f").u8(18).str("T"),
    1 => m.u8(22).i32(0x11),
    _ => m.string(3, "s").u8(22).i32(0x11),
  };
  m.end();
  compare(&m.b);
}

// ------------------------------------------------------------------ typed members

/// A member of every declared type, with unconstrained content.
pub fn typed_raw<const N: usize>() {
  setup();
  let mut m = Msg::new(1);
  m.library(9, "L");
  let k = choose(10);
  match k {
    0 => m.typed_class(4, 1, "A", &["x"], &[1], &[]),
    1 => m.typed_class(4, 1, "A", &["x"], &[2], &[]),
    2 => m.typed_class(4, 1, "A", &["x"], &[3], &[1, b'B']),
    3 => m.typed_class(4, 1, "A", &["x"], &[4], &[1, b'B', 9, 0, 0, 0]),
    4 => m.typed_class(4, 1, "A", &["x"], &[5], &[]),
    5 => m.typed_class(4, 1, "A", &["x"], &[6], &[]),
    6 => m.typed_class(4, 1, "A", &["x"], &[7], &[2]),
    7 => m.binary_array(1, 0, &[1]).u8(1),
    8 => m.binary_array(1, 0, &[1]).u8(3).str("B"),
    _ => m.binary_array(1, 1, &[1]).u8(4).str("B").i32(9),
  };
  m.any::<N>();
  m.end();
  compare(&m.b);
}
/// A member of every declared type that refers to a record of every kind.
pub fn typed_refs() {
  setup();
  let mut m = Msg::new(1);
  m.library(9, "L");
  match choose(9) {
    0 => m.typed_class(5, 1, "A", &["x", "y"], &[1, 1], &[]),
    1 => m.typed_class(5, 1, "A", &["x", "y"], &[2, 2], &[]),
    2 => m.typed_class(5, 1, "A", &["x", "y"], &[3, 2], &[1, b'S']),
    3 => m.typed_class(5, 1, "A", &["x", "y"], &[4, 2], &[1, b'B', 9, 0, 0, 0]),
    4 => m.typed_class(5, 1, "A", &["x", "y"], &[5, 2], &[]),
    5 => m.typed_class(5, 1, "A", &["x", "y"], &[6, 2], &[]),
    6 => m.typed_class(5, 1, "A", &["x", "y"], &[7, 0], &[2, 2]),
    7 => m.typed_class(5, 1, "A", &["x", "y"], &[5, 6], &[]),
    _ => m.typed_class(5, 1, "A", &["x", "y"], &[0, 7], &[2, 2]),
  };
  m.i32(9);
  match choose(3) {
    0 => m.u8(9).any_id().u8(9).any_id(),
    1 => m.u8(9).any_id().u8(10),
    _ => m.any::<1>().u8(9).any_id(),
  };
  m.u8(6).i32(2).str("s").class(3, 3, "B", &[]).i32(9).array(15, 4, 0).u8(2).class(2, 5, "S", &[]);
  m.array(16, 6, 0).array(17, 7, 0);
  m.end();
  compare(&m.b);
}
/// A member of a declared class whose value stands in its place.
pub fn typed_class() {
  setup();
  let mut m = Msg::new(1);
  m.library(9, "L");
  let k = choose(2);
  let place = choose(2);
  if place == 0 {
    if k == 0 {
      m.u8(4).i32(1).str("A").i32(2).str("x").str("y").raw(&[3, 0]).any_str::<1>().u8(2);
    } else {
      m.u8(4).i32(1).str("A").i32(2).str("x").str("y").raw(&[4, 0]).any_str::<1>().i32(9).u8(2);
    }
  } else if k == 0 {
    m.binary_array(1, 0, &[2]).u8(3).any_str::<1>();
  } else {
    m.binary_array(1, 0, &[2]).u8(4).any_str::<1>().i32(9);
  }
  match choose(5) {
    0 => m.u8(2).i32(2).any_str::<1>().i32(1).str("v").u8(8).u8(2).any::<1>(),
    1 => m.u8(3).i32(2).any_str::<1>().i32(1).str("v").any_id().u8(8).u8(2).any::<1>(),
    2 => m.u8(4).i32(2).any_str::<1>().i32(1).str("v").raw(&[0, 2]).any::<1>(),
    3 => m.u8(5).i32(2).any_str::<1>().i32(1).str("v").raw(&[0, 2]).any_id().any::<1>(),
    _ => m.u8(3).i32(2).str("B").i32(1).str("v").i32(9).u8(10),
  };
  if place == 0 {
    m.any::<1>();
  } else {
    m.class_with_id(-1, 2).any::<1>();
  }
  m.end();
  compare(&m.b);
}
