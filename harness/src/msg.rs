//! Builder for messages with concrete and symbolic parts.

use super::sym;

pub struct Msg {
  pub b: Vec<u8>,
}

pub const BOOLEAN: u8 = 1;
pub const INT32: u8 = 8;

impl Msg {
  /// A message that starts with a header.
  pub fn new(root: i32) -> Msg {
    let mut m = Msg { b: Vec::with_capacity(256) };
    m.u8(0).i32(root).i32(-1).i32(1).i32(0);
    m
  }
  pub fn empty() -> Msg {
    Msg { b: Vec::with_capacity(256) }
  }
  pub fn u8(&mut self, x: u8) -> &mut Msg {
    self.b.push(x);
    self
  }
  pub fn i32(&mut self, x: i32) -> &mut Msg {
    self.raw(&x.to_le_bytes())
  }
  pub fn raw(&mut self, x: &[u8]) -> &mut Msg {
    self.b.extend_from_slice(x);
    self
  }
  pub fn str(&mut self, x: &str) -> &mut Msg {
    let mut n = x.len();
    while n >= 0x80 {
      self.u8(n as u8 | 0x80);
      n >>= 7;
    }
    self.u8(n as u8).raw(x.as_bytes())
  }
  /// `N` unconstrained bytes.
  pub fn any<const N: usize>(&mut self) -> &mut Msg {
    let x = sym::bytes::<N>();
    self.raw(&x)
  }
  /// A string of `N` unconstrained ASCII characters.
  pub fn any_str<const N: usize>(&mut self) -> &mut Msg {
    let x = sym::bytes::<N>();
    for c in x.iter() {
      sym::assume(*c < 0x80);
    }
    self.u8(N as u8).raw(&x)
  }
  pub fn end(&mut self) -> &mut Msg {
    self.u8(11)
  }

  // records
  pub fn library(&mut self, id: i32, name: &str) -> &mut Msg {
    self.u8(12).i32(id).str(name)
  }
  pub fn string(&mut self, id: i32, s: &str) -> &mut Msg {
    self.u8(6).i32(id).str(s)
  }
  pub fn reference(&mut self, id: i32) -> &mut Msg {
    self.u8(9).i32(id)
  }
  /// The `ClassInfo` of a class record, with its tag.
  pub fn class(&mut self, tag: u8, id: i32, name: &str, members: &[&str]) -> &mut Msg {
    self.u8(tag).i32(id).str(name).i32(members.len() as i32);
    for m in members {
      self.str(m);
    }
    self
  }
  pub fn class_with_id(&mut self, id: i32, meta: i32) -> &mut Msg {
    self.u8(1).i32(id).i32(meta)
  }
  pub fn typed_i32(&mut self, x: i32) -> &mut Msg {
    self.u8(8).u8(INT32).i32(x)
  }
  /// ArraySinglePrimitive (15), ArraySingleObject (16) or ArraySingleString (17).
  pub fn array(&mut self, tag: u8, id: i32, n: i32) -> &mut Msg {
    self.u8(tag).i32(id).i32(n)
  }
}

/// The codes of the primitive types a value can have.
pub const PRIMS: [u8; 15] = [1, 2, 3, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16];

impl Msg {
  /// Unconstrained content of a primitive of type `t` (of a chosen length where it varies).
  pub fn prim(&mut self, t: u8) -> &mut Msg {
    match t {
      1 | 2 | 10 => self.any::<1>(),
      7 | 14 => self.any::<2>(),
      8 | 11 | 15 => self.any::<4>(),
      3 => match sym::choose(4) {
        0 => self.any::<1>(),
        1 => self.any::<2>(),
        2 => self.any::<3>(),
        _ => self.any::<4>(),
      },
      5 => match sym::choose(3) {
        0 => self.u8(1).any::<1>(),
        1 => self.u8(2).any::<2>(),
        _ => self.u8(3).any::<3>(),
      },
      _ => self.any::<8>(),
    }
  }
  /// A fixed, valid value.
  pub fn prim_fixed(&mut self, t: u8) -> &mut Msg {
    match t {
      1 => self.u8(1),
      2 | 10 => self.u8(0x81),
      3 => self.raw("é".as_bytes()),
      5 => self.str("-1.5"),
      7 | 14 => self.raw(&[0x34, 0x82]),
      8 | 11 | 15 => self.raw(&[0x78, 0x56, 0x34, 0x92]),
      _ => self.raw(&[0xf0, 0xde, 0xbc, 0x9a, 0x78, 0x56, 0x34, 0x12]),
    }
  }
  /// A value of type `t` with code and content (`ValueWithCode`); String and Null included.
  pub fn coded(&mut self, t: u8) -> &mut Msg {
    self.u8(t);
    match t {
      17 => self,
      18 => self.any_str::<2>(),
      _ => self.prim(t),
    }
  }
  /// A class record with type information.
  pub fn typed_class(&mut self, tag: u8, id: i32, name: &str, members: &[&str], types: &[u8], infos: &[u8]) -> &mut Msg {
    self.class(tag, id, name, members).raw(types).raw(infos)
  }
  pub fn binary_array(&mut self, id: i32, kind: u8, dims: &[i32]) -> &mut Msg {
    self.u8(7).i32(id).u8(kind).i32(dims.len() as i32);
    for d in dims {
      self.i32(*d);
    }
    self
  }
  /// A symbolic id (or any other integer).
  pub fn any_id(&mut self) -> &mut Msg {
    self.any::<4>()
  }
  pub fn bytes(&mut self, n: usize, x: u8) -> &mut Msg {
    let l = self.b.len();
    self.b.resize(l + n, x);
    self
  }
}
