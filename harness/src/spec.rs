//! An independent decoder of the .NET Remoting Binary Format ([MS-NRBF]) into a flat table of
//! records, and the comparison of its result with what the crate returns. It is the oracle:
//! written from the specification, without `nom`, in two phases (read all records, then look
//! references up).
//!
//! It has four answers: the message is valid and denotes this value; it is malformed; the
//! properties say nothing about it (`Unspec`); or it exceeds the bounds of the check (the path
//! is dropped with `assume`).

use std::sync::atomic::{AtomicBool, AtomicI64, Ordering::Relaxed};

use nrbf::{RemotingMessage, Value};

use super::sym;

/// Null runs that expand to more elements than this are outside the bounds.
pub static MAX_RUN: AtomicI64 = AtomicI64::new(40);

pub enum Stop {
  Reject,
  Unspec,
}
type R<T> = Result<T, Stop>;
fn reject<T>() -> R<T> {
  Err(Stop::Reject)
}
fn unspec<T>() -> R<T> {
  Err(Stop::Unspec)
}

#[derive(Clone, Copy)]
pub enum Node<'a> {
  /// Primitive: type code and little-endian bits.
  Prim(u8, u64),
  /// Decimal: its text.
  Dec(&'a [u8]),
  Str(&'a [u8]),
  Null,
  /// A reference; the second field says what the place requires of the target.
  Ref(i32, Want),
  /// Index into `Spec::objs`.
  Obj(usize),
}

#[derive(Clone, Copy, PartialEq)]
pub enum Want {
  Any,
  Str,
  Arr,
  NotStr,
}

#[derive(Clone, Copy)]
pub enum Ty<'a> {
  Prim(u8),
  Str,
  Obj,
  Sys(&'a [u8]),
  Cls(&'a [u8], i32),
  ObjArr,
  StrArr,
  PrimArr,
}

pub struct Meta<'a> {
  id: i32,
  name: &'a [u8],
  names: Vec<&'a [u8]>,
  types: Option<Vec<Ty<'a>>>,
  lib: Option<i32>,
}

pub struct Obj<'a> {
  meta: usize,
  members: Vec<Node<'a>>,
}

#[derive(Clone, Copy)]
pub enum Def<'a> {
  Str(&'a [u8]),
  Obj(usize),
  Arr(usize),
}

pub struct Arr<'a> {
  dims: Vec<usize>,
  elems: Vec<Node<'a>>,
}

pub struct Method<'a> {
  ret: bool,
  flags: i32,
  name: &'a [u8],
  type_name: &'a [u8],
  value: Option<Node<'a>>,
  context: Option<&'a [u8]>,
  args: Option<Vec<Node<'a>>>,
  call_array: Option<usize>,
}

pub struct Spec<'a> {
  b: &'a [u8],
  i: usize,
  root: i32,
  libs: Vec<(i32, &'a [u8])>,
  metas: Vec<Meta<'a>>,
  objs: Vec<Obj<'a>>,
  arrs: Vec<Arr<'a>>,
  /// id, definition, number of places that use it
  defs: Vec<(i32, Def<'a>, u32)>,
  method: Option<Method<'a>>,
  depth: u32,
  /// Some object or array is used in more than one place.
  pub shared: bool,
}

pub fn prim_size(t: u8) -> usize {
  match t {
    1 | 2 | 10 => 1,
    7 | 14 => 2,
    8 | 11 | 15 => 4,
    6 | 9 | 12 | 13 | 16 => 8,
    _ => 0,
  }
}
pub fn prim_ok(t: u8) -> bool {
  (t >= 1 && t <= 3) | (t >= 5 && t <= 18)
}

impl<'a> Spec<'a> {
  fn u8(&mut self) -> R<u8> {
    if self.i < self.b.len() {
      self.i += 1;
      Ok(self.b[self.i - 1])
    } else {
      reject()
    }
  }
  fn take(&mut self, n: usize) -> R<&'a [u8]> {
    if n > self.b.len() - self.i {
      return reject();
    }
    let s = &self.b[self.i..self.i + n];
    self.i += n;
    Ok(s)
  }
  fn bits(&mut self, n: usize) -> R<u64> {
    let s = self.take(n)?;
    let mut v = 0u64;
    let mut k = 0;
    while k < n {
      v |= (s[k] as u64) << (8 * k);
      k += 1;
    }
    Ok(v)
  }
  fn i32(&mut self) -> R<i32> {
    Ok(self.bits(4)? as u32 as i32)
  }
  fn tag(&mut self) -> R<u8> {
    if self.i < self.b.len() { Ok(self.b[self.i]) } else { reject() }
  }
  /// An id that has to be positive.
  fn pos(&mut self) -> R<i32> {
    let v = self.i32()?;
    if v <= 0 { reject() } else { Ok(v) }
  }
  /// The id of a class instance: value types carry negative ids.
  fn class_id(&mut self) -> R<i32> {
    let v = self.i32()?;
    if v == 0 { reject() } else { Ok(v) }
  }
  fn len(&mut self) -> R<i32> {
    let v = self.i32()?;
    if v < 0 { reject() } else { Ok(v) }
  }
  /// 2.1.1.6
  fn string(&mut self) -> R<&'a [u8]> {
    let mut len = 0u64;
    let mut k = 0;
    loop {
      let c = self.u8()?;
      if k == 4 && c > 7 {
        return reject();
      }
      len |= ((c & 0x7f) as u64) << (7 * k);
      if c < 0x80 {
        break;
      }
      k += 1;
    }
    if len > (self.b.len() - self.i) as u64 {
      return reject();
    }
    let n = sym::conc(len) as usize;
    let s = self.take(n)?;
    if core::str::from_utf8(s).is_err() {
      return reject();
    }
    Ok(s)
  }
  fn define(&mut self, id: i32, d: Def<'a>, uses: u32) -> R<usize> {
    for (i, _, _) in self.defs.iter() {
      if *i == id {
        return reject();
      }
    }
    self.defs.push((id, d, uses));
    Ok(self.defs.len() - 1)
  }
  fn find(&self, id: i32) -> Option<usize> {
    self.defs.iter().position(|d| d.0 == id)
  }
  /// 2.6.2
  fn library(&mut self) -> R<()> {
    self.i += 1;
    let id = self.pos()?;
    let name = self.string()?;
    for (l, _) in self.libs.iter() {
      if *l == id {
        return reject();
      }
    }
    self.libs.push((id, name));
    Ok(())
  }
  fn lib(&self, id: i32) -> R<&'a [u8]> {
    for (l, n) in self.libs.iter() {
      if *l == id {
        return Ok(n);
      }
    }
    reject()
  }

  /// The value of a primitive of type `t`.
  fn prim(&mut self, t: u8) -> R<Node<'a>> {
    match t {
      1 => {
        let b = self.u8()?;
        if b > 1 { reject() } else { Ok(Node::Prim(t, b as u64)) }
      },
      3 => {
        // one UTF-8 encoded character
        let first = self.u8()?;
        let n = if first < 0x80 {
          1
        } else if first < 0xe0 {
          2
        } else if first < 0xf0 {
          3
        } else {
          4
        };
        self.i -= 1;
        let s = self.take(n)?;
        if n == 1 {
          return Ok(Node::Prim(t, s[0] as u64));
        }
        if core::str::from_utf8(s).is_err() {
          return reject();
        }
        let mut v = (s[0] as u64) & (0x7f >> n);
        let mut k = 1;
        while k < n {
          v = v << 6 | (s[k] as u64) & 0x3f;
          k += 1;
        }
        Ok(Node::Prim(t, v))
      },
      5 => {
        let s = self.string()?;
        match decimal(s) {
          Some(true) => Ok(Node::Dec(s)),
          Some(false) => unspec(),
          None => reject(),
        }
      },
      2 | 6..=16 => Ok(Node::Prim(t, self.bits(prim_size(t))?)),
      _ => reject(),
    }
  }
  fn prim_type(&mut self) -> R<u8> {
    let t = self.u8()?;
    if prim_ok(t) { Ok(t) } else { reject() }
  }

  fn null_run(&mut self) -> R<i64> {
    match self.u8()? {
      10 => Ok(1),
      13 => {
        let n = self.u8()? as i64;
        if n == 0 { reject() } else { Ok(n) }
      },
      _ => {
        let n = self.i32()? as i64;
        if n <= 0 { reject() } else { Ok(n) }
      },
    }
  }

  fn ty_info(&mut self, t: u8) -> R<Ty<'a>> {
    Ok(match t {
      0 => Ty::Prim(self.prim_type()?),
      1 => Ty::Str,
      2 => Ty::Obj,
      3 => Ty::Sys(self.string()?),
      4 => {
        let n = self.string()?;
        Ty::Cls(n, self.pos()?)
      },
      5 => Ty::ObjArr,
      6 => Ty::StrArr,
      7 => {
        self.prim_type()?;
        Ty::PrimArr
      },
      _ => return reject(),
    })
  }

  /// A class record (2.3.2); `inline` when it stands where its value is used.
  fn class(&mut self, inline: bool) -> R<usize> {
    let tag = self.u8()?;
    let id;
    let meta;
    if tag == 1 {
      id = self.class_id()?;
      let mid = self.class_id()?;
      if id == mid {
        return reject();
      }
      let Some(m) = self.metas.iter().position(|m| m.id == mid) else {
        // the id of an instance that itself borrows its metadata: not specified
        return if self.find(mid).is_some_and(|d| matches!(self.defs[d].1, Def::Obj(_))) { unspec() } else { reject() };
      };
      meta = m;
    } else {
      id = self.class_id()?;
      let name = self.string()?;
      let n = self.len()?;
      let mut names = Vec::with_capacity(4);
      let mut k = 0;
      while k < n {
        let s = self.string()?;
        names.push(s);
        k += 1;
      }
      let mut types = None;
      if tag >= 4 {
        let t = self.take(names.len())?;
        let mut v = Vec::with_capacity(4);
        for x in t {
          if *x > 7 {
            return reject();
          }
        }
        for x in t {
          v.push(self.ty_info(*x)?);
        }
        types = Some(v);
      }
      let lib = if tag == 3 || tag == 5 {
        let l = self.pos()?;
        self.lib(l)?;
        Some(l)
      } else {
        None
      };
      let mut i = 0;
      while i < names.len() {
        let mut j = 0;
        while j < i {
          if same(names[i], names[j]) {
            return unspec();
          }
          j += 1;
        }
        i += 1;
      }
      meta = self.metas.len();
      self.metas.push(Meta { id, name, names, types, lib });
    }
    if self.depth >= 64 {
      return unspec();
    }
    self.depth += 1;
    let o = self.objs.len();
    self.objs.push(Obj { meta, members: Vec::new() });
    self.define(id, Def::Obj(o), inline as u32)?;
    let n = self.metas[meta].names.len();
    let mut members = Vec::with_capacity(n);
    let mut k = 0;
    while k < n {
      let ty = self.metas[meta].types.as_ref().map(|t| t[k]);
      let (node, run) = self.member(ty, false)?;
      if run != 1 {
        return reject();
      }
      members.push(node);
      k += 1;
    }
    self.depth -= 1;
    self.objs[o].members = members;
    Ok(o)
  }

  /// 2.7 `memberReference`, of declared type `ty`; also the length of a null run.
  fn member(&mut self, ty: Option<Ty<'a>>, string_array: bool) -> R<(Node<'a>, i64)> {
    if let Some(Ty::Prim(t)) = ty {
      return Ok((self.prim(t)?, 1));
    }
    if self.tag()? == 12 {
      if string_array {
        return unspec();
      }
      self.library()?;
      if self.tag()? == 12 {
        return unspec();
      }
    }
    let ty = match ty {
      Some(t) => t,
      None => Ty::Obj,
    };
    if let Ty::Cls(_, l) = ty {
      self.lib(l)?;
    }
    match self.tag()? {
      10 | 13 | 14 => Ok((Node::Null, self.null_run()?)),
      9 => {
        self.i += 1;
        let want = match ty {
          Ty::Str => Want::Str,
          Ty::ObjArr | Ty::StrArr | Ty::PrimArr => {
            if string_array {
              Want::Str
            } else {
              Want::Arr
            }
          },
          Ty::Sys(_) | Ty::Cls(..) => Want::NotStr,
          _ => Want::Any,
        };
        Ok((Node::Ref(self.pos()?, want), 1))
      },
      6 => {
        match ty {
          Ty::Obj | Ty::Str => {},
          Ty::StrArr if string_array => {},
          Ty::Sys(_) | Ty::Cls(..) => return reject(),
          _ => return unspec(),
        }
        let s = self.string_record(1)?;
        Ok((Node::Str(s), 1))
      },
      8 => {
        match ty {
          Ty::Obj => {},
          Ty::Str => return reject(),
          Ty::StrArr if string_array => return reject(),
          _ => return unspec(),
        }
        self.i += 1;
        let t = self.prim_type()?;
        Ok((self.prim(t)?, 1))
      },
      1..=5 => {
        match ty {
          Ty::Obj | Ty::Sys(_) | Ty::Cls(..) => {},
          Ty::Str => return reject(),
          Ty::StrArr if string_array => return reject(),
          _ => return unspec(),
        }
        let o = self.class(true)?;
        let m = &self.metas[self.objs[o].meta];
        match ty {
          Ty::Sys(name) => {
            if m.lib.is_some() || !same(m.name, name) {
              return reject();
            }
          },
          Ty::Cls(name, l) => {
            // the same library name is the same library, under whatever id
            let Some(ml) = m.lib else { return reject() };
            if !same(m.name, name) || !same(self.lib(ml)?, self.lib(l)?) {
              return reject();
            }
          },
          _ => {},
        }
        Ok((Node::Obj(o), 1))
      },
      _ => reject(),
    }
  }

  fn string_record(&mut self, uses: u32) -> R<&'a [u8]> {
    self.i += 1;
    let id = self.pos()?;
    let s = self.string()?;
    self.define(id, Def::Str(s), uses)?;
    Ok(s)
  }

  /// The elements of an array with `n` elements.
  fn elements(&mut self, n: i64, ty: Option<Ty<'a>>, string_array: bool) -> R<Vec<Node<'a>>> {
    let mut v = Vec::with_capacity(8);
    while (v.len() as i64) < n {
      let (node, run) = self.member(ty, string_array)?;
      if matches!(node, Node::Null) {
        if run > n - v.len() as i64 {
          return reject();
        }
        sym::assume(run <= MAX_RUN.load(Relaxed));
        let mut k = 0;
        while k < run {
          v.push(Node::Null);
          k += 1;
        }
      } else {
        v.push(node);
      }
    }
    Ok(v)
  }

  /// An array record (2.4.3).
  fn array(&mut self, uses: u32) -> R<usize> {
    let tag = self.u8()?;
    let id = self.pos()?;
    let a = self.arrs.len();
    let mut dims = Vec::with_capacity(4);
    let ty;
    let n;
    if tag == 7 {
      let kind = self.u8()?;
      if kind > 5 {
        return reject();
      }
      let rank = self.len()?;
      if rank > 32 {
        return unspec();
      }
      let mut k = 0;
      while k < rank {
        dims.push(self.len()? as usize);
        k += 1;
      }
      if kind >= 3 {
        let mut k = 0;
        while k < rank {
          self.i32()?;
          k += 1;
        }
      }
      let t = self.u8()?;
      if t > 7 {
        return reject();
      }
      ty = Some(self.ty_info(t)?);
      if rank == 0 || (rank > 1 && kind != 2 && kind != 5) {
        return unspec();
      }
      let mut p = 1i64;
      for d in dims.iter() {
        p = match p.checked_mul(*d as i64) {
          Some(n) => n,
          None => return if dims.iter().any(|d| *d == 0) { unspec() } else { reject() },
        };
      }
      n = p;
      if rank > 1 && n == 0 {
        return unspec();
      }
    } else {
      n = self.len()? as i64;
      dims.push(n as usize);
      ty = if tag == 15 {
        let t = self.prim_type()?;
        if t >= 17 && n == 0 {
          return unspec();
        }
        Some(Ty::Prim(t))
      } else if tag == 17 {
        Some(Ty::StrArr)
      } else {
        None
      };
    }
    self.arrs.push(Arr { dims, elems: Vec::new() });
    self.define(id, Def::Arr(a), uses)?;
    if let Some(Ty::Prim(t)) = ty {
      if t >= 17 && n > 0 {
        return reject();
      }
      let size = prim_size(t);
      if size > 0 && n > ((self.b.len() - self.i) / size) as i64 {
        return reject();
      }
    }
    let elems = self.elements(n, ty, tag == 17)?;
    self.arrs[a].elems = elems;
    Ok(a)
  }

  fn referenceable(&mut self) -> R<()> {
    match self.tag()? {
      1..=5 => self.class(false).map(|_| ()),
      7 | 15 | 16 | 17 => self.array(0).map(|_| ()),
      6 => self.string_record(0).map(|_| ()),
      _ => reject(),
    }
  }

  fn coded_string(&mut self) -> R<&'a [u8]> {
    if self.u8()? != 18 {
      return reject();
    }
    self.string()
  }
  fn coded(&mut self) -> R<Node<'a>> {
    let t = self.prim_type()?;
    match t {
      17 => Ok(Node::Null),
      18 => Ok(Node::Str(self.string()?)),
      _ => self.prim(t),
    }
  }
  fn coded_array(&mut self) -> R<Vec<Node<'a>>> {
    let n = self.len()?;
    let mut v = Vec::with_capacity(4);
    let mut k = 0;
    while k < n {
      v.push(self.coded()?);
      k += 1;
    }
    Ok(v)
  }

  /// 2.2.1.1, 2.2.3
  fn method(&mut self) -> R<()> {
    let ret = self.u8()? == 22;
    let flags = self.i32()?;
    let one = |m: i32| {
      let x = flags & m;
      x & x.wrapping_sub(1) == 0
    };
    let has = |m: i32| flags & m != 0;
    const ARGS: i32 = 0xf;
    const CTX: i32 = 0x70;
    const SIG: i32 = 0x80;
    const RET: i32 = 0x1e00;
    const EXC: i32 = 0x2000;
    let bad = !one(ARGS)
      | !one(CTX)
      | !one(RET)
      | (has(ARGS) & has(EXC))
      | (has(RET) & has(EXC))
      | (has(RET) & has(SIG))
      | (has(EXC) & has(SIG));
    if bad {
      return reject();
    }
    let (mut name, mut type_name, mut value) = (&b""[..], &b""[..], None);
    if ret {
      if has(0x800) {
        value = Some(self.coded()?);
      }
    } else {
      name = self.coded_string()?;
      type_name = self.coded_string()?;
    }
    let context = if has(0x20) { Some(self.coded_string()?) } else { None };
    let args = if has(2) { Some(self.coded_array()?) } else { None };

    // the call array
    let mut call_array = None;
    if self.tag()? == 12 {
      self.library()?;
      if self.tag()? == 12 {
        return unspec();
      }
      if !matches!(self.tag()?, 1..=5 | 7 | 15..=17) {
        return unspec();
      }
    }
    if self.tag()? == 16 {
      let at = self.defs.len();
      let a = self.array(1)?;
      if self.defs[at].0 != self.root {
        return reject();
      }
      call_array = Some(a);
    } else if has(0xc) {
      return reject();
    } else if self.root != 0 {
      return unspec();
    }
    if ret && has(8) && has(0x3000) {
      return unspec();
    }
    self.method = Some(Method { ret, flags, name, type_name, value, context, args, call_array });
    Ok(())
  }

  fn message(&mut self) -> R<()> {
    if self.u8()? != 0 {
      return reject();
    }
    self.root = self.i32()?;
    self.i32()?;
    let major = self.i32()?;
    let minor = self.i32()?;
    if (self.root < 0) | (major != 1) | (minor != 0) {
      return reject();
    }
    loop {
      match self.tag()? {
        11 => {
          self.i += 1;
          break;
        },
        12 => {
          self.library()?;
          match self.tag()? {
            6 | 11 | 12 => return unspec(),
            21 | 22 if self.method.is_none() => self.method()?,
            _ => self.referenceable()?,
          }
        },
        21 | 22 => {
          if self.method.is_some() {
            return reject();
          }
          self.method()?;
        },
        _ => self.referenceable()?,
      }
    }
    if self.i != self.b.len() {
      return reject();
    }
    self.link()
  }

  /// Looks all references up and counts the uses of every definition.
  fn link(&mut self) -> R<()> {
    let mut bad = false;
    let mut odd = false;
    let mut k = 0;
    while k < self.objs.len() + self.arrs.len() {
      let list = if k < self.objs.len() { &self.objs[k].members } else { &self.arrs[k - self.objs.len()].elems };
      for n in list.iter() {
        if let Node::Ref(id, want) = n {
          match self.defs.iter().position(|d| d.0 == *id) {
            None => bad = true,
            Some(d) => {
              self.defs[d].2 += 1;
              odd |= match (want, self.defs[d].1) {
                (Want::Any, _) | (Want::Str, Def::Str(_)) | (Want::Arr, Def::Arr(_)) => false,
                (Want::NotStr, Def::Obj(_) | Def::Arr(_)) => false,
                _ => true,
              };
            },
          }
        }
      }
      k += 1;
    }
    if let Some(m) = &self.method {
      if m.flags & 8 != 0 {
        // the arguments are the first item of the call array
        let first = self.arrs[m.call_array.unwrap()].elems.first().copied();
        let arr = match first {
          Some(Node::Ref(id, _)) => self.find(id).is_some_and(|d| matches!(self.defs[d].1, Def::Arr(_))),
          _ => false,
        };
        if !arr {
          return reject();
        }
      }
    } else if self.root != 0 {
      match self.find(self.root) {
        None => bad = true,
        Some(d) => self.defs[d].2 += 1,
      }
    }
    if bad {
      return reject();
    }
    if odd {
      return unspec();
    }
    for d in self.defs.iter() {
      if d.2 > 1 && !matches!(d.1, Def::Str(_)) {
        self.shared = true;
      }
    }
    if !self.shared {
      // islands that only refer to each other
      let mut k = 0;
      while k < self.defs.len() {
        if !matches!(self.defs[k].1, Def::Str(_)) && self.cyclic(k) {
          return unspec();
        }
        k += 1;
      }
    }
    Ok(())
  }
  /// With every object used at most once: does following the user of `d` come back?
  fn cyclic(&self, d: usize) -> bool {
    let mut cur = d;
    let mut steps = 0;
    loop {
      // the definition that refers to `cur`
      let mut user = None;
      let mut k = 0;
      while k < self.defs.len() {
        let list = match self.defs[k].1 {
          Def::Obj(o) => &self.objs[o].members,
          Def::Arr(a) => &self.arrs[a].elems,
          Def::Str(_) => {
            k += 1;
            continue;
          },
        };
        for n in list.iter() {
          let hit = match n {
            Node::Ref(id, _) => *id == self.defs[cur].0,
            Node::Obj(o) => matches!(self.defs[cur].1, Def::Obj(c) if c == *o),
            _ => false,
          };
          if hit {
            user = Some(k);
          }
        }
        k += 1;
      }
      match user {
        None => return false,
        Some(u) if u == d => return true,
        Some(u) => cur = u,
      }
      steps += 1;
      if steps > self.defs.len() {
        return false;
      }
    }
  }

  // ---------------------------------------------------------------- comparison

  fn same_node(&self, n: Node<'a>, v: &Value<'_>) -> bool {
    match n {
      Node::Prim(t, bits) => same_prim(t, bits, v),
      Node::Dec(_) => matches!(v, Value::Decimal(_)),
      Node::Str(s) => matches!(v, Value::String(x) if same(x.as_bytes(), s)),
      Node::Null => matches!(v, Value::Null),
      Node::Obj(o) => self.same_obj(o, v),
      Node::Ref(id, _) => match self.find(id) {
        Some(d) => self.same_def(d, v),
        None => false,
      },
    }
  }
  fn same_def(&self, d: usize, v: &Value<'_>) -> bool {
    match self.defs[d].1 {
      Def::Str(s) => matches!(v, Value::String(x) if same(x.as_bytes(), s)),
      Def::Obj(o) => self.same_obj(o, v),
      Def::Arr(a) => match v {
        Value::Array(v) => self.same_arr(&self.arrs[a].dims, &self.arrs[a].elems, v),
        _ => false,
      },
    }
  }
  fn same_obj(&self, o: usize, v: &Value<'_>) -> bool {
    let Value::Object(v) = v else { return false };
    let o = &self.objs[o];
    let m = &self.metas[o.meta];
    if !same(v.class.as_bytes(), m.name) || v.members.len() != m.names.len() {
      return false;
    }
    match (m.lib, v.library) {
      (None, None) => {},
      (Some(l), Some(x)) => match self.lib(l) {
        Ok(n) if same(n, x.as_bytes()) => {},
        _ => return false,
      },
      _ => return false,
    }
    let mut ok = true;
    let mut k = 0;
    while k < m.names.len() {
      // the name is valid UTF-8 (checked while reading)
      let name = unsafe { core::str::from_utf8_unchecked(m.names[k]) };
      match v.members.get(name) {
        Some(x) => ok = ok & self.same_node(o.members[k], x),
        None => return false,
      }
      k += 1;
    }
    ok
  }
  /// `elems`, in row-major order, has the shape `dims`.
  fn same_arr(&self, dims: &[usize], elems: &[Node<'a>], v: &[Value<'_>]) -> bool {
    if v.len() != dims[0] {
      return false;
    }
    let mut ok = true;
    if dims.len() == 1 {
      if v.len() != elems.len() {
        return false;
      }
      let mut k = 0;
      while k < v.len() {
        ok = ok & self.same_node(elems[k], &v[k]);
        k += 1;
      }
    } else {
      let step = elems.len() / dims[0];
      let mut k = 0;
      while k < v.len() {
        match &v[k] {
          Value::Array(x) => ok = ok & self.same_arr(&dims[1..], &elems[k * step..(k + 1) * step], x),
          _ => return false,
        }
        k += 1;
      }
    }
    ok
  }
  fn same_list(&self, e: Option<&[Node<'a>]>, v: Option<&[Value<'_>]>) -> bool {
    match (e, v) {
      (None, None) => true,
      (Some(e), Some(v)) => self.same_arr(&[e.len()], e, v),
      _ => false,
    }
  }
  fn same_opt(e: Option<&'a [u8]>, v: Option<&str>) -> bool {
    match (e, v) {
      (None, None) => true,
      (Some(e), Some(v)) => same(e, v.as_bytes()),
      _ => false,
    }
  }

  pub fn same_message(&self, v: &RemotingMessage<'_>) -> bool {
    match &self.method {
      None => match v {
        RemotingMessage::Value(v) => {
          if self.root == 0 {
            return matches!(v, Value::Null);
          }
          match self.find(self.root) {
            Some(d) => self.same_def(d, v),
            None => false,
          }
        },
        _ => false,
      },
      Some(m) => {
        let args: Option<&[Node<'a>]> = if m.flags & 4 != 0 {
          Some(&self.arrs[m.call_array.unwrap()].elems)
        } else if m.flags & 8 != 0 {
          match self.arrs[m.call_array.unwrap()].elems[0] {
            Node::Ref(id, _) => match self.find(id).map(|d| self.defs[d].1) {
              Some(Def::Arr(a)) => {
                if self.arrs[a].dims.len() > 1 {
                  // a rectangular array as the argument list: compare through its shape
                  let got = match v {
                    RemotingMessage::MethodCall(c) => c.args.as_deref(),
                    RemotingMessage::MethodReturn(c) => c.args.as_deref(),
                    _ => None,
                  };
                  match got {
                    Some(g) if self.same_arr(&self.arrs[a].dims, &self.arrs[a].elems, g) => {},
                    _ => return false,
                  }
                }
                Some(&self.arrs[a].elems)
              },
              _ => return false,
            },
            _ => return false,
          }
        } else {
          m.args.as_deref()
        };
        let multi = match args {
          Some(a) if m.flags & 8 != 0 => self.arrs.iter().any(|x| core::ptr::eq(&x.elems[..], a) && x.dims.len() > 1),
          _ => false,
        };
        match v {
          RemotingMessage::MethodCall(c) => {
            !m.ret
              && same(c.method_name.as_bytes(), m.name)
              && same(c.type_name.as_bytes(), m.type_name)
              && Self::same_opt(m.context, c.call_context)
              && (multi || self.same_list(args, c.args.as_deref()))
          },
          RemotingMessage::MethodReturn(c) => {
            m.ret
              && Self::same_opt(m.context, c.call_context)
              && match (&m.value, &c.return_value) {
                (None, None) => true,
                (Some(e), Some(v)) => self.same_node(*e, v),
                _ => false,
              }
              && (multi || self.same_list(args, c.args.as_deref()))
          },
          _ => false,
        }
      },
    }
  }
}

/// Some(true): a plain decimal with at most 28 digits; Some(false): not specified; None: no
/// decimal at all.
fn decimal(s: &[u8]) -> Option<bool> {
  if s.is_empty() {
    return None;
  }
  let mut k = 0;
  if s[0] == b'-' {
    k = 1;
  }
  let (mut int, mut frac, mut dot, mut odd, mut bad) = (0, 0, false, false, false);
  while k < s.len() {
    let c = s[k];
    if c >= b'0' && c <= b'9' {
      if dot {
        frac += 1;
      } else {
        int += 1;
      }
    } else if c == b'.' && !dot {
      dot = true;
    } else if c == b'_' || c == b'+' || c == b'e' || c == b'E' || c == b'-' || c == b'.' {
      odd = true;
    } else {
      bad = true;
    }
    k += 1;
  }
  if bad {
    return None;
  }
  Some(!odd && int > 0 && (!dot || frac > 0) && int + frac <= 28)
}

/// Equality of byte strings, without a branch per byte.
pub fn same(a: &[u8], b: &[u8]) -> bool {
  if a.len() != b.len() {
    return false;
  }
  if core::ptr::eq(a.as_ptr(), b.as_ptr()) {
    return true;
  }
  let mut d = 0u8;
  let mut k = 0;
  while k < a.len() {
    d |= a[k] ^ b[k];
    k += 1;
  }
  d == 0
}

pub fn same_prim(t: u8, bits: u64, v: &Value<'_>) -> bool {
  match (t, v) {
    (1, Value::Boolean(x)) => (*x as u64) == bits,
    (2, Value::Byte(x)) => *x as u64 == bits,
    (3, Value::Char(x)) => *x as u64 == bits,
    (6, Value::Double(x)) => x.to_bits() == bits,
    (7, Value::Int16(x)) => *x as u16 as u64 == bits,
    (8, Value::Int32(x)) => *x as u32 as u64 == bits,
    (9, Value::Int64(x)) => *x as u64 == bits,
    (10, Value::SByte(x)) => *x as u8 as u64 == bits,
    (11, Value::Single(x)) => x.to_bits() as u64 == bits,
    (12, Value::TimeSpan(x)) => x.value() as u64 == bits,
    (13, Value::DateTime(x)) => {
      use nrbf::value::DateTimeKind::*;
      let kind = bits >> 62;
      let kind_ok = match x.kind() {
        Some(Utc) => kind == 1,
        Some(Local) => kind >= 2,
        None => (kind == 0) | (kind == 3),
      };
      (x.ticks() as u64 == bits & 0x3fff_ffff_ffff_ffff) & kind_ok
    },
    (14, Value::UInt16(x)) => *x as u64 == bits,
    (15, Value::UInt32(x)) => *x as u64 == bits,
    (16, Value::UInt64(x)) => *x == bits,
    _ => false,
  }
}

pub enum Verdict<'a> {
  Valid(Spec<'a>),
  Malformed,
  Unspec,
}

/// The verdict, and how many bytes were looked at for it.
pub fn decode(b: &[u8]) -> (Verdict<'_>, usize) {
  let mut s = Spec {
    b,
    i: 0,
    root: 0,
    libs: Vec::new(),
    metas: Vec::new(),
    objs: Vec::new(),
    arrs: Vec::new(),
    defs: Vec::new(),
    method: None,
    depth: 0,
    shared: false,
  };
  match s.message() {
    Ok(()) => {
      let i = s.i;
      (Verdict::Valid(s), i)
    },
    Err(Stop::Reject) => (Verdict::Malformed, s.i),
    Err(Stop::Unspec) => (Verdict::Unspec, s.i),
  }
}

/// What kind of message a path of a check ended in.
#[derive(PartialEq, Clone, Copy)]
pub enum Kind {
  Valid,
  Malformed,
  Unspec,
}

/// Runs the crate on `b` and compares with the oracle.
#[inline(never)]
pub fn compare(b: &[u8]) -> Kind {
  sym::note(b);
  let kind = compare_parsed(b);
  #[cfg(feature = "any")]
  if SERDE.load(Relaxed) {
    super::t_any::agrees(b);
  }
  kind
}
#[inline(never)]
fn compare_parsed(b: &[u8]) -> Kind {
  let (want, at) = decode(b);
  if matches!(want, Verdict::Unspec) {
    // Nothing is required of the result, but the crate has to return. The lengths of null runs
    // in the part that was not decoded are bounded as elsewhere.
    let max = MAX_RUN.load(Relaxed) as u8;
    let get = |k: usize| if k < b.len() { b[k] } else { 0 };
    let mut ok = true;
    let mut k = at;
    while k < b.len() {
      ok &= (get(k) != 13) | (get(k + 1) <= max);
      ok &= (get(k) != 14) | ((get(k + 1) <= max) & ((get(k + 2) | get(k + 3) | get(k + 4)) == 0));
      k += 1;
    }
    sym::assume(ok);
  }
  let got = RemotingMessage::parse(b);
  match want {
    Verdict::Valid(s) => {
      if s.shared {
        // Known finding: a second reference to an object or array makes the message
        // unreadable. It must not make it read as something else.
        match &got {
          Ok(v) => sym::check(s.same_message(v), "the decoded value is not the one the message denotes"),
          Err(_) => sym::cover("KNOWN shared"),
        }
        sym::out(3);
        return Kind::Unspec;
      }
      sym::cover("valid");
      match &got {
        Ok(v) => sym::check(s.same_message(v), "the decoded value is not the one the message denotes"),
        Err(_) => sym::fail("a valid message is rejected"),
      }
      sym::out(1);
      Kind::Valid
    },
    Verdict::Malformed => {
      sym::cover("malformed");
      if got.is_ok() {
        sym::fail("a malformed message is accepted");
      }
      sym::out(0);
      Kind::Malformed
    },
    Verdict::Unspec => {
      sym::out(2 + got.is_ok() as u64 * 4);
      Kind::Unspec
    },
  }
}

/// Compare what `from_slice` reads, too.
pub static SERDE: AtomicBool = AtomicBool::new(false);

pub fn reset() {
  SERDE.store(false, Relaxed);
  MAX_RUN.store(40, Relaxed);
}
