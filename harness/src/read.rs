//! Reading a message as one of several types, in one of several places.
//!
//! The containers a value stands in are instantiated once, for a type that decides at run time
//! what it is read as. (Every visitor costs thousands of instructions in the IR.)

use std::sync::atomic::{AtomicU32, Ordering::Relaxed};

static KIND: AtomicU32 = AtomicU32::new(0);
pub fn kind() -> u32 {
  KIND.load(Relaxed)
}
pub fn set_kind(k: u32) {
  KIND.store(k, Relaxed)
}

/// `targets!{ Name: Type, ...}` defines `read`, `read_opt` for these types.
macro_rules! targets {
  ($($v:ident: $t:ty,)*) => {
    #[allow(non_camel_case_types, dead_code)]
    pub enum Out<'a> {
      $($v($t),)*
      Never(&'a ()),
    }
    #[allow(non_camel_case_types)]
    #[repr(u32)]
    enum Kind { $($v,)* Optional }
    /// Any target.
    pub struct Raw<'a>(Out<'a>);
    impl<'de: 'a, 'a> serde::Deserialize<'de> for Raw<'a> {
      #[inline(never)]
      fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let k = super::read::kind() & 0xffff;
        $(if k == Kind::$v as u32 {
          return <$t as serde::Deserialize>::deserialize(d).map(|x| Raw(Out::$v(x)));
        })*
        unreachable!()
      }
    }
    /// Any target, or an option of one.
    pub struct Dyn<'a>(Option<Raw<'a>>);
    impl<'de: 'a, 'a> serde::Deserialize<'de> for Dyn<'a> {
      #[inline(never)]
      fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        if super::read::kind() >> 16 == 1 {
          Option::<Raw>::deserialize(d).map(Dyn)
        } else {
          Raw::deserialize(d).map(|x| Dyn(Some(x)))
        }
      }
    }
    pub trait Target<'a>: Sized {
      const KIND: u32;
      fn of(o: Out<'a>) -> Option<Self>;
    }
    $(impl<'a> Target<'a> for $t {
      const KIND: u32 = Kind::$v as u32;
      fn of(o: Out<'a>) -> Option<Self> {
        match o {
          Out::$v(x) => Some(x),
          _ => None,
        }
      }
    })*
    #[derive(serde::Deserialize)]
    struct Place<'a> {
      #[serde(borrow)]
      x: Dyn<'a>,
    }
    #[inline(never)]
    fn read_dyn<'a>(kind: u32, k: usize, b: &'a [u8]) -> Option<Dyn<'a>> {
      super::read::set_kind(kind);
      super::sym::note(b);
      match k {
        0 | 1 | 6 => nrbf::from_slice::<Place>(b).ok().map(|f| f.x),
        4 => nrbf::from_slice::<[[Dyn; 1]; 1]>(b).ok().map(|[[x]]| x),
        5 => nrbf::from_slice::<Dyn>(b).ok(),
        _ => nrbf::from_slice::<[Dyn; 1]>(b).ok().map(|[x]| x),
      }
    }
    /// The value at the place `k`, read as a `T`.
    pub fn read<'a, T: Target<'a>>(k: usize, b: &'a [u8]) -> Option<T> {
      read_dyn(T::KIND, k, b).and_then(|d| d.0).and_then(|r| T::of(r.0))
    }
    /// The value at the place `k`, read as an `Option<T>`.
    pub fn read_option<'a, T: Target<'a>>(k: usize, b: &'a [u8]) -> Option<Option<T>> {
      read_dyn(T::KIND | 1 << 16, k, b).map(|d| d.0.and_then(|r| T::of(r.0)))
    }
    #[allow(dead_code)]
    pub fn read_opt<'a, T: Target<'a>>(k: usize, b: &'a [u8]) -> Option<T> {
      read_option(k, b).flatten()
    }
    #[allow(dead_code)]
    pub fn de<'a, T: Target<'a>>(b: &'a [u8]) -> Option<T> {
      read(5, b)
    }
  };
}
pub(crate) use targets;
