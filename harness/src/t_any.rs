//! `from_slice` and `RemotingMessage::parse` agree.

use nrbf::{RemotingMessage, Value, from_slice};
use serde::{
  Deserialize, Deserializer,
  de::{IgnoredAny, MapAccess, SeqAccess, Visitor},
};

use super::{
  msg::Msg,
  spec, sym,
  sym::{choose, cover},
};

// ------------------------------------------------------------------ any value

/// Whatever the message offers.
enum Any<'a> {
  Bool(bool),
  Int(i128),
  F32(u32),
  F64(u64),
  Char(char),
  Str(&'a str),
  Text(#[allow(dead_code)] String),
  Unit,
  Seq(Vec<Any<'a>>),
  Map(Vec<(&'a str, Any<'a>)>),
}
struct AnyVisitor;
impl<'de> Visitor<'de> for AnyVisitor {
  type Value = Any<'de>;
  fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
    f.write_str("anything")
  }
  fn visit_bool<E>(self, v: bool) -> Result<Any<'de>, E> {
    Ok(Any::Bool(v))
  }
  fn visit_i64<E>(self, v: i64) -> Result<Any<'de>, E> {
    Ok(Any::Int(v as i128))
  }
  fn visit_u64<E>(self, v: u64) -> Result<Any<'de>, E> {
    Ok(Any::Int(v as i128))
  }
  fn visit_f32<E>(self, v: f32) -> Result<Any<'de>, E> {
    Ok(Any::F32(v.to_bits()))
  }
  fn visit_f64<E>(self, v: f64) -> Result<Any<'de>, E> {
    Ok(Any::F64(v.to_bits()))
  }
  fn visit_char<E>(self, v: char) -> Result<Any<'de>, E> {
    Ok(Any::Char(v))
  }
  fn visit_borrowed_str<E>(self, v: &'de str) -> Result<Any<'de>, E> {
    Ok(Any::Str(v))
  }
  fn visit_string<E>(self, v: String) -> Result<Any<'de>, E> {
    Ok(Any::Text(v))
  }
  fn visit_unit<E>(self) -> Result<Any<'de>, E> {
    Ok(Any::Unit)
  }
  fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Any<'de>, A::Error> {
    let mut v = Vec::new();
    while let Some(x) = a.next_element()? {
      v.push(x);
    }
    Ok(Any::Seq(v))
  }
  fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Any<'de>, A::Error> {
    let mut v = Vec::new();
    while let Some(x) = a.next_entry()? {
      v.push(x);
    }
    Ok(Any::Map(v))
  }
}
impl<'de> Deserialize<'de> for Any<'de> {
  fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
    d.deserialize_any(AnyVisitor)
  }
}

fn agree(v: &Value, a: &Any) -> bool {
  match (v, a) {
    (Value::Object(o), Any::Map(m)) => {
      let mut ok = o.members.len() == m.len();
      for (name, x) in m.iter() {
        let mut found = false;
        for (k, y) in o.members.iter() {
          if k.as_ptr() == name.as_ptr() && k.len() == name.len() {
            found = true;
            ok &= agree(y, x);
          }
        }
        ok &= found;
      }
      ok
    },
    (Value::Array(x), Any::Seq(y)) => {
      let mut ok = x.len() == y.len();
      if ok {
        for i in 0..x.len() {
          ok &= agree(&x[i], &y[i]);
        }
      }
      ok
    },
    (Value::Boolean(x), Any::Bool(y)) => x == y,
    (Value::Byte(x), Any::Int(y)) => *x as i128 == *y,
    (Value::SByte(x), Any::Int(y)) => *x as i128 == *y,
    (Value::Int16(x), Any::Int(y)) => *x as i128 == *y,
    (Value::UInt16(x), Any::Int(y)) => *x as i128 == *y,
    (Value::Int32(x), Any::Int(y)) => *x as i128 == *y,
    (Value::UInt32(x), Any::Int(y)) => *x as i128 == *y,
    (Value::Int64(x), Any::Int(y)) => *x as i128 == *y,
    (Value::UInt64(x), Any::Int(y)) => *x as i128 == *y,
    (Value::TimeSpan(x), Any::Int(y)) => x.value() as i128 == *y,
    (Value::DateTime(x), Any::Int(y)) => x.ticks() == *y as i64 & 0x3fff_ffff_ffff_ffff,
    (Value::Single(x), Any::F32(y)) => x.to_bits() == *y,
    (Value::Double(x), Any::F64(y)) => x.to_bits() == *y,
    (Value::Char(x), Any::Char(y)) => x == y,
    (Value::String(x), Any::Str(y)) => x.as_ptr() == y.as_ptr() && x.len() == y.len(),
    (Value::Decimal(_), Any::Text(_)) => true,
    (Value::Null, Any::Unit) => true,
    _ => false,
  }
}
/// A check of the parser, and of `from_slice` with it.
pub fn with(f: fn()) {
  spec::SERDE.store(true, std::sync::atomic::Ordering::Relaxed);
  f()
}
/// `from_slice` and `RemotingMessage::parse` agree on `b`.
pub fn agrees(b: &[u8]) {
  let v = RemotingMessage::parse(b);
  let a = from_slice::<Any>(b);
  match (&v, &a) {
    (Ok(RemotingMessage::Value(v)), Ok(a)) => {
      cover("agree");
      sym::check(agree(v, a), "from_slice offers another value than parse returns");
    },
    (Ok(RemotingMessage::Value(_)), Err(_)) => sym::fail("from_slice refuses a value"),
    (_, Ok(_)) => sym::fail("from_slice reads what is no value"),
    (Ok(_), Err(_)) => cover("method"),
    (Err(_), Err(_)) => cover("malformed"),
  }
  // Skipping a value needs no more than it being one.
  sym::check(from_slice::<IgnoredAny>(b).is_ok() == matches!(v, Ok(RemotingMessage::Value(_))), "a value that is ignored");
}

/// The texts of errors, and that `from_slice` passes them on.
pub fn errors() {
  sym::stub(sym::UTF8);
  sym::limit(1 << 20);
  let k = choose(6);
  let mut m = Msg::new(1);
  match k {
    0 => m.any::<2>().raw(&[1, 0, 0, 0, 1, b'A', 1, 0, 0, 0, 1, b'x', 10, 11]),
    1 => m.u8(6).any::<2>().raw(&[0, 0, 1, b'A']).u8(11),
    2 => m.array(16, 1, 1).any::<2>(),
    3 => m.typed_class(4, 1, "A", &["x"], &[], &[]).any::<2>().u8(1).u8(11),
    4 => m.array(15, 1, 1).any::<1>().raw(&[7]).any::<1>(),
    _ => {
      let x = sym::u8();
      m.b[1 + choose(16)] = x;
      m.string(1, "a").end()
    },
  };
  let b = &m.b[..];
  if let Err(e) = RemotingMessage::parse(b) {
    cover("error");
    let text = e.to_string();
    sym::check(!text.is_empty(), "an error without a text");
    match from_slice::<IgnoredAny>(b) {
      Ok(_) => sym::fail("from_slice reads what parse rejects"),
      Err(e2) => {
        let t2 = e2.to_string();
        sym::check(t2.len() >= text.len() && t2.ends_with(&text), "from_slice does not pass the error on");
      },
    }
  } else {
    cover("ok");
    sym::check(from_slice::<IgnoredAny>(b).is_ok(), "from_slice refuses a value");
  }
}

