#![allow(clippy::missing_safety_doc, dead_code)]
pub mod msg;
pub mod spec;
pub mod sym;
mod t_base;
mod t_parse;
#[cfg(feature = "any")]
mod t_any;
#[cfg(feature = "list")]
mod t_list;
#[cfg(feature = "object")]
mod t_object;
#[cfg(feature = "scalar")]
mod t_scalar;
#[cfg(any(feature = "scalar", feature = "list", feature = "object"))]
#[macro_use]
mod read;

/// Entries of one group. (A build has the groups whose features are on.)
macro_rules! entries {
  ($group:ident: $($name:ident = $f:expr;)*) => {
    $(
      #[unsafe(no_mangle)]
      pub extern "C" fn $name() {
        (($f) as fn())()
      }
    )*
    /// The entries of the group by name (for the native replay).
    pub mod $group {
      #[allow(unused_imports)]
      use super::*;
      pub const ENTRIES: &[(&str, fn())] = &[$((stringify!($name), $f)),*];
    }
  };
}

include!("entries.rs");

/// Calls `f` with the entries.
pub fn each(mut f: impl FnMut(&'static str, fn())) {
  #[cfg(feature = "parse")]
  parse::ENTRIES.iter().for_each(|e| f(e.0, e.1));
  #[cfg(feature = "scalar")]
  scalar::ENTRIES.iter().for_each(|e| f(e.0, e.1));
  #[cfg(feature = "list")]
  list::ENTRIES.iter().for_each(|e| f(e.0, e.1));
  #[cfg(feature = "object")]
  object::ENTRIES.iter().for_each(|e| f(e.0, e.1));
  #[cfg(feature = "any")]
  any::ENTRIES.iter().for_each(|e| f(e.0, e.1));
  let _ = &mut f;
}
