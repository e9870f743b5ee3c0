use super::{msg::Msg, spec, sym};

#[inline(never)]
fn utf8(b: &[u8]) -> (bool, usize, usize) {
  match core::str::from_utf8(b) {
    Ok(_) => (true, 0, 0),
    Err(e) => (false, e.valid_up_to(), e.error_len().unwrap_or(0)),
  }
}
/// The executor's summary of `from_utf8` agrees with the executed function.
pub fn utf8_summary() {
  let b = sym::bytes::<5>();
  let n = b.len();
  let mut k = 0;
  while k <= n {
    sym::stub(0);
    let x = utf8(&b[..k]);
    sym::stub(sym::UTF8);
    let y = utf8(&b[..k]);
    sym::check(x == y, "from_utf8 summary");
    k += 1;
  }
  sym::cover("valid");
}

/// The assumptions of all checks of the parser. The second bound on allocations is far above
/// what messages of these sizes need.
pub fn setup() {
  sym::stub(sym::FMT | sym::UTF8);
  sym::limit(1 << 20);
}
/// The same, with member names that are not fixed.
pub fn setup_names() {
  sym::stub(sym::FMT | sym::HASH | sym::UTF8);
  sym::limit(1 << 20);
}

/// A valid header, then `N` unconstrained bytes.
pub fn raw_body<const N: usize>() {
  setup_names();
  let mut m = Msg::new(1);
  m.any::<N>();
  spec::compare(&m.b);
}

/// Compares without branching on each element.
pub fn same<T: PartialEq>(a: &[T], b: &[T]) -> bool {
  let mut ok = a.len() == b.len();
  if ok {
    for i in 0..a.len() {
      ok &= a[i] == b[i];
    }
  }
  ok
}
