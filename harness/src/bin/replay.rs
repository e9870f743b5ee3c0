//! Runs an entry of the harness natively with the bytes of a recorded model.
//!
//!   replay ENTRY HEX        one run; exit 0 fine, 3 assertion failed, 4 assumption failed
//!   replay --batch FILE     lines "ENTRY HEX OUTS"; compares the outputs

#[path = "../lib.rs"]
#[allow(dead_code)]
mod harness;

use std::{
  alloc::{GlobalAlloc, Layout, System},
  cell::RefCell,
  sync::atomic::{AtomicUsize, Ordering::Relaxed},
};

struct St {
  model: Vec<u8>,
  at: usize,
  outs: Vec<u64>,
  failed: Vec<String>,
  missed: bool,
  batch: bool,
  shown: String,
}
thread_local! {
  static ST: RefCell<St> = const { RefCell::new(St { model: Vec::new(), at: 0, outs: Vec::new(), failed: Vec::new(), missed: false, batch: false, shown: String::new() }) };
}
fn st<T>(f: impl FnOnce(&mut St) -> T) -> T {
  ST.with(|s| f(&mut s.borrow_mut()))
}
fn id(p: *const u8, n: usize) -> String {
  String::from_utf8_lossy(unsafe { std::slice::from_raw_parts(p, n) }).to_string()
}

#[unsafe(no_mangle)]
extern "C" fn sym_bytes(p: *mut u8, n: usize) {
  st(|s| {
    for i in 0..n {
      let b = s.model.get(s.at + i).copied().unwrap_or(0);
      unsafe { *p.add(i) = b }
    }
    s.at += n;
  })
}
#[unsafe(no_mangle)]
extern "C" fn sym_assume(c: bool) {
  if !c {
    if st(|s| s.batch) {
      st(|s| s.missed = true);
    } else {
      println!("ASSUME");
      std::process::exit(4);
    }
  }
}
#[unsafe(no_mangle)]
extern "C" fn sym_assert(c: bool, p: *const u8, n: usize) {
  if !c {
    sym_fail(p, n)
  }
}
#[unsafe(no_mangle)]
extern "C" fn sym_fail(p: *const u8, n: usize) {
  let i = id(p, n);
  println!("ASSERT {i}");
  st(|s| s.failed.push(i));
}
#[unsafe(no_mangle)]
extern "C" fn sym_cover(_p: *const u8, _n: usize) {}
#[unsafe(no_mangle)]
extern "C" fn sym_out(x: u64) {
  st(|s| s.outs.push(x));
}
#[unsafe(no_mangle)]
extern "C" fn sym_note(p: *const u8, n: usize) {
  if std::env::var_os("SHOW").is_some() {
    let b = unsafe { std::slice::from_raw_parts(p, n) };
    let h: String = b.iter().take(4096).map(|x| format!("{x:02x}")).collect();
    st(|s| {
      if s.shown != h {
        println!("MESSAGE {h}");
        s.shown = h;
      }
    });
  }
}
#[unsafe(no_mangle)]
extern "C" fn sym_stub(_f: u32) {}
#[unsafe(no_mangle)]
extern "C" fn sym_concretize(x: u64) -> u64 {
  x
}

#[unsafe(no_mangle)]
extern "C" fn sym_limit(n: u64) {
  LIMIT.store(n as usize, Relaxed);
}

static LIMIT: AtomicUsize = AtomicUsize::new(usize::MAX);
static OVER: AtomicUsize = AtomicUsize::new(0);

/// Notices allocations above the limit (and does not serve absurd ones).
struct Alloc;
unsafe impl GlobalAlloc for Alloc {
  unsafe fn alloc(&self, l: Layout) -> *mut u8 {
    if l.size() > LIMIT.load(Relaxed) {
      OVER.fetch_max(l.size(), Relaxed);
    }
    unsafe { System.alloc(l) }
  }
  unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
    unsafe { System.dealloc(p, l) }
  }
  unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
    if n > LIMIT.load(Relaxed) {
      OVER.fetch_max(n, Relaxed);
    }
    unsafe { System.realloc(p, l, n) }
  }
}
#[global_allocator]
static ALLOC: Alloc = Alloc;

fn hex(s: &str) -> Vec<u8> {
  (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
fn entry(n: &str) -> fn() {
  let mut r = None;
  harness::each(|name, f| {
    if name == n {
      r = Some(f)
    }
  });
  r.unwrap_or_else(|| panic!("no entry {n}"))
}

/// Known findings: the process fails where it should not.
fn demo(name: &str) {
  let ok = match name {
    // a list of 100000 objects, each with a reference to the next
    "chain" => {
      let mut b = vec![0, 1, 0, 0, 0, 255, 255, 255, 255, 1, 0, 0, 0, 0, 0, 0, 0];
      let n = 100_000i32;
      b.extend([2, 1, 0, 0, 0, 1, b'A', 1, 0, 0, 0, 1, b'x', 9, 2, 0, 0, 0]);
      for i in 2..n {
        b.push(1);
        b.extend(i.to_le_bytes());
        b.extend(1i32.to_le_bytes());
        b.push(9);
        b.extend((i + 1).to_le_bytes());
      }
      b.push(1);
      b.extend(n.to_le_bytes());
      b.extend(1i32.to_le_bytes());
      b.extend([10, 11]);
      let _ = nrbf::RemotingMessage::parse(&b);
      true
    },
    _ => panic!("no demonstration {name}"),
  };
  std::process::exit(if ok { 0 } else { 3 });
}

fn main() {
  let a: Vec<String> = std::env::args().collect();
  if a[1] == "--list" {
    harness::each(|name, _| println!("{name}"));
    return;
  }
  if a[1] == "--demo" {
    return demo(&a[2]);
  }
  if a[1] == "--batch" {
    let mut bad = 0;
    let mut n = 0;
    for l in std::fs::read_to_string(&a[2]).unwrap().lines() {
      let f: Vec<&str> = l.split(' ').collect();
      st(|s| {
        s.model = hex(f[1]);
        s.at = 0;
        s.outs.clear();
        s.failed.clear();
        s.missed = false;
        s.batch = true;
      });
      entry(f[0])();
      LIMIT.store(usize::MAX, Relaxed);
      harness::spec::reset();
      let o: Vec<String> = st(|s| s.outs.iter().map(|x| format!("{x:x},")).collect());
      let o = o.concat();
      n += 1;
      if o != f[2] || st(|s| s.missed || !s.failed.is_empty()) {
        bad += 1;
        println!("MISMATCH {} {} engine {} native {}", f[0], f[1], f[2], o);
      }
    }
    println!("BATCH {n} {bad}");
    return;
  }
  st(|s| s.model = hex(&a[2]));
  entry(&a[1])();
  LIMIT.store(usize::MAX, Relaxed);
  if OVER.load(Relaxed) > 0 {
    println!("ASSERT oversized allocation: {} bytes", OVER.load(Relaxed));
    std::process::exit(3);
  }
  let o: Vec<String> = st(|s| s.outs.iter().map(|x| format!("{x:x}")).collect());
  println!("OUTS {}", o.join(","));
  if st(|s| !s.failed.is_empty()) {
    std::process::exit(3);
  }
}
