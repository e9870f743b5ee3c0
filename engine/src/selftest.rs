//! Checks of the expression layer itself: random expressions built with the simplifying
//! constructors are compared with the same expressions built without any simplification,
//! (a) by z3 for all byte values, (b) by direct evaluation against z3's evaluation.

use crate::expr::*;
use crate::solver::Solver;

struct Rng(u64);
impl Rng {
    fn n(&mut self, k: u64) -> u64 {
        self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        (self.0 >> 33) % k
    }
}

/// Returns the simplified and the raw version.
fn gen_e(c: &mut Ctx, r: &mut Rng, w: u32, d: u32) -> (E, E) {
    if d == 0 || r.n(8) == 0 {
        if w == 8 && r.n(4) != 0 {
            let e = c.sym(r.n(4) as usize);
            return (e, e);
        }
        if w > 8 && w % 8 == 0 && r.n(2) == 0 {
            // bytes in order, as loads build them
            let mut e = c.sym(r.n(4) as usize);
            let mut q = e;
            while c.w(e) < w {
                let s = c.sym(r.n(4) as usize);
                e = c.concat(s, e);
                let qw = c.w(q) + 8;
                q = c.raw(Op::Concat, qw, 0, [s, q, 0]);
            }
            return (e, q);
        }
        let k = match r.n(5) {
            0 => 0,
            1 => mask(w),
            2 => 1u128 << r.n(w as u64),
            3 => mask(w) >> r.n(w as u64),
            _ => (r.n(1 << 31) as u128) << r.n(8),
        };
        let e = c.c(k, w);
        return (e, e);
    }
    if w == 1 {
        let ww = [1, 8, 16, 32][r.n(4) as usize];
        let (a, b) = (gen_e(c, r, ww, d - 1), gen_e(c, r, ww, d - 1));
        let ops = [Op::Eq, Op::Ult, Op::Ule, Op::Slt, Op::Sle];
        let op = ops[r.n(5) as usize];
        if r.n(5) == 0 {
            let x = gen_e(c, r, 1, d - 1);
            let o = c.c(1, 1);
            return (c.not1(x.0), c.raw(Op::Xor, 1, 0, [o, x.1, 0]));
        }
        return (c.bin(op, a.0, b.0), c.raw(op, 1, 0, [a.1, b.1, 0]));
    }
    match r.n(12) {
        0 => {
            // narrower, extended
            let iw = 1 + r.n(w as u64) as u32;
            let iw = if iw == w { w.max(2) - 1 } else { iw };
            let iw = [1, 8, 16, 32][r.n(4) as usize].min(iw);
            let x = gen_e(c, r, iw, d - 1);
            if iw == w {
                return x;
            }
            if r.n(2) == 0 {
                (c.zext(x.0, w), c.raw(Op::ZExt, w, 0, [x.1, 0, 0]))
            } else {
                (c.sext(x.0, w), c.raw(Op::SExt, w, 0, [x.1, 0, 0]))
            }
        }
        1 => {
            let ow = (w + 1 + r.n(16) as u32).min(64);
            let lo = r.n((ow - w + 1) as u64) as u32;
            let x = gen_e(c, r, ow, d - 1);
            if ow == w {
                return x;
            }
            (c.extract(x.0, lo, w), c.raw(Op::Extract, w, lo as u128, [x.1, 0, 0]))
        }
        2 => {
            let lw = 1 + r.n(w as u64 - 1) as u32;
            let (h, l) = (gen_e(c, r, w - lw, d - 1), gen_e(c, r, lw, d - 1));
            (c.concat(h.0, l.0), c.raw(Op::Concat, w, 0, [h.1, l.1, 0]))
        }
        3 => {
            let q = gen_e(c, r, 1, d - 1);
            let (a, b) = (gen_e(c, r, w, d - 1), gen_e(c, r, w, d - 1));
            (c.ite(q.0, a.0, b.0), c.raw(Op::Ite, w, 0, [q.1, a.1, b.1]))
        }
        _ => {
            let ops = [Op::Add, Op::Sub, Op::And, Op::Or, Op::Xor, Op::Shl, Op::LShr, Op::AShr, Op::Mul, Op::UDiv, Op::URem];
            let op = ops[r.n(11) as usize];
            let a = gen_e(c, r, w, d - 1);
            let b = if matches!(op, Op::Mul | Op::UDiv | Op::URem) {
                let e = c.c(1 + r.n(20) as u128, w);
                if c.as_const(e) == Some(0) {
                    let o = c.c(1, w);
                    (o, o)
                } else {
                    (e, e)
                }
            } else if matches!(op, Op::Shl | Op::LShr | Op::AShr) {
                let e = c.c(r.n(w as u64 + 3) as u128, w);
                (e, e)
            } else {
                gen_e(c, r, w, d - 1)
            };
            (c.bin(op, a.0, b.0), c.raw(op, w, 0, [a.1, b.1, 0]))
        }
    }
}

pub fn run(seed: u64, n: u64) {
    let mut c = Ctx::new();
    let mut s = Solver::new(5_000);
    let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) | 1);
    let (mut eq, mut ev, mut unk) = (0, 0, 0);
    for i in 0..n {
        let w = [1, 8, 16, 32, 64, 7, 24][r.n(7) as usize];
        let (a, b) = gen_e(&mut c, &mut r, w, 4);
        if a != b {
            match s.equal(&c, a, b) {
                Some(true) => eq += 1,
                None => unk += 1,
                Some(false) => {
                    println!("selftest: simplification changed an expression (case {i}): {}  {}", c.show(a), c.show(b));
                    std::process::exit(1);
                }
            }
        }
        if i % 4 == 0 {
            let m: Vec<u8> = (0..4).map(|_| r.n(256) as u8).collect();
            let x = c.eval(a, &m);
            let y = s.eval_z3(&c, b, &m);
            if x != y {
                println!("selftest: evaluation differs from z3 (case {i}): {x:x} {y:x}");
                std::process::exit(1);
            }
            ev += 1;
        }
    }
    // floating-point conversions
    for v in [0u64, 1, 0x7ff0000000000000, 0x7ff8000000000000, 0x7ff0000000000001, 0xfff4000020000000, 0x3ff0000000000000, 0x47efffffe0000000, 0x47effffff0000000, 0x36a0000000000000, 0x380fffffffffffff] {
        let bytes: Vec<u8> = v.to_le_bytes().to_vec();
        let mut e = c.sym(0);
        for i in 1..8 {
            let b = c.sym(i);
            e = c.concat(b, e);
        }
        let t = c.fpop(Op::FpTrunc, 32, e);
        let lo = c.extract(e, 32, 32);
        let x = c.fpop(Op::FpExt, 64, lo);
        let z = c.c(0x3ff0000000000000, 64);
        let q = c.fcmp(fcmp_code("olt"), e, z);
        for k in [t, x, q] {
            let (p, q) = (c.eval(k, &bytes), s.eval_z3(&c, k, &bytes));
            if p != q {
                println!("selftest: floating point {v:x}: {p:x} {q:x}");
                std::process::exit(1);
            }
            ev += 1;
        }
    }
    println!("selftest ok: {eq} equivalences proved by z3, {ev} evaluations compared, {unk} undecided");
}
