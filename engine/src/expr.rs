//! Hash-consed bit-vector expressions over symbolic input bytes.
//!
//! Every expression denotes a bit-vector of `w` bits (1..=128). The leaves are the
//! symbolic input bytes `Sym(i)`; everything the program computes from them is a node
//! in this DAG. Constructors simplify, and every simplification is an identity on
//! bit-vectors (checked by `selftest` against z3 and against direct evaluation).

use std::collections::HashMap;

pub type E = u32;
pub const MAXSYM: usize = 512;
const SW: usize = MAXSYM / 64;
pub type Sup = [u64; SW];

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const,
    Sym,
    Concat,
    Extract, // k = low bit
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    ZExt,
    SExt,
    FpTrunc,  // f64 bits -> f32 bits
    FpExt,    // f32 bits -> f64 bits
    SiToFp,   // k = source width is in arg; result w = 32 / 64
    UiToFp,
    FCmp, // k = predicate code
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u32,
    pub k: u128,
    pub a: [E; 3],
}

pub struct Ctx {
    pub nodes: Vec<Node>,
    map: HashMap<Node, E>,
    sup: Vec<Sup>,
    nz: Vec<u128>,
    tt: HashMap<E, Box<[u64; 4]>>,
    scratch: HashMap<E, u128>,
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn sext(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}

pub const FCMP: [&str; 16] = [
    "false", "oeq", "ogt", "oge", "olt", "ole", "one", "ord", "ueq", "ugt", "uge", "ult", "ule", "une", "uno", "true",
];
pub fn fcmp_code(s: &str) -> u128 {
    FCMP.iter().position(|x| *x == s).unwrap_or_else(|| panic!("fcmp predicate {s}")) as u128
}
pub fn fcmp_eval(code: u128, w: u32, a: u128, b: u128) -> bool {
    let (x, y) = if w == 32 {
        (f32::from_bits(a as u32) as f64, f32::from_bits(b as u32) as f64)
    } else {
        (f64::from_bits(a as u64), f64::from_bits(b as u64))
    };
    let un = x.is_nan() || y.is_nan();
    match FCMP[code as usize] {
        "false" => false,
        "oeq" => !un && x == y,
        "ogt" => !un && x > y,
        "oge" => !un && x >= y,
        "olt" => !un && x < y,
        "ole" => !un && x <= y,
        "one" => !un && x != y,
        "ord" => !un,
        "ueq" => un || x == y,
        "ugt" => un || x > y,
        "uge" => un || x >= y,
        "ult" => un || x < y,
        "ule" => un || x <= y,
        "une" => un || x != y,
        "uno" => un,
        _ => true,
    }
}

pub fn sup_empty(s: &Sup) -> bool {
    s.iter().all(|x| *x == 0)
}
pub fn sup_or(a: &Sup, b: &Sup) -> Sup {
    let mut r = *a;
    for i in 0..SW {
        r[i] |= b[i];
    }
    r
}
pub fn sup_meets(a: &Sup, b: &Sup) -> bool {
    (0..SW).any(|i| a[i] & b[i] != 0)
}
pub fn sup_iter(s: &Sup) -> Vec<usize> {
    let mut v = vec![];
    for i in 0..SW {
        let mut x = s[i];
        while x != 0 {
            let t = x.trailing_zeros() as usize;
            v.push(i * 64 + t);
            x &= x - 1;
        }
    }
    v
}
pub fn sup_single(s: &Sup) -> Option<usize> {
    let n: u32 = s.iter().map(|x| x.count_ones()).sum();
    if n == 1 {
        Some(sup_iter(s)[0])
    } else {
        None
    }
}
pub fn sup_bit(i: usize) -> Sup {
    let mut s = [0u64; SW];
    s[i / 64] |= 1 << (i % 64);
    s
}
pub const SUP0: Sup = [0u64; SW];

impl Ctx {
    pub fn new() -> Self {
        Ctx { nodes: vec![], map: HashMap::new(), sup: vec![], nz: vec![], tt: HashMap::new(), scratch: HashMap::new() }
    }
    pub fn w(&self, e: E) -> u32 {
        self.nodes[e as usize].w
    }
    pub fn sup(&self, e: E) -> &Sup {
        &self.sup[e as usize]
    }
    pub fn as_const(&self, e: E) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const {
            Some(n.k)
        } else {
            None
        }
    }
    /// Creates a node without simplifying it (used by the self-test to compare against).
    pub fn raw(&mut self, op: Op, w: u32, k: u128, a: [E; 3]) -> E {
        let n = Node { op, w, k, a };
        if let Some(e) = self.map.get(&n) {
            return *e;
        }
        let mut s = SUP0;
        let na = Self::arity(op);
        for i in 0..na {
            s = sup_or(&s, &self.sup[a[i] as usize]);
        }
        if op == Op::Sym {
            assert!((k as usize) < MAXSYM, "too many symbolic bytes");
            s = sup_bit(k as usize);
        }
        let nz = self.calc_nz(&n);
        let e = self.nodes.len() as E;
        self.nodes.push(n);
        self.sup.push(s);
        self.nz.push(nz);
        self.map.insert(n, e);
        e
    }
    pub fn arity(op: Op) -> usize {
        match op {
            Op::Const | Op::Sym => 0,
            Op::Extract | Op::ZExt | Op::SExt | Op::FpTrunc | Op::FpExt | Op::SiToFp | Op::UiToFp => 1,
            Op::Ite => 3,
            _ => 2,
        }
    }
    /// Over-approximation of the bits that can be nonzero.
    fn calc_nz(&self, n: &Node) -> u128 {
        let m = mask(n.w);
        let z = |e: E| self.nz[e as usize];
        let up = |x: u128| -> u128 {
            // all bits up to the highest set bit
            if x == 0 {
                0
            } else {
                mask(128 - x.leading_zeros())
            }
        };
        match n.op {
            Op::Const => n.k,
            Op::Concat => {
                let lw = self.w(n.a[1]);
                (if lw >= 128 { 0 } else { z(n.a[0]) << lw }) | z(n.a[1])
            }
            Op::Extract => (z(n.a[0]) >> n.k) & m,
            Op::ZExt => z(n.a[0]),
            Op::And => z(n.a[0]) & z(n.a[1]),
            Op::Or | Op::Xor => z(n.a[0]) | z(n.a[1]),
            Op::Ite => z(n.a[1]) | z(n.a[2]),
            Op::LShr => up(z(n.a[0])),
            Op::UDiv | Op::URem => {
                if n.op == Op::UDiv {
                    m // division by zero yields all ones in SMT-LIB
                } else {
                    m
                }
            }
            Op::Add => {
                let u = up(z(n.a[0]) | z(n.a[1]));
                (u | (u << 1)) & m
            }
            _ => m,
        }
    }
    pub fn c(&mut self, v: u128, w: u32) -> E {
        self.raw(Op::Const, w, v & mask(w), [0; 3])
    }
    pub fn sym(&mut self, i: usize) -> E {
        self.raw(Op::Sym, 8, i as u128, [0; 3])
    }
    fn node(&self, e: E) -> Node {
        self.nodes[e as usize]
    }

    pub fn concat(&mut self, h: E, l: E) -> E {
        let (nh, nl) = (self.node(h), self.node(l));
        let w = nh.w + nl.w;
        assert!(w <= 128);
        if nh.op == Op::Const && nl.op == Op::Const {
            return self.c((nh.k << nl.w) | nl.k, w);
        }
        if nh.op == Op::Concat {
            let t = self.concat(nh.a[1], l);
            return self.concat(nh.a[0], t);
        }
        if nh.op == Op::Const && nh.k == 0 {
            return self.zext(l, w);
        }
        if nh.op == Op::ZExt {
            // zext(x) ++ l  ==  zext(x ++ l)
            let t = self.concat(nh.a[0], l);
            return self.zext(t, w);
        }
        if nh.op == Op::Extract && nl.op == Op::Extract && nh.a[0] == nl.a[0] && nh.k == nl.k + nl.w as u128 {
            return self.extract(nh.a[0], nl.k as u32, w);
        }
        if nl.op == Op::Concat {
            let m = self.node(nl.a[0]);
            if nh.op == Op::Extract && m.op == Op::Extract && nh.a[0] == m.a[0] && nh.k == m.k + m.w as u128 {
                let t = self.extract(nh.a[0], m.k as u32, nh.w + m.w);
                return self.concat(t, nl.a[1]);
            }
            if nh.op == Op::Const && m.op == Op::Const {
                let t = self.c((nh.k << m.w) | m.k, nh.w + m.w);
                return self.concat(t, nl.a[1]);
            }
        }
        self.raw(Op::Concat, w, 0, [h, l, 0])
    }
    pub fn extract(&mut self, a: E, lo: u32, w: u32) -> E {
        let n = self.node(a);
        assert!(lo + w <= n.w && w > 0);
        if lo == 0 && w == n.w {
            return a;
        }
        match n.op {
            Op::Const => self.c(n.k >> lo, w),
            Op::Extract => self.extract(n.a[0], n.k as u32 + lo, w),
            Op::Concat => {
                let lw = self.w(n.a[1]);
                if lo >= lw {
                    self.extract(n.a[0], lo - lw, w)
                } else if lo + w <= lw {
                    self.extract(n.a[1], lo, w)
                } else {
                    let l = self.extract(n.a[1], lo, lw - lo);
                    let h = self.extract(n.a[0], 0, lo + w - lw);
                    self.concat(h, l)
                }
            }
            Op::ZExt => {
                let iw = self.w(n.a[0]);
                if lo >= iw {
                    self.c(0, w)
                } else if lo + w <= iw {
                    self.extract(n.a[0], lo, w)
                } else {
                    let l = self.extract(n.a[0], lo, iw - lo);
                    self.zext(l, w)
                }
            }
            Op::SExt => {
                let iw = self.w(n.a[0]);
                if lo + w <= iw {
                    self.extract(n.a[0], lo, w)
                } else if lo == 0 {
                    self.sext(n.a[0], w)
                } else {
                    self.raw(Op::Extract, w, lo as u128, [a, 0, 0])
                }
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a[0], lo, w);
                let y = self.extract(n.a[1], lo, w);
                match n.op {
                    Op::And => self.and(x, y),
                    Op::Or => self.or(x, y),
                    _ => self.xor(x, y),
                }
            }
            Op::Ite => {
                let x = self.extract(n.a[1], lo, w);
                let y = self.extract(n.a[2], lo, w);
                self.ite(n.a[0], x, y)
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let x = self.extract(n.a[0], 0, w);
                let y = self.extract(n.a[1], 0, w);
                match n.op {
                    Op::Add => self.add(x, y),
                    Op::Sub => self.sub(x, y),
                    _ => self.mul(x, y),
                }
            }
            _ => self.raw(Op::Extract, w, lo as u128, [a, 0, 0]),
        }
    }
    pub fn zext(&mut self, a: E, w: u32) -> E {
        let n = self.node(a);
        if n.w == w {
            return a;
        }
        assert!(n.w < w);
        match n.op {
            Op::Const => self.c(n.k, w),
            Op::ZExt => self.zext(n.a[0], w),
            _ => self.raw(Op::ZExt, w, 0, [a, 0, 0]),
        }
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let n = self.node(a);
        if n.w == w {
            return a;
        }
        match n.op {
            Op::Const => self.c(sext(n.k, n.w) as u128, w),
            Op::SExt => self.sext(n.a[0], w),
            Op::ZExt => self.zext(n.a[0], w),
            _ => self.raw(Op::SExt, w, 0, [a, 0, 0]),
        }
    }
    pub fn not1(&mut self, a: E) -> E {
        let n = self.node(a);
        debug_assert_eq!(n.w, 1);
        match n.op {
            Op::Const => self.c(1 ^ n.k, 1),
            Op::Xor => {
                if self.as_const(n.a[0]) == Some(1) {
                    return n.a[1];
                }
                if self.as_const(n.a[1]) == Some(1) {
                    return n.a[0];
                }
                let o = self.c(1, 1);
                self.raw(Op::Xor, 1, 0, [o, a, 0])
            }
            Op::Ult => self.ule(n.a[1], n.a[0]),
            Op::Ule => self.ult(n.a[1], n.a[0]),
            Op::Slt => self.sle(n.a[1], n.a[0]),
            Op::Sle => self.slt(n.a[1], n.a[0]),
            _ => {
                let o = self.c(1, 1);
                self.raw(Op::Xor, 1, 0, [o, a, 0])
            }
        }
    }
    pub fn and(&mut self, a: E, b: E) -> E {
        let (na, nb) = (self.node(a), self.node(b));
        let w = na.w;
        debug_assert_eq!(w, nb.w);
        if na.op == Op::Const && nb.op == Op::Const {
            return self.c(na.k & nb.k, w);
        }
        if a == b {
            return a;
        }
        if na.op == Op::Const {
            return self.and(b, a);
        }
        if nb.op == Op::Const {
            let m = nb.k;
            if m == 0 {
                return b;
            }
            if m == mask(w) || (self.nz[a as usize] & !m) == 0 {
                return a;
            }
            // a mask of consecutive ones is an extract
            let lo = m.trailing_zeros();
            let ones = (m >> lo).trailing_ones();
            if (m >> lo) == mask(ones) {
                let x = self.extract(a, lo, ones);
                let x = if lo > 0 {
                    let z = self.c(0, lo);
                    self.concat(x, z)
                } else {
                    x
                };
                return self.zext(x, w);
            }
            if na.op == Op::And {
                if let Some(k2) = self.as_const(na.a[1]) {
                    let c = self.c(m & k2, w);
                    return self.and(na.a[0], c);
                }
            }
            if matches!(na.op, Op::Or | Op::Xor) {
                let (x, y) = (self.and(na.a[0], b), self.and(na.a[1], b));
                return if na.op == Op::Or { self.or(x, y) } else { self.xor(x, y) };
            }
        }
        if let Some(r) = self.split_concat(Op::And, a, b) {
            return r;
        }
        let (a, b) = if a < b && nb.op != Op::Const { (a, b) } else if nb.op == Op::Const { (a, b) } else { (b, a) };
        if w == 1 {
            // a & !a
            let x = self.not1(a);
            if x == b {
                return self.c(0, 1);
            }
        }
        self.raw(Op::And, w, 0, [a, b, 0])
    }
    pub fn or(&mut self, a: E, b: E) -> E {
        let (na, nb) = (self.node(a), self.node(b));
        let w = na.w;
        if na.op == Op::Const && nb.op == Op::Const {
            return self.c(na.k | nb.k, w);
        }
        if a == b {
            return a;
        }
        if na.op == Op::Const {
            return self.or(b, a);
        }
        if nb.op == Op::Const {
            if nb.k == 0 {
                return a;
            }
            if nb.k == mask(w) {
                return b;
            }
        }
        if let Some(r) = self.join_disjoint(a, b) {
            return r;
        }
        if let Some(r) = self.split_concat(Op::Or, a, b) {
            return r;
        }
        if w == 1 {
            let x = self.not1(a);
            if x == b {
                return self.c(1, 1);
            }
        }
        let (a, b) = if nb.op == Op::Const || a < b { (a, b) } else { (b, a) };
        self.raw(Op::Or, w, 0, [a, b, 0])
    }
    /// Bitwise operation on two concatenations with the same split (or one and a constant).
    fn split_concat(&mut self, op: Op, a: E, b: E) -> Option<E> {
        let (na, nb) = (self.node(a), self.node(b));
        let lw = match (na.op, nb.op) {
            (Op::Concat, Op::Concat) if self.w(na.a[1]) == self.w(nb.a[1]) => self.w(na.a[1]),
            (Op::Concat, Op::Const) => self.w(na.a[1]),
            (Op::Const, Op::Concat) => self.w(nb.a[1]),
            _ => return None,
        };
        let w = na.w;
        let (ah, al) = (self.extract(a, lw, w - lw), self.extract(a, 0, lw));
        let (bh, bl) = (self.extract(b, lw, w - lw), self.extract(b, 0, lw));
        let h = self.bin(op, ah, bh);
        let l = self.bin(op, al, bl);
        Some(self.concat(h, l))
    }
    /// If the bits of `a` and `b` that can be set lie in ranges on two sides of a cut, joins them.
    fn join_disjoint(&mut self, a: E, b: E) -> Option<E> {
        let w = self.w(a);
        let (za, zb) = (self.nz[a as usize], self.nz[b as usize]);
        if za & zb != 0 || w < 2 {
            return None;
        }
        if za == 0 {
            return Some(b);
        }
        if zb == 0 {
            return Some(a);
        }
        let (hi, lo, zh, zl) = if za > zb { (a, b, za, zb) } else { (b, a, zb, za) };
        let cut = 128 - zl.leading_zeros();
        if zh & mask(cut) != 0 {
            return None;
        }
        let cut = zh.trailing_zeros().max(cut).min(w - 1);
        let h = self.extract(hi, cut, w - cut);
        let l = self.extract(lo, 0, cut);
        Some(self.concat(h, l))
    }
    pub fn xor(&mut self, a: E, b: E) -> E {
        let (na, nb) = (self.node(a), self.node(b));
        let w = na.w;
        if na.op == Op::Const && nb.op == Op::Const {
            return self.c(na.k ^ nb.k, w);
        }
        if a == b {
            return self.c(0, w);
        }
        if na.op == Op::Const {
            return self.xor(b, a);
        }
        if nb.op == Op::Const {
            if nb.k == 0 {
                return a;
            }
            if w == 1 {
                return self.not1(a);
            }
            if na.op == Op::Xor {
                if let Some(k2) = self.as_const(na.a[1]) {
                    let c = self.c(nb.k ^ k2, w);
                    return self.xor(na.a[0], c);
                }
            }
            return self.raw(Op::Xor, w, 0, [a, b, 0]);
        }
        if let Some(r) = self.join_disjoint(a, b) {
            return r;
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.raw(Op::Xor, w, 0, [a, b, 0])
    }
    pub fn add(&mut self, a: E, b: E) -> E {
        let (na, nb) = (self.node(a), self.node(b));
        let w = na.w;
        if na.op == Op::Const && nb.op == Op::Const {
            return self.c(na.k.wrapping_add(nb.k), w);
        }
        if na.op == Op::Const {
            return self.add(b, a);
        }
        if nb.op == Op::Const {
            if nb.k == 0 {
                return a;
            }
            if na.op == Op::Add {
                if let Some(k2) = self.as_const(na.a[1]) {
                    let c = self.c(nb.k.wrapping_add(k2), w);
                    return self.add(na.a[0], c);
                }
            }
            if w == 1 {
                return self.xor(a, b);
            }
        }
        if let Some(r) = self.join_disjoint(a, b) {
            return r;
        }
        if w == 1 {
            return self.xor(a, b);
        }
        let (a, b) = if nb.op == Op::Const || a < b { (a, b) } else { (b, a) };
        self.raw(Op::Add, w, 0, [a, b, 0])
    }
    pub fn sub(&mut self, a: E, b: E) -> E {
        let (na, nb) = (self.node(a), self.node(b));
        let w = na.w;
        if na.op == Op::Const && nb.op == Op::Const {
            return self.c(na.k.wrapping_sub(nb.k), w);
        }
        if a == b {
            return self.c(0, w);
        }
        if nb.op == Op::Const {
            let c = self.c(0u128.wrapping_sub(nb.k), w);
            return self.add(a, c);
        }
        self.raw(Op::Sub, w, 0, [a, b, 0])
    }
    pub fn mul(&mut self, a: E, b: E) -> E {
        let (na, nb) = (self.node(a), self.node(b));
        let w = na.w;
        if na.op == Op::Const && nb.op == Op::Const {
            return self.c(na.k.wrapping_mul(nb.k), w);
        }
        if na.op == Op::Const {
            return self.mul(b, a);
        }
        if nb.op == Op::Const {
            if nb.k == 0 {
                return b;
            }
            if nb.k == 1 {
                return a;
            }
            if nb.k.is_power_of_two() {
                let s = self.c(nb.k.trailing_zeros() as u128, w);
                return self.shl(a, s);
            }
        }
        let (a, b) = if nb.op == Op::Const || a < b { (a, b) } else { (b, a) };
        self.raw(Op::Mul, w, 0, [a, b, 0])
    }
    pub fn div(&mut self, op: Op, a: E, b: E) -> E {
        let (na, nb) = (self.node(a), self.node(b));
        let w = na.w;
        if na.op == Op::Const && nb.op == Op::Const && nb.k != 0 {
            let v = match op {
                Op::UDiv => na.k / nb.k,
                Op::URem => na.k % nb.k,
                Op::SDiv => sext(na.k, w).wrapping_div(sext(nb.k, w)) as u128,
                _ => sext(na.k, w).wrapping_rem(sext(nb.k, w)) as u128,
            };
            return self.c(v, w);
        }
        if nb.op == Op::Const && nb.k.is_power_of_two() {
            let s = nb.k.trailing_zeros();
            if op == Op::UDiv {
                let s = self.c(s as u128, w);
                return self.lshr(a, s);
            }
            if op == Op::URem {
                let m = self.c(nb.k - 1, w);
                return self.and(a, m);
            }
        }
        self.raw(op, w, 0, [a, b, 0])
    }
    pub fn shl(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(k) = self.as_const(b) {
            if k == 0 {
                return a;
            }
            if k >= w as u128 {
                return self.c(0, w);
            }
            let k = k as u32;
            let x = self.extract(a, 0, w - k);
            let z = self.c(0, k);
            return self.concat(x, z);
        }
        self.raw(Op::Shl, w, 0, [a, b, 0])
    }
    pub fn lshr(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(k) = self.as_const(b) {
            if k == 0 {
                return a;
            }
            if k >= w as u128 {
                return self.c(0, w);
            }
            let k = k as u32;
            let x = self.extract(a, k, w - k);
            return self.zext(x, w);
        }
        self.raw(Op::LShr, w, 0, [a, b, 0])
    }
    pub fn ashr(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(k) = self.as_const(b) {
            if k == 0 {
                return a;
            }
            let k = (k.min(w as u128 - 1)) as u32;
            let x = self.extract(a, k, w - k);
            return self.sext(x, w);
        }
        self.raw(Op::AShr, w, 0, [a, b, 0])
    }
    pub fn eq(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.c(1, 1);
        }
        let (na, nb) = (self.node(a), self.node(b));
        debug_assert_eq!(na.w, nb.w);
        if na.op == Op::Const && nb.op == Op::Const {
            return self.c((na.k == nb.k) as u128, 1);
        }
        if na.op == Op::Const {
            return self.eq(b, a);
        }
        if nb.op == Op::Const {
            if nb.k & !self.nz[a as usize] != 0 {
                return self.c(0, 1);
            }
            if na.w == 1 {
                return if nb.k == 1 { a } else { self.not1(a) };
            }
            match na.op {
                Op::ZExt => {
                    let iw = self.w(na.a[0]);
                    if nb.k > mask(iw) {
                        return self.c(0, 1);
                    }
                    let c = self.c(nb.k, iw);
                    return self.eq(na.a[0], c);
                }
                Op::SExt => {
                    let iw = self.w(na.a[0]);
                    let t = nb.k & mask(iw);
                    if (sext(t, iw) as u128) & mask(na.w) != nb.k {
                        return self.c(0, 1);
                    }
                    let c = self.c(t, iw);
                    return self.eq(na.a[0], c);
                }
                Op::Concat => {
                    let lw = self.w(na.a[1]);
                    let cl = self.c(nb.k & mask(lw), lw);
                    let ch = self.c(nb.k >> lw, na.w - lw);
                    let l = self.eq(na.a[1], cl);
                    let h = self.eq(na.a[0], ch);
                    return self.and(h, l);
                }
                Op::Ite => {
                    if self.as_const(na.a[1]).is_some() || self.as_const(na.a[2]).is_some() {
                        let x = self.eq(na.a[1], b);
                        let y = self.eq(na.a[2], b);
                        return self.ite(na.a[0], x, y);
                    }
                }
                Op::Or if nb.k == 0 => {
                    let x = self.eq(na.a[0], b);
                    let y = self.eq(na.a[1], b);
                    return self.and(x, y);
                }
                Op::Add => {
                    if let Some(k) = self.as_const(na.a[1]) {
                        let c = self.c(nb.k.wrapping_sub(k), na.w);
                        return self.eq(na.a[0], c);
                    }
                }
                Op::Xor => {
                    if let Some(k) = self.as_const(na.a[1]) {
                        let c = self.c(nb.k ^ k, na.w);
                        return self.eq(na.a[0], c);
                    }
                }
                _ => {}
            }
            return self.raw(Op::Eq, 1, 0, [a, b, 0]);
        }
        if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a[0]) == self.w(nb.a[0]) {
            return self.eq(na.a[0], nb.a[0]);
        }
        if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.a[0]) == self.w(nb.a[0]) {
            let l = self.eq(na.a[1], nb.a[1]);
            let h = self.eq(na.a[0], nb.a[0]);
            return self.and(h, l);
        }
        if na.w == 1 {
            let x = self.xor(a, b);
            return self.not1(x);
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.raw(Op::Eq, 1, 0, [a, b, 0])
    }
    pub fn ult(&mut self, a: E, b: E) -> E {
        let (na, nb) = (self.node(a), self.node(b));
        if a == b {
            return self.c(0, 1);
        }
        if na.op == Op::Const && nb.op == Op::Const {
            return self.c((na.k < nb.k) as u128, 1);
        }
        if nb.op == Op::Const {
            if nb.k == 0 {
                return self.c(0, 1);
            }
            if self.nz[a as usize] < nb.k {
                return self.c(1, 1); // a <= nz(a) < k
            }
            if nb.k == 1 {
                let z = self.c(0, na.w);
                return self.eq(a, z);
            }
            if na.op == Op::ZExt {
                let iw = self.w(na.a[0]);
                if nb.k > mask(iw) {
                    return self.c(1, 1);
                }
                let c = self.c(nb.k, iw);
                return self.ult(na.a[0], c);
            }
            if na.op == Op::Concat {
                let lw = self.w(na.a[1]);
                if nb.k >> lw == 0 {
                    let z = self.c(0, na.w - lw);
                    let k = self.c(nb.k, lw);
                    let h = self.eq(na.a[0], z);
                    let l = self.ult(na.a[1], k);
                    return self.and(h, l);
                }
            }
        }
        if na.op == Op::Const {
            if na.k == mask(na.w) {
                return self.c(0, 1);
            }
            if self.nz[b as usize] <= na.k {
                return self.c(0, 1);
            }
            if nb.op == Op::ZExt {
                let iw = self.w(nb.a[0]);
                if na.k >= mask(iw) {
                    return self.c(0, 1);
                }
                let c = self.c(na.k, iw);
                return self.ult(c, nb.a[0]);
            }
            if na.k == 0 {
                let z = self.eq(b, a);
                return self.not1(z);
            }
            if nb.op == Op::Concat {
                let lw = self.w(nb.a[1]);
                if na.k >> lw == 0 {
                    let z = self.c(0, nb.w - lw);
                    let k = self.c(na.k, lw);
                    let h = self.eq(nb.a[0], z);
                    let h = self.not1(h);
                    let l = self.ult(k, nb.a[1]);
                    return self.or(h, l);
                }
            }
        }
        self.raw(Op::Ult, 1, 0, [a, b, 0])
    }
    pub fn ule(&mut self, a: E, b: E) -> E {
        // a <= b  ==  a < b+1 if b is a constant below the maximum;  k <= b  ==  k-1 < b
        let (na, nb) = (self.node(a), self.node(b));
        if a == b {
            return self.c(1, 1);
        }
        if na.op == Op::Const && nb.op == Op::Const {
            return self.c((na.k <= nb.k) as u128, 1);
        }
        if nb.op == Op::Const {
            if nb.k == mask(nb.w) {
                return self.c(1, 1);
            }
            let c = self.c(nb.k + 1, nb.w);
            return self.ult(a, c);
        }
        if na.op == Op::Const {
            if na.k == 0 {
                return self.c(1, 1);
            }
            let c = self.c(na.k - 1, na.w);
            return self.ult(c, b);
        }
        self.raw(Op::Ule, 1, 0, [a, b, 0])
    }
    pub fn slt(&mut self, a: E, b: E) -> E {
        let (na, nb) = (self.node(a), self.node(b));
        let w = na.w;
        if a == b {
            return self.c(0, 1);
        }
        if na.op == Op::Const && nb.op == Op::Const {
            return self.c((sext(na.k, w) < sext(nb.k, w)) as u128, 1);
        }
        // both provably non-negative: unsigned comparison
        let top = 1u128 << (w - 1);
        if w > 1 && self.nz[a as usize] & top == 0 && self.nz[b as usize] & top == 0 {
            return self.ult(a, b);
        }
        if nb.op == Op::Const && nb.k == 0 {
            return self.extract(a, w - 1, 1);
        }
        if w > 1 && nb.op == Op::Const && nb.k & top == 0 {
            let s = self.extract(a, w - 1, 1);
            let u = self.ult(a, b);
            return self.or(s, u);
        }
        if w > 1 && na.op == Op::Const && na.k & top == 0 {
            let s = self.extract(b, w - 1, 1);
            let s = self.not1(s);
            let u = self.ult(a, b);
            return self.and(s, u);
        }
        if na.op == Op::Const && na.k == mask(w) {
            // -1 < b  ==  b >= 0
            let s = self.extract(b, w - 1, 1);
            return self.not1(s);
        }
        self.raw(Op::Slt, 1, 0, [a, b, 0])
    }
    pub fn sle(&mut self, a: E, b: E) -> E {
        let (na, nb) = (self.node(a), self.node(b));
        let w = na.w;
        if a == b {
            return self.c(1, 1);
        }
        if na.op == Op::Const && nb.op == Op::Const {
            return self.c((sext(na.k, w) <= sext(nb.k, w)) as u128, 1);
        }
        let maxs = mask(w) >> 1;
        let mins = 1u128 << (w - 1);
        if nb.op == Op::Const {
            if nb.k == maxs {
                return self.c(1, 1);
            }
            let c = self.c(nb.k.wrapping_add(1), w);
            return self.slt(a, c);
        }
        if na.op == Op::Const {
            if na.k == mins {
                return self.c(1, 1);
            }
            let c = self.c(na.k.wrapping_sub(1), w);
            return self.slt(c, b);
        }
        self.raw(Op::Sle, 1, 0, [a, b, 0])
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(k) = self.as_const(c) {
            return if k == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        let w = self.w(a);
        if w == 1 {
            match (self.as_const(a), self.as_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not1(c),
                (Some(1), None) => return self.or(c, b),
                (Some(0), None) => {
                    let n = self.not1(c);
                    return self.and(n, b);
                }
                (None, Some(0)) => return self.and(c, a),
                (None, Some(1)) => {
                    let n = self.not1(c);
                    return self.or(n, a);
                }
                _ => {}
            }
        }
        let nc = self.node(c);
        if nc.op == Op::Xor && self.as_const(nc.a[0]) == Some(1) {
            return self.ite(nc.a[1], b, a);
        }
        self.raw(Op::Ite, w, 0, [c, a, b])
    }
    pub fn fpop(&mut self, op: Op, w: u32, a: E) -> E {
        let n = self.node(a);
        if n.op == Op::Const {
            let v = eval_fp1(op, w, n.w, n.k);
            return self.c(v, w);
        }
        self.raw(op, w, 0, [a, 0, 0])
    }
    pub fn fcmp(&mut self, code: u128, a: E, b: E) -> E {
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            let r = fcmp_eval(code, self.w(a), x, y);
            return self.c(r as u128, 1);
        }
        self.raw(Op::FCmp, 1, code, [a, b, 0])
    }

    pub fn bin(&mut self, op: Op, a: E, b: E) -> E {
        match op {
            Op::Add => self.add(a, b),
            Op::Sub => self.sub(a, b),
            Op::Mul => self.mul(a, b),
            Op::UDiv | Op::SDiv | Op::URem | Op::SRem => self.div(op, a, b),
            Op::And => self.and(a, b),
            Op::Or => self.or(a, b),
            Op::Xor => self.xor(a, b),
            Op::Shl => self.shl(a, b),
            Op::LShr => self.lshr(a, b),
            Op::AShr => self.ashr(a, b),
            Op::Eq => self.eq(a, b),
            Op::Ult => self.ult(a, b),
            Op::Ule => self.ule(a, b),
            Op::Slt => self.slt(a, b),
            Op::Sle => self.sle(a, b),
            Op::Concat => self.concat(a, b),
            _ => unreachable!(),
        }
    }

    pub fn show(&self, e: E) -> String {
        let n = self.nodes[e as usize];
        match n.op {
            Op::Const => format!("{:#x}:{}", n.k, n.w),
            Op::Sym => format!("b{}", n.k),
            _ => {
                let a: Vec<String> = (0..Self::arity(n.op)).map(|i| self.show(n.a[i])).collect();
                format!("({:?}{}:{} {})", n.op, if n.op == Op::Extract { format!("@{}", n.k) } else { String::new() }, n.w, a.join(" "))
            }
        }
    }
    /// Value of `e` under an assignment of the symbolic bytes.
    pub fn eval(&mut self, e: E, m: &[u8]) -> u128 {
        let mut memo = std::mem::take(&mut self.scratch);
        memo.clear();
        let r = self.eval_in(e, m, &mut memo);
        self.scratch = memo;
        r
    }
    fn eval_in(&self, e: E, m: &[u8], memo: &mut HashMap<E, u128>) -> u128 {
        let n = self.nodes[e as usize];
        match n.op {
            Op::Const => return n.k,
            Op::Sym => return m.get(n.k as usize).copied().unwrap_or(0) as u128,
            _ => {}
        }
        if let Some(v) = memo.get(&e) {
            return *v;
        }
        let r = if n.op == Op::Ite {
            if self.eval_in(n.a[0], m, memo) == 1 {
                self.eval_in(n.a[1], m, memo)
            } else {
                self.eval_in(n.a[2], m, memo)
            }
        } else {
            let na = Self::arity(n.op);
            let x = self.eval_in(n.a[0], m, memo);
            let y = if na > 1 { self.eval_in(n.a[1], m, memo) } else { 0 };
            let (wx, wy) = (self.w(n.a[0]), if na > 1 { self.w(n.a[1]) } else { 0 });
            eval_op(&n, x, y, wx, wy)
        };
        memo.insert(e, r);
        r
    }
    /// For an expression of width 1 over one symbolic byte: the set of byte values that make it true.
    pub fn truth(&mut self, e: E, byte: usize) -> [u64; 4] {
        if let Some(t) = self.tt.get(&e) {
            return **t;
        }
        let mut t = [0u64; 4];
        let mut m = vec![0u8; byte + 1];
        for v in 0..256usize {
            m[byte] = v as u8;
            if self.eval(e, &m) == 1 {
                t[v / 64] |= 1 << (v % 64);
            }
        }
        self.tt.insert(e, Box::new(t));
        t
    }
}

pub fn eval_fp1(op: Op, w: u32, wx: u32, x: u128) -> u128 {
    match op {
        Op::FpTrunc => (f64::from_bits(x as u64) as f32).to_bits() as u128,
        Op::FpExt => (f32::from_bits(x as u32) as f64).to_bits() as u128,
        Op::SiToFp => {
            let v = sext(x, wx);
            if w == 32 {
                (v as f32).to_bits() as u128
            } else {
                (v as f64).to_bits() as u128
            }
        }
        Op::UiToFp => {
            if w == 32 {
                (x as f32).to_bits() as u128
            } else {
                (x as f64).to_bits() as u128
            }
        }
        _ => unreachable!(),
    }
}

pub fn eval_op(n: &Node, x: u128, y: u128, wx: u32, wy: u32) -> u128 {
    let w = n.w;
    let b = |c: bool| c as u128;
    let r = match n.op {
        Op::Concat => (x << wy) | y,
        Op::Extract => x >> n.k,
        Op::Add => x.wrapping_add(y),
        Op::Sub => x.wrapping_sub(y),
        Op::Mul => x.wrapping_mul(y),
        Op::UDiv => {
            if y == 0 {
                mask(w)
            } else {
                x / y
            }
        }
        Op::URem => {
            if y == 0 {
                x
            } else {
                x % y
            }
        }
        Op::SDiv => {
            if y == 0 {
                if sext(x, w) < 0 {
                    1
                } else {
                    mask(w)
                }
            } else {
                sext(x, w).wrapping_div(sext(y, w)) as u128
            }
        }
        Op::SRem => {
            if y == 0 {
                x
            } else {
                sext(x, w).wrapping_rem(sext(y, w)) as u128
            }
        }
        Op::And => x & y,
        Op::Or => x | y,
        Op::Xor => x ^ y,
        Op::Shl => {
            if y >= w as u128 {
                0
            } else {
                x << y
            }
        }
        Op::LShr => {
            if y >= w as u128 {
                0
            } else {
                x >> y
            }
        }
        Op::AShr => (sext(x, w) >> (y.min(w as u128 - 1))) as u128,
        Op::Eq => b(x == y),
        Op::Ult => b(x < y),
        Op::Ule => b(x <= y),
        Op::Slt => b(sext(x, wx) < sext(y, wx)),
        Op::Sle => b(sext(x, wx) <= sext(y, wx)),
        Op::ZExt => x,
        Op::SExt => sext(x, wx) as u128,
        Op::FpTrunc | Op::FpExt | Op::SiToFp | Op::UiToFp => eval_fp1(n.op, w, wx, x),
        Op::FCmp => b(fcmp_eval(n.k, wx, x, y)),
        Op::Const | Op::Sym | Op::Ite => unreachable!(),
    };
    r & mask(w)
}
