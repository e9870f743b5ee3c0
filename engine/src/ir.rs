//! Reader for the textual LLVM IR that rustc emits. Functions are parsed on first use.

use crate::expr::{fcmp_code, mask, Op};
use std::cell::{OnceCell, RefCell};
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Int(u32),
    Ptr,
    F32,
    F64,
    Void,
    Arr(u64, Box<Ty>),
    Struct(Vec<Ty>, bool),
    Vect(u64, Box<Ty>),
}

impl Ty {
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = (*w as u64 + 7) / 8;
                b.next_power_of_two()
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Void => 0,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vect(n, t) => (n * t.bits() as u64 + 7) / 8,
            Ty::Struct(f, packed) => {
                let mut o = 0u64;
                let mut al = 1;
                for t in f {
                    if !*packed {
                        let a = t.align();
                        al = al.max(a);
                        o = (o + a - 1) / a * a;
                    }
                    o += t.size();
                }
                (o + al - 1) / al * al
            }
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => self.size().max(1).min(16),
        }
    }
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            _ => 0,
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0u64;
                for (j, t) in f.iter().enumerate() {
                    if !*packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    if j == i {
                        return o;
                    }
                    o += t.size();
                }
                panic!("field")
            }
            Ty::Arr(_, t) => i as u64 * t.size(),
            Ty::Vect(_, t) => i as u64 * t.size(),
            _ => panic!("field_off of scalar"),
        }
    }
    pub fn field(&self, i: usize) -> &Ty {
        match self {
            Ty::Struct(f, _) => &f[i],
            Ty::Arr(_, t) | Ty::Vect(_, t) => t,
            _ => panic!("field of scalar"),
        }
    }
    pub fn nfields(&self) -> usize {
        match self {
            Ty::Struct(f, _) => f.len(),
            Ty::Arr(n, _) | Ty::Vect(n, _) => *n as usize,
            _ => 0,
        }
    }
    pub fn is_agg(&self) -> bool {
        matches!(self, Ty::Arr(..) | Ty::Struct(..) | Ty::Vect(..))
    }
}

/// A run-time value. Scalars are at most 128 bits; their width comes from the instruction.
#[derive(Clone, Debug, PartialEq)]
pub enum V {
    C(u128),
    E(u32),
    A(Rc<Vec<V>>),
}

#[derive(Clone, Debug)]
pub enum O {
    R(u32),
    K(V),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastK {
    Trunc,
    ZExt,
    SExt,
    Move,
    BitcastVec,
    FpTrunc,
    FpExt,
    SiToFp,
    UiToFp,
    FpToSi,
    FpToUi,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Direct(u32), // function index
    Indirect(O),
}

#[derive(Clone, Debug)]
pub enum I {
    Bin { op: Op, w: u32, d: u32, a: O, b: O },
    ICmp { p: Pred, w: u32, d: u32, a: O, b: O },
    FCmp { code: u128, w: u32, d: u32, a: O, b: O },
    FBin { op: char, w: u32, d: u32, a: O, b: O },
    Cast { k: CastK, from: Ty, to: Ty, d: u32, a: O },
    Select { d: u32, c: O, a: O, b: O, w: u32, ptr: bool },
    Load { d: u32, ty: Ty, p: O },
    Store { ty: Ty, v: O, p: O },
    Alloca { d: u32, size: u64 },
    Gep { d: u32, base: O, off: i64, idx: Vec<(O, u32, i64)> },
    Call { d: Option<u32>, ret: Ty, callee: Callee, args: Vec<(O, Ty)>, normal: Option<u32> },
    Extract { d: u32, a: O, path: Vec<u32> },
    Insert { d: u32, a: O, v: O, path: Vec<u32>, ty: Ty },
    ExtractElem { d: u32, a: O, i: O },
    InsertElem { d: u32, a: O, v: O, i: O, n: usize },
    Shuffle { d: u32, a: O, b: O, n: usize, m: Vec<Option<u32>> },
    AtomicRmw { d: u32, op: String, w: u32, p: O, v: O },
    CmpXchg { d: u32, w: u32, p: O, c: O, n: O },
    Nop,
    Br(u32),
    CondBr { c: O, t: u32, f: u32 },
    Switch { v: O, w: u32, def: u32, cases: Vec<(u128, u32)> },
    Ret(Option<O>),
    Unreachable,
    Unsupported(String),
}

#[derive(Debug)]
pub struct Phi {
    pub d: u32,
    pub inc: Vec<(u32, O)>,
}

#[derive(Debug, Default)]
pub struct Block {
    pub phis: Vec<Phi>,
    pub ins: Vec<I>,
}

#[derive(Debug)]
pub struct Func {
    pub name: String,
    pub nargs: usize,
    pub nregs: usize,
    pub blocks: Vec<Block>,
}

pub struct FuncDecl {
    pub name: String,
    pub body: Option<(usize, usize)>, // byte range of the text from "define" to "}"
    pub parsed: OnceCell<Rc<Func>>,
}

pub struct GlobalDecl {
    pub name: String,
    pub range: (usize, usize), // text after "global"/"constant"
    pub constant: bool,
    pub external: bool,
    pub size: OnceCell<u64>,
    pub init: OnceCell<Rc<Vec<u8>>>,
}

pub struct Module {
    pub text: String,
    pub funcs: Vec<FuncDecl>,
    pub fn_ix: HashMap<String, u32>,
    pub globals: Vec<GlobalDecl>,
    pub gl_ix: HashMap<String, u32>,
    pub extra: RefCell<Vec<String>>, // names of functions referenced but not declared
}

pub const FN_TAG: u64 = 0x7F00_0000_0000_0000;
pub fn gl_addr(i: u32) -> u64 {
    // close enough together for 32-bit differences (relative tables)
    GL_BASE + ((i as u64) << GL_SHIFT)
}
pub const GL_BASE: u64 = 1 << 32;
pub const GL_SHIFT: u32 = 18;
/// The global and offset an address stands for.
pub fn gl_of(addr: u64) -> (u32, usize) {
    (((addr - GL_BASE) >> GL_SHIFT) as u32, (addr & ((1 << GL_SHIFT) - 1)) as usize)
}
pub fn fn_addr(i: u32) -> u64 {
    FN_TAG | ((i as u64) << 4)
}

fn unq(s: &str) -> String {
    let s = &s[1..];
    if s.starts_with('"') {
        s[1..s.len() - 1].to_string()
    } else {
        s.to_string()
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum T<'a> {
    Loc(&'a str),
    Glob(&'a str),
    Word(&'a str),
    Num(&'a str),
    Str(&'a str),
    P(char),
    Meta,
}

pub fn lex(s: &str) -> Vec<T<'_>> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut out = Vec::with_capacity(32);
    let isid = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\n' | b'\r' => i += 1,
            b';' => {
                while i < b.len() && b[i] != b'\n' {
                    i += 1;
                }
            }
            b'%' | b'@' => {
                let st = i;
                i += 1;
                if i < b.len() && b[i] == b'"' {
                    i += 1;
                    while b[i] != b'"' {
                        i += 1;
                    }
                    i += 1;
                } else {
                    while i < b.len() && isid(b[i]) {
                        i += 1;
                    }
                }
                out.push(if c == b'%' { T::Loc(&s[st..i]) } else { T::Glob(&s[st..i]) });
            }
            b'!' => {
                i += 1;
                while i < b.len() && isid(b[i]) {
                    i += 1;
                }
                out.push(T::Meta);
            }
            b'"' => {
                let st = i + 1;
                i += 1;
                while b[i] != b'"' {
                    i += 1;
                }
                out.push(T::Str(&s[st..i]));
                i += 1;
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                let st = i + 2;
                i += 2;
                while b[i] != b'"' {
                    i += 1;
                }
                out.push(T::Str(&s[st..i]));
                i += 1;
            }
            _ if c.is_ascii_digit() || (c == b'-' && i + 1 < b.len() && b[i + 1].is_ascii_digit()) => {
                let st = i;
                i += 1;
                while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'.' || ((b[i] == b'+' || b[i] == b'-') && (b[i-1] == b'e'))) {
                    i += 1;
                }
                out.push(T::Num(&s[st..i]));
            }
            _ if isid(c) => {
                let st = i;
                while i < b.len() && isid(b[i]) {
                    i += 1;
                }
                out.push(T::Word(&s[st..i]));
            }
            b'#' => {
                i += 1;
                while i < b.len() && isid(b[i]) {
                    i += 1;
                }
            }
            _ => {
                out.push(T::P(c as char));
                i += 1;
            }
        }
    }
    out
}

pub fn unescape(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut v = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' {
            if b[i + 1] == b'\\' {
                v.push(b'\\');
                i += 2;
            } else {
                v.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap());
                i += 3;
            }
        } else {
            v.push(b[i]);
            i += 1;
        }
    }
    v
}

struct P<'a, 'm> {
    t: Vec<T<'a>>,
    i: usize,
    m: &'m Module,
    regs: Option<&'m RefCell<HashMap<String, u32>>>,
}

type R<X> = Result<X, String>;

impl<'a, 'm> P<'a, 'm> {
    fn peek(&self) -> Option<&T<'a>> {
        self.t.get(self.i)
    }
    fn next(&mut self) -> R<T<'a>> {
        let r = self.t.get(self.i).cloned().ok_or("end of line")?;
        self.i += 1;
        Ok(r)
    }
    fn is_p(&self, c: char) -> bool {
        self.peek() == Some(&T::P(c))
    }
    fn eat_p(&mut self, c: char) -> bool {
        if self.is_p(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn exp_p(&mut self, c: char) -> R<()> {
        if self.eat_p(c) {
            Ok(())
        } else {
            Err(format!("expected {c} at token {} {:?}", self.i, self.peek()))
        }
    }
    fn eat_w(&mut self, w: &str) -> bool {
        if self.peek() == Some(&T::Word(w)) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn num(&mut self) -> R<u64> {
        match self.next()? {
            T::Num(s) => s.parse::<u64>().map_err(|e| format!("{s}: {e}")),
            x => Err(format!("number expected, got {x:?}")),
        }
    }
    fn skip_parens(&mut self) {
        if self.is_p('(') {
            let mut d = 0;
            while let Some(t) = self.peek() {
                if *t == T::P('(') {
                    d += 1;
                }
                if *t == T::P(')') {
                    d -= 1;
                }
                self.i += 1;
                if d == 0 {
                    break;
                }
            }
        }
    }
    fn ty(&mut self) -> R<Ty> {
        Ok(match self.next()? {
            T::Word("ptr") => {
                if self.eat_w("addrspace") {
                    self.skip_parens();
                }
                Ty::Ptr
            }
            T::Word("float") => Ty::F32,
            T::Word("double") => Ty::F64,
            T::Word("void") => Ty::Void,
            T::Word(w) if w.starts_with('i') && w[1..].bytes().all(|c| c.is_ascii_digit()) && w.len() > 1 => {
                Ty::Int(w[1..].parse().unwrap())
            }
            T::P('[') => {
                let n = self.num()?;
                if !self.eat_w("x") {
                    return Err("x".into());
                }
                let t = self.ty()?;
                self.exp_p(']')?;
                Ty::Arr(n, Box::new(t))
            }
            T::P('<') => {
                if self.eat_p('{') {
                    let f = self.fields()?;
                    self.exp_p('>')?;
                    Ty::Struct(f, true)
                } else {
                    let n = self.num()?;
                    if !self.eat_w("x") {
                        return Err("x".into());
                    }
                    let t = self.ty()?;
                    self.exp_p('>')?;
                    Ty::Vect(n, Box::new(t))
                }
            }
            T::P('{') => Ty::Struct(self.fields()?, false),
            x => return Err(format!("type expected, got {x:?}")),
        })
    }
    fn fields(&mut self) -> R<Vec<Ty>> {
        let mut f = vec![];
        if self.eat_p('}') {
            return Ok(f);
        }
        loop {
            f.push(self.ty()?);
            if self.eat_p('}') {
                return Ok(f);
            }
            self.exp_p(',')?;
        }
    }
    /// Skips parameter / return attributes.
    fn attrs(&mut self) {
        loop {
            match self.peek() {
                Some(T::Word(w)) => {
                    if matches!(
                        *w,
                        "null" | "undef" | "poison" | "true" | "false" | "zeroinitializer" | "getelementptr" | "inttoptr" | "ptrtoint" | "ptrtoaddr"
                            | "trunc" | "sub" | "add" | "bitcast" | "splat" | "ptr" | "void" | "float" | "double" | "none" | "nan" | "inf" | "asm"
                    ) {
                        return;
                    }
                    if w.len() > 1 && w.starts_with('i') && w[1..].bytes().all(|c| c.is_ascii_digit()) {
                        return;
                    }
                    let w = *w;
                    self.i += 1;
                    if w == "align" && matches!(self.peek(), Some(T::Num(_))) {
                        self.i += 1;
                    }
                    self.skip_parens();
                }
                Some(T::Str(_)) if !matches!(self.t.get(self.i + 1), Some(T::P(',')) | Some(T::P(')')) | None) => {
                    self.i += 1;
                    if self.eat_p('=') {
                        self.i += 1;
                    }
                }
                _ => return,
            }
        }
    }
    fn reg(&self, n: &str) -> u32 {
        let mut r = self.regs.expect("register in a constant").borrow_mut();
        let l = r.len() as u32;
        *r.entry(n.to_string()).or_insert(l)
    }
    fn op(&mut self, ty: &Ty) -> R<O> {
        if let Some(T::Loc(n)) = self.peek() {
            let n = *n;
            self.i += 1;
            return Ok(O::R(self.reg(n)));
        }
        Ok(O::K(self.konst(ty)?))
    }
    fn ty_op(&mut self) -> R<(Ty, O)> {
        let t = self.ty()?;
        self.attrs();
        let o = self.op(&t)?;
        Ok((t, o))
    }
    fn zero(ty: &Ty) -> V {
        if ty.is_agg() {
            V::A(Rc::new((0..ty.nfields()).map(|i| Self::zero(ty.field(i))).collect()))
        } else {
            V::C(0)
        }
    }
    fn konst(&mut self, ty: &Ty) -> R<V> {
        Ok(match self.next()? {
            T::Word("null") | T::Word("false") | T::Word("none") => V::C(0),
            T::Word("true") => V::C(1),
            T::Word("zeroinitializer") | T::Word("undef") | T::Word("poison") => Self::zero(ty),
            T::Num(s) => V::C(parse_num(s, ty)?),
            T::Word(s) if s.starts_with("u0x") || s.starts_with("s0x") => {
                V::C(u128::from_str_radix(&s[3..], 16).map_err(|e| e.to_string())? & mask(ty.bits()))
            }
            T::Glob(g) => {
                let n = unq(g);
                V::C(self.m.addr(&n).ok_or_else(|| format!("unknown global {n}"))? as u128)
            }
            T::Word("splat") => {
                self.exp_p('(')?;
                let t = self.ty()?;
                let v = self.konst(&t)?;
                self.exp_p(')')?;
                V::A(Rc::new(vec![v; ty.nfields()]))
            }
            T::Str(s) => V::A(Rc::new(unescape(s).into_iter().map(|b| V::C(b as u128)).collect())),
            T::P('[') => self.agg(']')?,
            T::P('{') => self.agg('}')?,
            T::P('<') => {
                if self.eat_p('{') {
                    let v = self.agg('}')?;
                    self.exp_p('>')?;
                    v
                } else {
                    self.agg('>')?
                }
            }
            T::Word("getelementptr") => {
                while matches!(self.peek(), Some(T::Word("inbounds" | "nuw" | "nusw"))) {
                    self.i += 1;
                }
                if self.eat_w("inrange") {
                    self.skip_parens();
                }
                self.exp_p('(')?;
                let t = self.ty()?;
                self.exp_p(',')?;
                self.ty()?;
                let V::C(base) = self.konst(&Ty::Ptr)? else { return Err("gep base".into()) };
                let mut off = 0i64;
                let mut cur = t;
                let mut first = true;
                while self.eat_p(',') {
                    let it = self.ty()?;
                    let V::C(i) = self.konst(&it)? else { return Err("gep idx".into()) };
                    let i = crate::expr::sext(i, it.bits()) as i64;
                    if first {
                        off += i * cur.size() as i64;
                        first = false;
                    } else {
                        off += cur.field_off(i as usize) as i64;
                        cur = cur.field(i as usize).clone();
                    }
                }
                self.exp_p(')')?;
                V::C((base as u64).wrapping_add(off as u64) as u128)
            }
            T::Word(w @ ("inttoptr" | "ptrtoint" | "ptrtoaddr" | "trunc" | "bitcast")) => {
                let _ = w;
                while matches!(self.peek(), Some(T::Word(_))) && !self.is_p('(') {
                    self.i += 1;
                }
                self.exp_p('(')?;
                let t = self.ty()?;
                let v = self.konst(&t)?;
                if !self.eat_w("to") {
                    return Err("to".into());
                }
                let t2 = self.ty()?;
                self.exp_p(')')?;
                match v {
                    V::C(x) => V::C(x & mask(t2.bits())),
                    _ => return Err("cast of aggregate".into()),
                }
            }
            T::Word(w @ ("sub" | "add")) => {
                while matches!(self.peek(), Some(T::Word("nuw" | "nsw"))) {
                    self.i += 1;
                }
                self.exp_p('(')?;
                let t = self.ty()?;
                let V::C(a) = self.konst(&t)? else { return Err("const".into()) };
                self.exp_p(',')?;
                self.ty()?;
                let V::C(b) = self.konst(&t)? else { return Err("const".into()) };
                self.exp_p(')')?;
                V::C(if w == "sub" { a.wrapping_sub(b) } else { a.wrapping_add(b) } & mask(t.bits()))
            }
            x => return Err(format!("constant expected, got {x:?}")),
        })
    }
    fn agg(&mut self, end: char) -> R<V> {
        let mut v = vec![];
        if self.eat_p(end) {
            return Ok(V::A(Rc::new(v)));
        }
        loop {
            let t = self.ty()?;
            v.push(self.konst(&t)?);
            if self.eat_p(end) {
                return Ok(V::A(Rc::new(v)));
            }
            self.exp_p(',')?;
        }
    }
}

fn parse_num(s: &str, ty: &Ty) -> R<u128> {
    match ty {
        Ty::F32 | Ty::F64 => {
            let f = if let Some(h) = s.strip_prefix("0x") {
                f64::from_bits(u64::from_str_radix(h, 16).map_err(|e| e.to_string())?)
            } else {
                s.parse::<f64>().map_err(|e| e.to_string())?
            };
            Ok(if *ty == Ty::F32 { (f as f32).to_bits() as u128 } else { f.to_bits() as u128 })
        }
        _ => {
            let w = ty.bits();
            if let Some(n) = s.strip_prefix('-') {
                let v: u128 = n.parse().map_err(|_| format!("num {s}"))?;
                Ok(0u128.wrapping_sub(v) & mask(w))
            } else {
                Ok(s.parse::<u128>().map_err(|_| format!("num {s}"))? & mask(w))
            }
        }
    }
}

impl Module {
    pub fn load(text: String) -> Module {
        let mut funcs = vec![];
        let mut globals = vec![];
        let mut fn_ix = HashMap::new();
        let mut gl_ix = HashMap::new();
        let b = text.as_bytes();
        let mut pos = 0;
        while pos < b.len() {
            let end = memnl(b, pos);
            let line = &text[pos..end];
            if line.starts_with("define ") || line.starts_with("declare ") {
                let def = line.starts_with("define ");
                let at = line.find('@').unwrap();
                let rest = &line[at..];
                let name = if rest.as_bytes()[1] == b'"' {
                    let e = rest[2..].find('"').unwrap();
                    rest[2..2 + e].to_string()
                } else {
                    let e = rest.find('(').unwrap();
                    rest[1..e].to_string()
                };
                let mut body = None;
                let mut e = end;
                if def {
                    // to the line that is exactly "}"
                    let mut p = end + 1;
                    loop {
                        let q = memnl(b, p);
                        if q == p + 1 && b[p] == b'}' {
                            body = Some((pos, p));
                            e = q;
                            break;
                        }
                        p = q + 1;
                    }
                }
                fn_ix.insert(name.clone(), funcs.len() as u32);
                funcs.push(FuncDecl { name, body, parsed: OnceCell::new() });
                pos = e + 1;
                continue;
            }
            if line.starts_with('@') {
                let eq = line.find(" = ").unwrap();
                let name = unq(&line[..eq]);
                let rest = &line[eq + 3..];
                // skip to the keyword
                let mut off = 0;
                let mut kind = None;
                for w in rest.split(' ') {
                    if w == "global" || w == "constant" || w == "alias" {
                        kind = Some((w.to_string(), off + w.len() + 1));
                        break;
                    }
                    off += w.len() + 1;
                }
                if let Some((k, o)) = kind {
                    let external = rest[..o].split(' ').any(|w| w == "external" || w == "extern_weak");
                    gl_ix.insert(name.clone(), globals.len() as u32);
                    globals.push(GlobalDecl {
                        name,
                        range: (pos + eq + 3 + o, end),
                        constant: k == "constant",
                        external,
                        size: OnceCell::new(),
                        init: OnceCell::new(),
                    });
                    assert!(k != "alias", "alias not supported");
                }
            }
            pos = end + 1;
        }
        assert!(globals.len() < 8000, "too many globals");
        Module { text, funcs, fn_ix, globals, gl_ix, extra: RefCell::new(vec![]) }
    }
    pub fn addr(&self, n: &str) -> Option<u64> {
        if let Some(i) = self.gl_ix.get(n) {
            return Some(gl_addr(*i));
        }
        self.fn_ix.get(n).map(|i| fn_addr(*i))
    }
    pub fn global_size(&self, i: u32) -> u64 {
        let g = &self.globals[i as usize];
        *g.size.get_or_init(|| {
            let mut p = P { t: lex(&self.text[g.range.0..g.range.1.min(g.range.0 + 4096)]), i: 0, m: self, regs: None };
            p.ty().unwrap_or_else(|e| panic!("global {}: {e}", g.name)).size()
        })
    }
    pub fn global_init(&self, i: u32) -> Rc<Vec<u8>> {
        let g = &self.globals[i as usize];
        g.init
            .get_or_init(|| {
                let mut p = P { t: lex(&self.text[g.range.0..g.range.1]), i: 0, m: self, regs: None };
                let ty = p.ty().unwrap();
                assert!(ty.size() < 1 << GL_SHIFT, "global {} is too large", g.name);
                let mut out = vec![0u8; ty.size() as usize];
                if !g.external {
                    let v = p.konst(&ty).unwrap_or_else(|e| panic!("global {}: {e}", g.name));
                    store_const(&mut out, 0, &ty, &v);
                }
                Rc::new(out)
            })
            .clone()
    }
    pub fn func(&self, i: u32) -> Option<Rc<Func>> {
        let f = &self.funcs[i as usize];
        let (a, b) = f.body?;
        Some(f.parsed.get_or_init(|| Rc::new(self.parse_func(&f.name, &self.text[a..b]))).clone())
    }

    fn parse_func(&self, name: &str, text: &str) -> Func {
        let regs = RefCell::new(HashMap::new());
        let mut lines = text.lines();
        let head = lines.next().unwrap();
        // arguments
        let at = head.find('@').unwrap();
        let mut p = P { t: lex(&head[at..]), i: 1, m: self, regs: Some(&regs) };
        let mut nargs = 0;
        let mut unnamed = 0; // the entry block takes the number after the unnamed arguments
        p.exp_p('(').unwrap();
        if !p.eat_p(')') {
            loop {
                if p.is_p('.') {
                    break;
                }
                p.ty().unwrap_or_else(|e| panic!("{name}: {e}"));
                p.attrs();
                if let Some(T::Loc(n)) = p.peek() {
                    let n = *n;
                    p.reg(n);
                    unnamed += n[1..].bytes().all(|c| c.is_ascii_digit()) as usize;
                } else {
                    p.reg(&format!("%{unnamed}"));
                    unnamed += 1;
                }
                nargs += 1;
                p.i += matches!(p.peek(), Some(T::Loc(_))) as usize;
                if p.eat_p(')') {
                    break;
                }
                p.exp_p(',').unwrap_or_else(|e| panic!("{name}: args {e}"));
            }
        }
        // split in blocks
        let mut names: HashMap<String, u32> = HashMap::new();
        let mut raw: Vec<Vec<String>> = vec![];
        let mut cur: Option<usize> = None;
        let all: Vec<&str> = lines.collect();
        let mut i = 0;
        while i < all.len() {
            let l = all[i];
            i += 1;
            let t = l.trim_start();
            if t.is_empty() || t.starts_with(';') || t.starts_with('#') {
                continue;
            }
            if !l.starts_with(' ') {
                // label
                let e = if l.starts_with('"') { l[1..].find('"').unwrap() + 2 } else { l.find(':').unwrap() };
                let n = l[..e].trim_matches('"').to_string();
                names.insert(n, raw.len() as u32);
                raw.push(vec![]);
                cur = Some(raw.len() - 1);
                continue;
            }
            if cur.is_none() {
                names.insert(unnamed.to_string(), 0);
                raw.push(vec![]);
                cur = Some(0);
            }
            let mut s = t.to_string();
            if s.starts_with("switch ") && !s.contains(']') {
                while !all[i].contains(']') {
                    s.push_str(all[i]);
                    i += 1;
                }
                s.push_str(all[i]);
                i += 1;
            }
            if s.contains("invoke ") && all.get(i).map_or(false, |x| x.trim_start().starts_with("to label")) {
                s.push(' ');
                s.push_str(all[i].trim_start());
                i += 1;
            }
            if s.contains("= landingpad ") {
                while all[i].starts_with("          ") {
                    i += 1;
                }
            }
            raw[cur.unwrap()].push(s);
        }
        let mut blocks = vec![];
        for rb in &raw {
            let mut blk = Block::default();
            for s in rb {
                match self.parse_ins(s, &regs, &names, &mut blk) {
                    Ok(Some(x)) => blk.ins.push(x),
                    Ok(None) => {}
                    Err(e) => blk.ins.push(I::Unsupported(format!("{e}: {}", &s[..s.len().min(200)]))),
                }
            }
            blocks.push(blk);
        }
        let nregs = regs.borrow().len();
        Func { name: name.to_string(), nargs, nregs, blocks }
    }

    fn parse_ins<'m>(
        &'m self,
        s: &str,
        regs: &'m RefCell<HashMap<String, u32>>,
        names: &HashMap<String, u32>,
        blk: &mut Block,
    ) -> R<Option<I>> {
        let toks = lex(s);
        let mut p: P<'_, 'm> = P { t: toks, i: 0, m: self, regs: Some(regs) };
        let mut d = None;
        if let (Some(T::Loc(n)), Some(T::P('='))) = (p.t.first().cloned(), p.t.get(1).cloned()) {
            d = Some(p.reg(n));
            p.i = 2;
        }
        let lab = |n: &str| -> R<u32> { names.get(n[1..].trim_matches('"')).copied().ok_or(format!("label {n}")) };
        while p.eat_w("tail") || p.eat_w("musttail") || p.eat_w("notail") {}
        let T::Word(opn) = p.next()? else { return Err("instruction".into()) };
        let dd = || d.ok_or("no destination".to_string());
        Ok(Some(match opn {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" => {
                let op = match opn {
                    "add" => Op::Add,
                    "sub" => Op::Sub,
                    "mul" => Op::Mul,
                    "udiv" => Op::UDiv,
                    "sdiv" => Op::SDiv,
                    "urem" => Op::URem,
                    "srem" => Op::SRem,
                    "and" => Op::And,
                    "or" => Op::Or,
                    "xor" => Op::Xor,
                    "shl" => Op::Shl,
                    "lshr" => Op::LShr,
                    _ => Op::AShr,
                };
                while p.eat_w("nuw") || p.eat_w("nsw") || p.eat_w("exact") || p.eat_w("disjoint") {}
                let t = p.ty()?;
                let a = p.op(&t)?;
                p.exp_p(',')?;
                let b = p.op(&t)?;
                let w = match &t {
                    Ty::Vect(_, e) => e.bits(),
                    t => t.bits(),
                };
                I::Bin { op, w, d: dd()?, a, b }
            }
            "icmp" => {
                p.eat_w("samesign");
                let T::Word(pr) = p.next()? else { return Err("pred".into()) };
                let pr = match pr {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    _ => return Err("pred".into()),
                };
                let t = p.ty()?;
                let a = p.op(&t)?;
                p.exp_p(',')?;
                let b = p.op(&t)?;
                let w = match &t {
                    Ty::Vect(_, e) => e.bits(),
                    t => t.bits(),
                };
                I::ICmp { p: pr, w, d: dd()?, a, b }
            }
            "fcmp" => {
                while matches!(p.peek(), Some(T::Word("fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc"))) {
                    p.i += 1;
                }
                let T::Word(pr) = p.next()? else { return Err("pred".into()) };
                let t = p.ty()?;
                let a = p.op(&t)?;
                p.exp_p(',')?;
                let b = p.op(&t)?;
                I::FCmp { code: fcmp_code(pr), w: t.bits(), d: dd()?, a, b }
            }
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                let t = p.ty()?;
                let a = p.op(&t)?;
                p.exp_p(',')?;
                let b = p.op(&t)?;
                I::FBin { op: opn.chars().nth(1).unwrap(), w: t.bits(), d: dd()?, a, b }
            }
            "trunc" | "zext" | "sext" | "bitcast" | "ptrtoint" | "ptrtoaddr" | "inttoptr" | "fptrunc" | "fpext" | "sitofp" | "uitofp" | "fptosi"
            | "fptoui" => {
                while p.eat_w("nuw") || p.eat_w("nsw") || p.eat_w("nneg") {}
                let (from, a) = p.ty_op()?;
                if !p.eat_w("to") {
                    return Err("to".into());
                }
                let to = p.ty()?;
                let k = match opn {
                    "trunc" => CastK::Trunc,
                    "zext" => CastK::ZExt,
                    "sext" => CastK::SExt,
                    "fptrunc" => CastK::FpTrunc,
                    "fpext" => CastK::FpExt,
                    "sitofp" => CastK::SiToFp,
                    "uitofp" => CastK::UiToFp,
                    "fptosi" => CastK::FpToSi,
                    "fptoui" => CastK::FpToUi,
                    "bitcast" => {
                        if from.is_agg() || to.is_agg() {
                            CastK::BitcastVec
                        } else {
                            CastK::Move
                        }
                    }
                    _ => {
                        if from.bits() == to.bits() {
                            CastK::Move
                        } else if from.bits() > to.bits() {
                            CastK::Trunc
                        } else {
                            CastK::ZExt
                        }
                    }
                };
                I::Cast { k, from, to, d: dd()?, a }
            }
            "freeze" => {
                let (t, a) = p.ty_op()?;
                I::Cast { k: CastK::Move, from: t.clone(), to: t, d: dd()?, a }
            }
            "select" => {
                let (ct, c) = p.ty_op()?;
                if ct != Ty::Int(1) {
                    return Err("vector select".into());
                }
                p.exp_p(',')?;
                let (t, a) = p.ty_op()?;
                p.exp_p(',')?;
                let (_, b) = p.ty_op()?;
                I::Select { d: dd()?, c, a, b, w: t.bits(), ptr: t == Ty::Ptr || t.is_agg() }
            }
            "load" => {
                p.eat_w("atomic");
                p.eat_w("volatile");
                let ty = p.ty()?;
                p.exp_p(',')?;
                let (_, a) = p.ty_op()?;
                I::Load { d: dd()?, ty, p: a }
            }
            "store" => {
                p.eat_w("atomic");
                p.eat_w("volatile");
                let (ty, v) = p.ty_op()?;
                p.exp_p(',')?;
                let (_, a) = p.ty_op()?;
                I::Store { ty, v, p: a }
            }
            "alloca" => {
                p.eat_w("inalloca");
                let t = p.ty()?;
                let mut n = 1;
                if p.eat_p(',') {
                    if !matches!(p.peek(), Some(T::Word("align"))) {
                        let (_, o) = p.ty_op()?;
                        match o {
                            O::K(V::C(k)) => n = k as u64,
                            _ => return Err("dynamic alloca".into()),
                        }
                    }
                }
                I::Alloca { d: dd()?, size: t.size() * n }
            }
            "getelementptr" => {
                while matches!(p.peek(), Some(T::Word("inbounds" | "nuw" | "nusw"))) {
                    p.i += 1;
                }
                let t = p.ty()?;
                p.exp_p(',')?;
                let (bt, base) = p.ty_op()?;
                if bt != Ty::Ptr {
                    return Err("vector gep".into());
                }
                let mut off = 0i64;
                let mut idx = vec![];
                let mut cur = t;
                let mut first = true;
                while p.eat_p(',') {
                    if p.peek() == Some(&T::Meta) {
                        break;
                    }
                    let (it, o) = p.ty_op()?;
                    let ew = it.bits();
                    match o {
                        O::K(V::C(k)) => {
                            let k = crate::expr::sext(k, ew) as i64;
                            if first {
                                off += k * cur.size() as i64;
                            } else {
                                off += cur.field_off(k as usize) as i64;
                                cur = cur.field(k as usize).clone();
                            }
                        }
                        o => {
                            if first {
                                idx.push((o, ew, cur.size() as i64));
                            } else {
                                let e = cur.field(0).clone();
                                idx.push((o, ew, e.size() as i64));
                                cur = e;
                            }
                        }
                    }
                    first = false;
                }
                I::Gep { d: dd()?, base, off, idx }
            }
            "call" | "invoke" => {
                while matches!(p.peek(), Some(T::Word("fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc"))) {
                    p.i += 1;
                }
                p.attrs();
                let ret = p.ty()?;
                // function type for varargs: i64 (i64, ...) @syscall
                if p.is_p('(') {
                    p.skip_parens();
                }
                let callee = match p.next()? {
                    T::Glob(g) => {
                        let n = unq(g);
                        if n.starts_with("llvm.dbg")
                            || n.starts_with("llvm.lifetime")
                            || n.starts_with("llvm.experimental.noalias")
                            || n.starts_with("llvm.assume")
                            || n.starts_with("llvm.invariant")
                            || n.starts_with("llvm.donothing")
                            || n.starts_with("llvm.prefetch")
                        {
                            return Ok(None);
                        }
                        Callee::Direct(*self.fn_ix.get(&n).ok_or(format!("function {n}"))?)
                    }
                    T::Loc(n) => Callee::Indirect(O::R(p.reg(n))),
                    T::Word("asm") => {
                        if s.contains("asm sideeffect \"\"") {
                            // an optimisation barrier (core::hint::black_box)
                            return Ok(None);
                        }
                        return Err("inline asm".into());
                    }
                    x => return Err(format!("callee {x:?}")),
                };
                let mut args = vec![];
                p.exp_p('(')?;
                if !p.eat_p(')') {
                    loop {
                        if p.eat_w("metadata") {
                            p.next()?;
                        } else {
                            let (t, o) = p.ty_op()?;
                            args.push((o, t));
                        }
                        if p.eat_p(')') {
                            break;
                        }
                        p.exp_p(',')?;
                    }
                }
                let mut normal = None;
                if opn == "invoke" {
                    while !p.eat_w("to") {
                        p.next()?;
                    }
                    p.next()?; // label
                    let T::Loc(n) = p.next()? else { return Err("label".into()) };
                    normal = Some(lab(n)?);
                }
                I::Call { d, ret, callee, args, normal }
            }
            "extractvalue" => {
                let (_, a) = p.ty_op()?;
                let mut path = vec![];
                while p.eat_p(',') {
                    if p.peek() == Some(&T::Meta) {
                        break;
                    }
                    path.push(p.num()? as u32);
                }
                I::Extract { d: dd()?, a, path }
            }
            "insertvalue" => {
                let (ty, a) = p.ty_op()?;
                p.exp_p(',')?;
                let (_, v) = p.ty_op()?;
                let mut path = vec![];
                while p.eat_p(',') {
                    if p.peek() == Some(&T::Meta) {
                        break;
                    }
                    path.push(p.num()? as u32);
                }
                I::Insert { d: dd()?, a, v, path, ty }
            }
            "extractelement" => {
                let (_, a) = p.ty_op()?;
                p.exp_p(',')?;
                let (_, i) = p.ty_op()?;
                I::ExtractElem { d: dd()?, a, i }
            }
            "insertelement" => {
                let (t, a) = p.ty_op()?;
                p.exp_p(',')?;
                let (_, v) = p.ty_op()?;
                p.exp_p(',')?;
                let (_, i) = p.ty_op()?;
                I::InsertElem { d: dd()?, a, v, i, n: t.nfields() }
            }
            "shufflevector" => {
                let (t, a) = p.ty_op()?;
                p.exp_p(',')?;
                let (_, b) = p.ty_op()?;
                p.exp_p(',')?;
                let mt = p.ty()?;
                let V::A(mv) = p.konst(&mt)? else { return Err("mask".into()) };
                let m = mv.iter().map(|x| if let V::C(k) = x { Some(*k as u32) } else { None }).collect();
                I::Shuffle { d: dd()?, a, b, n: t.nfields(), m }
            }
            "atomicrmw" => {
                p.eat_w("volatile");
                let T::Word(op) = p.next()? else { return Err("rmw op".into()) };
                let op = op.to_string();
                let (_, a) = p.ty_op()?;
                p.exp_p(',')?;
                let (t, v) = p.ty_op()?;
                I::AtomicRmw { d: dd()?, op, w: t.bits(), p: a, v }
            }
            "cmpxchg" => {
                p.eat_w("weak");
                p.eat_w("volatile");
                let (_, a) = p.ty_op()?;
                p.exp_p(',')?;
                let (t, c) = p.ty_op()?;
                p.exp_p(',')?;
                let (_, n) = p.ty_op()?;
                I::CmpXchg { d: dd()?, w: t.bits(), p: a, c, n }
            }
            "fence" => I::Nop,
            "phi" => {
                while matches!(p.peek(), Some(T::Word("fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc"))) {
                    p.i += 1;
                }
                let t = p.ty()?;
                let mut inc = vec![];
                loop {
                    p.exp_p('[')?;
                    let o = p.op(&t)?;
                    p.exp_p(',')?;
                    let T::Loc(n) = p.next()? else { return Err("phi label".into()) };
                    inc.push((lab(n)?, o));
                    p.exp_p(']')?;
                    if !p.eat_p(',') || p.peek() == Some(&T::Meta) {
                        break;
                    }
                }
                blk.phis.push(Phi { d: dd()?, inc });
                return Ok(None);
            }
            "br" => {
                if p.eat_w("label") {
                    let T::Loc(n) = p.next()? else { return Err("label".into()) };
                    I::Br(lab(n)?)
                } else {
                    let (_, c) = p.ty_op()?;
                    p.exp_p(',')?;
                    p.next()?;
                    let T::Loc(t) = p.next()? else { return Err("label".into()) };
                    p.exp_p(',')?;
                    p.next()?;
                    let T::Loc(f) = p.next()? else { return Err("label".into()) };
                    I::CondBr { c, t: lab(t)?, f: lab(f)? }
                }
            }
            "switch" => {
                let (t, v) = p.ty_op()?;
                p.exp_p(',')?;
                p.next()?;
                let T::Loc(dl) = p.next()? else { return Err("label".into()) };
                let def = lab(dl)?;
                p.exp_p('[')?;
                let mut cases = vec![];
                while !p.eat_p(']') {
                    let ct = p.ty()?;
                    let V::C(k) = p.konst(&ct)? else { return Err("case".into()) };
                    p.exp_p(',')?;
                    p.next()?;
                    let T::Loc(l) = p.next()? else { return Err("label".into()) };
                    cases.push((k, lab(l)?));
                }
                I::Switch { v, w: t.bits(), def, cases }
            }
            "ret" => {
                if p.eat_w("void") {
                    I::Ret(None)
                } else {
                    let (_, o) = p.ty_op()?;
                    I::Ret(Some(o))
                }
            }
            "unreachable" => I::Unreachable,
            "resume" | "landingpad" => I::Unsupported(opn.to_string()),
            _ => return Err(format!("instruction {opn}")),
        }))
    }
}

fn store_const(out: &mut [u8], off: usize, ty: &Ty, v: &V) {
    match v {
        V::C(x) => {
            let n = ty.size() as usize;
            for i in 0..n {
                out[off + i] = if i < 16 { (x >> (8 * i)) as u8 } else { 0 };
            }
        }
        V::A(vs) => {
            for (i, x) in vs.iter().enumerate() {
                store_const(out, off + ty.field_off(i) as usize, ty.field(i), x);
            }
        }
        V::E(_) => unreachable!(),
    }
}

fn memnl(b: &[u8], mut p: usize) -> usize {
    while p < b.len() && b[p] != b'\n' {
        p += 1;
    }
    p
}
